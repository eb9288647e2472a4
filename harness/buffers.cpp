// C01: -DELEM=int|double|std::string|std::uint8_t|uint64 ; -DKIND=0 buffer, 1 adaptor over a byte buffer, 2 u8_buffer
#include "paths.hpp"
#include "seq.hpp"
#include <list>
#include <map>
#include <memory_resource>
#include <sstream>
#include "sparrow/buffer/buffer.hpp"
#include "sparrow/buffer/buffer_adaptor.hpp"
#include "sparrow/buffer/buffer_view.hpp"
#include "sparrow/buffer/u8_buffer.hpp"

using namespace h;
using T = ELEM;

template <class V>
V enc(int i)
{
    if constexpr (std::is_same_v<V, std::string>)
        return i == 0 ? std::string() : std::string(std::size_t(i % 2 ? 1 : 40), char('a' + i));
    else if constexpr (std::is_floating_point_v<V>) return V(i * 1.25e30);
    else return V(std::uint64_t(i) * 0x9E3779B97F4A7C15ull);
}
template <class V>
int dec(const V& v)
{
    for (int i = 0; i < 12; ++i)
        if (enc<V>(i) == v) return i;
    return BAD;
}

#if KIND == 3
// Memory comes from allocators of the caller, which keep account of it.
struct Account
{
    std::map<void*, std::size_t> live;      // bytes
    strs wrong;
    void* take(std::size_t bytes)
    {
        void* p = ::operator new(bytes ? bytes : 1);
        live[p] = bytes;
        return p;
    }
    void give(void* p, std::size_t bytes)
    {
        auto it = live.find(p);
        if (it == live.end()) { wrong.push_back(p ? "memory given back to an allocator it is not from" : "no memory given back"); return; }
        if (it->second != bytes) wrong.push_back("memory given back with another size");
        ::operator delete(p);
        live.erase(it);
    }
};
static Account account[3];
template <class V>
struct Counted
{
    using value_type = V;
    Account* at;
    V* allocate(std::size_t n) { return static_cast<V*>(at->take(n * sizeof(V))); }
    void deallocate(V* p, std::size_t n) { at->give(p, n * sizeof(V)); }
    bool operator==(const Counted&) const = default;
};
struct Resource : std::pmr::memory_resource
{
    Account* at = &account[2];
    void* do_allocate(std::size_t bytes, std::size_t) override { return at->take(bytes); }
    void do_deallocate(void* p, std::size_t bytes, std::size_t) override { at->give(p, bytes); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Resource resource;
// which allocator an object made by some route has
static int whose(int route) { return route % 4; }
template <class Fn>
static auto with_allocator(int route, Fn f)
{
    switch (whose(route))
    {
        case 0: return f(Counted<T>{&account[0]});
        case 1: return f(Counted<T>{&account[1]});
        case 2: return f(std::pmr::polymorphic_allocator<T>(&resource));
        default: return f(std::allocator<T>());
    }
}
#endif
#if KIND == 0 || KIND == 3
using Obj = sparrow::buffer<T>;
using Seq = Obj;
static Seq& S(Obj& o) { return o; }
static const Seq& S(const Obj& o) { return o; }
#elif KIND == 1
struct Obj
{
    sparrow::buffer<std::uint8_t> store;
    sparrow::buffer_adaptor<T, sparrow::buffer<std::uint8_t>&> ad{store};
};
using Seq = sparrow::buffer_adaptor<T, sparrow::buffer<std::uint8_t>&>;
static Seq& S(Obj& o) { return o.ad; }
static const Seq& S(const Obj& o) { return o.ad; }
#else
using Obj = sparrow::u8_buffer<T>;
using Seq = Obj;
static Seq& S(Obj& o) { return o; }
static const Seq& S(const Obj& o) { return o; }
#endif

static std::vector<T> vals(const ints& s)
{
    std::vector<T> v;
    for (int i : s) v.push_back(enc<T>(i));
    return v;
}

struct F
{
    using O = Obj;
    using CI = Seq::const_iterator;

    static std::unique_ptr<O> make(const ints& s, int route)
    {
        auto v = vals(s);
        std::unique_ptr<O> o;
#if KIND == 3
        o = with_allocator(route, [&](auto al) -> std::unique_ptr<O>
        {
            std::unique_ptr<O> o;
            switch (route / 4 % 8)
            {
                case 1:
                    o = std::make_unique<O>(al);
                    for (auto& e : v) o->push_back(e);
                    return o;
                case 2: return std::make_unique<O>(v.begin(), v.end(), al);
                case 3:
                    o = std::make_unique<O>(v.size(), al);
                    for (std::size_t i = 0; i < v.size(); ++i) (*o)[i] = v[i];
                    return o;
                case 4:
                    o = std::make_unique<O>(v.size(), enc<T>(1), al);
                    std::copy(v.begin(), v.end(), o->begin());
                    return o;
                case 5:
                {
                    if (v.empty()) return std::make_unique<O>(nullptr, std::size_t(0), al);
                    T* p = al.allocate(v.size());
                    std::uninitialized_copy(v.begin(), v.end(), p);
                    return std::make_unique<O>(p, v.size(), al);
                }
                case 6: return std::make_unique<O>(O(v), al);                            // moved from another allocator, elementwise
                case 7: { const O tmp(v, Counted<T>{&account[1]}); return std::make_unique<O>(tmp, al); }
                default:
                    if (v.size() == 2) return std::make_unique<O>(std::initializer_list<T>{v[0], v[1]}, al);
                    if (v.size() == 1) return std::make_unique<O>(O(v, al), al);           // moved, same allocator
                    return std::make_unique<O>(v, al);
            }
        });
#elif KIND == 0
        switch (route)
        {
            case 1:
                o = std::make_unique<O>();
                for (auto& e : v) o->push_back(e);
                break;
            case 2: o = std::make_unique<O>(v.begin(), v.end()); break;
            case 3:
                o = std::make_unique<O>(v.size());
                for (std::size_t i = 0; i < v.size(); ++i) (*o)[i] = v[i];
                break;
            case 4:
                o = std::make_unique<O>(v.size(), enc<T>(1));
                std::copy(v.begin(), v.end(), o->begin());
                break;
            case 5:
                if (v.empty()) { o = std::make_unique<O>(); o->reserve(7); break; }
                {
                    T* p = std::allocator<T>().allocate(v.size());
                    std::uninitialized_copy(v.begin(), v.end(), p);
                    o = std::make_unique<O>(p, v.size());
                }
                break;
            case 6:
                o = std::make_unique<O>();
                *o = O(v);
                o->reserve(v.size() + 9);
                break;
            case 7: { O tmp(v); tmp.push_back(enc<T>(2)); tmp.pop_back(); o = std::make_unique<O>(tmp); break; }
            default: o = std::make_unique<O>(v);
        }
#elif KIND == 1
        o = std::make_unique<O>();
        if (route % 2) { o->store.resize(v.size() * sizeof(T)); std::copy(v.begin(), v.end(), o->ad.begin()); }
        else for (auto& e : v) o->ad.push_back(e);
        if (route > 3) o->ad.reserve(v.size() + 5);
#else
        switch (route)
        {
            case 1:
                o = std::make_unique<O>(std::size_t(0));
                for (auto& e : v) o->push_back(e);
                break;
            case 2:
                o = std::make_unique<O>(v.size(), enc<T>(1));
                std::copy(v.begin(), v.end(), o->begin());
                break;
            case 3:
                o = v.size() == 2 ? std::make_unique<O>(std::initializer_list<T>{v[0], v[1]}) : std::make_unique<O>(v);
                break;
            case 4: { O tmp(v); o = std::make_unique<O>(tmp); break; }
            case 5: { O tmp(v); o = std::make_unique<O>(std::move(tmp)); break; }
            default: o = std::make_unique<O>(v);
        }
#endif
        return o;
    }

    static std::size_t size(const O& o) { return S(o).size(); }
    static int get(const O& o, std::size_t i) { return dec(S(o)[i]); }
    static int nulls(const O&) { return -1; }
    static auto begin(O& o) { return S(o).begin(); }
    static CI at(O& o, int p) { return S(o).cbegin() + p; }

    static void push(O& o, int v, int w)
    {
        const T e = enc<T>(v);
        if (w % 2) S(o).push_back(enc<T>(v)); else S(o).push_back(e);
    }
    static void pushSelf(O& o, std::size_t i, int w)
    {
        if (w % 2) S(o).push_back(std::as_const(S(o))[i]); else S(o).push_back(S(o)[i]);
    }
    static void pop(O& o) { S(o).pop_back(); }
    static auto erase(O& o, CI p) { return S(o).erase(p); }
    static auto erase(O& o, CI p, CI q) { return S(o).erase(p, q); }
    static auto ins(O& o, CI p, int v, int w)
    {
        const T e = enc<T>(v);
        return w % 2 ? S(o).insert(p, enc<T>(v)) : S(o).insert(p, e);
    }
    static auto insSelf(O& o, CI p, std::size_t i, int w)
    {
        return w % 2 ? S(o).emplace(p, std::as_const(S(o))[i]) : S(o).insert(p, std::as_const(S(o))[i]);
    }
    static auto emplace(O& o, CI p, int v) { return S(o).emplace(p, enc<T>(v)); }
    static auto insN(O& o, CI p, std::size_t n, int v, int) { return S(o).insert(p, n, enc<T>(v)); }
    static auto insNSelf(O& o, CI p, std::size_t i, std::size_t n) { return S(o).insert(p, i, S(o)[n]); }
    static auto insR(O& o, CI p, const ints& t, int w)
    {
        auto v = vals(t);
        if (w % 4 == 1) { std::list<T> l(v.begin(), v.end()); return S(o).insert(p, l.begin(), l.end()); }
#if KIND == 0 || KIND == 3
        if (w % 4 == 2) return S(o).insert(p, v);
        if (w % 4 == 3) { sparrow::buffer<T> l(v); return S(o).insert(p, l.cbegin(), l.cend()); }
#endif
        if (v.size() % 2) return S(o).insert(p, std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
        return S(o).insert(p, v.begin(), v.end());
    }
    static auto insL(O& o, CI p, const ints& t)
    {
        auto v = vals(t);
        switch (v.size())
        {
            case 0: return S(o).insert(p, std::initializer_list<T>{});
            case 1: return S(o).insert(p, {v[0]});
            case 2: return S(o).insert(p, {v[0], v[1]});
            default: return S(o).insert(p, {v[0], v[1], v[2]});
        }
    }
    static auto insB(O& o, CI p, const O& b, int) { return S(o).insert(p, S(b).cbegin(), S(b).cend()); }
    static void res(O& o, std::size_t n) { S(o).resize(n); }
    static void resV(O& o, std::size_t n, int v, int) { S(o).resize(n, enc<T>(v)); }
    static void resVSelf(O& o, std::size_t n, std::size_t i) { S(o).resize(n, S(o)[i]); }
    static void clear(O& o) { S(o).clear(); }
    static void reserve(O& o, std::size_t n)
    {
        S(o).reserve(n);
        if (S(o).capacity() < n) std::abort();
    }
    static void shrink(O& o) { S(o).shrink_to_fit(); }
    static void set(O& o, std::size_t i, int v, int w)
    {
        auto& s = S(o);
        switch (w)
        {
            case 0: s[i] = enc<T>(v); break;
            case 1:
                if (i == 0) s.front() = enc<T>(v);
                else if (i + 1 == s.size()) s.back() = enc<T>(v);
                else s.data()[i] = enc<T>(v);
                break;
            default:
                if (i % 2) *(s.begin() + int(i)) = enc<T>(v);
                else *(s.rbegin() + int(s.size() - 1 - i)) = enc<T>(v);
        }
    }
#if KIND == 0 || KIND == 3
    static void asgL(O& o, const ints& t)
    {
        auto v = vals(t);
        switch (v.size())
        {
            case 0: o = std::initializer_list<T>{}; break;
            case 1: o = {v[0]}; break;
            case 2: o = {v[0], v[1]}; break;
            default: o = {v[0], v[1], v[2]};
        }
    }
    static std::unique_ptr<O> copyNew(const O& o) { return std::make_unique<O>(o); }
    static std::unique_ptr<O> moveNew(O& o) { return std::make_unique<O>(std::move(o)); }
    static void copyTo(std::unique_ptr<O>& a, std::unique_ptr<O>& b) { *b = *a; }
    static void moveTo(std::unique_ptr<O>& a, std::unique_ptr<O>& b) { *b = std::move(*a); }
    static void selfAsg(O& o) { auto& r = o; r = o; }
  #if KIND == 3
    // buffers with different allocators cannot exchange their memory
    static void swap(O& o, O& b, int) { O t(std::move(o)); o = std::move(b); b = std::move(t); }
  #else
    static void swap(O& o, O& b, int w) { if (w % 2) { using std::swap; swap(o, b); } else o.swap(b); }
  #endif
    static bool equal(const O& x, const O& y) { return x == y; }
#else
  #if KIND == 1
    static std::unique_ptr<O> copyNew(const O& o)
    {
        auto r = std::make_unique<O>();
        r->store = o.store;
        return r;
    }
    static std::unique_ptr<O> moveNew(O& o)
    {
        auto r = std::make_unique<O>();
        r->store = std::move(o.store);
        return r;
    }
    static void copyTo(std::unique_ptr<O>& a, std::unique_ptr<O>& b) { b->store = a->store; }
    static void moveTo(std::unique_ptr<O>& a, std::unique_ptr<O>& b) { b->store = std::move(a->store); }
    static void swap(O& o, O& b, int) { o.store.swap(b.store); }
  #else
    static std::unique_ptr<O> copyNew(const O& o) { return std::make_unique<O>(o); }
    static std::unique_ptr<O> moveNew(O& o) { return std::make_unique<O>(std::move(o)); }
    static void copyTo(std::unique_ptr<O>& a, std::unique_ptr<O>& b) { b = std::make_unique<O>(*a); }
    static void moveTo(std::unique_ptr<O>& a, std::unique_ptr<O>& b) { b = std::make_unique<O>(std::move(*a)); }
  #endif
    static void selfAsg(O&) {}
    static bool equal(const O& x, const O& y) { return std::equal(S(x).begin(), S(x).end(), S(y).begin(), S(y).end()); }
#endif

    static void dis(const O& co, const ints& want, strs& out)
    {
        auto& o = S(const_cast<O&>(co));
        const auto& c = S(co);
        auto d = [](const T& v) { return dec<T>(v); };
        ints rev(want.rbegin(), want.rend());
        walk("const iterator", c.begin(), c.end(), want, d, out);
        walk("c iterator", o.cbegin(), o.cend(), want, d, out);
        walk("iterator", o.begin(), o.end(), want, d, out);
        walk("reverse", o.rbegin(), o.rend(), rev, d, out);
        walk("const reverse", c.rbegin(), c.rend(), rev, d, out);
        walk("c reverse", c.crbegin(), c.crend(), rev, d, out);
        if (c.empty() != want.empty()) out.push_back("empty");
        if (c.capacity() < c.size()) out.push_back("capacity");
        if (c.max_size() < c.capacity()) out.push_back("max_size");
#if KIND == 3
        for (Account& x : account)
        {
            out.insert(out.end(), x.wrong.begin(), x.wrong.end());
            x.wrong.clear();
        }
        // there are two buffers
        if (account[0].live.size() + account[1].live.size() + account[2].live.size() > 2) out.push_back("memory left over");
#endif
        for (std::size_t i = 0; i < want.size(); ++i)
        {
            if (dec(o[i]) != want[i]) out.push_back("mutable []");
            if (dec(o.data()[i]) != want[i]) out.push_back("data");
            if (dec(c.data()[i]) != want[i]) out.push_back("const data");
        }
        if (!want.empty())
        {
            if (dec(o.front()) != want.front() || dec(c.front()) != want.front()) out.push_back("front");
            if (dec(o.back()) != want.back() || dec(c.back()) != want.back()) out.push_back("back");
        }
#if KIND == 0
        sparrow::buffer_view<const T> v(c);
        walk("view", v.begin(), v.end(), want, d, out);
        sparrow::buffer_view<T> m(o);
        const sparrow::buffer_view<T> cm(m);
        walk("mutable view", m.begin(), m.end(), want, d, out);
        walk("mutable view of a constant", cm.begin(), cm.end(), want, d, out);
        walk("view reverse", m.rbegin(), m.rend(), rev, d, out);
        walk("view const reverse", cm.rbegin(), cm.rend(), rev, d, out);
        walk("view c reverse", cm.crbegin(), cm.crend(), rev, d, out);
        if (m.size() != want.size() || m.empty() != want.empty() || m.max_size() < m.size()) out.push_back("view size");
        if (!want.empty() && (dec(cm.front()) != want.front() || dec(cm.back()) != want.back() || dec(m.front()) != want.front() || dec(m.back()) != want.back()))
            out.push_back("view front, back");
#endif
#if KIND == 1
        const sparrow::buffer<std::uint8_t>& cs = co.store;
        const sparrow::buffer_adaptor<const T, const sparrow::buffer<std::uint8_t>&> ro(cs);
        walk("read-only adaptor", ro.begin(), ro.end(), want, d, out);
        walk("read-only adaptor c", ro.cbegin(), ro.cend(), want, d, out);
        walk("read-only adaptor reverse", ro.rbegin(), ro.rend(), rev, d, out);
        if (ro.size() != want.size() || ro.empty() != want.empty()) out.push_back("read-only adaptor size");
        for (std::size_t i = 0; i < want.size(); ++i)
            if (dec(ro[i]) != want[i] || dec(ro.data()[i]) != want[i]) out.push_back("read-only adaptor []");
        if (!want.empty() && (dec(ro.front()) != want.front() || dec(ro.back()) != want.back())) out.push_back("read-only adaptor ends");
        if (co.store.size() != want.size() * sizeof(T)) out.push_back("size of the adapted buffer");
#endif
    }
};

int main(int argc, char** argv)
{
    return seq_main(argc, argv, [] { return std::make_unique<Machine<F>>(); });
}
