// C03: views over memory that belongs to somebody else.
#include "paths.hpp"
#include <list>
#include "sparrow/array.hpp"
#include "sparrow/buffer/buffer.hpp"
#include "sparrow/buffer/buffer_view.hpp"
#include "sparrow/buffer/dynamic_bitset/dynamic_bitset_view.hpp"
#include "sparrow/buffer/dynamic_bitset/non_owning_dynamic_bitset.hpp"
#include "sparrow/layout/array_access.hpp"
#include "sparrow/layout/primitive_array.hpp"
using namespace h;
using namespace sparrow;

static int released = 0;
static void rel_a(ArrowArray* a) { a->release = nullptr; ++released; }
static void rel_s(ArrowSchema* s) { s->release = nullptr; ++released; }

template <class Block, class T>
struct M
{
    using BV = dynamic_bitset_view<Block>;
    using NO = non_owning_dynamic_bitset<Block>;
    using UV = buffer_view<T>;
    using AR = primitive_array<T>;
    static constexpr std::size_t G = 16;

    struct Lent
    {
        ArrowArray a{}, a0{};
        ArrowSchema s{}, s0{};
        const void* bufs[2]{};
        const void* bufs0[2]{};
        std::string fmt{data_type_format_of<T>()};
        bool same() const
        {
            return std::memcmp(&a, &a0, sizeof a) == 0 && std::memcmp(&s, &s0, sizeof s) == 0 && bufs[0] == bufs0[0] && bufs[1] == bufs0[1]
                   && fmt == data_type_format_of<T>();
        }
    };
    struct V
    {
        int k = 0;
        bool stale = false;
        std::unique_ptr<BV> b;
        std::unique_ptr<NO> o;
        std::unique_ptr<UV> u;
        std::unique_ptr<AR> a;
    };

    std::size_t nb, nv;
    buffer<Block> bits;
    std::vector<T> vals;
    std::vector<std::uint8_t> bguard;
    V w[2];
    std::list<Lent> lent;
    strs agree;

    M(int nb_, int nv_)
        : nb(std::size_t(nb_)), nv(std::size_t(nv_)), bits((nb + 63) / 64 * 8 / sizeof(Block) + G), vals(nv + 2 * G)
    {
        for (std::size_t i = 0; i < vals.size(); ++i) vals[i] = enc(int(7 + i));
    }
    static T enc(int x)
    {
        if constexpr (std::is_floating_point_v<T>) return T(x * -1.25e30 + 0.5);
        else if (x == 1) return T(~std::uint64_t(0));
        else return T(std::uint64_t(x) * 0x9E3779B97F4A7C15ull);
    }
    static int dec(T v)
    {
        for (int i = 0; i < 10; ++i) if (enc(i) == v) return i;
        return 99;
    }
    template <class N>
    static int decn(const N& e) { return e.has_value() ? dec(e.get()) : -1; }
    std::uint8_t* bytes() { return reinterpret_cast<std::uint8_t*>(bits.data()); }
    std::size_t nbytes() const { return bits.size() * sizeof(Block); }
    bool inside(std::size_t bit) const { return bit < nb; }
    int bit(std::size_t i) { return (bytes()[i / 8] >> (i % 8)) & 1; }
    void put(std::size_t i, int v)
    {
        auto& b = bytes()[i / 8];
        b = std::uint8_t(v ? b | (1u << (i % 8)) : b & ~(1u << (i % 8)));
    }
    bool guards()
    {
        bool ok = true;
        for (std::size_t i = nb; i < nbytes() * 8; ++i) ok = ok && bit(i) == int((i * 5 / 3) % 2);
        for (std::size_t i = 0; i < vals.size(); ++i)
            if (i < G || i >= G + nv) ok = ok && vals[i] == enc(int(7 + i));
        return ok;
    }
    void clear() { for (V& v : w) v = V{}; lent.clear(); }
    AR* lend(int k, std::size_t at, std::size_t n, int var)
    {
        lent.emplace_back();
        Lent& l = lent.back();
        l.bufs[0] = k == 3 ? bytes() : nullptr;
        l.bufs[1] = vals.data() + G;
        std::int64_t nulls = 0;
        if (k == 3) for (std::size_t i = at; i < at + n; ++i) nulls += bit(i) == 0;
        l.a.length = std::int64_t(n);
        l.a.null_count = var % 3 == 0 ? -1 : nulls;
        l.a.offset = std::int64_t(at);
        l.a.n_buffers = 2;
        l.a.buffers = l.bufs;
        l.a.release = rel_a;
        l.a.private_data = &l;
        l.s.format = l.fmt.c_str();
        l.s.flags = 2;
        l.s.release = rel_s;
        l.a0 = l.a;
        l.s0 = l.s;
        std::memcpy(l.bufs0, l.bufs, sizeof l.bufs);
        return new AR(arrow_proxy(&l.a, &l.s));
    }
    V make(int k, int at, int n, int nc, int var)
    {
        V v;
        v.k = k;
        Block* p = bits.data() + std::size_t(at) * 8 / sizeof(Block);
        const auto len = std::size_t(n);
        if (k == 1) v.b = nc < 0 ? std::make_unique<BV>(p, len) : std::make_unique<BV>(p, len, std::size_t(nc));
        else if (k == 7) v.o = std::make_unique<NO>(&bits, len);
        else if (k == 2)
        {
            T* q = vals.data() + G + at;
            if (var % 3 == 0) v.u = std::make_unique<UV>(q, len);
            else if (var % 3 == 1) v.u = std::make_unique<UV>(q, q + n);
            else v.u = std::make_unique<UV>(UV(vals.data() + G, nv).subrange(std::size_t(at), len));
        }
        else v.a.reset(lend(k, std::size_t(at), len, var));
        return v;
    }
    // an array that owns its elements
    V own(int k, const ints& e)
    {
        V v;
        v.k = k;
        std::vector<nullable<T>> x;
        for (int i : e) x.push_back(i < 0 ? nullable<T>(nullval) : nullable<T>(enc(i)));
        if (k == 5) { v.a = std::make_unique<AR>(x); return v; }
        // without validity: a copy of something lent
        std::vector<T> mem(e.size() + 1);
        for (std::size_t i = 0; i < e.size(); ++i) mem[i] = enc(e[i]);
        Lent l;
        l.bufs[1] = mem.data();
        l.a.length = std::int64_t(e.size());
        l.a.n_buffers = 2;
        l.a.buffers = l.bufs;
        l.a.release = rel_a;
        l.s.format = l.fmt.c_str();
        l.s.release = rel_s;
        AR t(arrow_proxy(&l.a, &l.s));
        v.a = std::make_unique<AR>(t);
        return v;
    }
    template <class F>
    void with(V& v, F f)
    {
        if (v.b) f(*v.b);
        else if (v.o) f(*v.o);
        else if (v.u) f(*v.u);
        else f(*v.a);
    }
    static V copied(const V& s)
    {
        V d;
        d.k = s.k == 3 ? 5 : s.k == 4 ? 6 : s.k;
        d.stale = s.a ? false : s.stale;
        if (s.b) d.b = std::make_unique<BV>(*s.b);
        if (s.o) d.o = std::make_unique<NO>(*s.o);
        if (s.u) d.u = std::make_unique<UV>(*s.u);
        if (s.a) d.a = std::make_unique<AR>(*s.a);
        return d;
    }
    void load(const ints& x)
    {
        clear();
        std::size_t at = 1;
        for (std::size_t i = 0; i < nb; ++i) put(i, x[at++]);
        for (std::size_t i = nb; i < nbytes() * 8; ++i) put(i, int((i * 5 / 3) % 2));
        for (std::size_t i = 0; i < nv; ++i) vals[G + i] = enc(x[at++]);
        for (V& v : w)
        {
            const int k = x[at], pos = x[at + 1], n = x[at + 2], nc = x[at + 3], st = x[at + 4];
            const auto c = std::size_t(x[at + 5]);
            ints e(x.begin() + std::ptrdiff_t(at) + 6, x.begin() + std::ptrdiff_t(at + 6 + c));
            at += 6 + c;
            if (k == 5 || k == 6) v = own(k, e);
            else if (k) v = make(k, pos, n, nc == 0 || at % 2 ? -1 : nc, int(at));
            v.stale = st != 0;
        }
    }
    std::vector<char> before;
    void touch(int s)
    {
        // views of the same bits are not up to date any more
        for (std::size_t t = 0; t < 2; ++t)
        {
            if (int(t) == s - 1 || !w[t].k) continue;
            const auto [lo, hi] = cover(w[t]);
            for (std::size_t i = lo; i < hi; ++i)
                if (before[i] != char(bit(i))) w[t].stale = true;
        }
    }
    std::pair<std::size_t, std::size_t> cover(const V& v)
    {
        if (v.b)
        {
            const auto lo = std::size_t(reinterpret_cast<const std::uint8_t*>(std::as_const(*v.b).data()) - bytes()) * 8;
            return {lo, lo + v.b->size()};
        }
        if (v.o) return {0, v.o->size()};
        if (v.k == 3)
        {
            const auto& a = detail::array_access::get_arrow_proxy(*v.a);
            return {0, a.offset() + a.length()};
        }
        return {0, 0};
    }
    void set(V& v, std::size_t i, std::size_t j, int x, int var)
    {
        auto bits_of = [&](auto& s)
        {
            const bool b = x != 0;
            for (std::size_t p = i; p < j; ++p)
                switch ((var + int(p)) % 6)
                {
                    case 0: s.set(p, b); break;
                    case 1: s[p] = b; break;
                    case 2: if (b) s.at(p) |= true; else s[p] &= false; break;
                    case 3: if (bool(s[p]) != b) s[p] ^= true; break;
                    case 4: *(s.begin() + int(p)) = b; break;
                    default:
                        if (p == 0) s.front() = b;
                        else if (p + 1 == s.size()) s.back() = b;
                        else std::fill(s.begin() + int(p), s.begin() + int(p) + 1, b);
                }
            // things that have no effect
            if (var % 2) { s[i] |= false; s[i] &= true; s[i] ^= false; }
        };
        if (v.b) bits_of(*v.b);
        else if (v.o) bits_of(*v.o);
        else if (v.u)
        {
            UV& s = *v.u;
            const T t = enc(x);
            for (std::size_t p = i; p < j; ++p)
                switch ((var + int(p)) % 5)
                {
                    case 0: s[p] = t; break;
                    case 1: *(s.begin() + int(p)) = t; break;
                    case 2: s.data()[p] = t; break;
                    case 3: *(s.rbegin() + int(s.size() - 1 - p)) = t; break;
                    default:
                        if (p == 0) s.front() = t;
                        else if (p + 1 == s.size()) s.back() = t;
                        else std::fill(s.begin() + int(p), s.begin() + int(p) + 1, t);
                }
        }
        else
        {
            AR& s = *v.a;
            if (v.k == 4 || v.k == 6)
            {
                // values only: there is no validity to write
                for (std::size_t p = i; p < j; ++p)
                    if ((var + int(p)) % 2) s[p].get() = enc(x);
                    else (*(s.begin() + int(p))).get() = enc(x);
                return;
            }
            if (x >= 10 || x < 0)
            {
                for (std::size_t p = i; p < j; ++p)
                    if (x >= 10) { if ((var + int(p)) % 2) s[p] = nullable<T>(enc(x - 10), false); else *(s.begin() + int(p)) = nullable<T>(enc(x - 10), false); }
                    else if ((var + int(p)) % 2) s[p] = nullval;
                    else *(s.begin() + int(p)) = nullval;
                return;
            }
            for (std::size_t p = i; p < j; ++p)
                switch ((var + int(p)) % 4)
                {
                    case 0: s[p] = nullable<T>(enc(x)); break;
                    case 1: s[p] = enc(x); break;
                    case 2: *(s.begin() + int(p)) = nullable<T>(enc(x)); break;
                    default: std::fill(s.begin() + int(p), s.begin() + int(p) + 1, nullable<T>(enc(x)));
                }
        }
    }
    ints content(const V& v)
    {
        ints r;
        if (v.b) for (std::size_t i = 0; i < v.b->size(); ++i) r.push_back(std::as_const(*v.b)[i]);
        if (v.o) for (std::size_t i = 0; i < v.o->size(); ++i) r.push_back(std::as_const(*v.o)[i]);
        if (v.u) for (std::size_t i = 0; i < v.u->size(); ++i) r.push_back(dec(std::as_const(*v.u)[i]));
        if (v.a) for (std::size_t i = 0; i < v.a->size(); ++i) r.push_back(decn(std::as_const(*v.a)[i]));
        return r;
    }
    void read(V& v, int var)
    {
        if (v.stale) return;
        const ints want = content(v);
        ints rev(want.rbegin(), want.rend());
        auto bits_of = [&](auto& s)
        {
            auto d = [](auto&& e) { return bool(e) ? 1 : 0; };
            walk("const", std::as_const(s).begin(), std::as_const(s).end(), want, d, agree);
            walk("mutable", s.begin(), s.end(), want, d, agree);
            walk("c", s.cbegin(), s.cend(), want, d, agree);
            for (std::size_t i = 0; i < want.size(); ++i)
            {
                if (s.test(i) != (want[i] != 0) || bool(s[i]) != (want[i] != 0) || bool(s.at(i)) != (want[i] != 0)) agree.push_back("test");
                if ((~s[i]) != (want[i] == 0)) agree.push_back("~");
            }
            if (!want.empty() && (bool(s.front()) != bool(want.front()) || std::as_const(s).back() != bool(want.back()))) agree.push_back("ends");
            auto t = s;
            if (t.size() != s.size() || t.null_count() != s.null_count()) agree.push_back("copy");
            auto m = std::move(t);
            t = m;
            t.swap(m);
            if (t.data() != s.data() || t.size() != s.size()) agree.push_back("swap");
            if (s.empty() != want.empty()) agree.push_back("empty");
        };
        if (v.b) bits_of(*v.b);
        else if (v.o) bits_of(*v.o);
        else if (v.u)
        {
            UV& s = *v.u;
            auto d = [](auto&& e) { return dec(e); };
            walk("const", std::as_const(s).begin(), std::as_const(s).end(), want, d, agree);
            walk("mutable", s.begin(), s.end(), want, d, agree);
            walk("reverse", s.rbegin(), s.rend(), rev, d, agree);
            walk("const reverse", s.crbegin(), s.crend(), rev, d, agree);
            UV t = s;
            if (!(t == s)) agree.push_back("==");
            buffer<T> c = static_cast<buffer<T>>(s);
            if (c.size() != s.size() || !std::equal(c.begin(), c.end(), s.cbegin())) agree.push_back("buffer");
            for (T& e : c) e = enc(8);
            for (std::size_t i = 0; i <= s.size(); ++i)
                if (s.subrange(i).size() != s.size() - i || s.subrange(i, 0).size() != 0) agree.push_back("subrange");
            buffer_view<const T> k(std::as_const(s).data(), s.size());
            const auto mid = std::ptrdiff_t(s.size() / 2);
            auto half = k.subrange(k.begin() + mid, k.end());
            if (half.size() != s.size() - std::size_t(mid) || !std::equal(half.begin(), half.end(), s.cbegin() + mid)) agree.push_back("const subrange");
            t = UV();
            t.swap(s);
            s.swap(t);
        }
        else
        {
            AR& s = *v.a;
            auto d = [](auto&& e) { return decn(e); };
            walk("const", std::as_const(s).begin(), std::as_const(s).end(), want, d, agree);
            walk("mutable", s.begin(), s.end(), want, d, agree);
            walk("reverse", std::as_const(s).rbegin(), std::as_const(s).rend(), rev, d, agree);
            std::size_t i = 0;
            for (bool b : std::as_const(s).bitmap()) { if (b != (want[i] >= 0)) agree.push_back("bitmap"); ++i; }
            i = 0;
            for (auto&& e : std::as_const(s).values()) { if (want[i] >= 0 && dec(e) != want[i]) agree.push_back("values"); ++i; }
            // copies and slices are changed; the original is not
            AR c = s;
            if (!(c == s)) agree.push_back("copy");
            if (v.k == 3 || v.k == 5)
            {
                for (i = 0; i < c.size(); ++i) c[i] = nullval;
                c.push_back(nullable<T>(enc(8)));
                if (!want.empty())
                {
                    AR e = s.slice(want.size() / 2, want.size());
                    e.insert(e.cbegin(), nullable<T>(enc(8)), 3);
                    e.erase(e.cbegin(), e.cend());
                    e.resize(2, nullable<T>(nullval));
                }
            }
            else
                for (i = 0; i < c.size(); ++i) c[i].get() = enc(8);
            {
                AR e = s.slice_view(want.size() / 2, want.size());
                if (e.size() != want.size() - want.size() / 2) agree.push_back("view");
                AR f = std::move(e);
                AR g = f;
                f = g;
            }
            if ((v.k == 3 || v.k == 4) && !lent.empty())
            {
                // through an untyped array over the same structures
                auto& p = detail::array_access::get_arrow_proxy(s);
                ArrowArray aa = p.array();
                ArrowSchema ss = p.schema();
                if (var % 2) { aa.release = rel_a; ss.release = rel_s; }
                array u(&aa, &ss);
                array c2 = u;
                if (!(c2 == u) || u.size() != want.size()) agree.push_back("untyped");
                for (std::size_t q = 0; q < want.size(); ++q)
                    std::visit([&](const auto& e)
                    {
                        if constexpr (std::same_as<std::remove_cvref_t<decltype(e)>, nullable<const T&, bool>>)
                        {
                            if (decn(e) != want[q]) agree.push_back("untyped element");
                        }
                        else if (e.has_value()) agree.push_back("untyped type");
                    }, u[q]);
                array sl = u.slice(0, want.size() / 2);
                array sv = u.slice_view(want.size() / 2, want.size());
                array mv = std::move(sv);
                auto [ea, es] = extract_arrow_structures(std::move(c2));
                if (std::size_t(ea.length) != want.size()) agree.push_back("exported");
                ea.release(&ea);
                es.release(&es);
            }
        }
        if (agree.empty() && content(v) != want) agree.push_back("reading changed it");
    }
    void apply(const Cmd& m)
    {
        agree.clear();
        const auto& op = m.op;
        const auto& x = m.x;
        auto& a = w[x.empty() ? 0 : std::size_t((x[0] + 1) % 2)];
        if (op == "load") load(x);
        else if (op == "fill")
        {
            for (std::size_t i = 1; i <= nb; ++i) put(i - 1, x[0] == 0 ? 1 : x[0] == 1 ? 0 : x[0] == 2 ? int(i % 2) : i % 3 != 0);
            for (std::size_t i = 1; i <= nv; ++i) vals[G + i - 1] = enc(int(i + std::size_t(x[0])) % 3);
        }
        else if (op == "view") a = make(x[1], x[2], x[3], -1, m.var);
        else if (op == "drop") a = V{};
        else if (op == "swap")
        {
            auto& b = w[1];
            auto& f = w[0];
            std::swap(f.k, b.k);
            std::swap(f.stale, b.stale);
            if (f.b) { if (m.var % 2) f.b->swap(*b.b); else std::swap(*f.b, *b.b); }
            else if (f.o) { if (m.var % 2) f.o->swap(*b.o); else std::swap(*f.o, *b.o); }
            else if (f.u) { if (m.var % 2) f.u->swap(*b.u); else std::swap(*f.u, *b.u); }
            else std::swap(*f.a, *b.a);
        }
        else if (op == "read") read(a, m.var);
        else if (op == "set")
        {
            before.resize(nb);
            for (std::size_t i = 0; i < nb; ++i) before[i] = char(bit(i));
            set(a, std::size_t(x[1]), std::size_t(x[2]), x[3], m.var);
            touch(x[0]);
        }
        else
        {
            auto& b = w[std::size_t((x[1] + 1) % 2)];
            if (op == "copy") b = copied(a);
            else if (op == "assign")
            {
                if (a.b) *b.b = *a.b;
                else if (a.o) *b.o = *a.o;
                else if (a.u) *b.u = *a.u;
                else *b.a = std::as_const(*a.a);
                b.k = a.k == 3 ? 5 : a.k == 4 ? 6 : a.k;
                b.stale = a.a ? false : a.stale;
            }
            else if (op == "move" || op == "moveto")
            {
                if (op == "move")
                {
                    if (a.b) b.b = std::make_unique<BV>(std::move(*a.b));
                    else if (a.o) b.o = std::make_unique<NO>(std::move(*a.o));
                    else if (a.u) b.u = std::make_unique<UV>(std::move(*a.u));
                    else b.a = std::make_unique<AR>(std::move(*a.a));
                }
                else if (a.b) *b.b = std::move(*a.b);
                else if (a.o) *b.o = std::move(*a.o);
                else if (a.u) *b.u = std::move(*a.u);
                else *b.a = std::move(*a.a);
                b.k = a.k;
                b.stale = a.stale;
                a = V{};
            }
            else if (op == "part")
            {
                const auto p = std::size_t(x[2]), q = std::size_t(x[3]);
                b.k = a.k;
                b.stale = false;
                if (a.u)
                {
                    if (m.var % 3 == 0) b.u = std::make_unique<UV>(a.u->subrange(p, q - p));
                    else if (m.var % 3 == 1) b.u = std::make_unique<UV>(a.u->data() + p, q - p);
                    else if (q == a.u->size()) b.u = std::make_unique<UV>(a.u->subrange(p));
                    else b.u = std::make_unique<UV>(a.u->begin() + int(p), a.u->begin() + int(q));
                }
                else b.a = std::make_unique<AR>(a.a->slice_view(p, q));
            }
            else if (op == "slice")
            {
                b.k = a.k == 4 || a.k == 6 ? 6 : 5;
                b.stale = false;
                b.a = std::make_unique<AR>(a.a->slice(std::size_t(x[2]), std::size_t(x[3])));
            }
            else { std::cerr << "unknown command\n"; std::exit(3); }
        }
    }
    std::string obs()
    {
        ints mb, mv;
        for (std::size_t i = 0; i < nb; ++i) mb.push_back(bit(i));
        for (std::size_t i = 0; i < nv; ++i) mv.push_back(dec(vals[G + i]));
        std::string look;
        for (V& v : w)
        {
            int n = 0, nc = 0;
            if (v.b) { n = int(v.b->size()); nc = v.stale ? 0 : int(v.b->null_count()); }
            if (v.o) { n = int(v.o->size()); nc = v.stale ? 0 : int(v.o->null_count()); }
            if (v.u) n = int(v.u->size());
            if (v.a) n = int(v.a->size());
            if (!look.empty()) look += ',';
            look += "[" + std::to_string(v.k) + "," + std::to_string(n) + "," + js(v.stale ? ints{} : content(v)) + "," + std::to_string(nc) + ","
                    + std::to_string(int(!v.stale)) + "]";
        }
        bool st = released == 0;
        for (const Lent& l : lent) st = st && l.same();
        return "{\"mb\":" + js(mb) + ",\"mv\":" + js(mv) + ",\"look\":[" + look + "],\"guards\":" + std::to_string(int(guards())) + ",\"structs\":"
               + std::to_string(int(st)) + ",\"agree\":" + js(agree) + "}";
    }
};

template <class B, class T>
static int go(int nb, int nv, char** argv)
{
    M<B, T> m(nb, nv);
    Out out(argv[4]);
    std::ifstream in(argv[3]);
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        out.about(line);
        const Cmd c = parse(line);
        m.apply(c);
        out.line("{\"op\":\"" + c.op + "\",\"x\":" + js(c.x) + ",\"obs\":" + m.obs() + "}");
    }
    return 0;
}

int main(int argc, char** argv)
{
    if (argc != 5 || std::string(argv[1]) != "run") return 3;
    int v = 0, nb = 0, nv = 0;
    if (std::sscanf(argv[2], "%d-%d-%d", &v, &nb, &nv) != 3) return 3;
    switch (v)
    {
        case 0: return go<std::uint8_t, std::int8_t>(nb, nv, argv);
        case 1: return go<std::uint16_t, std::int32_t>(nb, nv, argv);
        case 2: return go<std::uint32_t, double>(nb, nv, argv);
        default: return go<std::uint64_t, std::uint64_t>(nb, nv, argv);
    }
}
