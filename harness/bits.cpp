// C02: bitsets.  -DBLOCK=std::uint8_t|..., -DNONOWNING for the non owning one.
#include "paths.hpp"
#include "seq.hpp"
#include <list>
#include "sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp"
#include "sparrow/buffer/dynamic_bitset/dynamic_bitset_view.hpp"
#include "sparrow/buffer/dynamic_bitset/non_owning_dynamic_bitset.hpp"

using namespace h;
using block = BLOCK;

#ifdef NONOWNING
struct Own
{
    sparrow::buffer<block> buf;
    sparrow::non_owning_dynamic_bitset<block> bs;
    explicit Own(std::size_t n)
        : buf(n / (8 * sizeof(block)) + (n % (8 * sizeof(block)) != 0), block(~block(0)))
        , bs(&buf, n)
    {
    }
};
using Obj = Own;
using bitset = sparrow::non_owning_dynamic_bitset<block>;
static bitset& B(Obj& o) { return o.bs; }
static const bitset& B(const Obj& o) { return o.bs; }
#else
using Obj = sparrow::dynamic_bitset<block>;
using bitset = Obj;
static bitset& B(Obj& o) { return o; }
static const bitset& B(const Obj& o) { return o; }
#endif

struct F
{
    using O = Obj;
    using CI = bitset::const_iterator;

    static std::unique_ptr<O> make(const ints& s, int route)
    {
        const std::size_t n = s.size();
        std::vector<bool> v;
        for (int i : s) v.push_back(i != 0);
        std::unique_ptr<O> o;
#ifdef NONOWNING
        (void) route;
        o = std::make_unique<O>(n);
        for (std::size_t i = 0; i < n; ++i) o->bs.set(i, v[i]);
#else
        switch (route)
        {
            case 1:
                o = std::make_unique<O>();
                for (bool b : v) o->push_back(b);
                break;
            case 2:
                o = std::make_unique<O>(n, true);
                for (std::size_t i = 0; i < n; ++i) o->set(i, v[i]);
                break;
            case 3:
            case 4:
            {
                const std::size_t w = 8 * sizeof(block);
                const std::size_t k = n / w + (n % w != 0);
                block* p = std::allocator<block>().allocate(k);
                std::fill(p, p + k, route == 3 ? block(~block(0)) : block(0));   // garbage behind the last bit
                std::size_t nulls = 0;
                for (std::size_t i = 0; i < n; ++i)
                {
                    const block m = block(block(1) << (i % w));
                    p[i / w] = v[i] ? block(p[i / w] | m) : block(p[i / w] & block(~m));
                    nulls += !v[i];
                }
                o = route == 3 ? std::make_unique<O>(p, n) : std::make_unique<O>(p, n, nulls);
                break;
            }
            case 5:
                o = std::make_unique<O>();
                o->insert(o->cbegin(), v.begin(), v.end());
                break;
            case 6:
                o = std::make_unique<O>(n);
                for (std::size_t i = 0; i < n; ++i) (*o)[i] = v[i];
                break;
            case 7:
            {
                // shrunk from something longer, so that storage is larger than needed
                o = std::make_unique<O>(n + 70, true);
                o->resize(n);
                for (std::size_t i = 0; i < n; ++i) o->set(i, v[i]);
                break;
            }
            default:
                o = std::make_unique<O>(v);
        }
#endif
        return o;
    }

    static std::size_t size(const O& o) { return B(o).size(); }
    static int get(const O& o, std::size_t i) { return B(o)[i] ? 1 : 0; }
    static int nulls(const O& o) { return int(B(o).null_count()); }
    static auto begin(O& o) { return B(o).begin(); }
    static CI at(O& o, int p) { return B(o).cbegin() + p; }

    static void push(O& o, int v, int) { B(o).push_back(v != 0); }
    static void pop(O& o) { B(o).pop_back(); }
    static auto erase(O& o, CI p) { return B(o).erase(p); }
    static auto erase(O& o, CI p, CI q) { return B(o).erase(p, q); }
    static auto ins(O& o, CI p, int v, int) { return B(o).insert(p, v != 0); }
    static auto emplace(O& o, CI p, int v) { return B(o).emplace(p, v != 0); }
    static auto insN(O& o, CI p, std::size_t n, int v, int) { return B(o).insert(p, n, v != 0); }
    static auto insR(O& o, CI p, const ints& t, int w)
    {
        if (w % 2)
        {
            std::list<bool> l;
            for (int i : t) l.push_back(i != 0);
            return B(o).insert(p, l.begin(), l.end());
        }
        std::vector<bool> l;
        for (int i : t) l.push_back(i != 0);
        return B(o).insert(p, l.begin(), l.end());
    }
    static auto insB(O& o, CI p, const O& b, int) { return B(o).insert(p, B(b).cbegin(), B(b).cend()); }
    static void res(O& o, std::size_t n) { B(o).resize(n); }
    static void resV(O& o, std::size_t n, int v, int) { B(o).resize(n, v != 0); }
    static void clear(O& o) { B(o).clear(); }
    static void set(O& o, std::size_t i, int v, int w)
    {
        auto& s = B(o);
        const bool b = v != 0;
        switch (w)
        {
            case 0: s.set(i, b); break;
            case 1:
                if (b) s[i] |= true; else s.at(i) &= false;
                break;
            default:
                if (i % 3 == 0) *(s.begin() + int(i)) = b;
                else if (i % 3 == 1) { if (bool(s[i]) != b) s[i] ^= true; }
                else
                {
                    // through a copy of another reference with the wanted value
                    bool done = false;
                    for (std::size_t k = 0; k < s.size() && !done; ++k)
                        if (bool(s[k]) == b) { s[i] = s[k]; done = true; }
                    if (!done) s[i] = b;
                }
        }
    }

#ifdef NONOWNING
    static std::unique_ptr<O> copyNew(const O& o) { ints t; for (std::size_t i = 0; i < size(o); ++i) t.push_back(get(o, i)); return make(t, 0); }
    static void copyTo(std::unique_ptr<O>& a, std::unique_ptr<O>& b) { b = copyNew(*a); }
    static std::unique_ptr<O> moveNew(O& o) { return copyNew(o); }
    static void moveTo(std::unique_ptr<O>& a, std::unique_ptr<O>& b) { b = copyNew(*a); }
    static void selfAsg(O& o) { auto& r = o.bs; r = o.bs; }
#else
    static std::unique_ptr<O> copyNew(const O& o) { return std::make_unique<O>(o); }
    static std::unique_ptr<O> moveNew(O& o) { return std::make_unique<O>(std::move(o)); }
    static void copyTo(std::unique_ptr<O>& a, std::unique_ptr<O>& b) { *b = *a; }
    static void moveTo(std::unique_ptr<O>& a, std::unique_ptr<O>& b) { *b = std::move(*a); }
    static void selfAsg(O& o) { auto& r = o; r = o; }
    static void swap(O& o, O& b, int) { o.swap(b); }
#endif
    static bool equal(const O& x, const O& y)
    {
        return std::equal(B(x).begin(), B(x).end(), B(y).begin(), B(y).end());
    }

    static void dis(const O& co, const ints& want, strs& out)
    {
        auto& o = const_cast<O&>(co);
        auto dec = [](auto&& v) { return bool(v) ? 1 : 0; };
        walk("const iterator", B(co).begin(), B(co).end(), want, dec, out);
        walk("c iterator", B(o).cbegin(), B(o).cend(), want, dec, out);
        walk("iterator", B(o).begin(), B(o).end(), want, dec, out);
        if (B(co).empty() != want.empty()) out.push_back("empty");
        for (std::size_t i = 0; i < want.size(); ++i)
        {
            const bool w = want[i] != 0;
            if (B(co).test(i) != w) out.push_back("test");
            if (B(co).at(i) != w) out.push_back("const at");
            if (bool(B(o).at(i)) != w) out.push_back("at");
            if (bool(B(o)[i]) != w) out.push_back("mutable []");
            if ((~B(o)[i]) == w) out.push_back("~");
            if (!(B(o)[i] == w)) out.push_back("reference ==");
            if (!(B(o)[i] == B(o).at(i)) || (B(o)[i] == B(o)[0]) != (w == (want[0] != 0))) out.push_back("reference == reference");
        }
        if (!want.empty())
        {
            if (bool(B(o).front()) != (want.front() != 0) || B(co).front() != (want.front() != 0)) out.push_back("front");
            if (bool(B(o).back()) != (want.back() != 0) || B(co).back() != (want.back() != 0)) out.push_back("back");
            // a view over the same blocks reads the same bits
            sparrow::dynamic_bitset_view<block> v(B(o).data(), want.size());
            walk("view iterator", v.begin(), v.end(), want, dec, out);
            if (v.null_count() != B(co).null_count()) out.push_back("view null count");
            const sparrow::dynamic_bitset_view<block> u(B(o).data(), want.size(), v.null_count());
            walk("view of known null count", u.begin(), u.end(), want, dec, out);
            if (u.null_count() != B(co).null_count()) out.push_back("known null count");
            if (u.front() != (want.front() != 0) || u.back() != (want.back() != 0)) out.push_back("view ends");
        }
        // no memory at all: nothing is null
        const sparrow::dynamic_bitset_view<block> none(nullptr, want.size());
        walk("without memory", none.begin(), none.end(), ints(want.size(), 1), dec, out);
        if (none.null_count() != 0 || none.size() != want.size() || none.data() != nullptr) out.push_back("without memory");
        for (std::size_t i = 0; i < want.size(); ++i)
            if (!none.test(i) || !none[i] || !none.at(i)) out.push_back("bits without memory");
        if (!want.empty() && (!none.front() || !none.back())) out.push_back("ends without memory");
        const std::size_t width = 8 * sizeof(block);
        if (B(co).block_count() < want.size() / width + (want.size() % width != 0)) out.push_back("block count");
    }
};

int main(int argc, char** argv)
{
    return seq_main(argc, argv, [] { return std::make_unique<Machine<F>>(); });
}
