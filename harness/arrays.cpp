// C04 / C05: mutable arrays.  -DARR=0 -DELEM=... primitive arrays; -DARR=1 string arrays
#include "paths.hpp"
#include "seq.hpp"
#include "sparrow/array.hpp"
#include "sparrow/layout/array_access.hpp"
#include "sparrow/layout/primitive_array.hpp"
#include "sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp"
#include "sparrow/utils/nullable.hpp"

using namespace h;
using namespace sparrow;

#if ARR == 0
using T = ELEM;
using Arr = primitive_array<T>;
#else
using T = std::string;
using Arr = string_array;
#endif
using NT = nullable<T>;

static T enc(int i)
{
#if ARR == 1
    switch (i)
    {
        case 0: return "";
        case 1: return "x";
        case 2: return "yz";
        case 3: return std::string("q\0r", 3);
        case 4: return std::string(17, 's');
        case 5: return "\xc3\xa9t\xc3\xa9";
        default: return std::string(std::size_t(30 + 20 * i), char('a' + i));
    }
#else
    if constexpr (std::is_floating_point_v<T>) return T(i * 1.25e30);
    else return T(std::uint64_t(i) * 0x9E3779B97F4A7C15ull);
#endif
}
template <class V>
static int decv(const V& v)
{
    for (int i = 0; i < 12; ++i)
#if ARR == 1
        if (std::ranges::equal(enc(i), v)) return i;
#else
        if (enc(i) == v) return i;
#endif
    return BAD;
}
template <class N>
static int dec(const N& n)
{
    return n.has_value() ? decv(n.get()) : NUL;
}

// the value behind a null must never matter
static NT nenc(int i, int hidden)
{
    return i == NUL ? (hidden % 3 == 0 ? NT() : NT(enc(1 + hidden % 3), false)) : NT(enc(i));
}

static std::vector<NT> vals(const ints& s, int hidden)
{
    std::vector<NT> v;
    for (std::size_t i = 0; i < s.size(); ++i) v.push_back(nenc(s[i], hidden + int(i)));
    return v;
}

// structures whose offset is not 0 and whose buffers hold more than the array
static std::unique_ptr<Arr> raw(const ints& s, std::size_t off, std::size_t tail, bool with_bitmap)
{
    const std::size_t n = s.size(), total = off + n + tail;
    std::vector<buffer<std::uint8_t>> bufs;
    std::int64_t nulls = 0;
    buffer<std::uint8_t> bm((total + 7) / 8, std::uint8_t(0x5a));
    for (std::size_t i = 0; i < n; ++i)
    {
        const std::size_t b = off + i;
        const std::uint8_t m = std::uint8_t(1u << (b % 8));
        if (s[i] == NUL) { bm[b / 8] = std::uint8_t(bm[b / 8] & ~m); ++nulls; }
        else bm[b / 8] = std::uint8_t(bm[b / 8] | m);
    }
    if (!with_bitmap) bm.clear();
    bufs.push_back(with_bitmap ? std::move(bm) : buffer<std::uint8_t>(nullptr, 0));
    auto val = [&](std::size_t k) { return k < off || k >= off + n ? enc(int(k % 3)) : s[k - off] == NUL ? enc(2) : enc(s[k - off]); };
#if ARR == 0
    buffer<std::uint8_t> data(total * sizeof(T));
    for (std::size_t k = 0; k < total; ++k)
    {
        T v = val(k);
        std::memcpy(data.data() + k * sizeof(T), &v, sizeof(T));
    }
    bufs.push_back(std::move(data));
    auto fmt = data_type_format_of<T>();
#else
    std::string chars;
    buffer<std::uint8_t> offs((total + 1) * 4);
    for (std::size_t k = 0; k <= total; ++k)
    {
        std::int32_t o = std::int32_t(chars.size());
        std::memcpy(offs.data() + 4 * k, &o, 4);
        if (k < total) chars += val(k);
    }
    bufs.push_back(std::move(offs));
    buffer<std::uint8_t> data(chars.size());
    std::memcpy(data.data(), chars.data(), chars.size());
    bufs.push_back(std::move(data));
    auto fmt = std::string("u");
#endif
    ArrowArray a = make_arrow_array(std::int64_t(n), nulls, std::int64_t(off), std::move(bufs), 0, nullptr, nullptr);
    ArrowSchema sc = make_arrow_schema(std::string(fmt), std::optional<std::string>(), std::optional<std::string>(),
                                       std::optional<ArrowFlag>(), 0, nullptr, nullptr);
    return std::make_unique<Arr>(arrow_proxy(std::move(a), std::move(sc)));
}

struct F
{
    using O = Arr;
    using CI = Arr::const_iterator;

    static std::unique_ptr<O> make(const ints& s, int route)
    {
        auto v = vals(s, route);
        switch (route)
        {
            case 1:
            {
                std::vector<T> x;
                std::vector<bool> b;
                for (auto& e : v) { x.push_back(e.get()); b.push_back(e.has_value()); }
                return std::make_unique<O>(x, b);
            }
            case 2:
            {
                // a slice of something longer
                ints l{2, NUL, 1};
                l.insert(l.end(), s.begin(), s.end());
                l.push_back(NUL);
                l.push_back(1);
                O full(vals(l, 1));
                return std::make_unique<O>(full.slice(3, 3 + s.size()));
            }
            case 3: return raw(s, 5, 4, true);
            case 4: return raw(s, 8, 0, true);
            case 5:
            {
                auto o = std::make_unique<O>(std::vector<NT>{});
                for (auto& e : v) o->push_back(e);
                return o;
            }
            case 6:
            {
                auto o = raw(s, 3, 2, true);
                return std::make_unique<O>(*o);
            }
            case 7:
            {
                O full(vals(s, 2));
                O mid(full.slice(0, s.size()));
                return std::make_unique<O>(mid.slice(0, s.size()));
            }
            default: return std::make_unique<O>(v);
        }
    }

    static std::size_t size(const O& o) { return o.size(); }
    static int get(const O& o, std::size_t i) { return dec(o[i]); }
    static int nulls(const O& o) { return int(detail::array_access::get_arrow_proxy(o).null_count()); }
    static auto begin(O& o) { return o.begin(); }
    static CI at(O& o, int p) { return o.cbegin() + p; }

    static void push(O& o, int v, int w) { o.push_back(nenc(v, w)); }
    static void pop(O& o) { o.pop_back(); }
    static auto erase(O& o, CI p) { return o.erase(p); }
    static auto erase(O& o, CI p, CI q) { return o.erase(p, q); }
    static auto ins(O& o, CI p, int v, int w) { return o.insert(p, nenc(v, w)); }
    static auto insN(O& o, CI p, std::size_t n, int v, int w) { return o.insert(p, nenc(v, w), n); }
    static auto insR(O& o, CI p, const ints& t, int w)
    {
        auto v = vals(t, w);
        if (w % 2) return o.insert(p, v);
        return o.insert(p, v.begin(), v.end());
    }
    static auto insL(O& o, CI p, const ints& t)
    {
        auto v = vals(t, 1);
        switch (v.size())
        {
            case 0: return o.insert(p, std::initializer_list<NT>{});
            case 1: return o.insert(p, {v[0]});
            case 2: return o.insert(p, {v[0], v[1]});
            default: return o.insert(p, {v[0], v[1], v[2]});
        }
    }
    static void resV(O& o, std::size_t n, int v, int w) { o.resize(n, nenc(v, w)); }
    static void set(O& o, std::size_t i, int v, int w)
    {
        switch (w)
        {
            case 0: o[i] = nenc(v, int(i)); break;
            case 1:
                if (v == NUL) o[i] = nullval;
#if ARR == 0
                else o[i] = enc(v);
#else
                else o[i] = make_nullable(enc(v));
#endif
                break;
            default:
            {
                auto it = o.begin() + int(i);
                if (v != NUL && bool((*it).has_value())) (*it).get() = enc(v);
                else *it = nenc(v, 1);
            }
        }
    }
    static std::unique_ptr<O> copyNew(const O& o) { return std::make_unique<O>(o); }
    static std::unique_ptr<O> moveNew(O& o) { return std::make_unique<O>(std::move(o)); }
    static void copyTo(std::unique_ptr<O>& a, std::unique_ptr<O>& b) { *b = *a; }
    static void moveTo(std::unique_ptr<O>& a, std::unique_ptr<O>& b) { *b = std::move(*a); }
    static void selfAsg(O& o) { auto& r = o; r = o; }
    static void swap(O& o, O& b, int) { using std::swap; swap(o, b); }
    static std::unique_ptr<O> slice(O& o, std::size_t p, std::size_t q, int) { return std::make_unique<O>(o.slice(p, q)); }
    static bool equal(const O& x, const O& y) { return x == y; }

    // what the C structure means
    static ints exported(const ArrowArray& a)
    {
        ints r;
        if (a.length < 0 || a.offset < 0) return {BAD};
        auto* bm = static_cast<const std::uint8_t*>(a.buffers[0]);
        for (std::int64_t i = a.offset; i < a.offset + a.length; ++i)
        {
            if (bm && !((bm[i / 8] >> (i % 8)) & 1)) { r.push_back(NUL); continue; }
#if ARR == 0
            T v;
            std::memcpy(&v, static_cast<const char*>(a.buffers[1]) + std::size_t(i) * sizeof(T), sizeof(T));
            r.push_back(decv(v));
#else
            std::int32_t o[2];
            std::memcpy(o, static_cast<const char*>(a.buffers[1]) + 4 * i, 8);
            if (o[0] < 0 || o[1] < o[0]) { r.push_back(BAD); continue; }
            r.push_back(decv(std::string(static_cast<const char*>(a.buffers[2]) + o[0], std::size_t(o[1] - o[0]))));
#endif
        }
#if ARR == 1
        if (a.length > 0)
        {
            // offsets of nulls are monotonic as well
            for (std::int64_t i = a.offset; i < a.offset + a.length; ++i)
            {
                std::int32_t o[2];
                std::memcpy(o, static_cast<const char*>(a.buffers[1]) + 4 * i, 8);
                if (o[0] < 0 || o[1] < o[0]) return {BAD, BAD, BAD};
            }
        }
#endif
        return r;
    }

    static void dis(const O& co, const ints& want, strs& out)
    {
        auto& o = const_cast<O&>(co);
        auto d = [](auto&& v) { return dec(v); };
        ints rev(want.rbegin(), want.rend());
        walk("const iterator", co.begin(), co.end(), want, d, out);
        walk("c iterator", o.cbegin(), o.cend(), want, d, out);
        walk("iterator", o.begin(), o.end(), want, d, out);
        walk("const reverse", co.rbegin(), co.rend(), rev, d, out);
        walk("c reverse", co.crbegin(), co.crend(), rev, d, out);
        if (co.empty() != want.empty()) out.push_back("empty");
        int i = 0;
        for (bool b : co.bitmap())
        {
            if (i >= int(want.size()) || b != (want[std::size_t(i)] != NUL)) { out.push_back("bitmap range"); break; }
            ++i;
        }
        if (i != int(want.size())) out.push_back("bitmap range length");
        i = 0;
        for (auto&& v : co.values())
        {
            if (i >= int(want.size()) || (want[std::size_t(i)] != NUL && decv(v) != want[std::size_t(i)])) { out.push_back("value range"); break; }
            ++i;
        }
        if (i != int(want.size())) out.push_back("value range length");
        for (std::size_t k = 0; k < want.size(); ++k)
        {
            if (dec(o[k]) != want[k]) out.push_back("mutable []");
            if (dec(co.at(k)) != want[k]) out.push_back("at");
        }
        if (!want.empty())
        {
            if (dec(co.front()) != want.front()) out.push_back("front");
            if (dec(co.back()) != want.back()) out.push_back("back");
        }
        const ArrowArray& a = detail::array_access::get_arrow_proxy(co).array();
        if (a.length != std::int64_t(want.size())) out.push_back("exported length");
        if (exported(a) != want) out.push_back("exported content " + js(exported(a)));
        if (a.null_count != nulls(co)) out.push_back("exported null count");
    }
};

int main(int argc, char** argv)
{
    return seq_main(argc, argv, [] { return std::make_unique<Machine<F>>(); });
}
