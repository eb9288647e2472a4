// Operations that are documented to fail, and the same ones when they do not.
#include "raw.hpp"
#include <new>
#include "sparrow/array.hpp"
#include "sparrow/arrow_interface/arrow_flag_utils.hpp"
#include "sparrow/buffer/buffer.hpp"
#include "sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp"
#include "sparrow/buffer/dynamic_bitset/dynamic_bitset_view.hpp"
#include "sparrow/layout/dictionary_encoded_array.hpp"
#include "sparrow/layout/list_layout/list_array.hpp"
#include "sparrow/layout/primitive_array.hpp"
#include "sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp"
#include "sparrow/layout/struct_layout/struct_array.hpp"
#include "sparrow/layout/union_array.hpp"
#include "sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp"
#include "sparrow/record_batch.hpp"
using namespace h;
using namespace sparrow;

static bool counting = false;
static long balance = 0;
struct Hdr { std::uint64_t tag, pad; };
void* operator new(std::size_t n)
{
    Hdr* p = static_cast<Hdr*>(std::malloc(n + sizeof(Hdr)));
    if (!p) throw std::bad_alloc();
    p->tag = counting;
    balance += counting;
    return p + 1;
}
void operator delete(void* q) noexcept
{
    if (!q) return;
    Hdr* p = static_cast<Hdr*>(q) - 1;
    balance -= long(p->tag);
    std::free(p);
}
void operator delete(void* q, std::size_t) noexcept { operator delete(q); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* q) noexcept { operator delete(q); }
void operator delete[](void* q, std::size_t) noexcept { operator delete(q); }
struct Count
{
    bool before = counting;
    Count() { counting = true; }
    ~Count() { counting = before; }
};

// 0 none 1 out_of_range 2 length_error 3 bad_nullable_access 4 runtime_error 5 invalid_argument 9 another one
template <class F>
static int kind_of(F&& f)
{
    try { f(); return 0; }
    catch (const std::out_of_range&) { return 1; }
    catch (const std::length_error&) { return 2; }
    catch (const bad_nullable_access&) { return 3; }
    catch (const std::invalid_argument&) { return 5; }
    catch (const std::runtime_error&) { return 4; }
    catch (...) { return 9; }
}

struct Kid
{
    int m, t, n;
    std::unique_ptr<Import> imp;
    std::unique_ptr<array> a;
};

template <class T>
static void put_bytes(std::vector<std::uint8_t>& v, T x)
{
    const auto at = v.size();
    v.resize(at + sizeof(T));
    std::memcpy(v.data() + at, &x, sizeof(T));
}
// n values 1, 2, ..
static Node describe(int t, int n)
{
    Node d;
    d.f = std::string(1, "gilSu"[t]);
    d.len = n;
    d.bufs.push_back({1, {0xff}});
    Node::Buf b{1, {}}, c{1, {}};
    for (int i = 1; i <= n; ++i)
        if (t == 0) put_bytes(b.d, double(i));
        else if (t == 1) put_bytes(b.d, std::int32_t(i));
        else if (t == 2) put_bytes(b.d, std::int64_t(i));
        else if (t == 3) put_bytes(b.d, std::uint16_t(i));
    if (t == 4)
        for (int i = 0; i <= n; ++i)
        {
            put_bytes(b.d, std::int32_t(i));
            if (i) c.d.push_back(std::uint8_t('0' + i));
        }
    d.bufs.push_back(b);
    if (t == 4) d.bufs.push_back(c);
    return d;
}
template <class T>
static std::vector<T> numbers(int n)
{
    std::vector<T> v;
    for (int i = 1; i <= n; ++i) v.push_back(T(i));
    return v;
}
static array make(int t, int n)
{
    switch (t)
    {
        case 0: return array(primitive_array<double>(numbers<double>(n)));
        case 1: return array(primitive_array<std::int32_t>(numbers<std::int32_t>(n)));
        case 2: return array(primitive_array<std::int64_t>(numbers<std::int64_t>(n)));
        case 3: return array(primitive_array<std::uint16_t>(numbers<std::uint16_t>(n)));
        default:
        {
            std::vector<std::string> s;
            for (int i = 1; i <= n; ++i) s.push_back(std::to_string(i));
            return array(string_array(s));
        }
    }
}
template <class V>
static int number(const V& v)
{
    return std::visit([](const auto& e) -> int
    {
        using N = std::remove_cvref_t<decltype(e)>;
        if (!e.has_value()) return -1;
        using T = std::remove_cvref_t<typename N::value_type>;
        if constexpr (std::is_arithmetic_v<T>) return int(e.get());
        else if constexpr (std::same_as<T, std::string_view> || std::same_as<T, std::string>) return e.get().size() == 1 ? e.get()[0] - '0' : -2;
        else return -3;
    }, v);
}
static bool as_made(const array& a, int n)
{
    if (a.size() != std::size_t(n)) return false;
    for (int i = 0; i < n; ++i) if (number(a[std::size_t(i)]) != i + 1) return false;
    return true;
}

struct M
{
    dynamic_bitset<std::uint8_t> bs;
    std::vector<std::uint8_t> mem;
    std::unique_ptr<dynamic_bitset_view<std::uint8_t>> view = std::make_unique<dynamic_bitset_view<std::uint8_t>>(mem.data(), 0u);
    buffer<std::int32_t> b1;
    buffer<std::uint8_t> b2;
    buffer<std::string> b3;
    ints names;
    record_batch batch = record_batch(std::vector<std::string>(), std::vector<array>());
    nullable<int> n1;
    nullable<std::string> n2;
    int ref = 0;
    bool flag = false;
    nullable<int&, bool&> n3{ref, flag};
    std::vector<Kid> kids;
    std::vector<std::unique_ptr<Import>> gone;
    long over = 0, lost = 0;

    static bool has(const ints& v, std::size_t i) { return i < v.size() && v[i]; }
    void set_bits(int i, const ints& v)
    {
        if (i == 1)
        {
            bs = dynamic_bitset<std::uint8_t>(v.size(), false);
            for (std::size_t k = 0; k < v.size(); ++k) bs.set(k, v[k] != 0);
        }
        else
        {
            mem.assign((v.size() + 7) / 8, 0);
            for (std::size_t k = 0; k < v.size(); ++k) if (v[k]) mem[k / 8] |= std::uint8_t(1u << (k % 8));
            view = std::make_unique<dynamic_bitset_view<std::uint8_t>>(mem.data(), v.size());
        }
    }
    void set_buf(const ints& v)
    {
        b1.clear();
        b2.clear();
        b3.clear();
        for (int x : v) { b1.push_back(x); b2.push_back(std::uint8_t(x)); b3.push_back(std::to_string(x)); }
    }
    static std::string name(int n) { return n == 0 ? "" : n == 1 ? "a" : n == 2 ? "a longer name that is on the heap" : "b" + std::to_string(n); }
    void set_cols(const ints& v)
    {
        names = v;
        std::vector<std::string> ns;
        std::vector<array> as;
        for (std::size_t i = 0; i < v.size(); ++i) { ns.push_back(name(v[i])); as.push_back(array(primitive_array<int>(std::vector<int>{int(i) + 1}))); }
        batch = record_batch(std::move(ns), std::move(as));
    }
    void set_nul(int i, int f, int v)
    {
        if (i == 1) n1 = nullable<int>(int(v), f != 0);
        else if (i == 2) n2 = nullable<std::string>(std::to_string(v), f != 0);
        else { ref = v; flag = f != 0; }
    }
    void add_kid(int m, int t, int n)
    {
        Kid k{m, t, n, nullptr, nullptr};
        if (m == 0) { Count c; k.a = std::make_unique<array>(make(t, n)); }
        else
        {
            k.imp = std::make_unique<Import>(describe(t, n));
            k.imp->lent_a = m == 3;
            k.imp->lent_s = m >= 2;
            Count c;
            if (m == 1) k.a = std::make_unique<array>(std::move(k.imp->a), std::move(k.imp->s));
            else if (m == 2) k.a = std::make_unique<array>(std::move(k.imp->a), &k.imp->s);
            else k.a = std::make_unique<array>(&k.imp->a, &k.imp->s);
        }
        kids.push_back(std::move(k));
    }
    // the array is gone: what was given has been released once, what was lent not at all
    void settle(Kid& k)
    {
        k.a.reset();
        if (!k.imp) return;
        Import& i = *k.imp;
        if (i.touched()) ++over;
        if (i.a_rel != (i.lent_a ? 0 : i.nodes())) ++lost;
        if (i.s_rel != (i.lent_s ? 0 : i.nodes())) ++lost;
        over += i.over;
        i.finish();
    }
    void drop_all()
    {
        for (auto& k : kids) settle(k);
        kids.clear();
    }

    template <class S>
    static ints at(S& s, std::size_t pos, int k, bool w)
    {
        ints r{0, 0};
        const S& c = s;
        r[0] = kind_of([&]
        {
            if (k == 0) r[1] = c.at(pos);
            else if (k == 1) r[1] = bool(s.at(pos));
            else { s.at(pos) = w; r[1] = bool(s.at(pos)); }
        });
        return r;
    }
    template <class T>
    static int big(buffer<T>& b, int k, int c, const T& v)
    {
        const std::size_t most = b.max_size();
        const std::size_t n = c == -1 ? std::numeric_limits<std::size_t>::max() : c == -2 ? most / 2 + most : most + 1;
        switch (k)
        {
            case 0: return kind_of([&] { b.reserve(n); });
            case 1: return kind_of([&] { buffer<T> x(n); });
            case 2: return kind_of([&] { buffer<T> x(n, v); });
            case 3: return kind_of([&] { b.resize(n); });
            case 4: return kind_of([&] { b.resize(n, v); });
            case 5: return kind_of([&] { b.insert(b.cbegin(), n, v); });
            case 6: return kind_of([&] { b.insert(b.cend(), n, v); });
            case 7: return kind_of([&] { b.insert(b.cbegin() + std::ptrdiff_t(b.size() / 2), n, v); });
            case 8: return kind_of([&] { b.reserve(b.size()); b.reserve(n); });
            default: return kind_of([&] { b.insert(b.cend(), n - b.size(), v); });
        }
    }
    template <class N>
    static int value(N& n, int k)
    {
        const N& c = n;
        auto num = [](const auto& v)
        {
            if constexpr (std::is_same_v<std::remove_cvref_t<decltype(v)>, std::string>) return std::stoi(v);
            else return int(v);
        };
        switch (k)
        {
            case 0: return num(c.value());
            case 1: return num(n.value());
            case 2: return num(std::move(n).value());
            default: return num(std::move(c).value());
        }
    }
    static ints flags(const ints& x)
    {
        std::int64_t v = 0;
        for (int i : x) v |= std::int64_t(std::uint64_t(1) << i);
        ints r{0, 0};
        r[0] = kind_of([&] { r[1] = int(to_vector_of_ArrowFlags(v).size()); });
        // the same of a schema
        Import im(describe(1, 1));
        im.lent_a = im.lent_s = true;
        im.s.flags = v;
        im.s0.flags = v;
        ints q{0, 0};
        {
            arrow_proxy p(&im.a, &im.s);
            q[0] = kind_of([&] { q[1] = int(p.flags().size()); });
        }
        if (im.touched() || im.a_rel || im.s_rel) q[0] = 8;
        im.finish();
        return r == q ? r : ints{7, q[0]};
    }
    ints combine(int k, int m)
    {
        ints r{0, 0};
        std::vector<array> as;
        const std::size_t n = std::size_t(kids[0].n);
        auto children = [&] { for (auto& c : kids) as.push_back(std::move(*c.a)); };
        Count count;
        u8_buffer<std::uint8_t> ids(n, std::uint8_t(0));
        std::vector<std::uint8_t> map;
        for (int i = 0; i < m; ++i) map.push_back(std::uint8_t(i));
        auto all = [&](const array& a) { return as_made(a, int(n)) ? int(n) : -7; };
        auto list = [&](const array& a)
        {
            if (a.size() != 1) return -7;
            return std::visit([&](const auto& e) -> int
            {
                if constexpr (std::same_as<std::remove_cvref_t<typename std::remove_cvref_t<decltype(e)>::value_type>, list_value>)
                {
                    const auto& l = e.get();
                    for (std::size_t i = 0; i < l.size(); ++i) if (number(l[i]) != int(i) + 1) return -7;
                    return int(l.size());
                }
                else return -7;
            }, a[0]);
        };
        auto elems = [&](const array& a)
        {
            for (std::size_t i = 0; i < a.size(); ++i) (void) a[i];
            return int(a.size());
        };
        r[0] = kind_of([&]
        {
            switch (k)
            {
                case 0:
                {
                    children();
                    u8_buffer<std::uint32_t> offs(n);
                    for (std::size_t i = 0; i < n; ++i) offs[i] = std::uint32_t(i);
                    array a(dense_union_array(std::move(as), std::move(ids), std::move(offs), map));
                    r[1] = all(a);
                    break;
                }
                case 1:
                {
                    children();
                    array a(sparse_union_array(std::move(as), std::move(ids), map));
                    r[1] = all(a);
                    break;
                }
                case 2:
                {
                    children();
                    array a(struct_array(std::move(as)));
                    r[1] = elems(a);
                    break;
                }
                case 3:
                {
                    list_array::offset_buffer_type o{0, std::int32_t(n)};
                    array a(list_array(std::move(*kids[0].a), std::move(o)));
                    r[1] = list(a);
                    break;
                }
                case 4:
                {
                    big_list_array::offset_buffer_type o{0, std::int64_t(n)};
                    array a(big_list_array(std::move(*kids[0].a), std::move(o)));
                    r[1] = list(a);
                    break;
                }
                case 5:
                {
                    list_view_array::offset_buffer_type o{0};
                    list_view_array::size_buffer_type s{std::int32_t(n)};
                    array a(list_view_array(std::move(*kids[0].a), std::move(o), std::move(s)));
                    r[1] = list(a);
                    break;
                }
                case 6:
                {
                    big_list_view_array::offset_buffer_type o{0};
                    big_list_view_array::size_buffer_type s{std::int64_t(n)};
                    array a(big_list_view_array(std::move(*kids[0].a), std::move(o), std::move(s)));
                    r[1] = list(a);
                    break;
                }
                case 7:
                {
                    array a(fixed_sized_list_array(1, std::move(*kids[0].a)));
                    r[1] = elems(a);
                    break;
                }
                case 8:
                {
                    u8_buffer<std::uint16_t> keys(n);
                    for (std::size_t i = 0; i < n; ++i) keys[i] = std::uint16_t(i);
                    array a(dictionary_encoded_array<std::uint16_t>(std::move(keys), std::move(*kids[0].a)));
                    r[1] = all(a);
                    break;
                }
                default:
                {
                    array a(run_end_encoded_array(std::move(*kids[0].a), std::move(*kids[1].a)));
                    r[1] = all(a);
                }
            }
        });
        // arrays that were given in a vector are still there
        for (std::size_t i = 0; i < as.size(); ++i) *kids[i].a = std::move(as[i]);
        as.clear();
        if (r[0] == 0) { counting = false; drop_all(); }
        return r;
    }
    ints extract(std::size_t i, int k)
    {
        ints r{0, 0};
        Kid& c = kids[i - 1];
        {
            Count count;
            r[0] = kind_of([&]
            {
                if (k == 0)
                {
                    auto [a, s] = extract_arrow_structures(std::move(*c.a));
                    a.release(&a);
                    s.release(&s);
                }
                else if (k == 1) { ArrowArray a = extract_arrow_array(std::move(*c.a)); a.release(&a); }
                else { ArrowSchema s = extract_arrow_schema(std::move(*c.a)); s.release(&s); }
            });
        }
        if (r[0] == 0) { settle(c); kids.erase(kids.begin() + std::ptrdiff_t(i) - 1); }
        return r;
    }

    std::string apply(const Cmd& m, std::string& txt)
    {
        const auto& x = m.x;
        ints did{0, 0};
        if (m.op == "load")
        {
            std::size_t p = 0;
            auto get = [&] { int n = x.at(p++); ints v; while (n-- > 0) v.push_back(x.at(p++)); return v; };
            set_bits(1, get());
            set_bits(2, get());
            set_buf(get());
            set_cols(get());
            for (int i = 1; i <= 3; ++i) { set_nul(i, x.at(p), x.at(p + 1)); p += 2; }
            drop_all();
            balance = lost = over = 0;
            int n = x.at(p++);
            while (n-- > 0) { add_kid(x.at(p), x.at(p + 1), x.at(p + 2)); p += 3; }
        }
        else if (m.op == "bits") set_bits(x[0], ints(x.begin() + 1, x.end()));
        else if (m.op == "at")
        {
            const std::size_t n = x[0] == 1 ? bs.size() : view->size();
            const std::size_t pos = x[2] >= 0 ? std::size_t(x[2]) : x[2] == -1 ? std::numeric_limits<std::size_t>::max()
                                  : x[2] == -2 ? std::size_t(1) << 63 : x[2] == -3 ? n + (std::size_t(1) << 32) : x[2] == -4 ? n : n - 1;
            did = x[0] == 1 ? at(bs, pos, x[1], x[3] != 0) : at(*view, pos, x[1], x[3] != 0);
        }
        else if (m.op == "buf") set_buf(x);
        else if (m.op == "big")
        {
            const ints r{big(b1, x[0], x[1], std::int32_t(9)), big(b2, x[0], x[1], std::uint8_t(9)), big(b3, x[0], x[1], std::string("nine"))};
            did[0] = r[0] == r[1] && r[1] == r[2] ? r[0] : 100 + r[0] + 10 * r[1] + 100 * r[2];
        }
        else if (m.op == "room")
            did[0] = kind_of([&] { b1.reserve(std::size_t(x[0])); b2.reserve(std::size_t(x[0])); b3.reserve(std::size_t(x[0])); });
        else if (m.op == "cols") set_cols(x);
        else if (m.op == "col")
        {
            const record_batch& b = batch;
            did[0] = kind_of([&] { did[1] = number(b.get_column(name(x[1]))[0]); });
            if (x[0] == 1 && b.contains_column(name(x[1])) != (did[0] == 0)) did[0] = 77;
        }
        else if (m.op == "nul") set_nul(x[0], x[1], x[2]);
        else if (m.op == "value")
            did[0] = kind_of([&] { did[1] = x[0] == 1 ? value(n1, x[1]) : x[0] == 2 ? value(n2, x[1]) : value(n3, x[1]); });
        else if (m.op == "flags") did = flags(x);
        else if (m.op == "type")
            did[0] = kind_of([&] { txt = std::string(data_type_to_format(static_cast<data_type>(x[0]))); });
        else if (m.op == "kid") add_kid(x[0], x[1], x[2]);
        else if (m.op == "clear") drop_all();
        else if (m.op == "extract" || m.op == "combine")
        {
            const long before = balance;
            did = m.op == "extract" ? extract(std::size_t(x[0]), x[1]) : combine(x[0], x[1]);
            if (did[0] != 0) lost += balance - before;
        }
        else { std::cerr << "unknown command\n"; std::exit(3); }
        return js(did);
    }
    template <class S>
    static std::string show(const S& s)
    {
        ints v;
        for (std::size_t i = 0; i < s.size(); ++i) v.push_back(s.test(i));
        if (s.null_count() != std::size_t(std::count(v.begin(), v.end(), 0))) v.push_back(9);
        return js(v);
    }
    std::string obs(const std::string& did, const std::string& txt)
    {
        ints v(b1.begin(), b1.end());
        bool same = b2.size() == v.size() && b3.size() == v.size();
        for (std::size_t i = 0; same && i < v.size(); ++i) same = b2[i] == v[i] && b3[i] == std::to_string(v[i]);
        if (!same) v.push_back(-99);
        ints c;
        for (std::size_t i = 0; i < batch.nb_columns(); ++i)
        {
            const bool ok = i < names.size() && batch.get_column_name(i) == name(names[i]) && number(batch.get_column(i)[0]) == int(i) + 1;
            c.push_back(ok ? names[i] : -1);
        }
        std::string k;
        for (auto& q : kids)
        {
            const bool oa = owns_arrow_array(*q.a), os = owns_arrow_schema(*q.a);
            const int m = oa && os ? (q.m <= 1 ? q.m : 9) : oa ? 2 : os ? 8 : 3;
            k += (k.empty() ? "" : ",") + js(ints{m, q.t, as_made(*q.a, q.n) ? q.n : -9});
            if (q.imp)
            {
                if (q.imp->touched()) ++over;
                if (q.imp->a_rel || q.imp->s_rel || q.imp->over) ++over;
            }
        }
        const long left = kids.empty() ? balance : 0;
        return "{\"bits\":[" + show(bs) + "," + show(*view) + "],\"buf\":" + js(v) + ",\"cols\":" + js(c) + ",\"nul\":["
               + js(ints{n1.has_value(), n1.get()}) + "," + js(ints{n2.has_value(), n2.get().empty() ? 0 : std::stoi(n2.get())}) + ","
               + js(ints{n3.has_value(), n3.get()}) + "],\"kids\":[" + k + "],\"did\":" + did + ",\"text\":" + esc(txt)
               + ",\"lost\":" + std::to_string(lost + left) + ",\"over\":" + std::to_string(over) + "}";
    }
};

int main(int argc, char** argv)
{
    if (argc != 5 || std::string(argv[1]) != "run") return 3;
    M m;
    Out out(argv[4]);
    std::ifstream in(argv[3]);
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        out.about(line);
        const Cmd c = parse(line);
        std::string txt;
        const std::string did = m.apply(c, txt);
        out.line("{\"op\":\"" + c.op + "\",\"x\":" + js(c.x) + ",\"obs\":" + m.obs(did, txt) + "}");
    }
    m.drop_all();
    return 0;
}
