// arrow_proxy under commands.
#include "common.hpp"
#include <list>
#include <new>
#include "sparrow/arrow_array_schema_proxy.hpp"
#include "sparrow/arrow_interface/arrow_array.hpp"
#include "sparrow/arrow_interface/arrow_flag_utils.hpp"
#include "sparrow/arrow_interface/arrow_schema.hpp"
using namespace h;
using namespace sparrow;

// ------------------------------------------------ allocations made while commands run
static bool counting = false;
static long balance = 0;
void* operator new(std::size_t n)
{
    if (counting) ++balance;
    if (void* p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept
{
    if (p && counting) --balance;
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

static const strs FORMATS = {"i", "I", "f", "+s"};
static const strs STRINGS = {"", "n", "a string that does not fit into a small one"};
static const int DATA = 16;

struct Desc
{
    int s, g, f, nm, md, fl, len, off, nc, val;
    ints bits;
    std::vector<Desc> ch, di;
};
static Desc parse_desc(const ints& x, std::size_t& at)
{
    Desc d;
    for (int* p : {&d.s, &d.g, &d.f, &d.nm, &d.md, &d.fl, &d.len, &d.off, &d.nc, &d.val}) *p = x.at(at++);
    int n = x.at(at++);
    while (n-- > 0) d.bits.push_back(x.at(at++));
    n = x.at(at++);
    while (n-- > 0) d.ch.push_back(parse_desc(x, at));
    n = x.at(at++);
    while (n-- > 0) d.di.push_back(parse_desc(x, at));
    return d;
}
static Desc node(int s, int f, int nm, int md, int fl, int off, ints bits, int len, int val)
{
    Desc d{s, 1, f, nm, md, fl, len, off, 0, val, bits, {}, {}};
    for (int i = off; i < off + len; ++i) d.nc += bits[std::size_t(i)] == 0;
    return d;
}
static Desc prim(int s) { return node(s, 0, 1, -1, 2, 0, {1, 0, 1, 1, 0}, 3, 5); }
static Desc tmpl(int t)
{
    Desc d = prim(1);
    switch (t)
    {
        case 0: return d;
        case 1: return node(0, 1, -1, 2, 0, 1, {0, 0, 1, 0, 1}, 3, 6);
        case 2: d = node(1, 3, 2, 1, 0, 0, {1, 1, 0}, 2, 0); d.ch = {prim(1)}; return d;
        case 3: d = node(0, 3, 0, 1, 2, 0, {1, 0}, 2, 0); d.ch = {prim(0)}; return d;
        case 4: d.di = {prim(1)}; d.nm = -1; return d;
        case 5: return node(1, 3, -1, -1, 0, 0, {1, 1, 1}, 3, 0);
        default: d = prim(0); d.di = {prim(0)}; return d;
    }
}

static std::vector<std::uint8_t> bytes_of(const ints& bits, bool rest)
{
    std::vector<std::uint8_t> v((bits.size() + 7) / 8, rest ? 0xff : 0);
    for (std::size_t i = 0; i < bits.size(); ++i)
    {
        const auto m = std::uint8_t(1u << (i % 8));
        if (bits[i]) v[i / 8] |= m;
        else v[i / 8] &= std::uint8_t(~m);
    }
    return v;
}
static std::vector<std::uint8_t> data_of(int val)
{
    std::vector<std::uint8_t> v(DATA * 4);
    for (int i = 0; i < DATA; ++i) { const std::int32_t t = val; std::memcpy(v.data() + i * 4, &t, 4); }
    return v;
}
static buffer<std::uint8_t> buf(const std::vector<std::uint8_t>& v)
{
    buffer<std::uint8_t> b(v.size());
    std::copy(v.begin(), v.end(), b.begin());
    return b;
}

static int fa = 0, fs = 0;   // structures of somebody else that have been released

struct FA { std::vector<void*> mem; std::vector<const void*> ptrs; std::vector<ArrowArray*> kids; ArrowArray* dict = nullptr; };
struct FS { std::string f, nm, md; std::vector<ArrowSchema*> kids; ArrowSchema* dict = nullptr; };
static void rel_a(ArrowArray* a)
{
    FA* p = static_cast<FA*>(a->private_data);
    for (ArrowArray* k : p->kids) { if (k->release) k->release(k); delete k; }
    if (p->dict) { if (p->dict->release) p->dict->release(p->dict); delete p->dict; }
    for (void* m : p->mem) std::free(m);
    delete p;
    a->release = nullptr;
    ++fa;
}
static void rel_s(ArrowSchema* a)
{
    FS* p = static_cast<FS*>(a->private_data);
    for (ArrowSchema* k : p->kids) { if (k->release) k->release(k); delete k; }
    if (p->dict) { if (p->dict->release) p->dict->release(p->dict); delete p->dict; }
    delete p;
    a->release = nullptr;
    ++fs;
}

struct Holder { ArrowArray a{}; ArrowSchema s{}; bool la = true, ls = true; };
struct M
{
    std::unique_ptr<arrow_proxy> r[2];
    std::list<Holder> lent;      // what was lent
    std::list<Holder> dicts;     // structures whose content was given away
    int leak = 0;
    bool threw = false;
    std::string peeked;

    void make(const Desc& d, ArrowArray& a, ArrowSchema& s, int var)
    {
        a = ArrowArray{};
        s = ArrowSchema{};
        if (d.s == 0)
        {
            FA* p = new FA;
            FS* q = new FS;
            auto put = [&](const std::vector<std::uint8_t>& v)
            {
                void* m = std::malloc(v.size() ? v.size() : 1);
                if (!v.empty()) std::memcpy(m, v.data(), v.size());
                p->mem.push_back(m);
                p->ptrs.push_back(m);
            };
            put(bytes_of(d.bits, var % 2));
            if (d.f != 3) put(data_of(d.val));
            for (const auto& c : d.ch)
            {
                p->kids.push_back(new ArrowArray);
                q->kids.push_back(new ArrowSchema);
                make(c, *p->kids.back(), *q->kids.back(), var + 1);
            }
            if (!d.di.empty()) { p->dict = new ArrowArray; q->dict = new ArrowSchema; make(d.di[0], *p->dict, *q->dict, var + 1); }
            q->f = FORMATS[std::size_t(d.f)];
            if (d.nm >= 0) q->nm = STRINGS[std::size_t(d.nm)];
            if (d.md >= 0) q->md = STRINGS[std::size_t(d.md)];
            a = ArrowArray{d.len, d.nc, d.off, std::int64_t(p->ptrs.size()), std::int64_t(p->kids.size()), p->ptrs.data(),
                           p->kids.empty() ? nullptr : p->kids.data(), p->dict, &rel_a, p};
            s = ArrowSchema{q->f.c_str(), d.nm >= 0 ? q->nm.c_str() : nullptr, d.md >= 0 ? q->md.c_str() : nullptr, d.fl,
                            std::int64_t(q->kids.size()), q->kids.empty() ? nullptr : q->kids.data(), q->dict, &rel_s, q};
            return;
        }
        std::vector<buffer<std::uint8_t>> bufs;
        bufs.push_back(buf(bytes_of(d.bits, var % 2)));
        if (d.f != 3) bufs.push_back(buf(data_of(d.val)));
        const std::size_t n = d.ch.size();
        ArrowArray** ac = n ? new ArrowArray*[n] : nullptr;
        ArrowSchema** sc = n ? new ArrowSchema*[n] : nullptr;
        for (std::size_t i = 0; i < n; ++i)
        {
            if (d.ch[i].g) { ac[i] = new ArrowArray; sc[i] = new ArrowSchema; }
            else { lent.emplace_back(); ac[i] = &lent.back().a; sc[i] = &lent.back().s; }
            make(d.ch[i], *ac[i], *sc[i], var + 1);
        }
        ArrowArray* ad = nullptr;
        ArrowSchema* sd = nullptr;
        if (!d.di.empty()) { ad = new ArrowArray; sd = new ArrowSchema; make(d.di[0], *ad, *sd, var + 1); }
        a = make_arrow_array(d.len, d.nc, d.off, std::move(bufs), n, ac, ad);
        auto opt = [](int v) { return v < 0 ? std::optional<std::string>() : std::optional<std::string>(STRINGS[std::size_t(v)]); };
        s = make_arrow_schema(std::string(FORMATS[std::size_t(d.f)]), opt(d.nm), opt(d.md), std::nullopt, std::int64_t(n), sc, sd);
        s.flags = d.fl;
        for (std::size_t i = 0; i < n; ++i)
        {
            static_cast<arrow_array_private_data*>(a.private_data)->set_child_ownership(i, d.ch[i].g == 1);
            static_cast<arrow_schema_private_data*>(s.private_data)->set_child_ownership(i, d.ch[i].g == 1);
        }
    }
    void fresh(int i, const Desc& d, int md, int var)
    {
        Holder t;
        Holder* t2 = &t;
        if (md != 1) { lent.emplace_back(); t2 = &lent.back(); t2->la = md == 3; }
        make(d, t2->a, t2->s, var);
        if (md == 1) r[i] = std::make_unique<arrow_proxy>(std::move(t2->a), std::move(t2->s));
        else if (md == 2) r[i] = std::make_unique<arrow_proxy>(std::move(t2->a), &t2->s);
        else r[i] = std::make_unique<arrow_proxy>(&t2->a, &t2->s);
        // what was given away is left released
        if ((md == 1 && (t.a.release || t.s.release)) || (md == 2 && t2->a.release)) std::exit(8);
    }
    int lost() const
    {
        int n = 0;
        for (const auto& l : lent) n += (l.la && !l.a.release) + (l.ls && !l.s.release);
        return n;
    }
    void clear()
    {
        leak = lost();
        r[0].reset();
        r[1].reset();
        leak += lost();
        // a child may be lent to one that was lent later or earlier: none of them is released by another
        for (auto& l : lent)
        {
            if (l.la && l.a.release) l.a.release(&l.a);
            if (l.ls && l.s.release) l.s.release(&l.s);
        }
        for (auto& d : dicts) leak += (d.a.release != nullptr) + (d.s.release != nullptr);
        lent.clear();
        dicts.clear();
    }
    arrow_proxy& at(int i, int p, int q)
    {
        arrow_proxy* n = r[i - 1].get();
        for (int k : {p, q})
        {
            if (k == 0) break;
            n = k < 0 ? n->dictionary().get() : &n->children()[std::size_t(k - 1)];
        }
        return *n;
    }
    // as long as the data buffer has to be
    void roomy(arrow_proxy& n)
    {
        if (n.format() == "+s") return;
        std::int32_t v = 0;
        if (n.length() + n.offset() > 0) std::memcpy(&v, n.array().buffers[1], 4);
        else v = 5;
        n.set_buffer(1, buf(data_of(v)));
    }
    template <class F>
    void must_throw(F f)
    {
        try { f(); threw = false; }
        catch (const arrow_proxy_exception&) { threw = true; }
        catch (...) { threw = false; }
    }
    template <class E, class F>
    void must_throw_as(F f)
    {
        try { f(); threw = false; }
        catch (const E&) { threw = true; }
        catch (...) { threw = false; }
    }
    void refuse(arrow_proxy& n, int k, int var)
    {
        Holder c, c2;
        const bool child = k >= 17 && k <= 24;
        if (child) { make(tmpl(var % 7), c.a, c.s, var); make(tmpl((var + 1) % 7), c2.a, c2.s, var); }
        const ArrowArray a0 = c.a;
        const ArrowSchema s0 = c.s;
        if (k == 22 && n.n_children() == 0) k = 17;
        if (k == 23 && n.n_children() == 0) k = 18;
        auto data = data_of(9);
        switch (k)
        {
            case 0: must_throw([&] { n.set_format("f"); }); break;
            case 1: must_throw([&] { n.set_data_type(data_type::FLOAT); }); break;
            case 2: must_throw([&] { n.set_name("other"); }); break;
            case 3: must_throw([&] { n.set_metadata("other"); }); break;
            case 4: must_throw([&] { n.set_flags({ArrowFlag::MAP_KEYS_SORTED}); }); break;
            case 5: must_throw([&] { n.set_length(1); }); break;
            case 6: must_throw([&] { n.set_null_count(0); }); break;
            case 7: must_throw([&] { n.set_offset(0); }); break;
            case 8: must_throw([&] { n.set_n_buffers(1); }); break;
            case 9: must_throw([&] { n.set_buffer(0, buffer_view<std::uint8_t>(data.data(), data.size())); }); break;
            case 10: must_throw([&] { n.set_buffer(0, buf(data)); }); break;
            case 11: must_throw([&] { n.resize_bitmap(1); }); break;
            case 12: must_throw([&] { (void) n.insert_bitmap(0, true); }); break;
            case 13: must_throw([&] { (void) n.insert_bitmap(0, std::vector<bool>{true, false}); }); break;
            case 14: must_throw([&] { (void) n.erase_bitmap(0); }); break;
            case 15: must_throw([&] { n.push_back_bitmap(true); }); break;
            case 16: must_throw([&] { n.pop_back_bitmap(); }); break;
            case 17: must_throw([&] { n.add_child(&c.a, &c.s); }); break;
            case 18: must_throw([&] { n.add_child(std::move(c.a), std::move(c.s)); }); break;
            case 19: must_throw([&] { n.add_children(std::vector<arrow_array_and_schema_pointers>{{&c.a, &c.s}, {&c2.a, &c2.s}}); }); break;
            case 20:
            {
                std::vector<arrow_array_and_schema> v{{c.a, c.s}, {c2.a, c2.s}};
                must_throw([&] { n.add_children(std::move(v)); });
                if (v.size() != 2 || v[0].array.release != a0.release || v[0].schema.release != s0.release) threw = false;
                break;
            }
            case 21: must_throw([&] { n.pop_children(var % 2); }); break;
            case 22: must_throw([&] { n.set_child(0, &c.a, &c.s); }); break;
            case 23: must_throw([&] { n.set_child(0, std::move(c.a), std::move(c.s)); }); break;
            case 24: must_throw([&] { n.set_dictionary(&c.a, &c.s); }); break;
            case 25: must_throw([&] { (void) n.get_schema_private_data(); }); break;
            case 26: must_throw([&] { (void) n.get_array_private_data(); }); break;
            case 30: must_throw_as<std::runtime_error>([&] { ArrowArray x = n.extract_array(); (void) x; }); break;
            case 31: must_throw_as<std::runtime_error>([&] { ArrowSchema x = n.extract_schema(); (void) x; }); break;
            case 32: must_throw([&] { n.pop_children(n.n_children() + std::size_t(1 + var % 2)); }); break;
            case 33:
                if (var % 3 == 0) must_throw_as<std::out_of_range>([&] { (void) n.insert_bitmap(n.length() + 1, true, std::size_t(var % 2)); });
                else if (var % 3 == 1) must_throw_as<std::out_of_range>([&] { (void) n.erase_bitmap(n.length()); });
                else must_throw_as<std::out_of_range>([&] { (void) n.insert_bitmap(n.length() + 1, std::vector<bool>{true}); });
                break;
            default: std::exit(3);
        }
        if (child)
        {
            // the caller still has them
            if (!c.a.release || c.a.release != a0.release || c.a.private_data != a0.private_data || c.s.release != s0.release || c.s.private_data != s0.private_data)
                threw = false;
            for (Holder* x : {&c, &c2})
            {
                const int ka = fa, ks = fs;
                if (x->a.release) x->a.release(&x->a);
                if (x->s.release) x->s.release(&x->s);
                fa = ka;
                fs = ks;
            }
        }
    }
    void given(arrow_proxy& n, int index, const ints& ts, int g, int var)
    {
        std::vector<Holder> hs(ts.size());
        std::vector<Holder*> ps;
        for (std::size_t i = 0; i < ts.size(); ++i)
        {
            if (g) ps.push_back(&hs[i]);
            else { lent.emplace_back(); ps.push_back(&lent.back()); }
            make(tmpl(ts[i]), ps[i]->a, ps[i]->s, var + int(i));
        }
        if (index > 0)
        {
            if (g) n.set_child(std::size_t(index - 1), std::move(ps[0]->a), std::move(ps[0]->s));
            else n.set_child(std::size_t(index - 1), &ps[0]->a, &ps[0]->s);
        }
        else if (ts.size() == 1 && var % 2)
        {
            if (g) n.add_child(std::move(ps[0]->a), std::move(ps[0]->s));
            else n.add_child(&ps[0]->a, &ps[0]->s);
        }
        else if (g)
        {
            std::vector<arrow_array_and_schema> v;
            for (auto* p : ps) v.push_back({std::exchange(p->a, ArrowArray{}), std::exchange(p->s, ArrowSchema{})});
            n.add_children(std::move(v));
            for (auto& x : v) if (x.array.release || x.schema.release) leak += 100;
        }
        else
        {
            std::vector<arrow_array_and_schema_pointers> v;
            for (auto* p : ps) v.push_back({&p->a, &p->s});
            n.add_children(v);
        }
        for (auto& x : hs) if (x.a.release || x.s.release) leak += 100;
    }
    void apply(const Cmd& m)
    {
        const auto& op = m.op;
        const auto& x = m.x;
        const int var = m.var;
        threw = false;
        if (op == "load")
        {
            clear();
            std::size_t i = 0;
            for (int k = 0; k < 2; ++k)
            {
                const int md = x.at(i++);
                if (md) fresh(k, parse_desc(x, i), md, var);
            }
            fa = fs = 0;
            return;
        }
        fa = fs = 0;
        leak = 0;
        auto& a = r[x.empty() ? 0 : x[0] - 1];
        auto& d = r[x.size() > 1 && (x[1] == 1 || x[1] == 2) ? x[1] - 1 : 0];
        auto opt = [](int v) { return v < 0 ? std::optional<const std::string_view>() : std::optional<const std::string_view>(STRINGS[std::size_t(v)]); };
        if (op == "new") fresh(x[0] - 1, tmpl(x[1]), x[2], var);
        else if (op == "drop") a.reset();
        else if (op == "copy") d = std::make_unique<arrow_proxy>(std::as_const(*a));
        else if (op == "assign") *d = std::as_const(*a);
        else if (op == "move") { d = std::make_unique<arrow_proxy>(std::move(*a)); a.reset(); }
        else if (op == "massign") { *d = std::move(*a); a.reset(); }
        else if (op == "swap") std::swap(*r[0], *r[1]);
        else if (op == "cycle")
        {
            ArrowArray y;
            ArrowSchema z;
            if (var % 2) { y = a->extract_array(); z = a->extract_schema(); }
            else { z = a->extract_schema(); y = a->extract_array(); }
            if (var % 3) a.reset();
            a = std::make_unique<arrow_proxy>(std::move(y), std::move(z));
        }
        else if (op == "slice") d = std::make_unique<arrow_proxy>(a->slice(std::size_t(x[2]), std::size_t(x[3])));
        else if (op == "peek")
        {
            arrow_proxy v = a->slice_view(std::size_t(x[1]), std::size_t(x[2]));
            counting = false;
            peeked = prox(v);
            counting = true;
        }
        else
        {
            arrow_proxy& n = at(x[0], x[1], x[2]);
            const int v = x.size() > 3 ? x[3] : 0;
            if (op == "name") n.set_name(opt(v));
            else if (op == "meta") n.set_metadata(opt(v));
            else if (op == "flags")
            {
                std::vector<ArrowFlag> f;
                for (int b : {4, 1, 2}) if (v & b) f.push_back(static_cast<ArrowFlag>(b));
                n.set_flags(f);
            }
            else if (op == "format")
            {
                if (var % 2) n.set_format(FORMATS[std::size_t(v)]);
                else n.set_data_type(v == 0 ? data_type::INT32 : v == 1 ? data_type::UINT32 : data_type::FLOAT);
            }
            else if (op == "length") n.set_length(std::size_t(v));
            else if (op == "nulls") n.set_null_count(v);
            else if (op == "offset") n.set_offset(std::size_t(v));
            else if (op == "bits")
            {
                roomy(n);
                const auto b = bytes_of(ints(x.begin() + 3, x.end()), var % 2);
                if (var % 3 == 0) n.set_buffer(0, buf(b));
                else { auto c = b; n.set_buffer(0, buffer_view<std::uint8_t>(c.data(), c.size())); }
            }
            else if (op == "value")
            {
                const auto b = data_of(v);
                if (var % 3 == 0) n.set_buffer(1, buf(b));
                else { auto c = b; n.set_buffer(1, buffer_view<std::uint8_t>(c.data(), c.size())); }
            }
            else if (op == "buffers")
            {
                const std::size_t now = n.n_buffers();
                n.set_n_buffers(now + std::size_t(v));
                if (n.n_buffers() != now + std::size_t(v) || n.array().n_buffers != std::int64_t(n.n_buffers())
                    || n.get_array_private_data()->buffers().size() != n.n_buffers()) leak += 1000;
                for (std::size_t i = now; i < n.n_buffers(); ++i) if (n.array().buffers[i] != nullptr && !n.get_array_private_data()->buffers()[i].empty()) leak += 1000;
                n.set_n_buffers(now);
            }
            else if (op == "insert")
            {
                roomy(n);
                const ints b(x.begin() + 4, x.end());
                const std::size_t len = n.length();
                std::size_t at = std::size_t(v);
                const bool same = std::all_of(b.begin(), b.end(), [&](int y) { return y == b[0]; });
                if (b.size() == 1 && at == len && var % 2) n.push_back_bitmap(b[0] != 0);
                else if (same && var % 3) at = n.insert_bitmap(std::size_t(v), b[0] != 0, b.size());
                else { std::vector<bool> w(b.begin(), b.end()); at = n.insert_bitmap(std::size_t(v), w); }
                if (at != std::size_t(v)) leak += 1000;
                n.set_length(len + b.size());
            }
            else if (op == "erase")
            {
                const std::size_t len = n.length(), c = std::size_t(x[4]);
                std::size_t at = std::size_t(v);
                if (c == 1 && at + 1 == len && var % 2) n.pop_back_bitmap();
                else at = n.erase_bitmap(std::size_t(v), c);
                if (at != std::size_t(v)) leak += 1000;
                n.set_length(len - c);
            }
            else if (op == "resize")
            {
                roomy(n);
                n.resize_bitmap(n.offset() + std::size_t(v), x[4] != 0);
                n.set_length(std::size_t(v));
            }
            else if (op == "add") given(n, 0, {x[3]}, x[4], var);
            else if (op == "addtwo") given(n, 0, {x[3], x[4]}, x[5], var);
            else if (op == "set") given(n, x[3], {x[4]}, x[5], var);
            else if (op == "pop") n.pop_children(std::size_t(v));
            else if (op == "dict")
            {
                dicts.emplace_back();
                make(tmpl(v), dicts.back().a, dicts.back().s, var);
                n.set_dictionary(&dicts.back().a, &dicts.back().s);
            }
            else if (op == "nodict") n.set_dictionary(nullptr, nullptr);
            else if (op == "refuse") refuse(n, v, var);
            else { std::cerr << "unknown command\n"; std::exit(3); }
        }
    }

    // ------------------------------------------------ what is seen
    static int str(const char* p)
    {
        if (!p) return -1;
        for (std::size_t i = 0; i < STRINGS.size(); ++i) if (STRINGS[i] == p) return int(i);
        return 77;
    }
    static int fmt(std::string_view f)
    {
        for (std::size_t i = 0; i < FORMATS.size(); ++i) if (FORMATS[i] == f) return int(i);
        return 77;
    }
    static int value(const ArrowArray& a, int f)
    {
        const std::int64_t n = a.length + a.offset;
        if (f == 3 || n == 0) return 0;
        std::int32_t v = -99, w = -99;
        for (std::int64_t i = 0; i < n; ++i)
        {
            std::memcpy(&w, static_cast<const char*>(a.buffers[1]) + 4 * i, 4);
            if (i && w != v) return -98;
            v = w;
        }
        return v;
    }
    static std::string bits(const std::uint8_t* p, std::int64_t n)
    {
        ints v;
        for (std::int64_t i = 0; i < n; ++i) v.push_back((p[i / 8] >> (i % 8)) & 1);
        return js(v);
    }
    static std::string line(int s, int f, int nm, int md, long fl, long len, long off, long nc, const std::string& b, int val)
    {
        std::ostringstream o;
        o << "{\"s\":" << s << ",\"f\":" << f << ",\"nm\":" << nm << ",\"md\":" << md << ",\"fl\":" << fl << ",\"len\":" << len << ",\"off\":" << off
          << ",\"nc\":" << nc << ",\"bits\":" << b << ",\"val\":" << val;
        return o.str();
    }
    static std::string raw(const ArrowArray* a, const ArrowSchema* s)
    {
        if (!a || !s || !a->release || !s->release) return "{\"bad\":\"released\"}";
        if (a->n_children != s->n_children || (a->dictionary == nullptr) != (s->dictionary == nullptr)) return "{\"bad\":\"the structures differ\"}";
        const bool sa = a->release == &release_arrow_array, ss = s->release == &release_arrow_schema;
        const int f = fmt(s->format);
        if (a->n_buffers != (f == 3 ? 1 : 2)) return "{\"bad\":\"wrong number of buffers\"}";
        std::string o = line(sa && ss ? 1 : sa || ss ? 2 : 0, f, str(s->name), str(s->metadata), long(s->flags), long(a->length), long(a->offset), long(a->null_count),
                             bits(static_cast<const std::uint8_t*>(a->buffers[0]), a->length + a->offset), value(*a, f));
        o += ",\"ch\":[";
        for (std::int64_t i = 0; i < a->n_children; ++i) o += (i ? "," : "") + raw(a->children[i], s->children[i]);
        o += "],\"di\":[";
        if (a->dictionary) o += raw(a->dictionary, s->dictionary);
        return o + "]}";
    }
    static std::string prox(const arrow_proxy& p)
    {
        auto st = [](std::optional<const std::string_view> v)
        {
            if (!v) return -1;
            for (std::size_t i = 0; i < STRINGS.size(); ++i) if (STRINGS[i] == *v) return int(i);
            return 78;
        };
        const int f = fmt(p.format());
        const data_type dt = p.data_type();
        if (dt != (f == 0 ? data_type::INT32 : f == 1 ? data_type::UINT32 : f == 2 ? data_type::FLOAT : data_type::STRUCT)) return "{\"bad\":\"data type\"}";
        if (p.n_buffers() != (f == 3 ? 1u : 2u) || p.buffers().size() != p.n_buffers()) return "{\"bad\":\"buffers\"}";
        for (std::size_t i = 0; i < p.n_buffers(); ++i)
            if (p.buffers()[i].data() != p.array().buffers[i]) return "{\"bad\":\"the buffers differ\"}";
        if (p.private_data() != p.array().private_data) return "{\"bad\":\"private data\"}";
        if (p.children().size() != p.n_children()) return "{\"bad\":\"children\"}";
        std::string o = line(p.is_created_with_sparrow() ? 1 : 0, f, st(p.name()), st(p.metadata()), long(to_ArrowFlag_value(p.flags())), long(p.length()),
                             long(p.offset()), long(p.null_count()), bits(p.buffers()[0].data(), std::int64_t(p.length() + p.offset())), value(p.array(), f));
        o += ",\"ch\":[";
        for (std::size_t i = 0; i < p.children().size(); ++i)
        {
            const arrow_proxy& c = p.children()[i];
            if (&c.array() != p.array().children[i] || &c.schema() != p.schema().children[i] || c.owns_array() || c.owns_schema()) return "{\"bad\":\"children differ\"}";
            o += (i ? "," : "") + prox(c);
        }
        o += "],\"di\":[";
        if ((p.dictionary() != nullptr) != (p.array().dictionary != nullptr)) return "{\"bad\":\"dictionary\"}";
        if (p.dictionary())
        {
            if (&p.dictionary()->array() != p.array().dictionary || &p.dictionary()->schema() != p.schema().dictionary) return "{\"bad\":\"dictionary differs\"}";
            o += prox(*p.dictionary());
        }
        return o + "]}";
    }
    std::string obs(bool peek, long left)
    {
        std::string ra, pr, ow;
        for (int i = 0; i < 2; ++i)
        {
            if (i) { ra += ","; pr += ","; ow += ","; }
            ra += "[" + (r[i] ? raw(&std::as_const(*r[i]).array(), &std::as_const(*r[i]).schema()) : std::string()) + "]";
            pr += "[" + (r[i] ? (i ? prox(r[i]->view()) : prox(*r[i])) : std::string()) + "]";
            ow += r[i] ? js(ints{int(r[i]->owns_array()), int(r[i]->owns_schema())}) : "[-1,-1]";
        }
        return "{\"raw\":[" + ra + "],\"prox\":[" + pr + "],\"own\":[" + ow + "],\"fr\":" + js(ints{fa, fs}) + ",\"lost\":" + std::to_string(lost() + leak + left)
               + ",\"threw\":" + std::to_string(int(threw)) + ",\"peek\":[" + (peek ? peeked : "") + "]}";
    }
};

int main(int argc, char** argv)
{
    if (argc != 5 || std::string(argv[1]) != "run") return 3;
    M m;
    Out out(argv[4]);
    std::ifstream in(argv[3]);
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        out.about(line);
        const Cmd c = parse(line);
        long left = 0;
        counting = true;
        if (c.op == "load")
        {
            m.clear();
            left = balance;
            balance = 0;
            left += m.leak;
        }
        m.apply(c);
        counting = false;
        out.line("{\"op\":\"" + c.op + "\",\"x\":" + js(c.x) + ",\"obs\":" + m.obs(c.op == "peek", left) + "}");
        m.peeked = std::string();
    }
    m.clear();
    return 0;
}
