// Record batches under commands.
#include "common.hpp"
#include <deque>
#include <list>
#include <span>
#include "sparrow/array.hpp"
#include "sparrow/builder/builder.hpp"
#include "sparrow/record_batch.hpp"
using namespace h;
using namespace sparrow;

static const strs NAMES = {"", "a", "ab", "a name that does not fit into a small string"};
static const strs WORDS = {"", "x", "a word that does not fit into a small string"};

static int content(int n, int s, int i) { (void) n; int v = (s + i + 1) % 4; return v == 3 ? -1 : v; }

static array column(int k, int n, int s, int var)
{
    // now and then a slice of something longer
    const int extra = var % 3 == 1 ? 2 : 0;
    const int total = n + 2 * extra;
    auto val = [&](int i) { return content(n, s, i - extra); };
    auto done = [&](array a) { return extra ? a.slice(std::size_t(extra), std::size_t(extra + n)) : a; };
    if (k == 0)
    {
        std::vector<nullable<int>> v;
        for (int i = 0; i < total; ++i) v.push_back(val(i) < 0 ? nullable<int>(nullval) : nullable<int>(val(i)));
        return done(array(primitive_array<int>(v)));
    }
    if (k == 1)
    {
        std::vector<nullable<std::string>> v;
        for (int i = 0; i < total; ++i)
            v.push_back(val(i) < 0 ? nullable<std::string>(nullval) : nullable<std::string>(WORDS[std::size_t(val(i))]));
        return done(array(string_array(v)));
    }
    if (k == 2)
    {
        std::vector<nullable<std::vector<int>>> v;
        for (int i = 0; i < total; ++i)
            v.push_back(val(i) < 0 ? nullable<std::vector<int>>(nullval) : nullable<std::vector<int>>(std::vector<int>(std::size_t(val(i)), 5)));
        return done(array(build(v)));
    }
    std::vector<nullable<std::string>> v;
    for (int i = 0; i < total; ++i)
        v.push_back(val(i) < 0 ? nullable<std::string>(nullval) : nullable<std::string>(WORDS[std::size_t(val(i))]));
    return done(array(build(dict_encode<std::vector<nullable<std::string>>>(v))));
}

static ints read(const array& a)
{
    const ArrowSchema& sc = *get_arrow_schema(const_cast<array&>(a));
    const std::string f = sc.format;
    ints r{sc.dictionary ? 3 : f == "i" ? 0 : f == "u" ? 1 : f == "+l" ? 2 : 9};
    for (std::size_t i = 0; i < a.size(); ++i)
    {
        r.push_back(std::visit([&](const auto& e) -> int
        {
            using T = std::remove_cvref_t<decltype(e)>;
            if (!e.has_value()) return -1;
            using V = std::remove_cvref_t<typename T::value_type>;
            if constexpr (std::same_as<V, int>) return e.value();
            else if constexpr (std::convertible_to<V, std::string_view>)
            {
                for (std::size_t w = 0; w < WORDS.size(); ++w) if (std::string_view(e.value()) == WORDS[w]) return int(w);
                return 77;
            }
            else if constexpr (std::same_as<V, list_value>)
            {
                for (std::size_t j = 0; j < e.value().size(); ++j)
                    if (!std::holds_alternative<nullable<const int&>>(e.value()[j]) || std::get<nullable<const int&>>(e.value()[j]).value() != 5) return 78;
                return int(e.value().size());
            }
            else return 79;
        }, a[i]));
    }
    return r;
}
static int name_of(std::string_view s)
{
    for (std::size_t i = 0; i < NAMES.size(); ++i) if (s == NAMES[i]) return int(i);
    return 99;
}
template <class R>
static std::string many(R&& cols)
{
    std::string s = "[";
    for (const auto& c : cols) { if (s.size() > 1) s += ','; s += js(read(c)); }
    return s + "]";
}
template <class R>
static ints names_of(R&& r)
{
    ints v;
    for (const auto& n : r) v.push_back(name_of(n));
    return v;
}

struct M
{
    strs names;
    std::vector<array> cols;
    int rows = 0;
    std::unique_ptr<record_batch> b[2];
    bool moved[2] = {false, false};

    using P = std::unique_ptr<record_batch>;
    // from ranges that stay as they are
    P keep(int var)
    {
        const strs& cn = names;
        const std::vector<array>& cc = cols;
        switch (var)
        {
            case 0: return std::make_unique<record_batch>(names, cols);
            case 1: return std::make_unique<record_batch>(cn, cc);
            case 2: return std::make_unique<record_batch>(names | std::views::all, cols | std::views::all);
            case 3: return std::make_unique<record_batch>(std::span<std::string>(names), std::span<array>(cols));
            case 4: return std::make_unique<record_batch>(cn | std::views::all, std::span<const array>(cc));
            case 5:
            {
                std::deque<std::string> dn(names.begin(), names.end());
                std::deque<array> dc(cols.begin(), cols.end());
                auto r = std::make_unique<record_batch>(dn, dc);
                if (!std::ranges::equal(dn, names) || !std::ranges::equal(dc, cols)) std::exit(9);
                return r;
            }
            case 6:
            {
                std::vector<const char*> cs;
                for (auto& n : names) cs.push_back(n.c_str());
                return std::make_unique<record_batch>(cs, std::ranges::subrange(cols.begin(), cols.end()));
            }
            case 7:
                return std::make_unique<record_batch>(
                    names | std::views::transform([](const std::string& s) { return s; }),
                    cols | std::views::transform([](const array& a) { return a; }));
            case 8:
            {
                std::list<array> l(cols.begin(), cols.end());
                const auto& cl = l;
                return std::make_unique<record_batch>(names, cl);
            }
            case 9: return std::make_unique<record_batch>(std::views::reverse(strs(names.rbegin(), names.rend())), cols);
            default:
            {
                using pr = std::pair<std::string, array>;
                switch (names.size())
                {
                    case 0: return std::make_unique<record_batch>(record_batch::initializer_type{});
                    case 1: return std::make_unique<record_batch>(record_batch::initializer_type{pr{names[0], cols[0]}});
                    case 2: return std::make_unique<record_batch>(record_batch::initializer_type{pr{names[0], cols[0]}, pr{names[1], cols[1]}});
                    default: return std::make_unique<record_batch>(record_batch::initializer_type{pr{names[0], cols[0]}, pr{names[1], cols[1]}, pr{names[2], cols[2]}});
                }
            }
        }
    }
    P take(int var)
    {
        P r;
        if (var % 3 == 0) r = std::make_unique<record_batch>(std::move(names), std::move(cols));
        else if (var % 3 == 1) { const strs n = names; r = std::make_unique<record_batch>(n, std::move(cols)); }
        else
        {
            std::list<array> l;
            for (auto& c : cols) l.push_back(std::move(c));
            r = std::make_unique<record_batch>(std::move(names), std::move(l));
        }
        names.clear();
        cols.clear();
        return r;
    }
    void load(const ints& x, int var)
    {
        for (int o : {1, 2, 0})
        {
            const int* p = x.data() + 12 * o;
            names.clear();
            cols.clear();
            rows = p[1];
            for (int i = 0; i < p[2]; ++i)
            {
                names.push_back(NAMES[std::size_t(p[3 + 3 * i])]);
                cols.push_back(column(p[4 + 3 * i], rows, p[5 + 3 * i], var + i));
            }
            if (o)
            {
                b[o - 1].reset();
                moved[o - 1] = p[0] == 2;
                if (p[0] == 1) b[o - 1] = keep((var + o) % 12);
                else if (p[0] == 2)
                {
                    b[o - 1] = keep(var);
                    record_batch other(std::move(*b[o - 1]));
                }
            }
        }
    }
    void apply(const Cmd& m)
    {
        const auto& op = m.op;
        const auto& x = m.x;
        auto slot = [&](int i) -> P& { return b[x[std::size_t(i)] - 1]; };
        if (op == "load") load(x, m.var);
        else if (op == "rows") rows = x[0];
        else if (op == "push") { names.push_back(NAMES[std::size_t(x[0])]); cols.push_back(column(x[1], rows, x[2], m.var)); }
        else if (op == "pop") { names.pop_back(); cols.pop_back(); }
        else if (op == "name") names[std::size_t(x[0] - 1)] = NAMES[std::size_t(x[1])];
        else if (op == "col") cols[std::size_t(x[0] - 1)] = column(x[1], rows, x[2], m.var);
        else if (op == "make") { slot(0) = nullptr; slot(0) = keep(m.var); moved[x[0] - 1] = false; }
        else if (op == "take") { slot(0) = nullptr; slot(0) = take(m.var); moved[x[0] - 1] = false; }
        else if (op == "copy") { slot(1) = nullptr; slot(1) = std::make_unique<record_batch>(std::as_const(*slot(0))); moved[x[1] - 1] = false; }
        else if (op == "move") { slot(1) = nullptr; slot(1) = std::make_unique<record_batch>(std::move(*slot(0))); moved[x[1] - 1] = false; moved[x[0] - 1] = true; }
        else if (op == "assign") { *slot(1) = std::as_const(*slot(0)); moved[x[1] - 1] = false; }
        else if (op == "massign") { *slot(1) = std::move(*slot(0)); moved[x[1] - 1] = false; moved[x[0] - 1] = true; }
        else if (op == "swap") std::swap(*slot(0), *slot(1));
        else if (op == "drop") { slot(0) = nullptr; moved[x[0] - 1] = false; }
        else { std::cerr << "unknown command\n"; std::exit(3); }
    }
    std::string see(int k)
    {
        if (!b[k]) return "{\"st\":0}";
        if (moved[k]) return "{\"st\":2}";
        const record_batch& r = *b[k];
        const std::size_t n = r.nb_columns();
        ints ns = names_of(r.names()), again;
        for (std::size_t i = 0; i < n; ++i) again.push_back(name_of(r.get_column_name(i)));
        if (again != ns) ns.push_back(-50);
        std::string cs = many(r.columns()), cs2 = "[";
        for (std::size_t i = 0; i < n; ++i) { if (i) cs2 += ','; cs2 += js(read(r.get_column(i))); }
        if (cs2 + "]" != cs) cs = "[[-99]]";
        ints at;
        for (const auto& name : NAMES)
        {
            int where = 0;
            try
            {
                const array& a = r.get_column(name);
                for (std::size_t i = 0; i < n; ++i)
                    if (&a == &r.get_column(i) && &a == &r.columns()[i]) where = int(i) + 1;
                if (!where || read(a) != read(r.get_column(std::size_t(where - 1)))) where = -60;
            }
            catch (const std::out_of_range&) {}
            catch (...) { where = -70; }
            at.push_back(r.contains_column(name) == (where > 0) ? where : -80);
        }
        return "{\"st\":1,\"names\":" + js(ns) + ",\"cols\":" + cs + ",\"nc\":" + std::to_string(n) + ",\"nr\":" + std::to_string(r.nb_rows())
               + ",\"at\":" + js(at) + "}";
    }
    int eq(int i, int j)
    {
        if (!b[i] || !b[j] || moved[i] || moved[j]) return -1;
        const bool e = *b[i] == *b[j];
        return (*b[i] != *b[j]) == !e ? int(e) : 5;
    }
    std::string obs()
    {
        return "{\"src\":{\"names\":" + js(names_of(names)) + ",\"cols\":" + many(cols) + "},\"one\":" + see(0) + ",\"two\":" + see(1)
               + ",\"eq\":[" + js(ints{eq(0, 0), eq(0, 1)}) + "," + js(ints{eq(1, 0), eq(1, 1)}) + "]}";
    }
};

int main(int argc, char** argv)
{
    if (argc != 5 || std::string(argv[1]) != "run") return 3;
    M m;
    Out out(argv[4]);
    std::ifstream in(argv[3]);
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        out.about(line);
        const Cmd c = parse(line);
        m.apply(c);
        out.line("{\"op\":\"" + c.op + "\",\"x\":" + js(c.x) + ",\"obs\":" + m.obs() + "}");
    }
    return 0;
}
