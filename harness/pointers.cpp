// value_ptr and cloning_ptr under commands, with pointees that count themselves.
#include "common.hpp"
#include <utility>
#include "sparrow/utils/memory.hpp"
using namespace h;
using namespace sparrow;

static int live = 0;
struct Counted
{
    int v;
    explicit Counted(int x) : v(x) { ++live; }
    Counted(const Counted& o) : v(o.v) { ++live; }
    Counted& operator=(const Counted&) = default;
    ~Counted() { --live; }
};
struct Base : Counted
{
    using Counted::Counted;
    virtual ~Base() = default;
    virtual int kind() const { return 1; }
    std::unique_ptr<Base> clone() const { return std::unique_ptr<Base>(clone_impl()); }
    virtual Base* clone_impl() const { return new Base(*this); }
};
struct Pad { int x[7] = {}; virtual ~Pad() = default; };
// the base is not the first part of it
struct Derived : Pad, Base
{
    std::string s = "a string that does not fit into itself";
    explicit Derived(int x) : Base(x) {}
    int kind() const override { return s.size() == 38 ? 2 : 9; }
    std::unique_ptr<Derived> clone() const { return std::unique_ptr<Derived>(clone_impl()); }
    Derived* clone_impl() const override { return new Derived(*this); }
};

using VP = value_ptr<Counted>;
using CB = cloning_ptr<Base>;
using CD = cloning_ptr<Derived>;

struct M
{
    std::unique_ptr<VP> v[2];
    std::unique_ptr<CB> c[2];
    std::unique_ptr<CD> d;
    Base* raw = nullptr;

    ~M() { delete raw; }
    static Base* make(int k, int x) { return k == 1 ? new Base(x) : new Derived(x); }
    template <class G>
    void on(int n, G g)
    {
        if (n <= 2) g(v[n - 1]);
        else if (n <= 4) g(c[n - 3]);
        else g(d);
    }
    template <class P>
    static constexpr bool isv = std::same_as<P, VP>;
    template <class P, class Q>
    static constexpr bool fits = (isv<P> && isv<Q>) || (std::same_as<P, CB> && !isv<Q>) || (std::same_as<P, CD> && std::same_as<Q, CD>);

    void fresh(int n, int k, int x, int var)
    {
        on(n, [&](auto& s)
        {
            using P = typename std::remove_cvref_t<decltype(s)>::element_type;
            s.reset();
            if constexpr (isv<P>)
            {
                if (k < 0) s = var % 2 ? std::make_unique<P>() : std::make_unique<P>(nullptr);
                else if (var % 2) s = std::make_unique<P>(Counted(x));
                else { Counted t(x); s = std::make_unique<P>(&t); }
            }
            else if constexpr (std::same_as<P, CB>)
            {
                if (k < 0) s = var % 2 ? std::make_unique<P>() : std::make_unique<P>(nullptr);
                else if (k == 1 && var % 2) s = std::make_unique<P>(make_cloning_ptr<Base>(x));
                else if (k == 2 && var % 2) s = std::make_unique<P>(make_cloning_ptr<Derived>(x));
                else s = std::make_unique<P>(make(k, x));
            }
            else
            {
                if (k < 0) s = var % 2 ? std::make_unique<P>() : std::make_unique<P>(nullptr);
                else if (var % 2) s = std::make_unique<P>(make_cloning_ptr<Derived>(x));
                else s = std::make_unique<P>(new Derived(x));
            }
        });
    }
    void apply(const Cmd& m)
    {
        const auto& op = m.op;
        const auto& x = m.x;
        const int n = x[0];
        if (op == "load")
        {
            for (int i = 1; i <= 5; ++i) fresh(i, x[std::size_t(2 * i - 2)], x[std::size_t(2 * i - 1)], m.var);
            delete raw;
            raw = x[10] < 0 ? nullptr : make(x[10], x[11]);
        }
        else if (op == "newNull") fresh(n, -1, 0, m.var);
        else if (op == "newVal") fresh(n, x[1], x[2], m.var);
        else if (op == "newCopy" || op == "newMove" || op == "assign" || op == "move")
            on(n, [&](auto& a) { on(x[1], [&](auto& b)
            {
                using P = typename std::remove_cvref_t<decltype(a)>::element_type;
                using Q = typename std::remove_cvref_t<decltype(b)>::element_type;
                if constexpr (fits<P, Q>)
                {
                    if (op == "newCopy") a = std::make_unique<P>(std::as_const(*b));
                    else if (op == "newMove") a = std::make_unique<P>(std::move(*b));
                    else if (op == "assign") *a = std::as_const(*b);
                    else *a = std::move(*b);
                }
            }); });
        else if (op == "nullAsg") on(n, [&](auto& a) { *a = nullptr; });
        else if (op == "reset") on(n, [&](auto& a) { a->reset(); });
        else if (op == "resetTo")
        {
            if (n <= 4) c[n - 3]->reset(make(x[1], x[2]));
            else d->reset(new Derived(x[2]));
        }
        else if (op == "swap")
            on(n, [&](auto& a) { on(x[1], [&](auto& b)
            {
                if constexpr (std::same_as<decltype(a), decltype(b)>)
                {
                    using P = typename std::remove_cvref_t<decltype(a)>::element_type;
                    using std::swap;
                    if constexpr (isv<P>) swap(*a, *b);
                    else if (m.var % 2) swap(*a, *b);
                    else a->swap(*b);
                }
            }); });
        else if (op == "set")
            on(n, [&](auto& a)
            {
                if (m.var % 3 == 0) (**a).v = x[1];
                else if (m.var % 3 == 1) (*a)->v = x[1];
                else a->get()->v = x[1];
            });
        else if (op == "release") raw = n <= 4 ? c[n - 3]->release() : d->release();
        else if (op == "adopt")
        {
            if (m.var % 2) c[n - 3]->reset(raw);
            else { c[n - 3].reset(); c[n - 3] = std::make_unique<CB>(raw); }
            raw = nullptr;
        }
        else { std::cerr << "unknown command\n"; std::exit(3); }
    }
    template <class A, class B>
    static int eq(const A& a, const B& b)
    {
        const bool e = a == b;
        const auto o = a <=> b;
        const auto back = b <=> a;
        const bool ok = (a != b) == !e && ((o == 0) == e) && (a < b) == (o < 0) && (a > b) == (o > 0) && (a <= b) == (o <= 0)
                        && (a >= b) == (o >= 0) && ((o < 0) == (back > 0)) && (b == a) == e;
        return ok ? int(e) : 7;
    }
    std::string obs(int var)
    {
        std::string lk, nu;
        for (int n = 1; n <= 5; ++n)
            on(n, [&](auto& s)
            {
                const auto& p = *s;
                using P = std::remove_cvref_t<decltype(p)>;
                if (n > 1) { lk += ','; nu += ','; }
                bool has = bool(p);
                bool same = (p.get() != nullptr) == has;
                if constexpr (isv<P>) { same = same && p.has_value() == has && (s->get() == p.get()); nu += std::to_string(int(!p.has_value())); }
                else
                {
                    same = same && (p != nullptr) == has && (nullptr == p) == !has && ((p <=> nullptr) == 0) == !has && (p > nullptr) == has;
                    nu += std::to_string(int(p == nullptr));
                }
                int k = -1, val = -1;
                if (has)
                {
                    if constexpr (isv<P>) k = 0;
                    else k = p->kind();
                    val = var % 2 ? (*p).v : p->v;
                    if (val != p.get()->v) val = -5;
                }
                lk += js(ints{same ? int(has) : 9, k, val});
            });
        lk += "," + (raw ? js(ints{1, raw->kind(), raw->v}) : js(ints{0, -1, -1}));
        std::string e = "[" + js(ints{eq(*c[0], *c[0]), eq(*c[0], *c[1]), eq(*c[0], *d)}) + ","
                        + js(ints{eq(*c[1], *c[0]), eq(*c[1], *c[1]), eq(*c[1], *d)}) + ","
                        + js(ints{eq(*d, *c[0]), eq(*d, *c[1]), eq(*d, *d)}) + "]";
        return "{\"look\":[" + lk + "],\"live\":" + std::to_string(live) + ",\"eq\":" + e + ",\"nul\":[" + nu + "]}";
    }
};

int main(int argc, char** argv)
{
    if (argc != 5 || std::string(argv[1]) != "run") return 3;
    {
        M m;
        Out out(argv[4]);
        std::ifstream in(argv[3]);
        std::string line;
        while (std::getline(in, line))
        {
            if (line.empty()) continue;
            out.about(line);
            const Cmd c = parse(line);
            m.apply(c);
            out.line("{\"op\":\"" + c.op + "\",\"x\":" + js(c.x) + ",\"obs\":" + m.obs(c.var) + "}");
        }
    }
    return live == 0 ? 0 : 1;
}
