// Nullables: owning ones, ones referring to values and flags elsewhere, and a
// variant of nullables, under commands.
#include "common.hpp"
#include "sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp"
#include "sparrow/utils/nullable.hpp"

using namespace h;
using namespace sparrow;

template <class T>
struct Conv
{
    static T to(int i) { return T(i); }
    static int from(const T& v) { return int(v); }
};
template <>
struct Conv<double>
{
    static double to(int i) { return i * 0.25; }
    static int from(double v) { return int(v * 4); }
};
template <>
struct Conv<std::string>
{
    static std::string to(int i) { return i == 0 ? "" : std::string(std::size_t(i) * 20, 'm'); }
    static int from(const std::string& v) { return int(v.size() / 20); }
};
template <>
struct Conv<std::vector<int>>
{
    static std::vector<int> to(int i) { return i == 0 ? std::vector<int>{} : std::vector<int>{7, i}; }
    static int from(const std::vector<int>& v) { return v.empty() ? 0 : v[1]; }
};

struct IM
{
    virtual ~IM() = default;
    virtual void apply(const Cmd&) = 0;
    virtual std::string obs(int var) = 0;
};

template <class O>
int sign(O o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

template <class A, class B>
std::string code(const A& a, const B& b)
{
    const int r = int(a == b) + 2 * int(a != b) + 4 * int(a < b) + 8 * int(a <= b) + 16 * int(a > b) + 32 * int(a >= b)
                  + 64 * (sign(a <=> b) + 1);
    return std::to_string(r);
}

// Flags next to each other, either plain or bits.
struct Plain
{
    using ref = bool&;
    using cref = const bool&;
    std::array<bool, 2> f{};
    bool& at(int i) { return f[std::size_t(i)]; }
    const bool& cat(int i) const { return f[std::size_t(i)]; }
};
struct Bits
{
    using bitset = dynamic_bitset<std::uint8_t>;
    using ref = bitset::reference;
    using cref = bool;
    bitset f{std::size_t(2), false};
    ref at(int i) { return f[std::size_t(i)]; }
    bool cat(int i) const { return std::as_const(f)[std::size_t(i)]; }
};

template <class T, class F>
struct M : IM
{
    using C = Conv<T>;
    using own = nullable<T>;
    using ref = nullable<T&, typename F::ref>;
    using cref = nullable<const T&, typename F::cref>;
    using var_t = nullable_variant<nullable<T>, nullable<char>>;

    std::array<std::unique_ptr<own>, 2> o;
    std::array<T, 2> mem{};
    F flags;
    var_t v{nullable<T>()};

    M()
    {
        for (auto& x : o) x = std::make_unique<own>();
    }
    static int mi(int n) { return n == 4 ? 1 : 0; }
    ref r(int n)
    {
        if constexpr (std::is_reference_v<typename F::ref>) return ref(mem[std::size_t(mi(n))], flags.at(mi(n)));
        else return ref(mem[std::size_t(mi(n))], flags.at(mi(n)));
    }
    cref cr(int n)
    {
        if constexpr (std::is_reference_v<typename F::cref>) return cref(mem[std::size_t(mi(n))], flags.cat(mi(n)));
        else return cref(mem[std::size_t(mi(n))], flags.cat(mi(n)));
    }
    template <class G>
    void on(int n, G g)
    {
        if (n <= 2) g(*o[std::size_t(n - 1)]);
        else
        {
            ref x = r(n);
            g(x);
        }
    }
    // reading may also go through references to constants
    template <class G>
    void read(int n, bool c, G g)
    {
        if (n <= 2)
        {
            if (c) g(std::as_const(*o[std::size_t(n - 1)]));
            else g(*o[std::size_t(n - 1)]);
        }
        else if (c)
        {
            const cref x = cr(n);
            g(x);
        }
        else
        {
            ref x = r(n);
            g(x);
        }
    }
    void apply(const Cmd& c) override
    {
        const auto& x = c.x;
        const auto& op = c.op;
        if (op == "load")
        {
            for (int i = 0; i < 2; ++i)
            {
                o[std::size_t(i)] = std::make_unique<own>(C::to(std::max(0, x[std::size_t(2 * i)])), bool(x[std::size_t(2 * i + 1)]));
                mem[std::size_t(i)] = C::to(std::max(0, x[std::size_t(4 + 2 * i)]));
                flags.at(i) = bool(x[std::size_t(5 + 2 * i)]);
            }
            v = var_t(nullable<T>(C::to(0), bool(x[9])));
            return;
        }
        const int n = x[0];
        auto slot = [&]() -> std::unique_ptr<own>& { return o[std::size_t(n - 1)]; };
        // a variable of the value type, a constant one, or a temporary
        auto given = [&](int i, auto g)
        {
            T t = C::to(i);
            const T k = t;
            if (c.var % 3 == 0) g(t);
            else if (c.var % 3 == 1) g(k);
            else g(C::to(i));
        };
        if (op == "new") slot() = std::make_unique<own>();
        else if (op == "newNull") slot() = std::make_unique<own>(nullval);
        else if (op == "newVal") given(x[1], [&](auto&& t) { slot() = std::make_unique<own>(std::forward<decltype(t)>(t)); });
        else if (op == "newBoth")
        {
            T t = C::to(x[1]);
            bool f = x[2];
            switch (c.var % 4)
            {
                case 0: slot() = std::make_unique<own>(std::move(t), std::move(f)); break;
                case 1: slot() = std::make_unique<own>(t, f); break;
                case 2: slot() = std::make_unique<own>(std::move(t), f); break;
                default: slot() = std::make_unique<own>(t, std::move(f)); break;
            }
        }
        else if (op == "newCopy")
            read(x[1], c.var % 2, [&](auto&& s) { slot() = std::make_unique<own>(std::as_const(s)); });
        else if (op == "newMove")
        {
            on(x[1], [&](auto& s) { slot() = std::make_unique<own>(std::move(s)); });
            if (x[1] <= 2) *o[std::size_t(x[1] - 1)] = nullval;
        }
        else if (op == "setNull") on(n, [&](auto& s) { s = nullval; });
        else if (op == "setVal") on(n, [&](auto& s) { given(x[1], [&](auto&& t) { s = std::forward<decltype(t)>(t); }); });
        else if (op == "assign")
            on(n, [&](auto& d) { read(x[1], c.var % 2, [&](auto&& s) { d = std::as_const(s); }); });
        else if (op == "move")
        {
            on(n, [&](auto& d) { on(x[1], [&](auto& s) { d = std::move(s); }); });
            if (x[1] <= 2) *o[std::size_t(x[1] - 1)] = nullval;
        }
        else if (op == "reset") on(n, [&](auto& s) { s.reset(); });
        else if (op == "swap")
        {
            if constexpr (std::is_reference_v<typename F::ref>)
                on(n, [&](auto& a) { on(x[1], [&](auto& b) {
                    using std::swap;
                    if constexpr (std::same_as<decltype(a), decltype(b)>) { if (c.var % 2) a.swap(b); else swap(a, b); } }); });
            else
                on(n, [&](auto& a) { on(x[1], [&](auto& b) {
                    if constexpr (std::same_as<decltype(a), decltype(b)> && !std::same_as<std::remove_cvref_t<decltype(a)>, ref>) a.swap(b);
                    else if constexpr (std::same_as<decltype(a), decltype(b)>) { own t(a); a = b; b = t; } }); });
        }
        else if (op == "poke")
            on(n, [&](auto& s)
            {
                if (c.var % 3 == 1 && s.has_value()) s.value() = C::to(x[1]);
                else s.get() = C::to(x[1]);
            });
        else if (op == "pokeFlag") on(n, [&](auto& s) { s.null_flag() = bool(x[1]); });
        else if (op == "outside") { mem[std::size_t(n - 3)] = C::to(x[1]); flags.at(n - 3) = bool(x[2]); }
        else if (op == "var")
        {
            const bool f = x[2];
            nullable<T> a{C::to(x[1]), bool(f)};
            nullable<char> b{char(x[1]), bool(f)};
            var_t w = x[0] == 0 ? var_t(a) : var_t(b);
            switch (c.var % 4)
            {
                case 0: v = w; break;
                case 1: v = std::move(w); break;
                case 2: if (x[0] == 0) v = var_t(std::move(a)); else v = var_t(std::move(b)); break;
                default: { var_t z(w); v = var_t(std::move(z)); }
            }
        }
        else { std::cerr << "unknown command " << op << "\n"; std::exit(3); }
    }
    template <class N>
    static std::string look(N& s, int var)
    {
        ints r{s.has_value(), bool(s), C::from(s.get())};
        try
        {
            if (var % 3 == 0) r.push_back(C::from(s.value()));
            else if (var % 3 == 1) r.push_back(C::from(std::as_const(s).value()));
            else { auto t = s; r.push_back(C::from(std::move(t).value())); }
        }
        catch (const bad_nullable_access&) { r.push_back(-9); }
        catch (...) { r.push_back(-8); }
        if (var % 2) r.push_back(C::from(s.value_or(C::to(2))));
        else { auto t = s; r.push_back(C::from(std::move(t).value_or(C::to(2)))); }
        return js(r);
    }
    std::string obs(int var) override
    {
        std::string lk, cm, nu, va;
        for (int n = 1; n <= 5; ++n)
        {
            const bool c = (var + n) % 2;
            if (n > 1) { lk += ','; cm += ','; nu += ','; va += ','; }
            read(n, c, [&](auto& s)
            {
                lk += look(s, var + n);
                nu += code(s, nullval);
                va += '[';
                for (int k = 0; k < 3; ++k) va += (k ? "," : "") + code(s, C::to(k));
                va += ']';
                cm += '[';
                for (int m = 1; m <= 5; ++m) read(m, (var / 2) % 2, [&](auto& t) { cm += (m > 1 ? "," : "") + code(s, t); });
                cm += ']';
            });
        }
        ints me;
        return "{\"look\":[" + lk + "],\"cmp\":[" + cm + "],\"nul\":[" + nu + "],\"val\":[" + va + "],\"mem\":["
               + js(ints{C::from(mem[0]), int(bool(flags.cat(0)))}) + "," + js(ints{C::from(mem[1]), int(bool(flags.cat(1)))}) + "],\"var\":"
               + js(ints{v.has_value(), bool(v)}) + "}";
    }
};

int main(int argc, char** argv)
{
    if (argc != 5 || std::string(argv[1]) != "run") return 3;
    std::unique_ptr<IM> m;
    switch (std::atoi(argv[2]))
    {
        case 0: m = std::make_unique<M<int, Plain>>(); break;
        case 1: m = std::make_unique<M<std::string, Plain>>(); break;
        case 2: m = std::make_unique<M<double, Bits>>(); break;
        case 3: m = std::make_unique<M<std::vector<int>, Plain>>(); break;
        case 4: m = std::make_unique<M<std::string, Bits>>(); break;
        default: return 3;
    }
    Out out(argv[4]);
    std::ifstream in(argv[3]);
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        out.about(line);
        const Cmd c = parse(line);
        m->apply(c);
        out.line("{\"op\":\"" + c.op + "\",\"x\":" + js(c.x) + ",\"obs\":" + m->obs(c.var) + "}");
    }
}
