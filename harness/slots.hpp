// What a slot of the array machine may hold: sparrow::array or a typed layout.
#pragma once
#include "raw.hpp"
#include "sparrow/array.hpp"
#include "sparrow/layout/array_access.hpp"
#include "sparrow/layout/dictionary_encoded_array.hpp"
#include "sparrow/layout/dispatch.hpp"
#include "sparrow/layout/list_layout/list_array.hpp"
#include "sparrow/layout/null_array.hpp"
#include "sparrow/layout/primitive_array.hpp"
#include "sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp"
#include "sparrow/layout/struct_layout/struct_array.hpp"
#include "sparrow/layout/union_array.hpp"
#include "sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp"
#include "sparrow/layout/variable_size_binary_view_array.hpp"

namespace h
{
    using namespace sparrow;

    template <class T>
    constexpr char fmt_of()
    {
        if constexpr (std::same_as<T, bool>) return 'b';
        else if constexpr (std::same_as<T, std::int8_t>) return 'c';
        else if constexpr (std::same_as<T, std::uint8_t>) return 'C';
        else if constexpr (std::same_as<T, std::int16_t>) return 's';
        else if constexpr (std::same_as<T, std::uint16_t>) return 'S';
        else if constexpr (std::same_as<T, std::int32_t>) return 'i';
        else if constexpr (std::same_as<T, std::uint32_t>) return 'I';
        else if constexpr (std::same_as<T, std::int64_t>) return 'l';
        else if constexpr (std::same_as<T, std::uint64_t>) return 'L';
        else if constexpr (std::same_as<T, float16_t>) return 'e';
        else if constexpr (std::same_as<T, float>) return 'f';
        else if constexpr (std::same_as<T, double>) return 'g';
        else return '?';
    }

    // An element as the specification writes it.
    struct Put
    {
        const char* tag = "u";     // format of strings

        template <class T>
        std::string value(const T& v) const
        {
            using U = std::remove_cvref_t<T>;
            if constexpr (std::same_as<U, list_value> || std::same_as<U, struct_value>)
            {
                std::string s = std::same_as<U, list_value> ? "[\"l\",[" : "[\"s\",[";
                for (std::size_t i = 0; i < v.size(); ++i)
                {
                    if (i) s += ',';
                    s += Put{}.variant(v[i]);
                }
                return s + "]]";
            }
            else if constexpr (fmt_of<U>() != '?')
            {
                unsigned char b[sizeof(U)];
                U copy = v;
                std::memcpy(b, &copy, sizeof(U));
                ints x(b, b + sizeof(U));
                return std::string("[\"p\",\"") + fmt_of<U>() + "\"," + js(x) + "]";
            }
            else if constexpr (std::same_as<U, null_type>) return "[\"n\"]";
            else if constexpr (std::ranges::input_range<U>)
            {
                ints x;
                for (auto c : v) x.push_back(int(static_cast<unsigned char>(c)));
                return std::string("[\"b\",\"") + tag + "\"," + js(x) + "]";
            }
            else return "[\"?\"]";
        }
        template <class N>
        std::string nul(const N& n) const
        {
            if (!n.has_value()) return "[\"n\"]";
            return value(n.get());
        }
        template <class V>
        std::string variant(const V& v) const
        {
            return std::visit([this](const auto& n) { return this->nul(n); }, v);
        }
        template <class E>
        std::string operator()(const E& e) const
        {
            if constexpr (requires { std::variant_size<typename E::base_type>::value; }) return variant(e);
            else if constexpr (requires { e.has_value(); e.get(); }) return nul(e);
            else return variant(e);
        }
    };

    inline std::string join(const strs& v)
    {
        std::string s = "[";
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            if (i) s += ',';
            s += v[i];
        }
        return s + "]";
    }

    // Counts what the library allocated and did not give back.
    extern thread_local bool in_library;
    struct Lib
    {
        bool before = in_library;
        Lib() { in_library = true; }
        ~Lib() { in_library = before; }
    };

    using Paths = std::vector<std::pair<std::string, strs>>;

    struct Slot
    {
        virtual ~Slot() = default;
        virtual std::unique_ptr<Slot> copy() const = 0;
        virtual void assign(const Slot&) = 0;          // same dynamic type
        virtual std::unique_ptr<Slot> move() = 0;
        virtual void massign(Slot&) = 0;
        virtual void swap(Slot&) = 0;
        virtual std::unique_ptr<Slot> slice(std::size_t, std::size_t, bool view) const = 0;
        virtual std::unique_ptr<Slot> wrap() = 0;
        virtual std::unique_ptr<Slot> refer() = 0;     // an array that refers to this layout
        virtual std::unique_ptr<Slot> share() = 0;     // an array that shares this layout with its copies
        virtual std::string about() = 0;
        virtual array* plain() = 0;
        virtual strs read(int how) const = 0;
        virtual arrow_proxy& proxy() = 0;
        virtual int eq(const Slot&) const = 0;         // 0 no, 1 yes, -1 not the same type
        virtual int ne(const Slot&) const = 0;
        virtual Paths paths() const = 0;
        virtual ints pos(int i, int j) const = 0;
        virtual int at(std::size_t) const = 0;         // 1 ok, 0 std::out_of_range, 2 something else, -1 has none
        virtual std::size_t size() const = 0;
        virtual bool mutate(const Cmd&) { return false; }
        virtual int deny(int, std::size_t, std::size_t) { return -1; }   // 1 the documented exception, 0 none, 2 another one
        virtual const char* kind() const = 0;
        virtual std::pair<ArrowArray, ArrowSchema> extract(int order) = 0;
        virtual int refuse() = 0;
    };
    using SlotP = std::unique_ptr<Slot>;

    SlotP wrap_array(array&& a);

    // the datatype, as the format string of its layout
    inline std::string type_name(data_type d)
    {
        switch (d)
        {
            case data_type::NA: return "n";
            case data_type::BOOL: return "b";
            case data_type::UINT8: return "C";
            case data_type::INT8: return "c";
            case data_type::UINT16: return "S";
            case data_type::INT16: return "s";
            case data_type::UINT32: return "I";
            case data_type::INT32: return "i";
            case data_type::UINT64: return "L";
            case data_type::INT64: return "l";
            case data_type::HALF_FLOAT: return "e";
            case data_type::FLOAT: return "f";
            case data_type::DOUBLE: return "g";
            case data_type::STRING: return "u";
            case data_type::BINARY: return "z";
            case data_type::STRING_VIEW: return "vu";
            case data_type::BINARY_VIEW: return "vz";
            case data_type::LIST: return "+l";
            case data_type::LARGE_LIST: return "+L";
            case data_type::LIST_VIEW: return "+vl";
            case data_type::LARGE_LIST_VIEW: return "+vL";
            case data_type::FIXED_SIZED_LIST: return "+w";
            case data_type::STRUCT: return "+s";
            case data_type::MAP: return "+m";
            case data_type::DENSE_UNION: return "+ud";
            case data_type::SPARSE_UNION: return "+us";
            case data_type::RUN_ENCODED: return "+r";
            default: return "?";
        }
    }

    template <class T>
    concept MutablePrim = requires { typename T::inner_value_type; } && requires(T& t) { t.pop_back(); };

    template <class A>
    strs collect(const A& a, int how, const Put& put)
    {
        strs v;
        const std::size_t n = a.size();
        if constexpr (requires { a.crbegin(); })
        {
            if (how == 2)
            {
                for (auto it = a.crbegin(); it != a.crend(); ++it) v.push_back(put(*it));
                std::reverse(v.begin(), v.end());
                return v;
            }
        }
        if constexpr (requires { a.cbegin(); })
        {
            if (how == 1)
            {
                for (auto it = a.cbegin(); it != a.cend(); ++it) v.push_back(put(*it));
                return v;
            }
        }
        for (std::size_t i = 0; i < n; ++i) v.push_back(put(a[i]));
        return v;
    }

    // every way of walking a layout
    template <class A>
    void all_paths(A& m, const Put& put, Paths& out)
    {
        const A& a = m;
        const std::size_t n = a.size();
        auto add = [&](const char* name, strs v) { out.emplace_back(name, std::move(v)); };
        add("index", collect(a, 0, put));
        auto forward = [&](const char* name, auto first, auto last)
        {
            strs v;
            for (auto it = first; it != last; ++it) { v.push_back(put(*it)); if (v.size() > n) break; }
            add(name, std::move(v));
        };
        if constexpr (requires { a.begin(); }) forward("begin", a.begin(), a.end());
        if constexpr (requires { a.cbegin(); }) forward("cbegin", a.cbegin(), a.cend());
        if constexpr (requires { m.begin(); }) forward("mutable begin", m.begin(), m.end());
        if constexpr (requires { a.rbegin(); })
        {
            strs v;
            for (auto it = a.rbegin(); it != a.rend(); ++it) v.insert(v.begin(), put(*it));
            add("rbegin", v);
            v.clear();
            for (auto it = a.crbegin(); it != a.crend(); ++it) v.insert(v.begin(), put(*it));
            add("crbegin", v);
        }
        {
            strs v;
            for (std::size_t i = 0; i < n; ++i) v.push_back(put(m[i]));
            add("mutable index", v);
        }
        if constexpr (requires { a.at(0); })
        {
            strs v;
            for (std::size_t i = 0; i < n; ++i) v.push_back(put(a.at(i)));
            add("at", v);
        }
        if constexpr (requires { a.begin(); --a.end(); })
        {
            strs v;
            auto it = a.end();
            for (std::size_t i = 0; i < n; ++i) { --it; v.insert(v.begin(), put(*it)); }
            add("backward", v);
            v.clear();
            auto f = a.begin();
            for (std::size_t i = 0; i < n; ++i) { auto g = f++; v.push_back(put(*g)); }
            if (f != a.end()) v.push_back("[\"end\"]");
            add("++ after", v);
            v.clear();
            for (std::size_t i = 0; i < n; ++i) { auto g = f--; v.insert(v.begin(), g == a.end() ? std::string("[\"?\"]") : put(*g)); }
            if (n > 0)
            {
                // each was read before going back: one position later
                v.erase(v.end() - 1);
                v.insert(v.begin(), put(*a.begin()));
            }
            if (f != a.begin()) v.push_back("[\"begin\"]");
            add("-- after", v);
            if constexpr (requires { a.begin().operator->(); })
            {
                v.clear();
                for (auto it2 = a.begin(); it2 != a.end(); ++it2)
                {
                    if constexpr (requires { put(*it2.operator->()); }) v.push_back(put(*it2.operator->()));
                    else v.push_back(put(*it2));
                }
                add("->", v);
            }
        }
        if constexpr (requires { a.begin() + 1; a.end() - 1; a.begin()[0]; })
        {
            strs v, w, x, y;
            for (std::size_t i = 0; i < n; ++i) y.push_back(put(*(std::ptrdiff_t(i) + a.begin())));
            add("jump from the left", y);
            for (std::size_t i = 0; i < n; ++i) v.push_back(put(*(a.begin() + std::ptrdiff_t(i))));
            for (std::size_t i = 0; i < n; ++i) w.push_back(put(*(a.end() - std::ptrdiff_t(n - i))));
            for (std::size_t i = 0; i < n; ++i) x.push_back(put(a.begin()[std::ptrdiff_t(i)]));
            add("jump", v);
            add("jump from end", w);
            add("subscript", x);
            v.assign(n, "[\"?\"]");
            auto it = a.begin();
            std::size_t at = 0;
            for (std::size_t k = 0; k < n; ++k)
            {
                // a walk that visits every position in a scattered order
                const std::size_t to = (k % 2) ? n - 1 - k / 2 : k / 2;
                it += std::ptrdiff_t(to) - std::ptrdiff_t(at);
                at = to;
                v[at] = put(*it);
            }
            add("scattered", v);
        }
        if constexpr (requires { a.front(); a.back(); })
        {
            if (n > 0)
            {
                strs v = collect(a, 0, put);
                v.front() = put(a.front());
                v.back() = n > 1 ? put(a.back()) : v.back();
                add("front, back", v);
                if (n == 1) { v[0] = put(a.back()); add("back", v); }
            }
        }
        if constexpr (requires { m.front(); m.back(); })
        {
            if (n > 0)
            {
                strs v = collect(a, 0, put);
                v.front() = put(m.front());
                v.back() = n > 1 ? put(m.back()) : v.back();
                add("mutable front, back", v);
            }
        }
        if constexpr (std::same_as<std::remove_cvref_t<A>, null_array>)
        {
            strs v;
            for (bool b : a.bitmap()) v.push_back(b ? "[\"?\"]" : "[\"n\"]");
            add("bitmap", v);
            v.clear();
            for ([[maybe_unused]] const auto& x : a.values()) v.push_back("[\"n\"]");
            add("values", v);
        }
        // the strings of a column that can be changed compare as what they hold
        if constexpr (std::same_as<std::remove_cvref_t<A>, string_array>)
        {
            strs v;
            for (std::size_t i = 0; i < n; ++i)
            {
                auto e = m[i];
                if (!e.has_value()) { v.push_back("[\"n\"]"); continue; }
                const auto ref = e.get();
                const std::string is(ref.begin(), ref.end()), more = is + "x", less = is.substr(0, is.size() / 2);
                bool ok = ref == is && !(ref == more) && (ref <=> is) == 0 && (ref <=> more) < 0 && std::size_t(ref.end() - ref.begin()) == ref.size();
                if (!is.empty()) ok = ok && !(ref == less) && (ref <=> less) > 0;
                if (is.find('\0') == std::string::npos)
                    ok = ok && ref == is.c_str() && !(ref == more.c_str()) && (ref <=> is.c_str()) == 0 && (ref <=> more.c_str()) < 0;
                for (std::size_t j = 0; j < n && ok; ++j)
                {
                    auto f = m[j];
                    if (!f.has_value()) continue;
                    const auto other = f.get();
                    const std::string s2(other.begin(), other.end());
                    ok = (ref == other) == (is == s2) && ((ref <=> other) == 0) == (is == s2) && ((ref <=> other) < 0) == ((other <=> ref) > 0);
                }
                v.push_back(ok ? put(a[i]) : "[\"comparison\"]");
            }
            add("comparing strings", v);
        }
        if constexpr (requires { a.bitmap(); a.values(); })
        {
            if constexpr (requires { put.value(*a.values().begin()); } && !std::same_as<std::remove_cvref_t<A>, null_array>)
            {
                strs v;
                auto values = a.values();
                auto bits = a.bitmap();
                auto b = bits.begin();
                for (auto it = values.begin(); it != values.end() && b != bits.end(); ++it, ++b)
                    v.push_back(bool(*b) ? put.value(*it) : "[\"n\"]");
                if (values.size() != n || bits.size() != n) v.push_back("[\"size of values or bitmap\"]");
                add("values, bitmap", v);
            }
        }
    }

    template <class T>
    struct slot_tag { static constexpr const char* value = "u"; };
    template <> struct slot_tag<string_view_array> { static constexpr const char* value = "vu"; };
    template <> struct slot_tag<binary_view_array> { static constexpr const char* value = "vz"; };

    template <class A>
    struct Typed final : Slot
    {
        static constexpr bool untyped = std::same_as<A, array>;
        A a;
        const char* name;
        Put put{slot_tag<A>::value};

        template <class... X>
        explicit Typed(const char* n, X&&... x) : a(std::forward<X>(x)...), name(n) {}
        static const A& of(const Slot& s) { return dynamic_cast<const Typed&>(s).a; }
        static A& of(Slot& s) { return dynamic_cast<Typed&>(s).a; }

        SlotP copy() const override { return std::make_unique<Typed>(name, a); }
        void assign(const Slot& o) override { a = of(o); }
        SlotP move() override { return std::make_unique<Typed>(name, std::move(a)); }
        void massign(Slot& o) override { a = std::move(of(o)); }
        void swap(Slot& o) override { using std::swap; swap(a, of(o)); }
        SlotP slice(std::size_t s, std::size_t e, bool view) const override
        {
            if constexpr (requires { a.slice(s, e); })
                return view ? std::make_unique<Typed>(name, a.slice_view(s, e)) : std::make_unique<Typed>(name, a.slice(s, e));
            else
            {
                const arrow_proxy& p = detail::array_access::get_arrow_proxy(a);
                return view ? std::make_unique<Typed>(name, p.slice_view(s, e)) : std::make_unique<Typed>(name, p.slice(s, e));
            }
        }
        SlotP wrap() override
        {
            if constexpr (untyped || std::same_as<A, string_view_array> || std::same_as<A, binary_view_array>) return nullptr;
            else return wrap_array(array(std::move(a)));
        }
        SlotP refer() override
        {
            if constexpr (untyped || std::same_as<A, string_view_array> || std::same_as<A, binary_view_array>) return nullptr;
            else return wrap_array(array(&a));
        }
        SlotP share() override
        {
            if constexpr (untyped || std::same_as<A, string_view_array> || std::same_as<A, binary_view_array>) return nullptr;
            else return wrap_array(array(std::make_shared<A>(std::move(a))));
        }
        // the datatype, what is owned, and whether the accessors give the same structures
        std::string about() override
        {
            std::string dt;
            if constexpr (untyped) dt = type_name(a.data_type());
            else dt = type_name(detail::get_data_type_from_array<A>::get());
            arrow_proxy& p = proxy();
            const auto both = get_arrow_structures(a);
            const bool same = get_arrow_array(a) == &p.array() && get_arrow_schema(a) == &p.schema() && both.first == &p.array()
                              && both.second == &p.schema() && p.length() == a.size();
            return ",\"dt\":\"" + dt + "\",\"own\":[" + std::to_string(owns_arrow_array(a)) + "," + std::to_string(owns_arrow_schema(a))
                   + "],\"acc\":" + std::to_string(same);
        }
        strs read(int how) const override
        {
            if constexpr (untyped)
            {
                strs v;
                if (a.size() == 0) return v;
                if (how == 1) a.visit([&](const auto& t) { v = collect(t, 1, put); });
                else if (how == 2) a.visit([&](const auto& t) { v = collect(t, 2, put); });
                else for (std::size_t i = 0; i < a.size(); ++i) v.push_back(put(how == 3 ? a.at(i) : a[i]));
                return v;
            }
            else return collect(a, how, put);
        }
        array* plain() override
        {
            if constexpr (untyped) return &a;
            else return nullptr;
        }
        arrow_proxy& proxy() override { return detail::array_access::get_arrow_proxy(a); }
        int eq(const Slot& o) const override
        {
            const Typed* p = dynamic_cast<const Typed*>(&o);
            // spans of bytes have no equality, and so do arrays of them
            if constexpr (std::same_as<A, binary_view_array>) return -1;
            else return p ? int(a == p->a) : -1;
        }
        int ne(const Slot& o) const override
        {
            const Typed* p = dynamic_cast<const Typed*>(&o);
            if constexpr (std::same_as<A, binary_view_array>) return -1;
            else return p ? int(a != p->a) : -1;
        }
        Paths paths() const override
        {
            Paths out;
            A& m = const_cast<A&>(a);
            if constexpr (untyped)
            {
                strs v, w;
                for (std::size_t i = 0; i < a.size(); ++i) v.push_back(put(a[i]));
                for (std::size_t i = 0; i < a.size(); ++i) w.push_back(put(a.at(i)));
                out.emplace_back("array index", v);
                out.emplace_back("array at", w);
                if (!a.empty())
                {
                    strs x = v;
                    x.front() = put(a.front());
                    out.emplace_back("array front", x);
                    x = v;
                    x.back() = put(a.back());
                    out.emplace_back("array back", x);
                }
                strs has;
                // what untyped access says about validity
                if constexpr (requires { a[0].has_value(); })
                {
                    for (std::size_t i = 0; i < a.size(); ++i) has.push_back(a[i].has_value() ? v[i] : "[\"n\"]");
                    out.emplace_back("array has_value", has);
                }
                if (a.empty() != (a.size() == 0)) out.emplace_back("empty", strs{"[\"empty()\"]"});
                a.visit([&](const auto& t) { all_paths(const_cast<std::remove_cvref_t<decltype(t)>&>(t), put, out); });
            }
            else all_paths(m, put, out);
            return out;
        }
        template <class T>
        static ints pos_of(const T& t, int i, int j)
        {
            if constexpr (requires { t.begin() + 1; t.begin() - t.begin(); t.begin() < t.end(); })
            {
                auto x = t.begin() + i, y = t.begin() + j;
                auto back = x;
                back += j - i;
                auto z = y;
                z -= j - i;
                auto inc = t.begin();
                for (int k = 0; k < i; ++k) ++inc;
                auto dec = t.end();
                for (int k = int(t.size()); k > j; --k) --dec;
                return {int(y - x), int(x - y), x < y, x > y, x <= y, x >= y, x == y, x != y, back == y && inc == x, z == x && dec == y};
            }
            else if constexpr (requires { ++t.begin(); t.begin() == t.end(); })
            {
                auto x = t.begin(), y = t.begin();
                for (int k = 0; k < i; ++k) ++x;
                for (int k = 0; k < j; ++k) ++y;
                const bool same = x == y;
                return {j - i, i - j, i < j, i > j, i <= j, i >= j, same, !(x == y), 1, 1};
            }
            else return {j - i, i - j, i < j, i > j, i <= j, i >= j, i == j, i != j, 1, 1};
        }
        ints pos(int i, int j) const override
        {
            ints r;
            if constexpr (untyped) a.visit([&](const auto& t) { r = pos_of(t, i, j); });
            else r = pos_of(a, i, j);
            return r;
        }
        int at(std::size_t i) const override
        {
            if constexpr (requires { a.at(i); })
            {
                try
                {
                    (void) put(a.at(i));
                    return 1;
                }
                catch (const std::out_of_range&) { return 0; }
                catch (...) { return 2; }
            }
            else return -1;
        }
        std::size_t size() const override { return a.size(); }
        const char* kind() const override { return name; }
        std::pair<ArrowArray, ArrowSchema> extract(int order) override
        {
            if (order % 3 == 0) return extract_arrow_structures(std::move(a));
            std::pair<ArrowArray, ArrowSchema> r;
            if (order % 3 == 1)
            {
                r.first = extract_arrow_array(std::move(a));
                r.second = extract_arrow_schema(std::move(a));
            }
            else
            {
                r.second = extract_arrow_schema(std::move(a));
                r.first = extract_arrow_array(std::move(a));
            }
            return r;
        }
        int refuse() override
        {
            int bad = 0;
            if (owns_arrow_array(a) || owns_arrow_schema(a)) ++bad;
            try { (void) extract_arrow_array(std::move(a)); ++bad; } catch (const std::runtime_error&) {}
            try { (void) extract_arrow_schema(std::move(a)); ++bad; } catch (const std::runtime_error&) {}
            try { (void) extract_arrow_structures(std::move(a)); ++bad; } catch (const std::runtime_error&) {}
            return bad;
        }

        template <class T>
        bool mutate_with(const Cmd& c, const T& value)
        {
            using NT = typename A::value_type;
            const bool null = c.op != "pop" && c.op != "er" && c.x.at(2) == 0;
            NT v = null ? NT(T(value), false) : NT(T(value));
            const std::size_t i = c.x.size() > 1 ? std::size_t(c.x[1]) : 0;
            if (c.op == "set") a[i] = v;
            else if (c.op == "push") a.push_back(v);
            else if (c.op == "pop") a.pop_back();
            else if (c.op == "ins") a.insert(std::next(a.cbegin(), std::ptrdiff_t(i)), v);
            else if (c.op == "er") a.erase(std::next(a.cbegin(), std::ptrdiff_t(i)));
            return true;
        }
        // structural modification of what the library does not own
        template <class T>
        int deny_with(int k, std::size_t i, std::size_t n, const T& value)
        {
            using NT = typename A::value_type;
            const NT v{T(value)};
            const std::vector<NT> some{v, NT(T(value), false)};
            const auto at = [&](std::size_t x) { return std::next(a.cbegin(), std::ptrdiff_t(x)); };
            try
            {
                switch (k)
                {
                    case 0: a.push_back(v); break;
                    case 1: a.insert(at(i), v); break;
                    case 2: a.insert(at(i), v, n); break;
                    case 3: a.insert(at(i), some.begin(), some.end()); break;
                    case 4: a.insert(at(i), {v, v, v}); break;
                    case 5: a.insert(at(i), some); break;
                    case 6: a.erase(at(i)); break;
                    case 7: a.erase(at(i), at(n)); break;
                    case 8: a.pop_back(); break;
                    case 9: a.resize(n, v); break;
                    case 10:
                        if constexpr (std::same_as<A, string_array>) { a[i] = v; break; }
                        else return -1;
                    default: return -1;
                }
            }
            catch (const arrow_proxy_exception&) { return 1; }
            catch (...) { return 2; }
            return 0;
        }
        int deny(int k, std::size_t i, std::size_t n) override
        {
            if constexpr (std::same_as<A, string_array>) return deny_with(k, i, n, std::string("a longer string"));
            else if constexpr (requires { typename A::inner_value_type; })
            {
                using T = typename A::inner_value_type;
                if constexpr (fmt_of<T>() != '?' && MutablePrim<A>) return deny_with(k, i, n, T(7));
            }
            return -1;
        }
        bool mutate(const Cmd& c) override
        {
            if constexpr (std::same_as<A, string_array>)
            {
                std::string s;
                for (int b : c.t) s += char(b);
                return mutate_with(c, s);
            }
            else if constexpr (requires { typename A::inner_value_type; })
            {
                using T = typename A::inner_value_type;
                if constexpr (fmt_of<T>() != '?' && MutablePrim<A>)
                {
                    unsigned char b[sizeof(T)] = {};
                    for (std::size_t k = 0; k < sizeof(T) && k < c.t.size(); ++k) b[k] = static_cast<unsigned char>(c.t[k]);
                    T v;
                    std::memcpy(&v, b, sizeof(T));
                    return mutate_with(c, v);
                }
            }
            return false;
        }
    };

    using Maker = std::function<SlotP(arrow_proxy&&)>;
    using MakerMap = std::map<std::string, Maker>;
    template <class A>
    void reg(MakerMap& m, const char* name)
    {
        m[name] = [name](arrow_proxy&& p) -> SlotP { return std::make_unique<Typed<A>>(name, std::move(p)); };
    }
    void register_a(MakerMap&);
    void register_b(MakerMap&);
    void register_c(MakerMap&);
    void register_d(MakerMap&);
}
