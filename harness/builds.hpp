// C11: values of the types the builder takes, described for the specification.
//
// A type is written as the specification writes it:
//   ["p",format,width]  scalar          ["b"]          string
//   ["l",T]             range           ["f",n,T]      fixed size range
//   ["t",[T..]]         tuple           ["v",[T..]]    variant
//   ["n",T]             nullable        ["d",T] ["r",T]  dict_encode, run_end_encode
#pragma once
#include "slots.hpp"
#include "sparrow/builder/builder.hpp"
#include <array>
#include <deque>
#include <tuple>
#include <variant>

namespace h
{
    template <class T> struct D;    // description, parsing and writing of values of T

    template <class T>
        requires(fmt_of<T>() != '?')
    struct D<T>
    {
        static std::string type() { return std::string("[\"p\",\"") + fmt_of<T>() + "\"," + std::to_string(sizeof(T)) + "]"; }
        static T get(const ints& x, std::size_t& i)
        {
            unsigned char b[sizeof(T)];
            for (auto& c : b) c = static_cast<unsigned char>(x.at(i++));
            T v;
            std::memcpy(&v, b, sizeof(T));
            return v;
        }
        static void put(const T& v, ints& x)
        {
            unsigned char b[sizeof(T)];
            std::memcpy(b, &v, sizeof(T));
            x.insert(x.end(), b, b + sizeof(T));
        }
    };
    template <>
    struct D<std::string>
    {
        static std::string type() { return "[\"b\"]"; }
        static std::string get(const ints& x, std::size_t& i)
        {
            std::string s;
            for (int n = x.at(i++); n > 0; --n) s += char(x.at(i++));
            return s;
        }
        static void put(const std::string& v, ints& x)
        {
            x.push_back(int(v.size()));
            for (char c : v) x.push_back(static_cast<unsigned char>(c));
        }
    };
    template <class R>
    struct DRange
    {
        using T = typename R::value_type;
        static std::string type() { return "[\"l\"," + D<T>::type() + "]"; }
        static R get(const ints& x, std::size_t& i)
        {
            R r;
            for (int n = x.at(i++); n > 0; --n) r.push_back(D<T>::get(x, i));
            return r;
        }
        static void put(const R& r, ints& x)
        {
            x.push_back(int(r.size()));
            for (const auto& e : r) D<T>::put(e, x);
        }
    };
    template <class T> struct D<std::vector<T>> : DRange<std::vector<T>> {};
    template <class T> struct D<std::deque<T>> : DRange<std::deque<T>> {};
    template <class T, std::size_t N>
    struct D<std::array<T, N>>
    {
        static std::string type() { return "[\"f\"," + std::to_string(N) + "," + D<T>::type() + "]"; }
        static std::array<T, N> get(const ints& x, std::size_t& i)
        {
            std::array<T, N> r;
            for (auto& e : r) e = D<T>::get(x, i);
            return r;
        }
        static void put(const std::array<T, N>& r, ints& x) { for (const auto& e : r) D<T>::put(e, x); }
    };
    template <class Tup, class... T>
    struct DTuple
    {
        static std::string type()
        {
            strs s{D<T>::type()...};
            return "[\"t\"," + join(s) + "]";
        }
        static Tup get(const ints& x, std::size_t& i) { return Tup{D<T>::get(x, i)...}; }   // braces: in order
        static void put(const Tup& v, ints& x) { std::apply([&](const auto&... e) { (D<std::remove_cvref_t<decltype(e)>>::put(e, x), ...); }, v); }
    };
    template <class... T> struct D<std::tuple<T...>> : DTuple<std::tuple<T...>, T...> {};
    template <class A, class B> struct D<std::pair<A, B>> : DTuple<std::pair<A, B>, A, B> {};
    template <class... T>
    struct D<std::variant<T...>>
    {
        using V = std::variant<T...>;
        static std::string type()
        {
            strs s{D<T>::type()...};
            return "[\"v\"," + join(s) + "]";
        }
        static V get(const ints& x, std::size_t& i)
        {
            using F = V (*)(const ints&, std::size_t&);
            static constexpr auto at = []<std::size_t... I>(std::index_sequence<I...>)
            { return std::array<F, sizeof...(T)>{+[](const ints& y, std::size_t& j) { return V(std::in_place_index<I>, D<T>::get(y, j)); }...}; }(std::index_sequence_for<T...>{});
            const int k = x.at(i++);
            return at.at(std::size_t(k))(x, i);
        }
        static void put(const V& v, ints& x)
        {
            x.push_back(int(v.index()));
            std::visit([&](const auto& e) { D<std::remove_cvref_t<decltype(e)>>::put(e, x); }, v);
        }
    };
    template <class T>
    struct D<nullable<T>>
    {
        static std::string type() { return "[\"n\"," + D<T>::type() + "]"; }
        static nullable<T> get(const ints& x, std::size_t& i)
        {
            const bool there = x.at(i++) != 0;
            T v = D<T>::get(x, i);
            return nullable<T>(std::move(v), bool(there));
        }
        static void put(const nullable<T>& v, ints& x)
        {
            x.push_back(v.has_value() ? 1 : 0);
            D<T>::put(v.get(), x);
        }
    };
    template <class E>
    struct DDesire
    {
        using T = typename E::value_type;
        static E get(const ints& x, std::size_t& i) { return E(D<T>::get(x, i)); }
        static void put(const E& v, ints& x) { D<T>::put(v.get(), x); }
    };
    template <class T> struct D<dict_encode<T>> : DDesire<dict_encode<T>> { static std::string type() { return "[\"d\"," + D<T>::type() + "]"; } };
    template <class T> struct D<run_end_encode<T>> : DDesire<run_end_encode<T>> { static std::string type() { return "[\"r\"," + D<T>::type() + "]"; } };

    // ------------------------------------------------------------------ one build
    extern long live_memory;        // allocations that have not been given back

    struct Build
    {
        std::string type;
        int forms;                                           // ways of handing the value over
        std::string (*run)(const ints&, int form, int how, bool large);
    };
    std::vector<Build>& builds();

    template <class A>
    std::string look(A&& typed, int how)
    {
        array a(std::forward<A>(typed));
        strs api = collect(a, how, Put{});
        array b(a);
        strs api2 = collect(b, (how + 1) % 3, Put{});
        auto [x, s] = extract_arrow_structures(std::move(b));
        std::string raw = dump(x, s);
        x.release(&x);
        s.release(&s);
        return "\"raw\":" + raw + ",\"api\":" + join(api) + ",\"again\":" + join(api2) + ",\"size\":" + std::to_string(a.size());
    }
    template <bool L, class V>
    std::string build_look(V&& v, int how, bool large)
    {
        if constexpr (L) if (large) return look(build(std::forward<V>(v), large_list_flag), how);
        return look(build(std::forward<V>(v)), how);
    }

    template <bool L, class E>
    std::string init(std::initializer_list<E> v, int how, bool large)
    {
        if constexpr (L) if (large) return look(build(v, large_list_flag), how);
        return look(build(v), how);
    }

    template <class T> struct HasList : std::false_type {};
    template <class T> struct HasList<std::vector<T>> : std::true_type {};
    template <class T, std::size_t N> struct HasList<std::array<T, N>> : HasList<T> {};
    template <class... T> struct HasList<std::tuple<T...>> : std::disjunction<HasList<T>...> {};
    template <class... T> struct HasList<std::variant<T...>> : std::disjunction<HasList<T>...> {};
    template <class T> struct HasList<nullable<T>> : HasList<T> {};
    template <class T> struct HasList<dict_encode<T>> : HasList<T> {};
    template <class T> struct HasList<run_end_encode<T>> : HasList<T> {};
    // whether asking for large lists can make a difference
    template <class T> struct Outer { using type = typename T::value_type; };
    template <class T> struct Outer<dict_encode<T>> : Outer<T> {};
    template <class T> struct Outer<run_end_encode<T>> : Outer<T> {};

    // Full: every kind of range the value can be handed over in
    template <class T, bool Full>
    std::string run_build(const ints& x, int form, int how, bool large)
    {
        const long before = live_memory;
        std::string out;
        bool same = true;
        {
            constexpr bool L = HasList<typename Outer<T>::type>::value;
            std::size_t i = 0;
            T v = D<T>::get(x, i);
            auto unchanged = [&](const auto& w)
            {
                ints y;
                D<std::remove_cvref_t<decltype(w)>>::put(w, y);
                same = y == x;
            };
            switch (form)
            {
                case 0: out = build_look<L>(v, how, large); unchanged(v); break;
                case 1: out = build_look<L>(std::move(v), how, large); break;
                default:
                    if constexpr (Full)
                    {
                        using E = typename T::value_type;
                        if (form == 2) { const T& c = v; out = build_look<L>(c, how, large); unchanged(c); }
                        else if (form == 3) { std::deque<E> q(v.begin(), v.end()); out = build_look<L>(q, how, large); unchanged(q); }
                        else if (form == 4) { out = build_look<L>(std::views::all(v), how, large); unchanged(v); }
                        else if (form == 5) { out = build_look<L>(v | std::views::transform([](const E& e) { return e; }), how, large); unchanged(v); }
                        else if (v.size() == 0) out = init<L, E>({}, how, large);
                        else if (v.size() == 1) out = init<L, E>({E(v[0])}, how, large);
                        else if (v.size() == 2) out = init<L, E>({E(v[0]), E(v[1])}, how, large);
                        else if (v.size() == 3) out = init<L, E>({E(v[0]), E(v[1]), E(v[2])}, how, large);
                        else { out = build_look<L>(v, how, large); unchanged(v); }
                    }
            }
        }
        const long after = live_memory - long(out.capacity() > 15);
        return "{\"op\":\"build\"," + out + ",\"src\":" + (same ? "1" : "0") + ",\"leak\":" + std::to_string(after - before) + "}";
    }
    struct Add
    {
        std::vector<Build>& b = builds();
        template <class... T> void all() { (b.push_back({D<T>::type(), 2, &run_build<T, false>}), ...); }
        template <class... T> void full() { (b.push_back({D<T>::type(), 7, &run_build<T, true>}), ...); }
    };
}
