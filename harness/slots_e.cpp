// Arrays made by the constructors of the layouts, from the same description
// as imported ones (offset 0, validity present).
#include "slots.hpp"
#include <sparrow/arrow_interface/arrow_array_schema_factory.hpp>
namespace h
{
    static bool bit(const Node& n, std::size_t i)
    {
        return n.bufs[0].p == 0 || (n.bufs[0].d[i / 8] >> (i % 8)) & 1;
    }
    static std::vector<bool> validity(const Node& n)
    {
        std::vector<bool> v;
        for (std::int64_t i = 0; i < n.len; ++i) v.push_back(bit(n, std::size_t(i)));
        return v;
    }
    template <class T>
    static T get(const Node::Buf& b, std::size_t i)
    {
        T v;
        std::memcpy(&v, b.d.data() + i * sizeof(T), sizeof(T));
        return v;
    }
    template <class T>
    static u8_buffer<T> take(const Node::Buf& b, std::size_t n)
    {
        u8_buffer<T> r(n);
        for (std::size_t i = 0; i < n; ++i) r[i] = get<T>(b, i);
        return r;
    }

    // positions of the nulls: in any order, named more than once
    template <class I>
    static std::vector<I> nulls(const Node& n, unsigned seed)
    {
        std::vector<I> w;
        for (std::int64_t i = 0; i < n.len; ++i)
            if (!bit(n, std::size_t(i)))
            {
                w.push_back(I(i));
                if (seed % 3 == 0 || (seed + unsigned(i)) % 3 == 1) w.push_back(I(i));
            }
        for (std::size_t i = w.size(); i > 1; --i)
        {
            seed = seed * 1664525u + 1013904223u;
            std::swap(w[i - 1], w[(seed >> 8) % i]);
        }
        return w;
    }
    static validity_bitmap bitmap(const Node& n)
    {
        validity_bitmap b(std::size_t(n.len), true);
        for (std::int64_t i = 0; i < n.len; ++i)
            if (!bit(n, std::size_t(i))) b.set(std::size_t(i), false);
        return b;
    }
    static bool all_valid(const Node& n)
    {
        for (std::int64_t i = 0; i < n.len; ++i)
            if (!bit(n, std::size_t(i))) return false;
        return true;
    }
    // f(validity), in one of the forms constructors take; f() when there is none to give
    template <class F>
    static auto with(const Node& n, int how, F&& f)
    {
        const unsigned u = unsigned(how) * 7u + 3u;
        switch (how % 6)
        {
            case 0: return f(validity(n));
            case 1: return f(nulls<std::size_t>(n, u));
            case 2: return f(bitmap(n));
            case 3:
                if (n.len > 255) return f(nulls<std::uint32_t>(n, u));
                return f(nulls<std::uint8_t>(n, u));
            case 4:
            {
                const validity_bitmap b = bitmap(n);
                return f(b);
            }
            default: return all_valid(n) ? f() : f(nulls<std::uint32_t>(n, u));
        }
    }

    array assemble(const Node& n, int how, std::vector<array>& kids, bool encoded);

    // what the factories of C structures take: the values, some more in front of them that
    // an offset hides, and the positions of the nulls, of which hidden values have some
    template <class T>
    struct Parts
    {
        std::vector<T> v;
        std::vector<std::uint16_t> nulls;
        std::int64_t off;
        Parts(const Node& n, std::vector<T> w, int how) : off(how % 4)
        {
            for (int i = 0; i < off; ++i)
            {
                v.push_back(w.empty() ? T{} : w[std::size_t(i) % w.size()]);
                if ((how >> i) & 1) nulls.push_back(std::uint16_t(i));
            }
            v.insert(v.end(), w.begin(), w.end());
            for (std::int64_t i = 0; i < n.len; ++i)
                if (!bit(n, std::size_t(i)))
                    for (int k = 0; k <= how / 4 % 2; ++k) nulls.push_back(std::uint16_t(off + i));
        }
    };
    static bool factory(const Node& n, int how) { return how % 5 == 2 && n.len < 10000; }

    template <class T>
    static array prim(const Node& n, int how)
    {
        const std::size_t len = std::size_t(n.len);
        std::vector<T> v;
        for (std::size_t i = 0; i < len; ++i) v.push_back(get<T>(n.bufs[1], i));
        if (factory(n, how))
        {
            Parts<T> p(n, v, how / 5);
            return array(make_primitive_arrow_array(std::move(p.v), std::move(p.nulls), p.off),
                         make_primitive_arrow_schema(format_to_data_type(n.f), "", std::nullopt, std::nullopt));
        }
        if (how % 4 == 0)
        {
            std::vector<nullable<T>> w;
            for (std::size_t i = 0; i < len; ++i) w.push_back(nullable<T>(T(v[i]), bit(n, i)));
            return array(primitive_array<T>(w));
        }
        if (how % 4 == 1)
            return with(n, how / 4, [&](auto&&... b) { return array(primitive_array<T>(v, std::forward<decltype(b)>(b)...)); });
        if (how % 4 == 2 && len && all_valid(n) && std::all_of(v.begin(), v.end(), [&](const T& x) { return std::memcmp(&x, &v[0], sizeof(T)) == 0; }))
            return array(primitive_array<T>(len, v[0]));
        if (how % 4 == 2 && all_valid(n) && len == 2) return array(primitive_array<T>{v[0], v[1]});
        if (how % 4 == 2 && all_valid(n) && len == 5) return array(primitive_array<T>{v[0], v[1], v[2], v[3], v[4]});
        return with(n, how / 4, [&](auto&&... b) { return array(primitive_array<T>(u8_buffer<T>(v), std::forward<decltype(b)>(b)...)); });
    }

    template <class T>
    static array dict(const Node& n, int how, array&& values)
    {
        u8_buffer<T> keys = take<T>(n.bufs[1], std::size_t(n.len));
        return with(n, how, [&](auto&&... b)
        { return array(dictionary_encoded_array<T>(std::move(keys), std::move(values), std::forward<decltype(b)>(b)...)); });
    }

    static std::vector<std::string> texts(const Node& n)
    {
        std::vector<std::string> w;
        for (std::size_t i = 0; i < std::size_t(n.len); ++i)
            w.emplace_back(n.bufs[2].d.begin() + get<std::int32_t>(n.bufs[1], i), n.bufs[2].d.begin() + get<std::int32_t>(n.bufs[1], i + 1));
        return w;
    }
    // a dictionary of strings
    template <class T>
    static array text_dict(const Node& n, int how)
    {
        std::vector<T> k;
        for (std::size_t i = 0; i < std::size_t(n.len); ++i) k.push_back(get<T>(n.bufs[1], i));
        const Node& d = n.di[0];
        Parts<T> keys(n, k, how / 5);
        Parts<std::string> values(d, texts(d), how / 7);
        return array(make_dictionary_encoded_arrow_array(std::move(keys.v), std::move(keys.nulls), keys.off,
                                                         std::move(values.v), std::move(values.nulls), values.off),
                     make_dictionary_encoded_arrow_schema(data_type::STRING, format_to_data_type(n.f)));
    }

    template <class L, class O>
    static array list(const Node& n, int how, array&& flat)
    {
        std::vector<O> o;
        std::vector<std::size_t> sizes;
        for (std::size_t i = 0; i <= std::size_t(n.len); ++i) o.push_back(get<O>(n.bufs[1], i));
        for (std::size_t i = 0; i < std::size_t(n.len); ++i) sizes.push_back(std::size_t(o[i + 1] - o[i]));
        typename L::offset_buffer_type offs = how % 3 == 0 && o[0] == 0 ? L::offset_from_sizes(sizes) : typename L::offset_buffer_type(o);
        return with(n, how / 3, [&](auto&&... b) { return array(L(std::move(flat), std::move(offs), std::forward<decltype(b)>(b)...)); });
    }
    template <class L, class O>
    static array lview(const Node& n, int how, array&& flat)
    {
        typename L::offset_buffer_type offs(std::size_t(n.len));
        typename L::size_buffer_type sizes(std::size_t(n.len));
        for (std::size_t i = 0; i < std::size_t(n.len); ++i) { offs[i] = get<O>(n.bufs[1], i); sizes[i] = get<O>(n.bufs[2], i); }
        return with(n, how, [&](auto&&... b)
        { return array(L(std::move(flat), std::move(offs), std::move(sizes), std::forward<decltype(b)>(b)...)); });
    }
    static array text(const Node& n, int how)
    {
        std::vector<nullable<std::string>> v;
        std::vector<std::string> w;
        std::vector<char> all;
        string_array::offset_buffer_type offs(std::size_t(n.len + 1));
        offs[0] = 0;
        for (std::size_t i = 0; i < std::size_t(n.len); ++i)
        {
            const auto o = get<std::int32_t>(n.bufs[1], i), p = get<std::int32_t>(n.bufs[1], i + 1);
            std::string s(n.bufs[2].d.begin() + o, n.bufs[2].d.begin() + p);
            all.insert(all.end(), s.begin(), s.end());
            offs[i + 1] = std::int32_t(all.size());
            w.push_back(s);
            v.push_back(nullable<std::string>(std::move(s), bit(n, i)));
        }
        if (factory(n, how))
        {
            Parts<std::string> p(n, w, how / 5);
            return array(make_variable_size_binary_arrow_array<std::int32_t>(std::move(p.v), std::move(p.nulls), p.off),
                         make_arrow_schema(std::string("u"), std::nullopt, std::nullopt, std::nullopt, 0, nullptr, nullptr));
        }
        if (how % 4 == 0) return array(string_array(v));
        if (how % 4 == 1)
            return with(n, how / 4, [&](auto&&... b) { return array(string_array(u8_buffer<char>(all), std::move(offs), std::forward<decltype(b)>(b)...)); });
        return with(n, how / 4, [&](auto&&... b) { return array(string_array(w, std::forward<decltype(b)>(b)...)); });
    }

    // a column of string or binary views, from strings
    template <class A, class T>
    static SlotP views(const Node& n, int how, const char* name)
    {
        std::vector<std::string> w;
        for (std::size_t i = 0; i < std::size_t(n.len); ++i)
        {
            const auto size = std::size_t(get<std::int32_t>(n.bufs[1], 4 * i));
            const unsigned char* p = n.bufs[1].d.data() + 16 * i + 4;
            if (size > 12) p = n.bufs[2 + std::size_t(get<std::int32_t>(n.bufs[1], 4 * i + 2))].d.data() + get<std::int32_t>(n.bufs[1], 4 * i + 3);
            w.emplace_back(p, p + size);
        }
        std::vector<T> v;
        for (const std::string& s : w) v.emplace_back(reinterpret_cast<const typename T::value_type*>(s.data()), s.size());
        return with(n, how, [&](auto&&... b) -> SlotP { return std::make_unique<Typed<A>>(name, v, std::forward<decltype(b)>(b)...); });
    }
    SlotP construct_view(const Node& n, int how)
    {
        if (n.f == "vu") return views<string_view_array, std::string_view>(n, how, "vu");
        return views<binary_view_array, std::span<const std::byte>>(n, how, "vz");
    }

    array construct(const Node& n, int how)
    {
        if (!n.di.empty() && n.di[0].f == "u" && n.di[0].di.empty() && factory(n, how) && factory(n.di[0], how))
            switch (n.f[0])
            {
                case 'c': return text_dict<std::int8_t>(n, how);
                case 'C': return text_dict<std::uint8_t>(n, how);
                case 's': return text_dict<std::int16_t>(n, how);
                case 'S': return text_dict<std::uint16_t>(n, how);
                case 'i': return text_dict<std::int32_t>(n, how);
                case 'I': return text_dict<std::uint32_t>(n, how);
                case 'l': return text_dict<std::int64_t>(n, how);
                default: return text_dict<std::uint64_t>(n, how);
            }
        std::vector<array> kids;
        for (std::size_t i = 0; i < n.ch.size(); ++i) kids.push_back(construct(n.ch[i], how + int(i) + 1));
        for (std::size_t i = 0; i < n.di.size(); ++i) kids.push_back(construct(n.di[i], how + 1));
        return assemble(n, how, kids, !n.di.empty());
    }

    // an array of given children (or dictionary), which are not in n
    array assemble(const Node& n, int how, std::vector<array>& kids, bool encoded)
    {
        const std::string& f = n.f;
        if (encoded)
        {
            array& values = kids[0];
            switch (f[0])
            {
                case 'c': return dict<std::int8_t>(n, how, std::move(values));
                case 'C': return dict<std::uint8_t>(n, how, std::move(values));
                case 's': return dict<std::int16_t>(n, how, std::move(values));
                case 'S': return dict<std::uint16_t>(n, how, std::move(values));
                case 'i': return dict<std::int32_t>(n, how, std::move(values));
                case 'I': return dict<std::uint32_t>(n, how, std::move(values));
                case 'l': return dict<std::int64_t>(n, how, std::move(values));
                default: return dict<std::uint64_t>(n, how, std::move(values));
            }
        }
        if (f.size() == 1)
            switch (f[0])
            {
                case 'c': return prim<std::int8_t>(n, how);
                case 'C': return prim<std::uint8_t>(n, how);
                case 's': return prim<std::int16_t>(n, how);
                case 'S': return prim<std::uint16_t>(n, how);
                case 'i': return prim<std::int32_t>(n, how);
                case 'I': return prim<std::uint32_t>(n, how);
                case 'l': return prim<std::int64_t>(n, how);
                case 'L': return prim<std::uint64_t>(n, how);
                case 'f': return prim<float>(n, how);
                case 'g': return prim<double>(n, how);
                case 'u': return text(n, how);
                case 'n': 
                    return array(make_arrow_array(n.len, n.len, 0, std::vector<buffer<std::uint8_t>>(), 0, nullptr, nullptr),
                                 make_arrow_schema(std::string("n"), std::optional<std::string>(), std::optional<std::string>(),
                                                   std::optional<ArrowFlag>(), 0, nullptr, nullptr));
                default: break;
            }
        if (f == "+l") return list<list_array, std::int32_t>(n, how, std::move(kids[0]));
        if (f == "+L") return list<big_list_array, std::int64_t>(n, how, std::move(kids[0]));
        if (f == "+vl") return lview<list_view_array, std::int32_t>(n, how, std::move(kids[0]));
        if (f == "+vL") return lview<big_list_view_array, std::int64_t>(n, how, std::move(kids[0]));
        if (f.rfind("+w:", 0) == 0) 
            return with(n, how, [&](auto&&... b)
            { return array(fixed_sized_list_array(std::uint64_t(std::stoi(f.substr(3))), std::move(kids[0]), std::forward<decltype(b)>(b)...)); });
        if (f == "+s") 
            return with(n, how, [&](auto&&... b) { return array(struct_array(std::move(kids), std::forward<decltype(b)>(b)...)); });
        if (f == "+r") return array(run_end_encoded_array(std::move(kids[0]), std::move(kids[1])));
        if (f.rfind("+u", 0) == 0)
        {
            std::vector<std::uint8_t> map;
            std::istringstream in(f.substr(4));
            std::string tok;
            while (std::getline(in, tok, ',')) map.push_back(std::uint8_t(std::stoi(tok)));
            bool plain = true;
            for (std::size_t i = 0; i < map.size(); ++i) plain = plain && map[i] == i;
            if (how % 2) plain = false;
            u8_buffer<std::uint8_t> ids = take<std::uint8_t>(n.bufs[0], std::size_t(n.len));
            if (f[2] == 's' && plain) return array(sparse_union_array(std::move(kids), std::move(ids)));
            if (f[2] == 's') return array(sparse_union_array(std::move(kids), std::move(ids), std::move(map)));
            u8_buffer<std::uint32_t> offs = take<std::uint32_t>(n.bufs[1], std::size_t(n.len));
            if (plain) return array(dense_union_array(std::move(kids), std::move(ids), std::move(offs)));
            return array(dense_union_array(std::move(kids), std::move(ids), std::move(offs), map));
        }
        std::cerr << "cannot construct " << f << "\n";
        std::exit(3);
    }
}
