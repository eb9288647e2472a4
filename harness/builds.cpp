// The types: -DPART=n
#include "builds.hpp"
namespace h
{
    template <class T> using vec = std::vector<T>;
    template <class T> using opt = nullable<T>;
    template <class T, std::size_t N> using arr = std::array<T, N>;
    template <class... T> using tup = std::tuple<T...>;
    template <class... T> using var = std::variant<T...>;
    template <class T> using dic = dict_encode<T>;
    template <class T> using ree = run_end_encode<T>;
    using str = std::string;
    using i8 = std::int8_t; using u8 = std::uint8_t; using i16 = std::int16_t; using u16 = std::uint16_t;
    using i32 = std::int32_t; using u32 = std::uint32_t; using i64 = std::int64_t; using u64 = std::uint64_t;

#if PART == 0
    void part0()
    {
        Add().all<vec<i8>, vec<u8>, vec<i16>, vec<u16>, vec<u32>, vec<i64>, vec<u64>, vec<float>, vec<double>,
                  vec<opt<i8>>, vec<opt<u16>>, vec<opt<u64>>, vec<opt<float>>, vec<opt<double>>>();
        Add().full<vec<i32>, vec<opt<i32>>, vec<str>, vec<opt<str>>>();
    }
#elif PART == 1
    void part1()
    {
        Add().all<vec<vec<opt<i32>>>, vec<opt<vec<i64>>>, vec<vec<str>>, vec<opt<vec<opt<str>>>>,
                  vec<vec<vec<float>>>, vec<opt<vec<opt<vec<opt<u32>>>>>>, vec<vec<vec<str>>>>();
        Add().full<vec<vec<i32>>, vec<opt<vec<opt<i16>>>>>();
    }
#elif PART == 2
    void part2()
    {
        Add().all<vec<opt<arr<opt<i32>, 2>>>, vec<arr<str, 2>>, vec<arr<vec<i16>, 2>>, vec<arr<tup<i32, str>, 2>>,
                  vec<arr<var<i32, str>, 2>>, vec<arr<arr<u16, 2>, 2>>, vec<arr<i64, 1>>, vec<vec<arr<i32, 2>>>, vec<opt<vec<opt<arr<opt<float>, 2>>>>>,
                  vec<opt<arr<opt<arr<opt<i16>, 2>>, 2>>>>();
        Add().full<vec<arr<float, 3>>>();
    }
#elif PART == 3
    void part3()
    {
        Add().all<vec<tup<float, i32>>, vec<opt<tup<float, i32>>>, vec<opt<tup<opt<str>, opt<u16>>>>,
                  vec<tup<vec<float>, u16>>, vec<tup<tup<i32, str>, opt<i16>>>, vec<std::pair<i32, str>>, vec<tup<arr<i16, 2>, i32>>,
                  vec<tup<var<i32, str>, i32>>, vec<vec<tup<i32, double>>>, vec<opt<vec<opt<tup<opt<i32>, vec<str>>>>>>, vec<tup<opt<vec<opt<i32>>>, opt<str>, u64>>>();
        Add().full<vec<tup<opt<i32>, str>>>();
    }
#elif PART == 4
    void part4()
    {
        Add().all<vec<var<i32, float, str>>, vec<var<vec<i32>, i16>>, vec<var<tup<i32, float>, opt<str>>>,
                  vec<var<arr<i32, 2>, float>>, vec<var<i32>>, vec<vec<var<i32, str>>>, vec<opt<vec<var<opt<u16>, opt<vec<opt<i32>>>>>>>,
                  vec<var<var<i32, str>, float>>, vec<var<vec<opt<str>>, opt<arr<i16, 2>>, u64>>>();
        Add().full<vec<var<opt<i32>, str>>>();
    }
#elif PART == 5
    void part5()
    {
        Add().all<dic<vec<i32>>, dic<vec<opt<i32>>>, dic<vec<str>>, dic<vec<opt<str>>>, dic<vec<double>>, dic<vec<tup<i32, str>>>,
                  dic<vec<opt<tup<opt<i32>, u16>>>>, dic<vec<vec<i32>>>, dic<vec<opt<vec<opt<i32>>>>>, dic<vec<var<i32, str>>>,
                  dic<vec<var<opt<i32>, opt<str>>>>, dic<vec<arr<i32, 2>>>, dic<vec<vec<vec<str>>>>, dic<vec<opt<arr<opt<str>, 2>>>>>();
    }
#elif PART == 6
    void part6()
    {
        Add().all<ree<vec<i32>>, ree<vec<opt<i32>>>, ree<vec<str>>, ree<vec<opt<str>>>, ree<vec<double>>, ree<vec<tup<i32, str>>>,
                  ree<vec<opt<tup<opt<i32>, u16>>>>, ree<vec<vec<i32>>>, ree<vec<opt<vec<opt<i32>>>>>, ree<vec<var<i32, str>>>,
                  ree<vec<var<opt<i32>, opt<str>>>>, ree<vec<arr<i32, 2>>>, ree<vec<vec<vec<str>>>>, ree<vec<opt<arr<opt<str>, 2>>>>>();
    }
#else
    void part7()
    {
        Add().all<vec<dic<vec<i32>>>, vec<opt<dic<vec<opt<i32>>>>>, vec<dic<arr<str, 2>>>, vec<opt<dic<arr<str, 2>>>>, vec<opt<tup<dic<opt<str>>, i32>>>,
                  vec<tup<dic<str>, ree<i32>>>, vec<var<dic<str>, i32>>, vec<var<dic<opt<str>>, opt<i32>>>,
                  vec<ree<vec<i32>>>, vec<opt<ree<vec<opt<i32>>>>>, vec<ree<arr<str, 2>>>, vec<opt<ree<arr<str, 2>>>>, vec<opt<tup<ree<opt<str>>, i32>>>,
                  vec<var<ree<str>, i32>>, vec<var<ree<opt<str>>, opt<i32>>>, vec<vec<tup<dic<str>, i32>>>, vec<dic<vec<opt<str>>>>,
                  vec<dic<vec<tup<i32, str>>>>, vec<ree<vec<vec<i16>>>>, dic<vec<vec<tup<str, i32>>>>,
                  vec<tup<dic<i32>, ree<opt<double>>>>, vec<opt<tup<ree<i64>, dic<opt<i32>>>>>, vec<var<dic<i32>, ree<str>>>>();
    }
#endif
}
