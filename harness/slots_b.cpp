#include "slots.hpp"
namespace h
{
    void register_a(MakerMap& m)
    {
        reg<primitive_array<std::int8_t>>(m, "c");
        reg<primitive_array<std::uint16_t>>(m, "S");
        reg<primitive_array<std::int32_t>>(m, "i");
        reg<primitive_array<std::int64_t>>(m, "l");
        reg<primitive_array<double>>(m, "g");
        reg<primitive_array<float16_t>>(m, "e");
    }
    void register_b(MakerMap& m)
    {
        reg<string_array>(m, "u");
        reg<string_view_array>(m, "vu");
        reg<binary_view_array>(m, "vz");
        reg<null_array>(m, "n");
    }
}
