#include "slots.hpp"
namespace h
{
    void register_d(MakerMap& m)
    {
        reg<dense_union_array>(m, "+ud");
        reg<sparse_union_array>(m, "+us");
        reg<run_end_encoded_array>(m, "+r");
        reg<dictionary_encoded_array<std::int8_t>>(m, "dc");
        reg<dictionary_encoded_array<std::uint16_t>>(m, "dS");
        reg<dictionary_encoded_array<std::int32_t>>(m, "di");
        reg<dictionary_encoded_array<std::uint64_t>>(m, "dL");
    }
}
