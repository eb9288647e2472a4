#include "slots.hpp"
namespace h
{
    void register_c(MakerMap& m)
    {
        reg<list_array>(m, "+l");
        reg<big_list_array>(m, "+L");
        reg<list_view_array>(m, "+vl");
        reg<big_list_view_array>(m, "+vL");
        reg<fixed_sized_list_array>(m, "+w");
        reg<struct_array>(m, "+s");
    }
}
