#include "slots.hpp"
namespace h
{
    SlotP wrap_array(array&& a) { return std::make_unique<Typed<array>>("array", std::move(a)); }
}
