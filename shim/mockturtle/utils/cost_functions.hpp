#pragma once
#include <cstdint>
#include "../traits.hpp"
namespace mockturtle
{
template <class Ntk>
struct unit_cost
{
    uint32_t operator()(const Ntk&, const node<Ntk>&) const { return 1u; }
};
}  // namespace mockturtle
