#pragma once
#include "complemented_edges.hpp"
namespace mockturtle
{
class aig_network : public shim::ce_network<aig_network, 2>
{
  public:
    using shim::ce_network<aig_network, 2>::ce_network;
    signal create_and(signal a, signal b)
    {
        if (b.index < a.index) { std::swap(a, b); }
        if (a.index == b.index) { return a.complement == b.complement ? a : get_constant(false); }
        if (a.index == 0) { return a.complement ? b : get_constant(false); }
        return make(shim::kind::and_, {a.data, b.data});
    }
    signal create_xor(const signal& a, const signal& b)
    {
        return create_nand(create_nand(a, !b), create_nand(!a, b));
    }
    signal create_maj(const signal& a, const signal& b, const signal& c)
    {
        return create_or(create_and(a, b), create_and(c, create_or(a, b)));
    }
    bool is_xor(const node&) const { return false; }
    bool is_maj(const node&) const { return false; }
};
}  // namespace mockturtle
