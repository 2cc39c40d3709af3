#pragma once
#include "complemented_edges.hpp"
namespace mockturtle
{
class mig_network : public shim::ce_network<mig_network, 3>
{
  public:
    using shim::ce_network<mig_network, 3>::ce_network;
    signal create_maj(signal a, signal b, signal c)
    {
        if (a == b) { return a; }
        if (b == c) { return b; }
        if (a == c) { return a; }
        if (a == !b) { return c; }
        if (b == !c) { return a; }
        if (a == !c) { return b; }
        const bool inv = (a.complement + b.complement + c.complement) >= 2;
        if (inv)
        {
            a = !a;
            b = !b;
            c = !c;
        }
        return make(shim::kind::maj, {a.data, b.data, c.data}) ^ inv;
    }
    signal create_and(const signal& a, const signal& b) { return create_maj(get_constant(false), a, b); }
    signal create_or(const signal& a, const signal& b) { return create_maj(get_constant(true), a, b); }
    signal create_xor(const signal& a, const signal& b)
    {
        return create_and(create_or(a, b), !create_and(a, b));
    }
    bool is_and(const node&) const { return false; }
};
}  // namespace mockturtle
