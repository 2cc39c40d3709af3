#pragma once
#include "complemented_edges.hpp"
namespace mockturtle
{
class xag_network : public shim::ce_network<xag_network, 2>
{
  public:
    using shim::ce_network<xag_network, 2>::ce_network;
    signal create_and(signal a, signal b)
    {
        if (b.index < a.index) { std::swap(a, b); }
        if (a.index == b.index) { return a.complement == b.complement ? a : get_constant(false); }
        if (a.index == 0) { return a.complement ? b : get_constant(false); }
        return make(shim::kind::and_, {a.data, b.data});
    }
    signal create_xor(signal a, signal b)
    {
        const bool c = a.complement != b.complement;
        a = +a;
        b = +b;
        if (a.index == b.index) { return get_constant(c); }
        if (a.index == 0) { return b ^ c; }
        if (b.index == 0) { return a ^ c; }
        return make(shim::kind::xor_, {a.data, b.data}) ^ c;
    }
    signal create_maj(const signal& a, const signal& b, const signal& c)
    {
        const auto d = create_xor(a, b);
        return create_xor(create_and(d, create_xor(a, c)), a);
    }
};
}  // namespace mockturtle
