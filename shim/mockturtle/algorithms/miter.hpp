#pragma once
#include <optional>
#include <vector>
#include "cleanup.hpp"
namespace mockturtle
{
template <class NtkDest, class NtkSource1, class NtkSource2>
std::optional<NtkDest> miter(const NtkSource1& ntk1, const NtkSource2& ntk2)
{
    if (ntk1.num_pis() != ntk2.num_pis() || ntk1.num_pos() != ntk2.num_pos()) { return std::nullopt; }
    NtkDest                      dest;
    std::vector<signal<NtkDest>> pis;
    for (uint32_t i = 0; i < ntk1.num_pis(); ++i) { pis.push_back(dest.create_pi()); }
    const auto                   a = cleanup_dangling(ntk1, dest, pis.begin(), pis.end());
    const auto                   b = cleanup_dangling(ntk2, dest, pis.begin(), pis.end());
    std::vector<signal<NtkDest>> x;
    for (std::size_t i = 0; i < a.size(); ++i) { x.push_back(dest.create_xor(a[i], b[i])); }
    dest.create_po(dest.create_nary_or(x));
    return dest;
}
}  // namespace mockturtle
