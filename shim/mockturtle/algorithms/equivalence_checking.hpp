// Stand-in: decides a combinational miter by exhaustive simulation (<= 20 inputs).
#pragma once
#include <chrono>
#include <cstdint>
#include <optional>
#include <vector>
#include "../traits.hpp"
#include "../utils/stopwatch.hpp"
#include "../views/topo_view.hpp"
namespace mockturtle
{
struct equivalence_checking_params
{
    uint32_t conflict_limit{0};
    bool     functional_reduction{true};
    bool     verbose{false};
};
struct equivalence_checking_stats
{
    stopwatch<>::duration time_total{};
    std::vector<bool>     counter_example;
    void                  report() const {}
};
template <class Ntk>
std::optional<bool> equivalence_checking(const Ntk& miter, const equivalence_checking_params& = {}, equivalence_checking_stats* pst = nullptr)
{
    const auto k = miter.num_pis();
    if (k > 20) { return std::nullopt; }
    topo_view topo{miter};
    std::vector<char> val(static_cast<std::size_t>(miter.size()), 0);
    for (uint64_t a = 0; a < (uint64_t{1} << k); ++a)
    {
        val[miter.node_to_index(miter.get_node(miter.get_constant(false)))] = 0;
        val[miter.node_to_index(miter.get_node(miter.get_constant(true)))] = 1;
        miter.foreach_pi([&](auto n, auto i) { val[miter.node_to_index(n)] = (a >> i) & 1; });
        topo.foreach_gate([&](auto n)
        {
            uint64_t p = 0;
            uint32_t j = 0;
            miter.foreach_fanin(n, [&](auto const& f) { p |= uint64_t(val[miter.node_to_index(miter.get_node(f))] ? 1 : 0) << j++; });
            val[miter.node_to_index(n)] = kitty::get_bit(miter.node_function(n), p);
        });
        bool one = false;
        miter.foreach_po([&](auto const& f) { one = one || val[miter.node_to_index(miter.get_node(f))]; });
        if (one)
        {
            if (pst)
            {
                pst->counter_example.assign(k, false);
                for (uint32_t i = 0; i < k; ++i) { pst->counter_example[i] = (a >> i) & 1; }
            }
            return false;
        }
    }
    return true;
}
}  // namespace mockturtle
