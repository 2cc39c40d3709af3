#pragma once
#include <algorithm>
#include <utility>
#include <vector>
#include "../traits.hpp"
#include "../utils/node_map.hpp"
#include "../views/topo_view.hpp"
namespace mockturtle
{
template <class NtkDest, class NtkSrc>
std::pair<NtkDest, node_map<signal<NtkDest>, NtkSrc>> initialize_copy_network(const NtkSrc& src)
{
    node_map<signal<NtkDest>, NtkSrc> old2new(src);
    NtkDest                           dest;
    old2new[src.get_node(src.get_constant(false))] = dest.get_constant(false);
    if (src.get_node(src.get_constant(true)) != src.get_node(src.get_constant(false)))
    {
        old2new[src.get_node(src.get_constant(true))] = dest.get_constant(true);
    }
    src.foreach_pi([&](auto const& n) { old2new[n] = dest.create_pi(); });
    return {dest, old2new};
}
template <class NtkSrc, class NtkDest, class LeavesIterator>
std::vector<signal<NtkDest>> cleanup_dangling(const NtkSrc& ntk, NtkDest& dest, LeavesIterator begin, LeavesIterator end)
{
    (void)end;
    std::vector<signal<NtkDest>> m(static_cast<std::size_t>(ntk.size()) + 2);
    m[ntk.node_to_index(ntk.get_node(ntk.get_constant(false)))] = dest.get_constant(false);
    if (ntk.get_node(ntk.get_constant(true)) != ntk.get_node(ntk.get_constant(false)))
    {
        m[ntk.node_to_index(ntk.get_node(ntk.get_constant(true)))] = dest.get_constant(true);
    }
    auto it = begin;
    ntk.foreach_ci([&](auto const& n) { m[ntk.node_to_index(n)] = *it++; });
    topo_view topo{ntk};
    topo.foreach_node([&](auto const& n)
    {
        if (ntk.is_constant(n) || ntk.is_ci(n)) { return; }
        std::vector<signal<NtkDest>> ch;
        ntk.foreach_fanin(n, [&](auto const& f)
        {
            auto s = m[ntk.node_to_index(ntk.get_node(f))];
            ch.push_back(ntk.is_complemented(f) ? dest.create_not(s) : s);
        });
        auto& r = m[ntk.node_to_index(n)];
        if constexpr (has_is_and_v<NtkSrc>) { if (ntk.is_and(n)) { r = dest.create_and(ch[0], ch[1]); return; } }
        if constexpr (has_is_or_v<NtkSrc>) { if (ntk.is_or(n)) { r = dest.create_or(ch[0], ch[1]); return; } }
        if constexpr (has_is_xor_v<NtkSrc>) { if (ntk.is_xor(n)) { r = dest.create_xor(ch[0], ch[1]); return; } }
        if constexpr (has_is_maj_v<NtkSrc>) { if (ntk.is_maj(n)) { r = dest.create_maj(ch[0], ch[1], ch[2]); return; } }
        if constexpr (has_is_ite_v<NtkSrc>) { if (ntk.is_ite(n)) { r = dest.create_ite(ch[0], ch[1], ch[2]); return; } }
        if constexpr (has_is_xor3_v<NtkSrc>) { if (ntk.is_xor3(n)) { r = dest.create_xor3(ch[0], ch[1], ch[2]); return; } }
        if constexpr (has_is_function_v<NtkSrc> && has_create_node_v<NtkDest>)
        {
            r = dest.create_node(ch, ntk.node_function(n));
            return;
        }
    });
    std::vector<signal<NtkDest>> fs;
    ntk.foreach_po([&](auto const& po)
    {
        auto s = m[ntk.node_to_index(ntk.get_node(po))];
        fs.push_back(ntk.is_complemented(po) ? dest.create_not(s) : s);
    });
    return fs;
}
template <class NtkSrc, class NtkDest = NtkSrc>
NtkDest cleanup_dangling(const NtkSrc& ntk, bool remove_dangling_PIs = false, bool remove_redundant_POs = false)
{
    NtkDest                      dest;
    std::vector<signal<NtkDest>> cis;
    if constexpr (has_get_network_name_v<NtkSrc> && has_set_network_name_v<NtkDest>) { dest.set_network_name(ntk.get_network_name()); }
    ntk.foreach_pi([&](auto const& n)
    {
        if (remove_dangling_PIs && ntk.fanout_size(n) == 0)
        {
            cis.push_back(dest.get_constant(false));
            return;
        }
        cis.push_back(dest.create_pi());
        if constexpr (has_has_name_v<NtkSrc> && has_get_name_v<NtkSrc> && has_set_name_v<NtkDest>)
        {
            if (ntk.has_name(ntk.make_signal(n))) { dest.set_name(cis.back(), ntk.get_name(ntk.make_signal(n))); }
        }
    });
    const auto fs = cleanup_dangling(ntk, dest, cis.begin(), cis.end());
    uint32_t   idx = 0, out = 0;
    ntk.foreach_po([&](auto const& po)
    {
        const auto i = idx++;
        if (remove_redundant_POs && (ntk.is_constant(ntk.get_node(po)) || ntk.is_ci(ntk.get_node(po)))) { return; }
        dest.create_po(fs[i]);
        if constexpr (has_has_output_name_v<NtkSrc> && has_get_output_name_v<NtkSrc> && has_set_output_name_v<NtkDest>)
        {
            if (ntk.has_output_name(i)) { dest.set_output_name(out, ntk.get_output_name(i)); }
        }
        ++out;
    });
    return dest;
}
}  // namespace mockturtle
