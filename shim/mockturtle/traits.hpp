// Stand-in for mockturtle (not installed): traits.
#pragma once
#include <kitty/kitty_shim.hpp>
#include <cstdint>
#include <functional>
#include <iterator>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace mockturtle
{
template <typename Ntk>
using signal = typename Ntk::signal;
template <typename Ntk>
using node = typename Ntk::node;

template <class Ntk, class = void>
struct is_network_type : std::false_type
{};
template <class Ntk>
struct is_network_type<Ntk, std::void_t<typename Ntk::base_type, typename Ntk::node, typename Ntk::signal, typename Ntk::storage,
                                        decltype(Ntk::max_fanin_size), decltype(Ntk::min_fanin_size)>> : std::true_type
{};
template <class Ntk>
inline constexpr bool is_network_type_v = is_network_type<Ntk>::value;

template <class Ntk, class = void>
struct is_topologically_sorted : std::false_type
{};
template <class Ntk>
struct is_topologically_sorted<Ntk, std::enable_if_t<Ntk::is_topologically_sorted>> : std::true_type
{};
template <class Ntk>
inline constexpr bool is_topologically_sorted_v = is_topologically_sorted<Ntk>::value;

#define MT_NODE std::declval<node<Ntk>>()
#define MT_SIG std::declval<signal<Ntk>>()
#define MT_SHIM_HAS(NAME, EXPR)                                                                            \
    template <class Ntk, class = void>                                                                     \
    struct has_##NAME : std::false_type                                                                    \
    {};                                                                                                    \
    template <class Ntk>                                                                                   \
    struct has_##NAME<Ntk, std::void_t<decltype(std::declval<Ntk>().EXPR)>> : std::true_type               \
    {};                                                                                                    \
    template <class Ntk>                                                                                   \
    inline constexpr bool has_##NAME##_v = has_##NAME<Ntk>::value;

#define MT_FN_N std::declval<void(node<Ntk>, uint32_t)>()
#define MT_FN_S std::declval<void(signal<Ntk>, uint32_t)>()
#define MT_TT std::declval<kitty::dynamic_truth_table>()
#define MT_VS std::declval<std::vector<signal<Ntk>>>()

MT_SHIM_HAS(clone, clone())
MT_SHIM_HAS(get_constant, get_constant(bool()))
MT_SHIM_HAS(create_pi, create_pi())
MT_SHIM_HAS(create_po, create_po(MT_SIG))
MT_SHIM_HAS(create_ro, create_ro())
MT_SHIM_HAS(create_ri, create_ri(MT_SIG))
MT_SHIM_HAS(is_combinational, is_combinational())
MT_SHIM_HAS(is_constant, is_constant(MT_NODE))
MT_SHIM_HAS(is_ci, is_ci(MT_NODE))
MT_SHIM_HAS(is_pi, is_pi(MT_NODE))
MT_SHIM_HAS(is_po, is_po(MT_NODE))
MT_SHIM_HAS(constant_value, constant_value(MT_NODE))
MT_SHIM_HAS(create_buf, create_buf(MT_SIG))
MT_SHIM_HAS(create_not, create_not(MT_SIG))
MT_SHIM_HAS(create_and, create_and(MT_SIG, MT_SIG))
MT_SHIM_HAS(create_nand, create_nand(MT_SIG, MT_SIG))
MT_SHIM_HAS(create_or, create_or(MT_SIG, MT_SIG))
MT_SHIM_HAS(create_nor, create_nor(MT_SIG, MT_SIG))
MT_SHIM_HAS(create_lt, create_lt(MT_SIG, MT_SIG))
MT_SHIM_HAS(create_le, create_le(MT_SIG, MT_SIG))
MT_SHIM_HAS(create_gt, create_gt(MT_SIG, MT_SIG))
MT_SHIM_HAS(create_ge, create_ge(MT_SIG, MT_SIG))
MT_SHIM_HAS(create_xor, create_xor(MT_SIG, MT_SIG))
MT_SHIM_HAS(create_xnor, create_xnor(MT_SIG, MT_SIG))
MT_SHIM_HAS(create_maj, create_maj(MT_SIG, MT_SIG, MT_SIG))
MT_SHIM_HAS(create_ite, create_ite(MT_SIG, MT_SIG, MT_SIG))
MT_SHIM_HAS(create_xor3, create_xor3(MT_SIG, MT_SIG, MT_SIG))
MT_SHIM_HAS(create_nary_and, create_nary_and(MT_VS))
MT_SHIM_HAS(create_nary_or, create_nary_or(MT_VS))
MT_SHIM_HAS(create_nary_xor, create_nary_xor(MT_VS))
MT_SHIM_HAS(create_node, create_node(MT_VS, MT_TT))
MT_SHIM_HAS(clone_node, clone_node(std::declval<Ntk>(), MT_NODE, MT_VS))
MT_SHIM_HAS(substitute_node, substitute_node(MT_NODE, MT_SIG))
MT_SHIM_HAS(take_out_node, take_out_node(MT_NODE))
MT_SHIM_HAS(is_dead, is_dead(MT_NODE))
MT_SHIM_HAS(size, size())
MT_SHIM_HAS(num_cis, num_cis())
MT_SHIM_HAS(num_cos, num_cos())
MT_SHIM_HAS(num_pis, num_pis())
MT_SHIM_HAS(num_pos, num_pos())
MT_SHIM_HAS(num_gates, num_gates())
MT_SHIM_HAS(num_registers, num_registers())
MT_SHIM_HAS(fanin_size, fanin_size(MT_NODE))
MT_SHIM_HAS(fanout_size, fanout_size(MT_NODE))
MT_SHIM_HAS(depth, depth())
MT_SHIM_HAS(level, level(MT_NODE))
MT_SHIM_HAS(update_levels, update_levels())
MT_SHIM_HAS(is_function, is_function(MT_NODE))
MT_SHIM_HAS(is_buf, is_buf(MT_NODE))
MT_SHIM_HAS(is_not, is_not(MT_NODE))
MT_SHIM_HAS(is_and, is_and(MT_NODE))
MT_SHIM_HAS(is_or, is_or(MT_NODE))
MT_SHIM_HAS(is_xor, is_xor(MT_NODE))
MT_SHIM_HAS(is_maj, is_maj(MT_NODE))
MT_SHIM_HAS(is_ite, is_ite(MT_NODE))
MT_SHIM_HAS(is_xor3, is_xor3(MT_NODE))
MT_SHIM_HAS(is_nary_and, is_nary_and(MT_NODE))
MT_SHIM_HAS(is_nary_or, is_nary_or(MT_NODE))
MT_SHIM_HAS(is_nary_xor, is_nary_xor(MT_NODE))
MT_SHIM_HAS(node_function, node_function(MT_NODE))
MT_SHIM_HAS(get_node, get_node(MT_SIG))
MT_SHIM_HAS(make_signal, make_signal(MT_NODE))
MT_SHIM_HAS(is_complemented, is_complemented(MT_SIG))
MT_SHIM_HAS(node_to_index, node_to_index(MT_NODE))
MT_SHIM_HAS(index_to_node, index_to_node(uint32_t()))
MT_SHIM_HAS(ci_at, ci_at(uint32_t()))
MT_SHIM_HAS(co_at, co_at(uint32_t()))
MT_SHIM_HAS(pi_at, pi_at(uint32_t()))
MT_SHIM_HAS(po_at, po_at(uint32_t()))
MT_SHIM_HAS(ci_index, ci_index(MT_NODE))
MT_SHIM_HAS(pi_index, pi_index(MT_NODE))
MT_SHIM_HAS(po_index, po_index(MT_SIG))
MT_SHIM_HAS(foreach_node, foreach_node(MT_FN_N))
MT_SHIM_HAS(foreach_ci, foreach_ci(MT_FN_N))
MT_SHIM_HAS(foreach_co, foreach_co(MT_FN_S))
MT_SHIM_HAS(foreach_pi, foreach_pi(MT_FN_N))
MT_SHIM_HAS(foreach_po, foreach_po(MT_FN_S))
MT_SHIM_HAS(foreach_ro, foreach_ro(MT_FN_N))
MT_SHIM_HAS(foreach_ri, foreach_ri(MT_FN_S))
MT_SHIM_HAS(foreach_gate, foreach_gate(MT_FN_N))
MT_SHIM_HAS(foreach_fanin, foreach_fanin(MT_NODE, MT_FN_S))
MT_SHIM_HAS(foreach_fanout, foreach_fanout(MT_NODE, MT_FN_N))
MT_SHIM_HAS(clear_values, clear_values())
MT_SHIM_HAS(value, value(MT_NODE))
MT_SHIM_HAS(set_value, set_value(MT_NODE, uint32_t()))
MT_SHIM_HAS(incr_value, incr_value(MT_NODE))
MT_SHIM_HAS(decr_value, decr_value(MT_NODE))
MT_SHIM_HAS(clear_visited, clear_visited())
MT_SHIM_HAS(visited, visited(MT_NODE))
MT_SHIM_HAS(set_visited, set_visited(MT_NODE, uint32_t()))
MT_SHIM_HAS(trav_id, trav_id())
MT_SHIM_HAS(incr_trav_id, incr_trav_id())
MT_SHIM_HAS(get_network_name, get_network_name())
MT_SHIM_HAS(set_network_name, set_network_name(std::string()))
MT_SHIM_HAS(get_name, get_name(MT_SIG))
MT_SHIM_HAS(set_name, set_name(MT_SIG, std::string()))
MT_SHIM_HAS(has_name, has_name(MT_SIG))
MT_SHIM_HAS(get_output_name, get_output_name(uint32_t()))
MT_SHIM_HAS(set_output_name, set_output_name(uint32_t(), std::string()))
MT_SHIM_HAS(has_output_name, has_output_name(uint32_t()))
MT_SHIM_HAS(new_color, new_color())
MT_SHIM_HAS(current_color, current_color())
MT_SHIM_HAS(clear_colors, clear_colors())
MT_SHIM_HAS(color, color(MT_NODE))
MT_SHIM_HAS(paint, paint(MT_NODE))
MT_SHIM_HAS(rank_position, rank_position(MT_NODE))
MT_SHIM_HAS(at_rank_position, at_rank_position(uint32_t(), uint32_t()))
MT_SHIM_HAS(swap, swap(MT_NODE, MT_NODE))
MT_SHIM_HAS(width, width())
MT_SHIM_HAS(foreach_node_in_rank, foreach_node_in_rank(uint32_t(), MT_FN_N))
MT_SHIM_HAS(foreach_gate_in_rank, foreach_gate_in_rank(uint32_t(), MT_FN_N))
MT_SHIM_HAS(EXODC_interface, add_EXODC_ito_pos(MT_TT))
MT_SHIM_HAS(get_fanin0, get_fanin0(MT_NODE))

template <typename Iterator, typename T>
using iterates_over_t =
    std::enable_if_t<std::is_same_v<typename std::iterator_traits<Iterator>::value_type, T>, T>;
template <typename Iterator>
using iterates_over_truth_table_t =
    std::enable_if_t<kitty::is_truth_table<typename std::iterator_traits<Iterator>::value_type>::value,
                     typename std::iterator_traits<Iterator>::value_type>;
template <typename Iterator, typename T>
inline constexpr bool iterates_over_v = std::is_same_v<typename std::iterator_traits<Iterator>::value_type, T>;
}  // namespace mockturtle
