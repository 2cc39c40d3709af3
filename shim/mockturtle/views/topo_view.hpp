#pragma once
#include <algorithm>
#include <cassert>
#include <functional>
#include <optional>
#include <vector>
#include "../networks/detail/foreach.hpp"
#include "../traits.hpp"
#include "immutable_view.hpp"
namespace mockturtle
{
template <class Ntk, bool sorted = is_topologically_sorted_v<Ntk>>
class topo_view
{};
template <typename Ntk>
class topo_view<Ntk, false> : public immutable_view<Ntk>
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    static constexpr bool is_topologically_sorted = true;

    topo_view(const Ntk& ntk) : immutable_view<Ntk>(ntk) { update_topo(); }
    topo_view(const Ntk& ntk, const signal& start) : immutable_view<Ntk>(ntk), start_signal(start) { update_topo(); }

    auto size() const { return static_cast<uint32_t>(topo_order.size()); }
    auto num_gates() const
    {
        uint32_t c = 0;
        foreach_gate([&](const auto&) { ++c; });
        return c;
    }
    uint32_t node_to_index(const node& n) const
    {
        return static_cast<uint32_t>(std::find(topo_order.begin(), topo_order.end(), n) - topo_order.begin());
    }
    node index_to_node(uint32_t index) const { return topo_order.at(index); }
    template <typename Fn>
    void foreach_node(Fn&& fn) const { detail::foreach_element(topo_order.begin(), topo_order.end(), fn); }
    template <typename Fn>
    void foreach_node_reverse(Fn&& fn) const { detail::foreach_element(topo_order.rbegin(), topo_order.rend(), fn); }
    template <typename Fn>
    void foreach_gate(Fn&& fn) const
    {
        detail::foreach_element_if(topo_order.begin(), topo_order.end(), [this](auto n) { return !Ntk::is_constant(n) && !Ntk::is_ci(n); }, fn);
    }
    template <typename Fn>
    void foreach_gate_reverse(Fn&& fn) const
    {
        detail::foreach_element_if(topo_order.rbegin(), topo_order.rend(), [this](auto n) { return !Ntk::is_constant(n) && !Ntk::is_ci(n); }, fn);
    }
    template <typename Fn>
    void foreach_po(Fn&& fn) const
    {
        if (start_signal)
        {
            std::vector<signal> s(1, *start_signal);
            detail::foreach_element(s.begin(), s.end(), fn);
        }
        else { Ntk::foreach_po(fn); }
    }
    uint32_t num_pos() const { return start_signal ? 1 : static_cast<uint32_t>(Ntk::num_pos()); }
    void update_topo()
    {
        this->incr_trav_id();
        this->incr_trav_id();
        topo_order.clear();
        const auto c0 = this->get_node(this->get_constant(false));
        topo_order.push_back(c0);
        this->set_visited(c0, this->trav_id());
        if (const auto c1 = this->get_node(this->get_constant(true)); this->visited(c1) != this->trav_id())
        {
            topo_order.push_back(c1);
            this->set_visited(c1, this->trav_id());
        }
        this->foreach_ci([this](const auto& n)
        {
            if (this->visited(n) != this->trav_id())
            {
                topo_order.push_back(n);
                this->set_visited(n, this->trav_id());
            }
        });
        if (start_signal) { create_topo_rec(this->get_node(*start_signal)); }
        else { Ntk::foreach_co([this](auto f) { create_topo_rec(this->get_node(f)); }); }
    }

  private:
    void create_topo_rec(const node& n)
    {
        if (this->visited(n) == this->trav_id()) { return; }
        assert(this->visited(n) != this->trav_id() - 1 && "not a DAG");
        this->set_visited(n, this->trav_id() - 1);
        this->foreach_fanin(n, [this](auto const& f) { create_topo_rec(this->get_node(f)); });
        this->set_visited(n, this->trav_id());
        topo_order.push_back(n);
    }
    std::vector<node>     topo_order;
    std::optional<signal> start_signal;
};
template <typename Ntk>
class topo_view<Ntk, true> : public Ntk
{
  public:
    topo_view(const Ntk& ntk) : Ntk(ntk) {}
};
template <class T>
topo_view(const T&) -> topo_view<T>;
template <class T>
topo_view(const T&, const typename T::signal&) -> topo_view<T>;
}  // namespace mockturtle
