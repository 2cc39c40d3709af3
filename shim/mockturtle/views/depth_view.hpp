#pragma once
#include <algorithm>
#include <cstdint>
#include <vector>
#include "../networks/events.hpp"
#include "../traits.hpp"
#include "../utils/cost_functions.hpp"
#include "../utils/node_map.hpp"
#include "immutable_view.hpp"
namespace mockturtle
{
struct depth_view_params
{
    bool count_complements{false};
    bool pi_cost{false};
};
template <class Ntk, class NodeCostFn = unit_cost<Ntk>,
          bool has_depth_interface = has_depth_v<Ntk> && has_level_v<Ntk> && has_update_levels_v<Ntk>>
class depth_view
{};
template <class Ntk, class NodeCostFn>
class depth_view<Ntk, NodeCostFn, true> : public Ntk
{
  public:
    depth_view(const Ntk& ntk, const NodeCostFn& = {}, const depth_view_params& = {}) : Ntk(ntk) {}
};
template <class Ntk, class NodeCostFn>
class depth_view<Ntk, NodeCostFn, false> : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit depth_view(const NodeCostFn& c = {}, const depth_view_params& ps = {}) : Ntk(), _ps(ps), _cost(c) { reg(); }
    explicit depth_view(const Ntk& ntk, const NodeCostFn& c = {}, const depth_view_params& ps = {}) : Ntk(ntk), _ps(ps), _cost(c)
    {
        update_levels();
        reg();
    }
    depth_view(const depth_view& o) : Ntk(o), _ps(o._ps), _levels(o._levels), _depth(o._depth), _cost(o._cost) { reg(); }
    depth_view& operator=(const depth_view& o)
    {
        if (this != &o)
        {
            unreg();
            Ntk::operator=(o);
            _ps = o._ps; _levels = o._levels; _depth = o._depth; _cost = o._cost;
            reg();
        }
        return *this;
    }
    ~depth_view() { unreg(); }
    uint32_t depth() const { return _depth; }
    uint32_t level(const node& n) const
    {
        const auto i = this->node_to_index(n);
        return i < _levels.size() ? _levels[i] : 0u;
    }
    void set_level(const node& n, uint32_t l)
    {
        const auto i = this->node_to_index(n);
        if (i >= _levels.size()) { _levels.resize(i + 1, 0); }
        _levels[i] = l;
    }
    void set_depth(uint32_t l) { _depth = l; }
    void update_levels()
    {
        _levels.assign(Ntk::size(), 0);
        _depth = 0;
        std::vector<bool> done(Ntk::size(), false);
        this->foreach_po([&](auto const& f)
        {
            auto l = rec(this->get_node(f), done);
            if (_ps.count_complements && this->is_complemented(f)) { ++l; }
            _depth = std::max(_depth, l);
        });
    }
    uint32_t create_po(const signal& f)
    {
        const auto r = Ntk::create_po(f);
        _depth       = std::max(_depth, level(this->get_node(f)));
        return static_cast<uint32_t>(r);
    }

  private:
    uint32_t rec(const node& n, std::vector<bool>& done)
    {
        const auto i = this->node_to_index(n);
        if (done[i]) { return _levels[i]; }
        done[i] = true;
        if (this->is_constant(n)) { return _levels[i] = 0; }
        if (this->is_ci(n)) { return _levels[i] = _ps.pi_cost ? _cost(*this, n) - 1 : 0; }
        uint32_t l = 0;
        this->foreach_fanin(n, [&](auto const& f)
        {
            auto c = rec(this->get_node(f), done);
            if (_ps.count_complements && this->is_complemented(f)) { ++c; }
            l = std::max(l, c);
        });
        return _levels[i] = l + _cost(*this, n);
    }
    void on_add(const node& n)
    {
        uint32_t l = 0;
        this->foreach_fanin(n, [&](auto const& f) { l = std::max(l, level(this->get_node(f))); });
        set_level(n, l + _cost(*this, n));
    }
    void reg() { _add = Ntk::events().register_add_event([this](const auto& n) { on_add(n); }); }
    void unreg() { if (_add) { Ntk::events().release_add_event(_add); } }
    depth_view_params     _ps;
    std::vector<uint32_t> _levels;
    uint32_t              _depth{0};
    NodeCostFn            _cost;
    std::shared_ptr<typename network_events<typename Ntk::base_type>::add_event_type> _add;
};
template <class T>
depth_view(const T&) -> depth_view<T>;
}  // namespace mockturtle
