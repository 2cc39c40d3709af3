#pragma once
#include <cstdint>
#include <vector>
#include "../traits.hpp"
#include "immutable_view.hpp"
namespace mockturtle
{
template <typename Ntk>
class out_of_place_color_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit out_of_place_color_view(const Ntk& ntk) : Ntk(ntk), _values(ntk.size(), 0u) {}
    uint32_t new_color() const { return ++value; }
    uint32_t current_color() const { return value; }
    void     clear_colors(uint32_t c = 0) const { std::fill(_values.begin(), _values.end(), c); }
    uint32_t color(const node& n) const { return _values[this->node_to_index(n)]; }
    template <typename S = signal, typename = std::enable_if_t<!std::is_same_v<S, node>>>
    uint32_t color(const S& n) const { return _values[this->node_to_index(this->get_node(n))]; }
    void paint(const node& n) const { _values[this->node_to_index(n)] = value; }
    void paint(const node& n, uint32_t c) const { _values[this->node_to_index(n)] = c; }
    void paint(const node& n, const node& o) const { _values[this->node_to_index(n)] = _values[this->node_to_index(o)]; }
    template <typename Pred>
    bool eval_color(const node& n, Pred&& pred) const { return pred(color(n)); }
    template <typename Pred>
    bool eval_color(const node& a, const node& b, Pred&& pred) const { return pred(color(a), color(b)); }
    template <typename Pred>
    bool eval_fanins_color(const node& n, Pred&& pred) const
    {
        bool r = true;
        this->foreach_fanin(n, [&](auto const& f) { if (!pred(color(this->get_node(f)))) { r = false; } return r; });
        return r;
    }

  protected:
    mutable std::vector<uint32_t> _values;
    mutable uint32_t              value{0};
};
}  // namespace mockturtle
