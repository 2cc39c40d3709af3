#pragma once
#include <vector>
#include "../networks/detail/foreach.hpp"
#include "../networks/events.hpp"
#include "../traits.hpp"
#include "immutable_view.hpp"
namespace mockturtle
{
struct fanout_view_params
{
    bool update_on_add{true};
    bool update_on_modified{true};
    bool update_on_delete{true};
};
template <typename Ntk, bool has_fanout_interface = has_foreach_fanout_v<Ntk>>
class fanout_view
{};
template <typename Ntk>
class fanout_view<Ntk, true> : public Ntk
{
  public:
    fanout_view(const Ntk& ntk, const fanout_view_params& = {}) : Ntk(ntk) {}
};
template <typename Ntk>
class fanout_view<Ntk, false> : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;

    fanout_view(const fanout_view_params& ps = {}) : Ntk(), _ps(ps) { reg(); }
    explicit fanout_view(const Ntk& ntk, const fanout_view_params& ps = {}) : Ntk(ntk), _ps(ps)
    {
        update_fanout();
        reg();
    }
    fanout_view(const fanout_view& o) : Ntk(o), _ps(o._ps), _fanout(o._fanout) { reg(); }
    fanout_view& operator=(const fanout_view& o)
    {
        if (this != &o)
        {
            unreg();
            Ntk::operator=(o);
            _ps     = o._ps;
            _fanout = o._fanout;
            reg();
        }
        return *this;
    }
    ~fanout_view() { unreg(); }

    template <typename Fn>
    void foreach_fanout(const node& n, Fn&& fn) const
    {
        const auto v = fanout(n);
        detail::foreach_element(v.begin(), v.end(), fn);
    }
    void update_fanout()
    {
        _fanout.assign(Ntk::size(), {});
        Ntk::foreach_gate([this](const auto& n) { add(n); });
    }
    std::vector<node> fanout(const node& n) const
    {
        const auto i = this->node_to_index(n);
        return i < _fanout.size() ? _fanout[i] : std::vector<node>{};
    }

  private:
    void add(const node& n)
    {
        this->foreach_fanin(n, [&](auto const& f)
        {
            const auto i = this->node_to_index(this->get_node(f));
            if (i >= _fanout.size()) { _fanout.resize(i + 1); }
            auto& v = _fanout[i];
            if (std::find(v.begin(), v.end(), n) == v.end()) { v.push_back(n); }
        });
    }
    void reg()
    {
        _add = Ntk::events().register_add_event([this](const auto& n) { add(n); });
        _mod = Ntk::events().register_modified_event([this](const auto&, const auto&) { update_fanout(); });
        _del = Ntk::events().register_delete_event([this](const auto&) { update_fanout(); });
    }
    void unreg()
    {
        if (_add) { Ntk::events().release_add_event(_add); }
        if (_mod) { Ntk::events().release_modified_event(_mod); }
        if (_del) { Ntk::events().release_delete_event(_del); }
    }
    fanout_view_params             _ps;
    std::vector<std::vector<node>> _fanout;
    using ev = network_events<typename Ntk::base_type>;
    std::shared_ptr<typename ev::add_event_type>      _add;
    std::shared_ptr<typename ev::modified_event_type> _mod;
    std::shared_ptr<typename ev::delete_event_type>   _del;
};
template <class T>
fanout_view(const T&, const fanout_view_params& = {}) -> fanout_view<T>;
}  // namespace mockturtle
