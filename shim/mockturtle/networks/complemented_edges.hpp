// Stand-in for mockturtle's AIG, XAG, and MIG (not installed): hashed networks with complemented edges.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "../traits.hpp"
#include "../utils/algorithm.hpp"
#include "detail/foreach.hpp"
#include "events.hpp"
#include "storage.hpp"
namespace mockturtle
{
namespace shim
{
enum class kind : uint8_t { none, ci, and_, xor_, maj };
struct ce_node
{
    kind                  k{kind::none};
    std::vector<uint64_t> children{};  // index << 1 | complement
    uint32_t              fanout{0}, value{0}, visited{0};
};
struct ce_storage
{
    std::vector<ce_node>                                     nodes{1};
    std::vector<uint64_t>                                    inputs{};
    std::vector<uint64_t>                                    outputs{};
    std::map<std::pair<kind, std::vector<uint64_t>>, uint64_t> strash{};
    uint32_t                                                 trav_id{0};
};
struct ce_signal
{
    ce_signal() = default;
    ce_signal(uint64_t index_, uint64_t complement_) : complement(complement_), index(index_) {}
    explicit ce_signal(uint64_t d) : data(d) {}
    union
    {
        struct
        {
            uint64_t complement : 1;
            uint64_t index : 63;
        };
        uint64_t data{0};
    };
    ce_signal operator!() const { return ce_signal(data ^ 1); }
    ce_signal operator+() const { return {index, 0}; }
    ce_signal operator-() const { return {index, 1}; }
    ce_signal operator^(bool c) const { return ce_signal(data ^ (c ? 1 : 0)); }
    bool      operator==(const ce_signal& o) const { return data == o.data; }
    bool      operator!=(const ce_signal& o) const { return data != o.data; }
    bool      operator<(const ce_signal& o) const { return data < o.data; }
};
template <class Derived, int Fanin>
class ce_network
{
  public:
    static constexpr auto min_fanin_size = static_cast<uint32_t>(Fanin);
    static constexpr auto max_fanin_size = static_cast<uint32_t>(Fanin);
    using base_type = Derived;
    using storage   = std::shared_ptr<ce_storage>;
    using node      = uint64_t;
    using signal    = ce_signal;

    ce_network() : _storage(std::make_shared<ce_storage>()), _events(std::make_shared<network_events<Derived>>()) {}
    ce_network(std::shared_ptr<ce_storage> s) : _storage(std::move(s)), _events(std::make_shared<network_events<Derived>>()) {}
    Derived clone() const { return Derived{std::make_shared<ce_storage>(*_storage)}; }
    signal get_constant(bool v) const { return {0, v ? 1ull : 0ull}; }
    signal create_pi()
    {
        const auto i = _storage->nodes.size();
        _storage->nodes.emplace_back();
        _storage->nodes.back().k = kind::ci;
        _storage->inputs.push_back(i);
        return {i, 0};
    }
    uint32_t create_po(const signal& f)
    {
        _storage->nodes[f.index].fanout++;
        _storage->outputs.push_back(f.data);
        return static_cast<uint32_t>(_storage->outputs.size() - 1);
    }
    bool is_combinational() const { return true; }
    bool is_constant(const node& n) const { return n == 0; }
    bool is_ci(const node& n) const { return _storage->nodes[n].k == kind::ci; }
    bool is_pi(const node& n) const { return _storage->nodes[n].k == kind::ci; }
    bool constant_value(const node&) const { return false; }
    bool is_dead(const node&) const { return false; }

    signal create_buf(const signal& a) { return a; }
    signal create_not(const signal& a) { return !a; }
    signal create_nand(const signal& a, const signal& b) { return !self().create_and(a, b); }
    signal create_or(const signal& a, const signal& b) { return !self().create_and(!a, !b); }
    signal create_nor(const signal& a, const signal& b) { return self().create_and(!a, !b); }
    signal create_lt(const signal& a, const signal& b) { return self().create_and(!a, b); }
    signal create_le(const signal& a, const signal& b) { return !self().create_and(a, !b); }
    signal create_xnor(const signal& a, const signal& b) { return !self().create_xor(a, b); }
    signal create_ite(signal c, signal t, signal e)
    {
        return !self().create_and(!self().create_and(c, t), !self().create_and(!c, e));
    }
    signal create_xor3(const signal& a, const signal& b, const signal& c) { return self().create_xor(self().create_xor(a, b), c); }
    signal create_nary_and(const std::vector<signal>& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(true), [this](auto const& a, auto const& b) { return self().create_and(a, b); });
    }
    signal create_nary_or(const std::vector<signal>& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_or(a, b); });
    }
    signal create_nary_xor(const std::vector<signal>& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return self().create_xor(a, b); });
    }
    auto     size() const { return static_cast<uint32_t>(_storage->nodes.size()); }
    auto     num_cis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_cos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_pis() const { return num_cis(); }
    auto     num_pos() const { return num_cos(); }
    auto     num_gates() const { return static_cast<uint32_t>(_storage->nodes.size() - _storage->inputs.size() - 1); }
    uint32_t fanin_size(const node& n) const { return static_cast<uint32_t>(_storage->nodes[n].children.size()); }
    uint32_t fanout_size(const node& n) const { return _storage->nodes[n].fanout; }
    bool is_function(const node& n) const { return n > 0 && !is_ci(n); }
    bool is_and(const node& n) const { return _storage->nodes[n].k == kind::and_; }
    bool is_or(const node&) const { return false; }
    bool is_xor(const node& n) const { return _storage->nodes[n].k == kind::xor_; }
    bool is_maj(const node& n) const { return _storage->nodes[n].k == kind::maj; }
    bool is_ite(const node&) const { return false; }
    bool is_xor3(const node&) const { return false; }
    bool is_nary_and(const node&) const { return false; }
    bool is_nary_or(const node&) const { return false; }
    bool is_nary_xor(const node&) const { return false; }
    kitty::dynamic_truth_table node_function(const node& n) const
    {
        const auto k = _storage->nodes[n].k;
        kitty::dynamic_truth_table t(Fanin);
        uint64_t w = k == kind::and_ ? 0x8 : k == kind::xor_ ? 0x6 : 0xe8;
        kitty::create_from_words(t, &w, &w + 1);
        return t;
    }
    node     get_node(const signal& f) const { return f.index; }
    signal   make_signal(const node& n) const { return {n, 0}; }
    bool     is_complemented(const signal& f) const { return f.complement; }
    uint32_t node_to_index(const node& n) const { return static_cast<uint32_t>(n); }
    node     index_to_node(uint32_t i) const { return i; }
    node     ci_at(uint32_t i) const { return _storage->inputs.at(i); }
    node     pi_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   co_at(uint32_t i) const { return signal{_storage->outputs.at(i)}; }
    signal   po_at(uint32_t i) const { return signal{_storage->outputs.at(i)}; }
    uint32_t pi_index(const node& n) const
    {
        return static_cast<uint32_t>(std::find(_storage->inputs.begin(), _storage->inputs.end(), n) - _storage->inputs.begin());
    }
    uint32_t ci_index(const node& n) const { return pi_index(n); }
    template <typename Fn>
    void foreach_node(Fn&& fn) const
    {
        auto r = range<uint64_t>(_storage->nodes.size());
        detail::foreach_element(r.begin(), r.end(), fn);
    }
    template <typename Fn>
    void foreach_ci(Fn&& fn) const { detail::foreach_element(_storage->inputs.begin(), _storage->inputs.end(), fn); }
    template <typename Fn>
    void foreach_pi(Fn&& fn) const { foreach_ci(fn); }
    template <typename Fn>
    void foreach_po(Fn&& fn) const
    {
        using It = decltype(_storage->outputs.begin());
        detail::foreach_element_transform<It, signal>(_storage->outputs.begin(), _storage->outputs.end(), [](auto o) { return signal{o}; }, fn);
    }
    template <typename Fn>
    void foreach_co(Fn&& fn) const { foreach_po(fn); }
    template <typename Fn>
    void foreach_gate(Fn&& fn) const
    {
        auto r = range<uint64_t>(1u, _storage->nodes.size());
        detail::foreach_element_if(r.begin(), r.end(), [this](auto n) { return !is_ci(n); }, fn);
    }
    template <typename Fn>
    void foreach_fanin(const node& n, Fn&& fn) const
    {
        using It = decltype(_storage->outputs.begin());
        auto& ch = _storage->nodes[n].children;
        detail::foreach_element_transform<It, signal>(ch.begin(), ch.end(), [](auto o) { return signal{o}; }, fn);
    }
    template <typename Iterator, typename T = typename std::iterator_traits<Iterator>::value_type>
    T compute(const node& n, Iterator begin, Iterator) const
    {
        const auto& nd = _storage->nodes[n];
        std::vector<T> v;
        for (auto c : nd.children)
        {
            T x = *begin++;
            if (c & 1)
            {
                if constexpr (std::is_same_v<T, bool>) { x = !x; }
                else { x = ~x; }
            }
            v.push_back(x);
        }
        if (nd.k == kind::and_) { return v[0] & v[1]; }
        if (nd.k == kind::xor_) { return v[0] ^ v[1]; }
        return (v[0] & v[1]) | (v[1] & v[2]) | (v[0] & v[2]);
    }
    void clear_values() const { for (auto& n : _storage->nodes) { n.value = 0; } }
    auto value(const node& n) const { return _storage->nodes[n].value; }
    void set_value(const node& n, uint32_t v) const { _storage->nodes[n].value = v; }
    auto incr_value(const node& n) const { return _storage->nodes[n].value++; }
    auto decr_value(const node& n) const { return --_storage->nodes[n].value; }
    void clear_visited() const { for (auto& n : _storage->nodes) { n.visited = 0; } }
    auto visited(const node& n) const { return _storage->nodes[n].visited; }
    void set_visited(const node& n, uint32_t v) const { _storage->nodes[n].visited = v; }
    uint32_t trav_id() const { return _storage->trav_id; }
    void     incr_trav_id() const { ++_storage->trav_id; }
    auto&    events() const { return *_events; }

    std::shared_ptr<ce_storage>              _storage;
    std::shared_ptr<network_events<Derived>> _events;

  protected:
    Derived& self() { return static_cast<Derived&>(*this); }
    signal   make(kind k, std::vector<uint64_t> ch)
    {
        std::sort(ch.begin(), ch.end());
        const auto key = std::make_pair(k, ch);
        if (const auto it = _storage->strash.find(key); it != _storage->strash.end()) { return {it->second, 0}; }
        const auto i = _storage->nodes.size();
        _storage->nodes.emplace_back();
        _storage->nodes.back().k        = k;
        _storage->nodes.back().children = ch;
        _storage->strash[key]           = i;
        for (auto c : ch) { _storage->nodes[c >> 1].fanout++; }
        for (auto const& fn : _events->on_add) { (*fn)(i); }
        return {i, 0};
    }
};
}  // namespace shim
}  // namespace mockturtle
namespace std
{
template <>
struct hash<mockturtle::shim::ce_signal>
{
    std::size_t operator()(const mockturtle::shim::ce_signal& s) const { return std::hash<uint64_t>{}(s.data); }
};
}  // namespace std
