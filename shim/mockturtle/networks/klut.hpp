// Stand-in for mockturtle::klut_network (not installed). Documented behaviour only.
#pragma once
#include <kitty/kitty_shim.hpp>
#include <algorithm>
#include <cassert>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <utility>
#include <vector>
#include "../traits.hpp"
#include "../utils/algorithm.hpp"
#include "../utils/truth_table_cache.hpp"
#include "detail/foreach.hpp"
#include "events.hpp"
#include "storage.hpp"
namespace mockturtle
{
struct klut_storage_data
{
    truth_table_cache<kitty::dynamic_truth_table> cache;
};
using klut_storage_node = mixed_fanin_node<2>;
using klut_storage      = mockturtle::storage<klut_storage_node, klut_storage_data>;

class klut_network
{
  public:
    static constexpr auto min_fanin_size = 1;
    static constexpr auto max_fanin_size = 32;

    using base_type = klut_network;
    using storage   = std::shared_ptr<klut_storage>;
    using node      = uint64_t;
    using signal    = uint64_t;

    klut_network() : _storage(std::make_shared<klut_storage>()), _events(std::make_shared<network_events<base_type>>())
    {
        _init();
    }
    klut_network(std::shared_ptr<klut_storage> s) : _storage(std::move(s)), _events(std::make_shared<network_events<base_type>>())
    {
        if (_storage->nodes.size() < 2) { _init(); }
    }
    klut_network clone() const { return {std::make_shared<klut_storage>(*_storage)}; }

  protected:
    void _init()
    {
        _storage->nodes.emplace_back();
        _storage->nodes[0].data[1].h1 = 0;
        _storage->nodes[1].data[1].h1 = 1;
        auto& c = _storage->data.cache;
        const auto ins = [&c](int v, uint64_t w)
        {
            kitty::dynamic_truth_table t(v);
            kitty::create_from_words(t, &w, &w + 1);
            return c.insert(t);
        };
        ins(0, 0);     // 0
        ins(1, 1);     // 2 / 3
        ins(2, 8);     // 4
        ins(2, 0xe);   // 6
        ins(2, 0x2);   // 8 / 9
        ins(2, 0xb);   // 10 / 11
        ins(2, 0x6);   // 12
        ins(3, 0xe8);  // 14
        ins(3, 0xd8);  // 16
        ins(3, 0x96);  // 18
    }

  public:
    signal get_constant(bool value = false) const { return value ? 1 : 0; }
    signal create_pi()
    {
        const auto index = _storage->nodes.size();
        _storage->nodes.emplace_back();
        _storage->inputs.emplace_back(index);
        _storage->nodes[index].data[1].h1 = 2;
        return index;
    }
    uint32_t create_po(const signal& f)
    {
        _storage->nodes[f].data[0].h1++;
        const auto po_index = static_cast<uint32_t>(_storage->outputs.size());
        _storage->outputs.emplace_back(f);
        return po_index;
    }
    bool is_combinational() const { return true; }
    bool is_constant(const node& n) const { return n <= 1; }
    bool is_ci(const node& n) const { return n > 1 && _storage->nodes[n].children.empty(); }
    bool is_pi(const node& n) const { return n > 1 && _storage->nodes[n].children.empty(); }
    bool constant_value(const node& n) const { return n == 1; }

    signal create_buf(const signal& a) { return a; }
    signal create_not(const signal& a) { return _create_node({a}, 3); }
    signal create_and(signal a, signal b) { return _create_node({a, b}, 4); }
    signal create_nand(signal a, signal b) { return _create_node({a, b}, 5); }
    signal create_or(signal a, signal b) { return _create_node({a, b}, 6); }
    signal create_nor(signal a, signal b) { return _create_node({a, b}, 7); }
    signal create_lt(signal a, signal b) { return _create_node({a, b}, 8); }
    signal create_ge(signal a, signal b) { return _create_node({a, b}, 9); }
    signal create_gt(signal a, signal b) { return _create_node({a, b}, 10); }
    signal create_le(signal a, signal b) { return _create_node({a, b}, 11); }
    signal create_xor(signal a, signal b) { return _create_node({a, b}, 12); }
    signal create_xnor(signal a, signal b) { return _create_node({a, b}, 13); }
    signal create_maj(signal a, signal b, signal c) { return _create_node({a, b, c}, 14); }
    signal create_ite(signal a, signal b, signal c) { return _create_node({a, b, c}, 16); }
    signal create_xor3(signal a, signal b, signal c) { return _create_node({a, b, c}, 18); }
    signal create_nary_and(const std::vector<signal>& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(true), [this](auto const& a, auto const& b) { return create_and(a, b); });
    }
    signal create_nary_or(const std::vector<signal>& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_or(a, b); });
    }
    signal create_nary_xor(const std::vector<signal>& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_xor(a, b); });
    }
    signal _create_node(const std::vector<signal>& children, uint32_t literal)
    {
        const auto key = std::make_pair(literal, children);
        if (const auto it = _hash->find(key); it != _hash->end()) { return it->second; }
        klut_storage_node nd;
        for (auto c : children) { nd.children.emplace_back(c); }
        nd.data[1].h1    = literal;
        const auto index = _storage->nodes.size();
        _storage->nodes.push_back(nd);
        (*_hash)[key] = index;
        for (auto c : children) { _storage->nodes[c].data[0].h1++; }
        for (auto const& fn : _events->on_add) { (*fn)(index); }
        return index;
    }
    signal create_node(const std::vector<signal>& children, const kitty::dynamic_truth_table& function)
    {
        if (children.empty())
        {
            assert(function.num_vars() == 0);
            return get_constant(!kitty::is_const0(function));
        }
        return _create_node(children, _storage->data.cache.insert(function));
    }
    signal clone_node(const klut_network& other, const node& source, const std::vector<signal>& children)
    {
        assert(!children.empty());
        return create_node(children, other._storage->data.cache[other._storage->nodes[source].data[1].h1]);
    }
    void substitute_node(const node& old_node, const signal& new_signal)
    {
        for (auto i = 1u; i < _storage->nodes.size(); ++i)
        {
            auto& n = _storage->nodes[i];
            for (auto& child : n.children)
            {
                if (child.index == old_node)
                {
                    std::vector<signal> prev;
                    for (auto c : n.children) { prev.push_back(c.index); }
                    child.index = new_signal;
                    _storage->nodes[new_signal].data[0].h1++;
                    for (auto const& fn : _events->on_modified) { (*fn)(i, prev); }
                }
            }
        }
        for (auto& o : _storage->outputs)
        {
            if (o.index == old_node)
            {
                o.index = new_signal;
                _storage->nodes[new_signal].data[0].h1++;
            }
        }
        _storage->nodes[old_node].data[0].h1 = 0;
    }

    auto     size() const { return static_cast<uint32_t>(_storage->nodes.size()); }
    auto     num_cis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_cos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_pis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_pos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_gates() const { return static_cast<uint32_t>(_storage->nodes.size() - _storage->inputs.size() - 2); }
    uint32_t fanin_size(const node& n) const { return static_cast<uint32_t>(_storage->nodes[n].children.size()); }
    uint32_t fanout_size(const node& n) const { return _storage->nodes[n].data[0].h1; }
    uint32_t incr_fanout_size(const node& n) const { return _storage->nodes[n].data[0].h1++; }
    bool     is_function(const node& n) const { return n > 1 && !is_ci(n); }

    kitty::dynamic_truth_table node_function(const node& n) const { return _storage->data.cache[_storage->nodes[n].data[1].h1]; }

    node     get_node(const signal& f) const { return f; }
    signal   make_signal(const node& n) const { return n; }
    bool     is_complemented(const signal&) const { return false; }
    uint32_t node_to_index(const node& n) const { return static_cast<uint32_t>(n); }
    node     index_to_node(uint32_t i) const { return i; }
    node     ci_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   co_at(uint32_t i) const { return _storage->outputs.at(i).index; }
    node     pi_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   po_at(uint32_t i) const { return _storage->outputs.at(i).index; }
    uint32_t ci_index(const node& n) const { return pi_index(n); }
    uint32_t pi_index(const node& n) const
    {
        return static_cast<uint32_t>(std::find(_storage->inputs.begin(), _storage->inputs.end(), n) - _storage->inputs.begin());
    }
    uint32_t po_index(const signal& s) const
    {
        uint32_t i = 0;
        for (auto const& o : _storage->outputs)
        {
            if (o.index == s) { return i; }
            ++i;
        }
        return static_cast<uint32_t>(-1);
    }

    template <typename Fn>
    void foreach_node(Fn&& fn) const
    {
        auto r = range<uint64_t>(_storage->nodes.size());
        detail::foreach_element(r.begin(), r.end(), fn);
    }
    template <typename Fn>
    void foreach_ci(Fn&& fn) const { detail::foreach_element(_storage->inputs.begin(), _storage->inputs.end(), fn); }
    template <typename Fn>
    void foreach_co(Fn&& fn) const { foreach_po(fn); }
    template <typename Fn>
    void foreach_pi(Fn&& fn) const { detail::foreach_element(_storage->inputs.begin(), _storage->inputs.end(), fn); }
    template <typename Fn>
    void foreach_po(Fn&& fn) const
    {
        using IteratorType = decltype(_storage->outputs.begin());
        detail::foreach_element_transform<IteratorType, uint64_t>(_storage->outputs.begin(), _storage->outputs.end(), [](auto o) { return o.index; }, fn);
    }
    template <typename Fn>
    void foreach_gate(Fn&& fn) const
    {
        auto r = range<uint64_t>(2u, _storage->nodes.size());
        detail::foreach_element_if(r.begin(), r.end(), [this](auto n) { return !is_ci(n); }, fn);
    }
    template <typename Fn>
    void foreach_fanin(const node& n, Fn&& fn) const
    {
        if (n <= 1 || is_ci(n)) { return; }
        using IteratorType = decltype(_storage->outputs.begin());
        detail::foreach_element_transform<IteratorType, uint64_t>(_storage->nodes[n].children.begin(), _storage->nodes[n].children.end(), [](auto f) { return f.index; }, fn);
    }
    template <typename Iterator, typename T = typename std::iterator_traits<Iterator>::value_type>
    T compute(const node& n, Iterator begin, Iterator) const
    {
        if constexpr (std::is_same_v<T, bool>)
        {
            uint32_t index{0};
            for (std::size_t k = _storage->nodes[n].children.size(); k > 0; --k)
            {
                index = (index << 1) | ((*(begin + static_cast<long>(k - 1))) ? 1u : 0u);
            }
            return kitty::get_bit(_storage->data.cache[_storage->nodes[n].data[1].h1], index);
        }
        else
        {
            std::vector<T> tts;
            for (std::size_t k = 0; k < _storage->nodes[n].children.size(); ++k) { tts.push_back(*begin++); }
            auto       result = tts[0].construct();
            const auto gate   = _storage->data.cache[_storage->nodes[n].data[1].h1];
            for (uint64_t i = 0; i < result.num_bits(); ++i)
            {
                uint64_t pattern = 0;
                for (std::size_t j = 0; j < tts.size(); ++j) { pattern |= static_cast<uint64_t>(kitty::get_bit(tts[j], i)) << j; }
                if (kitty::get_bit(gate, pattern)) { kitty::set_bit(result, i); }
            }
            return result;
        }
    }
    void clear_values() const { for (auto& n : _storage->nodes) { n.data[0].h2 = 0; } }
    auto value(const node& n) const { return static_cast<uint32_t>(_storage->nodes[n].data[0].h2); }
    void set_value(const node& n, uint32_t v) const { _storage->nodes[n].data[0].h2 = v; }
    auto incr_value(const node& n) const { return static_cast<uint32_t>(_storage->nodes[n].data[0].h2++); }
    auto decr_value(const node& n) const { return static_cast<uint32_t>(--_storage->nodes[n].data[0].h2); }
    void clear_visited() const { for (auto& n : _storage->nodes) { n.data[1].h2 = 0; } }
    auto visited(const node& n) const { return static_cast<uint32_t>(_storage->nodes[n].data[1].h2); }
    void set_visited(const node& n, uint32_t v) const { _storage->nodes[n].data[1].h2 = v; }
    uint32_t trav_id() const { return _storage->trav_id; }
    void     incr_trav_id() const { ++_storage->trav_id; }
    auto&    events() const { return *_events; }

    std::shared_ptr<klut_storage>                                                _storage;
    std::shared_ptr<network_events<base_type>>                                   _events;
    std::shared_ptr<std::map<std::pair<uint32_t, std::vector<signal>>, signal>> _hash{
        std::make_shared<std::map<std::pair<uint32_t, std::vector<signal>>, signal>>()};
};
}  // namespace mockturtle
