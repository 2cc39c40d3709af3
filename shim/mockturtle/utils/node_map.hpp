#pragma once
#include <cassert>
#include <memory>
#include <unordered_map>
#include <vector>
#include "../traits.hpp"
namespace mockturtle
{
template <class T, class Ntk, class Impl = std::vector<T>>
class node_map;

template <class T, class Ntk>
class node_map<T, Ntk, std::vector<T>>
{
  public:
    using node           = typename Ntk::node;
    using signal         = typename Ntk::signal;
    using container_type = std::vector<T>;
    using reference       = typename container_type::reference;
    using const_reference = typename container_type::const_reference;

    explicit node_map(const Ntk& ntk) : ntk(&ntk), data(std::make_shared<container_type>(ntk.size())) {}
    node_map(const Ntk& ntk, const T& init) : ntk(&ntk), data(std::make_shared<container_type>(ntk.size(), init)) {}
    auto size() const { return data->size(); }
    node_map copy() const
    {
        node_map c{*ntk};
        *c.data = *data;
        return c;
    }
    reference operator[](const node& n) { return at(ntk->node_to_index(n)); }
    const_reference operator[](const node& n) const { return cat(ntk->node_to_index(n)); }
    template <typename N = Ntk, typename = std::enable_if_t<!std::is_same_v<typename N::signal, typename N::node>>>
    reference operator[](const signal& f) { return at(ntk->node_to_index(ntk->get_node(f))); }
    template <typename N = Ntk, typename = std::enable_if_t<!std::is_same_v<typename N::signal, typename N::node>>>
    const_reference operator[](const signal& f) const { return cat(ntk->node_to_index(ntk->get_node(f))); }
    bool has(const node& n) const { return ntk->node_to_index(n) < data->size(); }
    void reset(const T& init = {})
    {
        data->clear();
        data->resize(ntk->size(), init);
    }
    void resize(const T& init = {})
    {
        if (ntk->size() > data->size()) { data->resize(ntk->size(), init); }
    }

  private:
    reference at(std::size_t i) { assert(i < data->size() && "index out of bounds"); return (*data)[i]; }
    const_reference cat(std::size_t i) const { assert(i < data->size() && "index out of bounds"); return (*std::as_const(data))[i]; }
    const Ntk*                      ntk;
    std::shared_ptr<container_type> data;
};
template <class T, class Ntk>
class node_map<T, Ntk, std::unordered_map<typename Ntk::node, T>>
{
  public:
    using node           = typename Ntk::node;
    using signal         = typename Ntk::signal;
    using container_type = std::unordered_map<node, T>;
    explicit node_map(const Ntk& ntk) : ntk(&ntk), data(std::make_shared<container_type>()) {}
    node_map(const Ntk& ntk, const T&) : node_map(ntk) {}
    auto size() const { return data->size(); }
    bool has(const node& n) const { return data->find(n) != data->end(); }
    T& operator[](const node& n) { return (*data)[n]; }
    const T& operator[](const node& n) const { return data->at(n); }
    template <typename N = Ntk, typename = std::enable_if_t<!std::is_same_v<typename N::signal, typename N::node>>>
    T& operator[](const signal& f) { return (*data)[ntk->get_node(f)]; }
    template <typename N = Ntk, typename = std::enable_if_t<!std::is_same_v<typename N::signal, typename N::node>>>
    const T& operator[](const signal& f) const { return data->at(ntk->get_node(f)); }
    template <typename N = Ntk, typename = std::enable_if_t<!std::is_same_v<typename N::signal, typename N::node>>>
    bool has(const signal& f) const { return has(ntk->get_node(f)); }
    void erase(const node& n) { data->erase(n); }
    void reset() { data->clear(); }

  private:
    const Ntk*                      ntk;
    std::shared_ptr<container_type> data;
};
template <class T, class Ntk>
using unordered_node_map = node_map<T, Ntk, std::unordered_map<typename Ntk::node, T>>;
}  // namespace mockturtle
