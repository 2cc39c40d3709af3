// Stand-in for parallel-hashmap (not installed in this sandbox). Functional contract only: standard node-based
// containers behind phmap's names. Trusted base of the checks, see DESIGN.md.
#pragma once
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <memory>
#include <mutex>
#include <set>
#include <map>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>

namespace phmap
{
struct NullMutex
{
    void lock() {}
    void unlock() {}
    bool try_lock() { return true; }
};

template <class T>
struct Hash
{
    std::size_t operator()(const T& t) const { return std::hash<T>{}(t); }
};
template <class T>
struct EqualTo
{
    bool operator()(const T& a, const T& b) const { return a == b; }
};
namespace priv
{
template <class T>
using hash_default_hash = phmap::Hash<T>;
template <class T>
using hash_default_eq = phmap::EqualTo<T>;
template <class T>
using Allocator = std::allocator<T>;
}  // namespace priv

template <class K, class V, class H = Hash<K>, class E = EqualTo<K>, class A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public std::unordered_map<K, V, H, E>
{
    using base = std::unordered_map<K, V, H, E>;

  public:
    using base::base;
    flat_hash_map()                                    = default;
    flat_hash_map(const flat_hash_map&)                = default;
    flat_hash_map(flat_hash_map&&) noexcept            = default;
    flat_hash_map& operator=(const flat_hash_map&)     = default;
    flat_hash_map& operator=(flat_hash_map&&) noexcept = default;
    std::size_t    capacity() const { return base::bucket_count(); }
    template <class F>
    auto lazy_emplace(const K& k, F&& f)
    {
        auto it = base::find(k);
        if (it == base::end())
        {
            f([&](auto&&... args) { it = base::emplace(std::forward<decltype(args)>(args)...).first; });
        }
        return it;
    }
};
template <class K, class V, class H = Hash<K>, class E = EqualTo<K>, class A = std::allocator<std::pair<const K, V>>>
using node_hash_map = flat_hash_map<K, V, H, E, A>;

template <class K, class H = Hash<K>, class E = EqualTo<K>, class A = std::allocator<K>>
class flat_hash_set : public std::unordered_set<K, H, E>
{
    using base = std::unordered_set<K, H, E>;

  public:
    using base::base;
    flat_hash_set()                                    = default;
    flat_hash_set(const flat_hash_set&)                = default;
    flat_hash_set(flat_hash_set&&) noexcept            = default;
    flat_hash_set& operator=(const flat_hash_set&)     = default;
    flat_hash_set& operator=(flat_hash_set&&) noexcept = default;
    std::size_t    capacity() const { return base::bucket_count(); }
};
template <class K, class H = Hash<K>, class E = EqualTo<K>, class A = std::allocator<K>>
using node_hash_set = flat_hash_set<K, H, E, A>;

namespace detail_shim
{
// a mutex that does not travel with copies
template <class M>
struct own_mutex
{
    mutable std::recursive_mutex m;
    own_mutex() = default;
    own_mutex(const own_mutex&) {}
    own_mutex(own_mutex&&) noexcept {}
    own_mutex& operator=(const own_mutex&) { return *this; }
    own_mutex& operator=(own_mutex&&) noexcept { return *this; }
};
}  // namespace detail_shim

template <class K, class V, class H = Hash<K>, class E = EqualTo<K>, class A = std::allocator<std::pair<const K, V>>,
          std::size_t N = 4, class Mutex = NullMutex>
class parallel_flat_hash_map : private detail_shim::own_mutex<Mutex>, public std::unordered_map<K, V, H, E>
{
    using base = std::unordered_map<K, V, H, E>;
    using guard = std::lock_guard<std::recursive_mutex>;

  public:
    using base::base;
    using typename base::const_iterator;
    using typename base::iterator;
    using typename base::value_type;
    parallel_flat_hash_map()                                             = default;
    parallel_flat_hash_map(const parallel_flat_hash_map&)                = default;
    parallel_flat_hash_map(parallel_flat_hash_map&&) noexcept            = default;
    parallel_flat_hash_map& operator=(const parallel_flat_hash_map&)     = default;
    parallel_flat_hash_map& operator=(parallel_flat_hash_map&&) noexcept = default;

    V& operator[](const K& k)
    {
        guard g{this->m};
        return base::operator[](k);
    }
    V& at(const K& k)
    {
        guard g{this->m};
        return base::at(k);
    }
    const V& at(const K& k) const
    {
        guard g{this->m};
        return base::at(k);
    }
    iterator find(const K& k)
    {
        guard g{this->m};
        return base::find(k);
    }
    const_iterator find(const K& k) const
    {
        guard g{this->m};
        return base::find(k);
    }
    bool contains(const K& k) const
    {
        guard g{this->m};
        return base::find(k) != base::end();
    }
    std::size_t count(const K& k) const
    {
        guard g{this->m};
        return base::count(k);
    }
    std::size_t size() const
    {
        guard g{this->m};
        return base::size();
    }
    bool empty() const
    {
        guard g{this->m};
        return base::empty();
    }
    template <class... Args>
    auto emplace(Args&&... args)
    {
        guard g{this->m};
        return base::emplace(std::forward<Args>(args)...);
    }
    template <class... Args>
    auto try_emplace(Args&&... args)
    {
        guard g{this->m};
        return base::try_emplace(std::forward<Args>(args)...);
    }
    template <class... Args>
    auto insert(Args&&... args)
    {
        guard g{this->m};
        return base::insert(std::forward<Args>(args)...);
    }
    auto insert(value_type&& v)
    {
        guard g{this->m};
        return base::insert(std::move(v));
    }
    auto insert(const value_type& v)
    {
        guard g{this->m};
        return base::insert(v);
    }
    template <class KK, class VV>
    auto insert_or_assign(KK&& k, VV&& v)
    {
        guard g{this->m};
        return base::insert_or_assign(std::forward<KK>(k), std::forward<VV>(v));
    }
    template <class Arg>
    auto erase(Arg&& a)
    {
        guard g{this->m};
        return base::erase(std::forward<Arg>(a));
    }
    void clear()
    {
        guard g{this->m};
        base::clear();
    }
    template <class F>
    bool if_contains(const K& k, F&& f) const
    {
        guard g{this->m};
        auto  it = base::find(k);
        if (it == base::end()) { return false; }
        f(*it);
        return true;
    }
    template <class F>
    bool modify_if(const K& k, F&& f)
    {
        guard g{this->m};
        auto  it = base::find(k);
        if (it == base::end()) { return false; }
        f(*it);
        return true;
    }
    template <class F, class... Args>
    bool try_emplace_l(const K& k, F&& f, Args&&... args)
    {
        guard g{this->m};
        auto  r = base::try_emplace(k, std::forward<Args>(args)...);
        if (!r.second) { f(*r.first); }
        return r.second;
    }
    template <class F>
    bool erase_if(const K& k, F&& f)
    {
        guard g{this->m};
        auto  it = base::find(k);
        if (it == base::end() || !f(*it)) { return false; }
        base::erase(it);
        return true;
    }
    template <class FExists, class FEmplace>
    bool lazy_emplace_l(const K& k, FExists&& fx, FEmplace&& fe)
    {
        guard g{this->m};
        auto  it = base::find(k);
        if (it != base::end())
        {
            fx(*it);
            return false;
        }
        fe([&](auto&&... args) { base::emplace(std::forward<decltype(args)>(args)...); });
        return true;
    }
    template <class F>
    void for_each(F&& f) const
    {
        guard g{this->m};
        for (const auto& e : static_cast<const base&>(*this)) { f(e); }
    }
    template <class F>
    void for_each_m(F&& f)
    {
        guard g{this->m};
        for (auto& e : static_cast<base&>(*this)) { f(e); }
    }
};

template <class K, class H = Hash<K>, class E = EqualTo<K>, class A = std::allocator<K>, std::size_t N = 4,
          class Mutex = NullMutex>
class parallel_flat_hash_set : private detail_shim::own_mutex<Mutex>, public std::unordered_set<K, H, E>
{
    using base = std::unordered_set<K, H, E>;
    using guard = std::lock_guard<std::recursive_mutex>;

  public:
    using base::base;
    parallel_flat_hash_set()                                             = default;
    parallel_flat_hash_set(const parallel_flat_hash_set&)                = default;
    parallel_flat_hash_set(parallel_flat_hash_set&&) noexcept            = default;
    parallel_flat_hash_set& operator=(const parallel_flat_hash_set&)     = default;
    parallel_flat_hash_set& operator=(parallel_flat_hash_set&&) noexcept = default;
    template <class... Args>
    auto emplace(Args&&... args)
    {
        guard g{this->m};
        return base::emplace(std::forward<Args>(args)...);
    }
    auto insert(const K& k)
    {
        guard g{this->m};
        return base::insert(k);
    }
    auto insert(K&& k)
    {
        guard g{this->m};
        return base::insert(std::move(k));
    }
    template <class It>
    void insert(It a, It b)
    {
        guard g{this->m};
        base::insert(a, b);
    }
    std::size_t erase(const K& k)
    {
        guard g{this->m};
        return base::erase(k);
    }
    auto erase(typename base::const_iterator it)
    {
        guard g{this->m};
        return base::erase(it);
    }
    bool contains(const K& k) const
    {
        guard g{this->m};
        return base::find(k) != base::end();
    }
    std::size_t count(const K& k) const
    {
        guard g{this->m};
        return base::count(k);
    }
};
template <class K, class V, class H = Hash<K>, class E = EqualTo<K>, class A = std::allocator<std::pair<const K, V>>,
          std::size_t N = 4, class Mutex = NullMutex>
using parallel_node_hash_map = parallel_flat_hash_map<K, V, H, E, A, N, Mutex>;

template <class K, class C = std::less<K>, class A = std::allocator<K>>
class btree_set : public std::set<K, C>
{
  public:
    using std::set<K, C>::set;
};
template <class K, class V, class C = std::less<K>, class A = std::allocator<std::pair<const K, V>>>
class btree_map : public std::map<K, V, C>
{
  public:
    using std::map<K, V, C>::map;
};

template <class T>
void HashStateCombine(std::size_t& seed, const T& v)
{
    seed ^= std::hash<T>{}(v) + 0x9e3779b9 + (seed << 6u) + (seed >> 2u);
}
}  // namespace phmap
