#pragma once
#include <algorithm>
#include <functional>
#include <memory>
#include <vector>
#include "../traits.hpp"
namespace mockturtle
{
template <class Ntk>
class network_events
{
  public:
    using add_event_type      = std::function<void(const typename Ntk::node& n)>;
    using modified_event_type = std::function<void(const typename Ntk::node& n, const std::vector<typename Ntk::signal>& previous_children)>;
    using delete_event_type   = std::function<void(const typename Ntk::node& n)>;

    std::shared_ptr<add_event_type> register_add_event(const add_event_type& fn)
    {
        auto p = std::make_shared<add_event_type>(fn);
        on_add.emplace_back(p);
        return p;
    }
    std::shared_ptr<modified_event_type> register_modified_event(const modified_event_type& fn)
    {
        auto p = std::make_shared<modified_event_type>(fn);
        on_modified.emplace_back(p);
        return p;
    }
    std::shared_ptr<delete_event_type> register_delete_event(const delete_event_type& fn)
    {
        auto p = std::make_shared<delete_event_type>(fn);
        on_delete.emplace_back(p);
        return p;
    }
    void release_add_event(std::shared_ptr<add_event_type>& e) { rel(on_add, e); }
    void release_modified_event(std::shared_ptr<modified_event_type>& e) { rel(on_modified, e); }
    void release_delete_event(std::shared_ptr<delete_event_type>& e) { rel(on_delete, e); }

    std::vector<std::shared_ptr<add_event_type>>      on_add;
    std::vector<std::shared_ptr<modified_event_type>> on_modified;
    std::vector<std::shared_ptr<delete_event_type>>   on_delete;

  private:
    template <class V, class E>
    static void rel(V& v, E& e)
    {
        v.erase(std::remove(v.begin(), v.end(), e), v.end());
        e = nullptr;
    }
};
}  // namespace mockturtle
