#pragma once
#include <map>
#include <string>
#include "../traits.hpp"
namespace mockturtle
{
template <class Ntk>
class names_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;

    names_view() : Ntk() {}
    names_view(const Ntk& ntk, std::string name = "") : Ntk(ntk), _network_name(std::move(name)) {}
    names_view(const names_view<Ntk>&)            = default;
    names_view& operator=(const names_view<Ntk>&) = default;

    signal create_pi(const std::string& name = {})
    {
        const auto s = Ntk::create_pi();
        if (!name.empty()) { set_name(s, name); }
        return s;
    }
    uint32_t create_po(const signal& s, const std::string& name = {})
    {
        const auto i = this->num_pos();
        Ntk::create_po(s);
        if (!name.empty()) { set_output_name(i, name); }
        return static_cast<uint32_t>(i);
    }
    template <typename StrType = const char*>
    void set_network_name(StrType name) noexcept { _network_name = name; }
    std::string get_network_name() const noexcept { return _network_name; }
    bool        has_name(const signal& s) const { return _signal_names.find(s) != _signal_names.end(); }
    void        set_name(const signal& s, const std::string& name) { _signal_names[s] = name; }
    std::string get_name(const signal& s) const { return _signal_names.at(s); }
    bool        has_output_name(uint32_t i) const { return _output_names.find(i) != _output_names.end(); }
    void        set_output_name(uint32_t i, const std::string& name) { _output_names[i] = name; }
    std::string get_output_name(uint32_t i) const { return _output_names.at(i); }

  private:
    std::string                     _network_name;
    std::map<signal, std::string>   _signal_names;
    std::map<uint32_t, std::string> _output_names;
};
template <class T>
names_view(const T&) -> names_view<T>;
template <class T>
names_view(const T&, const std::string&) -> names_view<T>;
}  // namespace mockturtle
