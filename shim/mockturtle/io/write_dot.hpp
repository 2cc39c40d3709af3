#pragma once
#include <fstream>
#include <ostream>
#include <string>
#include <vector>
#include "../traits.hpp"
namespace mockturtle
{
template <class Ntk>
class default_dot_drawer
{
  public:
    virtual ~default_dot_drawer() {}
    virtual std::string node_label(const Ntk& ntk, const node<Ntk>& n) const { return std::to_string(ntk.node_to_index(n)); }
    virtual std::string node_shape(const Ntk&, const node<Ntk>&) const { return "ellipse"; }
    virtual uint32_t    node_level(const Ntk&, const node<Ntk>&) const { return 0; }
    virtual std::string po_shape(const Ntk&, uint32_t) const { return "invhouse"; }
    virtual std::string node_fillcolor(const Ntk& ntk, const node<Ntk>& n) const
    {
        return (ntk.is_constant(n) || ntk.is_ci(n)) ? "snow2" : "white";
    }
    virtual std::string po_fillcolor(const Ntk&, uint32_t) const { return "snow2"; }
    virtual std::string signal_style(const Ntk& ntk, const signal<Ntk>& f) const { return ntk.is_complemented(f) ? "dashed" : "solid"; }
    virtual std::string graph_file_header(const Ntk&) const { return "digraph {\nrankdir=BT;\n"; }
};
template <class Ntk>
class gate_dot_drawer : public default_dot_drawer<Ntk>
{
  public:
    std::string node_label(const Ntk& ntk, const node<Ntk>& n) const override { return default_dot_drawer<Ntk>::node_label(ntk, n); }
    std::string node_fillcolor(const Ntk& ntk, const node<Ntk>& n) const override { return default_dot_drawer<Ntk>::node_fillcolor(ntk, n); }
};
template <class Ntk, class Drawer>
void write_dot(const Ntk&, std::ostream&, const Drawer& = {}) {}
template <class Ntk, class Drawer>
void write_dot(const Ntk&, const std::string&, const Drawer& = {}) {}
}  // namespace mockturtle
