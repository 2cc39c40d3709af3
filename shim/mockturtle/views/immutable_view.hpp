#pragma once
#include "../traits.hpp"
namespace mockturtle
{
template <typename Ntk>
class immutable_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    immutable_view(const Ntk& ntk) : Ntk(ntk) {}
};
}  // namespace mockturtle
