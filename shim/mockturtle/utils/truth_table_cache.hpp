#pragma once
#include <kitty/kitty_shim.hpp>
#include <unordered_map>
#include <vector>
namespace mockturtle
{
template <typename TT>
class truth_table_cache
{
  public:
    truth_table_cache(uint32_t = 1000u) {}
    // stores normal functions (f(0) = 0) only; literal = 2 * index + complemented
    uint32_t insert(TT tt)
    {
        uint32_t is_compl = 0;
        if (kitty::get_bit(tt, 0))
        {
            is_compl = 1;
            tt       = ~tt;
        }
        const auto it = _indexes.find(tt);
        if (it != _indexes.end()) { return static_cast<uint32_t>(2 * it->second + is_compl); }
        const auto index = static_cast<uint32_t>(_data.size());
        _data.push_back(tt);
        _indexes[tt] = index;
        return 2 * index + is_compl;
    }
    TT operator[](uint32_t index) const
    {
        const auto& e = _data.at(index >> 1);
        return (index & 1) ? ~e : e;
    }
    void resize(uint32_t) {}
    auto size() const { return _data.size(); }

  private:
    std::unordered_map<TT, uint32_t, kitty::hash<TT>> _indexes;
    std::vector<TT>                                   _data;
};
}  // namespace mockturtle
