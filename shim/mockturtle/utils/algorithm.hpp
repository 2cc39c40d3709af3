#pragma once
#include <algorithm>
#include <vector>
#include "../networks/detail/foreach.hpp"
namespace mockturtle
{
template <class Iterator, class T, class BinaryOperation>
T tree_reduce(Iterator first, Iterator last, T const& init, BinaryOperation&& op)
{
    const auto len = std::distance(first, last);
    switch (len)
    {
        case 0u: return init;
        case 1u: return *first;
        case 2u: return op(*first, *(first + 1));
        case 3u: return op(op(*first, *(first + 1)), *(first + 2));
        default:
        {
            const auto m = len / 2;
            return op(tree_reduce(first, first + m, init, op), tree_reduce(first + m, last, init, op));
        }
    }
}
template <class Iterator, class T, class TernaryOperation>
T ternary_tree_reduce(Iterator first, Iterator last, T const& init, TernaryOperation&& op)
{
    std::vector<T> v(first, last);
    if (v.empty()) { return init; }
    while (v.size() > 1)
    {
        const T a = v[0], b = v[1], c = v.size() > 2 ? v[2] : init;
        v.erase(v.begin(), v.begin() + (v.size() > 2 ? 3 : 2));
        v.push_back(op(a, b, c));
    }
    return v[0];
}
}  // namespace mockturtle
