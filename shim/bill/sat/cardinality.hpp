#pragma once
#include <vector>
#include "interface/types.hpp"
namespace bill
{
template <class Solver>
void at_least_one(const std::vector<var_type>& vs, Solver& s)
{
    std::vector<lit_type> c;
    for (auto v : vs) { c.emplace_back(v, positive_polarity); }
    s.add_clause(c);
}
template <class Solver>
void at_most_one_pairwise(const std::vector<var_type>& vs, Solver& s)
{
    for (std::size_t i = 0; i < vs.size(); ++i)
    {
        for (std::size_t j = i + 1; j < vs.size(); ++j)
        {
            s.add_clause(std::vector<lit_type>{lit_type{vs[i], negative_polarity}, lit_type{vs[j], negative_polarity}});
        }
    }
}
}  // namespace bill
