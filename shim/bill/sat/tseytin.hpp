#pragma once
#include <vector>
#include "interface/types.hpp"
namespace bill
{
template <class Solver>
lit_type add_tseytin_and(Solver& s, const std::vector<lit_type>& ls)
{
    const lit_type        r{s.add_variable(), positive_polarity};
    std::vector<lit_type> c{r};
    for (auto const& l : ls)
    {
        s.add_clause(std::vector<lit_type>{l, ~r});
        c.push_back(~l);
    }
    s.add_clause(c);
    return r;
}
template <class Solver>
lit_type add_tseytin_or(Solver& s, const std::vector<lit_type>& ls)
{
    const lit_type        r{s.add_variable(), positive_polarity};
    std::vector<lit_type> c{~r};
    for (auto const& l : ls)
    {
        s.add_clause(std::vector<lit_type>{~l, r});
        c.push_back(l);
    }
    s.add_clause(c);
    return r;
}
template <class Solver>
lit_type add_tseytin_and(Solver& s, const lit_type& a, const lit_type& b) { return add_tseytin_and(s, std::vector<lit_type>{a, b}); }
template <class Solver>
lit_type add_tseytin_or(Solver& s, const lit_type& a, const lit_type& b) { return add_tseytin_or(s, std::vector<lit_type>{a, b}); }
template <class Solver>
lit_type add_tseytin_xor(Solver& s, const lit_type& a, const lit_type& b)
{
    const lit_type r{s.add_variable(), positive_polarity};
    s.add_clause(std::vector<lit_type>{~a, ~b, ~r});
    s.add_clause(std::vector<lit_type>{~a, b, r});
    s.add_clause(std::vector<lit_type>{a, ~b, r});
    s.add_clause(std::vector<lit_type>{a, b, ~r});
    return r;
}
template <class Solver>
lit_type add_tseytin_equals(Solver& s, const lit_type& a, const lit_type& b) { return ~add_tseytin_xor(s, a, b); }
}  // namespace bill
