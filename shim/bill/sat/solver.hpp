// Stand-in for bill's SAT solvers (not installed): a small complete CDCL solver (watched literals, first-UIP
// learning, activity heuristic, phase saving, restarts).
#pragma once
#include <algorithm>
#include <cstdint>
#include <set>
#include <utility>
#include <vector>
#include "interface/common.hpp"
#include "interface/types.hpp"
namespace bill
{
template <solvers Solver = solvers::ghack>
class solver
{
  public:
    var_type add_variable() { return num++; }
    void     add_variables(uint32_t n = 1) { num += n; }
    auto     add_clause(std::vector<lit_type> c)
    {
        for (auto const& l : c) { num = std::max(num, l.variable() + 1); }
        clauses.push_back(std::move(c));
        return result::states::dirty;
    }
    auto add_clause(lit_type l) { return add_clause(std::vector<lit_type>{l}); }
    uint32_t num_variables() const { return num; }
    uint32_t num_clauses() const { return static_cast<uint32_t>(clauses.size()); }
    result::states solve(const std::vector<lit_type>& assumptions = {}, uint32_t = 0)
    {
        state = run(assumptions) ? result::states::satisfiable : result::states::unsatisfiable;
        return state;
    }
    result get_model() const
    {
        result::model_type m(num, lbool_type::undefined);
        for (uint32_t i = 0; i < num; ++i) { m[i] = i < model.size() && model[i] == 1 ? lbool_type::true_ : lbool_type::false_; }
        return result{m};
    }
    result get_result() const { return state == result::states::satisfiable ? get_model() : result{state}; }

  private:
    using lit = uint32_t;  // 2 * variable + (1 if complemented)
    static constexpr uint32_t NONE = 0xffffffff;
    int value(lit l) const { return val[l >> 1] == 2 ? 2 : (val[l >> 1] ^ static_cast<int>(l & 1u)); }
    void enqueue(lit l, uint32_t why)
    {
        val[l >> 1]    = static_cast<uint8_t>(1 ^ (l & 1u));
        level[l >> 1]  = static_cast<uint32_t>(lims.size());
        reason[l >> 1] = why;
        trail.push_back(l);
    }
    uint32_t propagate()
    {
        while (head < trail.size())
        {
            const lit p = trail[head++] ^ 1u;  // false now
            auto&     w = watch[p];
            std::size_t j = 0;
            for (std::size_t i = 0; i < w.size(); ++i)
            {
                const auto ci = w[i];
                auto&      c  = db[ci];
                if (c[0] == p) { std::swap(c[0], c[1]); }
                if (value(c[0]) == 1)
                {
                    w[j++] = ci;
                    continue;
                }
                bool moved = false;
                for (std::size_t k = 2; k < c.size(); ++k)
                {
                    if (value(c[k]) != 0)
                    {
                        std::swap(c[1], c[k]);
                        watch[c[1]].push_back(ci);
                        moved = true;
                        break;
                    }
                }
                if (moved) { continue; }
                w[j++] = ci;
                if (value(c[0]) == 0)
                {
                    for (++i; i < w.size(); ++i) { w[j++] = w[i]; }
                    w.resize(j);
                    head = trail.size();
                    return ci;
                }
                enqueue(c[0], ci);
            }
            w.resize(j);
        }
        return NONE;
    }
    void bump(uint32_t v)
    {
        const bool in = order.erase({-act[v], v}) > 0;
        act[v] += inc;
        if (in) { order.insert({-act[v], v}); }
        if (act[v] > 1e100)
        {
            order.clear();
            for (uint32_t i = 0; i < num; ++i)
            {
                act[i] *= 1e-100;
                if (val[i] == 2) { order.insert({-act[i], i}); }
            }
            inc *= 1e-100;
        }
    }
    void cancel(uint32_t to)
    {
        if (lims.size() <= to) { return; }
        while (trail.size() > lims[to])
        {
            const auto v = trail.back() >> 1;
            phase[v]     = val[v];
            val[v]       = 2;
            order.insert({-act[v], v});
            trail.pop_back();
        }
        lims.resize(to);
        head = trail.size();
    }
    bool run(const std::vector<lit_type>& assumptions)
    {
        val.assign(num, 2);
        level.assign(num, 0);
        reason.assign(num, NONE);
        phase.assign(num, 0);
        act.assign(num, 0.0);
        watch.assign(2 * static_cast<std::size_t>(num), {});
        db.clear();
        trail.clear();
        lims.clear();
        order.clear();
        head = 0;
        inc  = 1;
        for (uint32_t i = 0; i < num; ++i) { order.insert({0.0, i}); }
        const auto conv = [](const lit_type& l) -> lit { return 2 * l.variable() + (l.is_complemented() ? 1u : 0u); };
        auto       all  = clauses;
        for (auto const& a : assumptions) { all.push_back({a}); }
        for (auto const& c : all)
        {
            std::vector<lit> d{};
            for (auto const& l : c) { d.push_back(conv(l)); }
            std::sort(d.begin(), d.end());
            d.erase(std::unique(d.begin(), d.end()), d.end());
            bool taut = false;
            for (std::size_t i = 0; i + 1 < d.size(); ++i) { taut |= (d[i] ^ 1u) == d[i + 1]; }
            if (taut) { continue; }
            if (d.empty()) { return false; }
            if (d.size() == 1)
            {
                if (value(d[0]) == 0) { return false; }
                if (value(d[0]) == 2) { enqueue(d[0], NONE); }
                continue;
            }
            attach(std::move(d));
        }
        uint64_t conflicts = 0, limit = 100;
        for (;;)
        {
            const auto confl = propagate();
            if (confl != NONE)
            {
                if (lims.empty()) { return false; }
                // first unique implication point
                std::vector<lit>  learnt{0};
                std::vector<bool> seen(num);
                uint32_t          open = 0, back = 0;
                std::size_t       at = trail.size();
                lit               p  = NONE;
                auto              ci = confl;
                do
                {
                    for (const auto q : db[ci])
                    {
                        if (q == p) { continue; }
                        const auto v = q >> 1;
                        if (seen[v] || level[v] == 0) { continue; }
                        seen[v] = true;
                        bump(v);
                        if (level[v] == lims.size()) { ++open; }
                        else
                        {
                            learnt.push_back(q);
                            back = std::max(back, level[v]);
                        }
                    }
                    do { --at; } while (!seen[trail[at] >> 1]);
                    p  = trail[at];
                    ci = reason[p >> 1];
                    --open;
                } while (open != 0);
                learnt[0] = p ^ 1u;
                cancel(back);
                if (learnt.size() == 1) { enqueue(learnt[0], NONE); }
                else
                {
                    for (std::size_t i = 2; i < learnt.size(); ++i)
                    {
                        if (level[learnt[i] >> 1] > level[learnt[1] >> 1]) { std::swap(learnt[1], learnt[i]); }
                    }
                    const auto first = learnt[0];
                    const auto id    = attach(std::move(learnt));
                    enqueue(first, id);
                }
                inc *= 1.05;
                if (++conflicts >= limit)
                {
                    conflicts = 0;
                    limit += limit / 10;
                    cancel(0);
                }
                continue;
            }
            uint32_t v = NONE;
            while (!order.empty())
            {
                v = order.begin()->second;
                order.erase(order.begin());
                if (val[v] == 2) { break; }
                v = NONE;
            }
            if (v == NONE)
            {
                model = val;
                return true;
            }
            lims.push_back(trail.size());
            enqueue(2 * v + (phase[v] == 1 ? 0u : 1u), NONE);
        }
    }
    uint32_t attach(std::vector<lit> c)
    {
        const auto id = static_cast<uint32_t>(db.size());
        watch[c[0]].push_back(id);
        watch[c[1]].push_back(id);
        db.push_back(std::move(c));
        return id;
    }
    uint32_t                           num{0};
    std::vector<std::vector<lit_type>> clauses;
    std::vector<uint8_t>               val, phase, model;
    std::vector<uint32_t>              level, reason;
    std::vector<double>                act;
    std::vector<std::vector<lit>>      db;
    std::vector<std::vector<uint32_t>> watch;
    std::vector<lit>                   trail;
    std::vector<std::size_t>           lims;
    std::set<std::pair<double, uint32_t>> order;
    std::size_t                        head{0};
    double                             inc{1};
    result::states                     state{result::states::undefined};
};
}  // namespace bill
