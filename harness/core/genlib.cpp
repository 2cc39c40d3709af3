// the technology-mapping library: every entry parses, has the function of its name, and decays are restrictions
#include "pbt.hpp"

#include <fiction/technology/technology_mapping_library.hpp>

#include <algorithm>
#include <cctype>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace fiction;

/// recursive-descent evaluator of genlib expressions: + or, * and, ^ xor, ! not, CONST0, CONST1; precedence ! > * > ^ > +
struct parser
{
    std::string      s;
    std::size_t      i{0};
    std::set<char>   vars{};
    std::map<char, bool> val{};

    bool eat(char ch)
    {
        if (i < s.size() && s[i] == ch)
        {
            ++i;
            return true;
        }
        return false;
    }
    bool expr()
    {
        bool v = xr();
        while (eat('+'))
        {
            const bool w = xr();
            v            = v || w;
        }
        return v;
    }
    bool xr()
    {
        bool v = term();
        while (eat('^'))
        {
            const bool w = term();
            v            = v != w;
        }
        return v;
    }
    bool term()
    {
        bool v = factor();
        while (eat('*'))
        {
            const bool w = factor();
            v            = v && w;
        }
        return v;
    }
    bool factor()
    {
        if (eat('!'))
        {
            return !factor();
        }
        if (eat('('))
        {
            const bool v = expr();
            REQUIRE_THAT(eat(')'), "unbalanced parentheses in " << s);
            return v;
        }
        if (s.compare(i, 6, "CONST0") == 0)
        {
            i += 6;
            return false;
        }
        if (s.compare(i, 6, "CONST1") == 0)
        {
            i += 6;
            return true;
        }
        REQUIRE_THAT(i < s.size() && s[i] >= 'a' && s[i] <= 'c', "unexpected symbol at " << i << " of " << s);
        vars.insert(s[i]);
        return val[s[i++]];
    }
};
struct gate
{
    std::string    name{}, area{}, ex{}, cost{};
    std::set<char> vars{};
    bool           pins{};
    [[nodiscard]] bool operator()(bool a, bool b, bool d) const
    {
        parser p{ex, 0, {}, {{'a', a}, {'b', b}, {'c', d}}};
        const bool v = p.expr();
        REQUIRE_EQ(p.i, ex.size(), "the expression of " << name << " ends early");
        return v;
    }
};
static std::vector<gate> parse(const std::string& text)
{
    std::vector<gate>  r{};
    std::istringstream is{text};
    std::string        line{};
    REQUIRE_THAT(!text.empty() && text.back() == '\n', "entries end with a line break, so that they can be concatenated");
    while (std::getline(is, line))
    {
        std::istringstream ls{line};
        std::string        w{};
        gate               g{};
        ls >> w >> g.name >> g.area;
        REQUIRE_THAT(w == "GATE", "an entry starts with GATE: " << line);
        REQUIRE_THAT(g.area.find_first_not_of("0123456789.") == std::string::npos && !g.area.empty(), "the area of " << g.name);
        std::string rest{};
        std::getline(ls, rest);
        const auto semi = rest.find(';');
        REQUIRE_THAT(semi != std::string::npos, "the function of " << g.name << " ends with a semicolon");
        std::string f = rest.substr(0, semi);
        f.erase(std::remove_if(f.begin(), f.end(), [](unsigned char ch) { return std::isspace(ch); }), f.end());
        REQUIRE_THAT(f.rfind("O=", 0) == 0, "the output of " << g.name << " is called O");
        g.ex = f.substr(2);
        parser p{g.ex};
        p.expr();
        REQUIRE_EQ(p.i, g.ex.size(), "the expression of " << g.name);
        g.vars = p.vars;
        std::istringstream ps{rest.substr(semi + 1)};
        std::vector<std::string> pin{};
        while (ps >> w)
        {
            pin.push_back(w);
        }
        if (!g.vars.empty())
        {
            REQUIRE_THAT(pin.size() == 9 && pin[0] == "PIN" && pin[1] == "*", "the pins of " << g.name);
            REQUIRE_THAT(pin[2] == "NONINV" || pin[2] == "INV" || pin[2] == "UNKNOWN", "the phase of " << g.name);
            for (std::size_t i = 3; i < 9; ++i)
            {
                REQUIRE_THAT(pin[i].find_first_not_of("0123456789.") == std::string::npos, "the timing of " << g.name);
            }
        }
        else
        {
            REQUIRE_THAT(pin.empty(), "constants have no pins");
        }
        g.pins = !pin.empty();
        for (const auto& q : pin) { g.cost += q + " "; }
        g.cost = g.area + " " + g.cost;
        r.push_back(g);
    }
    return r;
}

struct entry
{
    const char*                            text;
    const char*                            name;
    int                                    arity;
    std::function<bool(bool, bool, bool)>  f;
    const char*                            decay;
};
static const std::vector<entry>& entries()
{
    static const std::vector<entry> e{
        {GATE_ZERO, "zero", 0, [](bool, bool, bool) { return false; }, nullptr},
        {GATE_ONE, "one", 0, [](bool, bool, bool) { return true; }, nullptr},
        {GATE_BUF, "buf", 1, [](bool a, bool, bool) { return a; }, nullptr},
        {GATE_INV, "inv1", 1, [](bool a, bool, bool) { return !a; }, nullptr},
        {GATE_AND2, "and2", 2, [](bool a, bool b, bool) { return a && b; }, nullptr},
        {GATE_NAND2, "nand2", 2, [](bool a, bool b, bool) { return !(a && b); }, nullptr},
        {GATE_OR2, "or2", 2, [](bool a, bool b, bool) { return a || b; }, nullptr},
        {GATE_NOR2, "nor2", 2, [](bool a, bool b, bool) { return !(a || b); }, nullptr},
        {GATE_XOR2, "xor2", 2, [](bool a, bool b, bool) { return a != b; }, nullptr},
        {GATE_XNOR2, "xnor2", 2, [](bool a, bool b, bool) { return a == b; }, nullptr},
        {GATE_LT2, "lt2", 2, [](bool a, bool b, bool) { return a < b; }, nullptr},
        {GATE_GT2, "gt2", 2, [](bool a, bool b, bool) { return a > b; }, nullptr},
        {GATE_LE2, "le2", 2, [](bool a, bool b, bool) { return a <= b; }, nullptr},
        {GATE_GE2, "ge2", 2, [](bool a, bool b, bool) { return a >= b; }, nullptr},
        {GATE_AND3, "and3", 3, [](bool a, bool b, bool d) { return a && b && d; }, DECAY_AND3},
        {GATE_XOR_AND, "xor_and", 3, [](bool a, bool b, bool d) { return a && (b != d); }, DECAY_XOR_AND},
        {GATE_OR_AND, "or_and", 3, [](bool a, bool b, bool d) { return a && (b || d); }, DECAY_OR_AND},
        {GATE_ONEHOT, "onehot", 3, [](bool a, bool b, bool d) { return a + b + d == 1; }, DECAY_ONEHOT},
        {GATE_MAJ3, "maj3", 3, [](bool a, bool b, bool d) { return a + b + d >= 2; }, DECAY_MAJ3},
        {GATE_GAMBLE, "gamble", 3, [](bool a, bool b, bool d) { return a == b && b == d; }, DECAY_GAMBLE},
        {GATE_DOT, "dot", 3, [](bool a, bool b, bool d) { return a != (d || (a && b)); }, DECAY_DOT},
        {GATE_MUX, "mux", 3, [](bool a, bool b, bool d) { return d ? b : a; }, DECAY_MUX},
        {GATE_AND_XOR, "and_xor", 3, [](bool a, bool b, bool d) { return a != (b && d); }, DECAY_AND_XOR},
    };
    return e;
}

PBT("gates", 23 * 8, 23 * 8, "a gate with inputs")
{
    const auto& e = entries()[c.systematic(entries().size())];
    const auto  r = c.systematic(8);
    const bool  a = (r & 1) != 0, b = (r & 2) != 0, d = (r & 4) != 0;
    const auto  gs = parse(e.text);
    REQUIRE_EQ(gs.size(), 1u, "one entry for " << e.name);
    const auto& g = gs[0];
    c.note(g.name, " = ", g.ex, " at ", a, b, d);
    c.nontrivial(!g.vars.empty());
    REQUIRE_EQ(g.name, std::string{e.name}, "the name");
    REQUIRE_EQ(static_cast<int>(g.vars.size()), e.arity, "the number of inputs of " << e.name);
    REQUIRE_EQ(g(a, b, d), e.f(a, b, d), g.name << " at a=" << a << " b=" << b << " c=" << d);
}
PBT("costs", 23, 23, "a gate with inputs")
{
    // no gate is preferred: the gates with inputs and their decays have one area and one delay
    const auto& e    = entries()[c.systematic(entries().size())];
    const auto  want = parse(GATE_BUF)[0].cost;
    c.note(e.name);
    for (const char* t : {e.text, e.decay})
    {
        if (t == nullptr) { continue; }
        for (const auto& g : parse(t))
        {
            if (g.vars.empty())
            {
                REQUIRE_THAT(std::stod(g.area) == 0.0, "constants cost nothing");
                continue;
            }
            c.nontrivial();
            REQUIRE_EQ(g.cost, want, "the cost of " << g.name);
        }
    }
}
PBT("decays", 23, 23, "a gate with decayed variants")
{
    const auto& e = entries()[c.systematic(entries().size())];
    c.note(e.name);
    if (e.decay == nullptr)
    {
        return;
    }
    c.nontrivial();
    const auto ds = parse(e.decay);
    const auto p  = parse(e.text)[0];
    // every two-input function of (a, b) which the parent takes when each of its inputs is tied to 0, 1, a or b
    std::set<unsigned> reach{};
    for (int k = 0; k < 64; ++k)
    {
        unsigned tt = 0;
        for (unsigned ab = 0; ab < 4; ++ab)
        {
            const bool x = (ab & 1) != 0, y = (ab & 2) != 0;
            const bool src[4]{false, true, x, y};
            tt |= static_cast<unsigned>(p(src[k & 3], src[(k >> 2) & 3], src[(k >> 4) & 3])) << ab;
        }
        reach.insert(tt);
    }
    std::set<unsigned> seen{};
    int                n = 0;
    for (const auto& d : ds)
    {
        ++n;
        REQUIRE_EQ(d.name, "d" + std::to_string(n) + "_" + p.name, "the name of a decayed gate");
        REQUIRE_THAT(d.vars.find('c') == d.vars.end(), d.name << " has at most two inputs");
        unsigned tt = 0;
        for (unsigned ab = 0; ab < 4; ++ab)
        {
            tt |= static_cast<unsigned>(d((ab & 1) != 0, (ab & 2) != 0, false)) << ab;
        }
        c.evals++;
        REQUIRE_THAT(seen.insert(tt).second, "two decays of " << p.name << " have the same function");
        REQUIRE_THAT(reach.count(tt) == 1, d.name << " = " << d.ex << " is no restriction of " << p.name << " = " << p.ex);
    }
}
PBT("library", 4000, 40000, "at least five entries")
{
    // a library assembled from any selection of entries stays parseable and free of duplicates
    std::string           text{};
    std::set<std::string> names{};
    std::size_t           n = 0;
    for (const auto& e : entries())
    {
        for (const char* t : {e.text, e.decay})
        {
            if (t != nullptr && c.flip())
            {
                text += t;
                n += static_cast<std::size_t>(std::count(t, t + std::string{t}.size(), '\n'));
            }
        }
    }
    c.note(n, " entries");
    c.nontrivial(n >= 5);
    if (n == 0)
    {
        return;
    }
    const auto gs = parse(text);
    REQUIRE_EQ(gs.size(), n, "every entry is found again");
    for (const auto& g : gs)
    {
        REQUIRE_THAT(names.insert(g.name).second, "two entries are called " << g.name);
    }
}
