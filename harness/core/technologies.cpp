// cell technologies: every predicate accepts exactly its own cell types and modes
#include "pbt.hpp"

#include <fiction/technology/cell_technologies.hpp>

#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

using namespace fiction;

template <typename Tech>
struct table
{
    using T = typename Tech::cell_type;
    std::map<std::string, std::pair<std::function<bool(const T&)>, std::string>> p{};  // predicate -> symbols it accepts
    std::string                                                                 all{};
    std::vector<std::string> basic{"empty", "normal", "input", "output"};  // pairwise disjoint
};

template <typename Tech>
void types(pbt::ctx& c, const table<Tech>& t, std::uint8_t v)
{
    const auto ct = static_cast<typename Tech::cell_type>(v);
    c.note("cell type ", static_cast<int>(v));
    c.nontrivial(t.all.find(static_cast<char>(v)) != std::string::npos);
    int hits = 0;
    for (const auto& [name, f] : t.p)
    {
        const bool want = f.second.find(static_cast<char>(v)) != std::string::npos && v != 0;
        REQUIRE_EQ(f.first(ct), want, "is_" << name << " of type '" << static_cast<char>(v) << "'");
        c.evals++;
        hits += want ? 1 : 0;
    }
    if (t.all.find(static_cast<char>(v)) != std::string::npos && v != 0)
    {
        REQUIRE_THAT(hits >= 1, "every cell type is recognised by a predicate");
    }
    else
    {
        REQUIRE_EQ(hits, 0, "no predicate accepts a symbol that is no cell type");
    }
}
template <typename Tech>
void marks()
{
    using T = typename Tech::cell_type;
    using M = typename Tech::cell_mark;
    REQUIRE_THAT(static_cast<T>(M::EMPTY) == T::EMPTY && static_cast<T>(M::INPUT) == T::INPUT && static_cast<T>(M::OUTPUT) == T::OUTPUT,
                 "a mark turns a cell into the type of the same name");
}
template <typename Tech>
void modes(std::uint8_t v)
{
    using M      = typename Tech::cell_mode;
    const auto m = static_cast<M>(v);
    REQUIRE_EQ(Tech::is_normal_cell_mode(m), m == M::NORMAL, "normal mode " << static_cast<int>(v));
    REQUIRE_EQ(Tech::is_rotated_cell_mode(m), m == M::ROTATED, "rotated mode " << static_cast<int>(v));
    REQUIRE_EQ(Tech::is_vertical_cell_mode(m), m == M::VERTICAL, "vertical mode " << static_cast<int>(v));
    REQUIRE_EQ(Tech::is_crossover_cell_mode(m), m == M::CROSSOVER, "crossover mode " << static_cast<int>(v));
    REQUIRE_THAT(M{} == M::NORMAL, "a cell is in normal mode unless told otherwise");
    const int hits = Tech::is_normal_cell_mode(m) + Tech::is_rotated_cell_mode(m) + Tech::is_vertical_cell_mode(m) + Tech::is_crossover_cell_mode(m);
    REQUIRE_EQ(hits, v < 4 ? 1 : 0, "exactly one mode predicate holds");
}

#define PR(Q, NAME, SYMBOLS) {#NAME, {[](const Q::cell_type& t) { return Q::is_##NAME(t); }, SYMBOLS}}

PBT("qca", 256, 256, "a cell type of the technology")
{
    using Q = qca_technology;
    static const table<Q> t{{PR(Q, empty_cell, " "), PR(Q, normal_cell, "x"), PR(Q, input_cell, "i"), PR(Q, output_cell, "o"),
                             PR(Q, const_0_cell, "0"), PR(Q, const_1_cell, "1"), PR(Q, constant_cell, "01")},
                            " xio01"};
    const auto v = static_cast<std::uint8_t>(c.systematic(256));
    types(c, t, v);
    modes<Q>(v);
    marks<Q>();
    REQUIRE_THAT(static_cast<char>(Q::cell_type::NORMAL) == 'x' && static_cast<char>(Q::cell_type::CONST_0) == '0' &&
                     static_cast<char>(Q::cell_type::CONST_1) == '1',
                 "the symbols");
    REQUIRE_THAT(Q::CELL_WIDTH == 18 && Q::CELL_HEIGHT == 18 && Q::CELL_HSPACE == 2 && Q::CELL_VSPACE == 2, "QCADesigner's default cell size and spacing");
}
PBT("mol_qca", 256, 256, "a cell type of the technology")
{
    using Q = mol_qca_technology;
    static const table<Q> t{{PR(Q, empty_cell, " "), PR(Q, normal_cell, "abcd"), PR(Q, normal_cell1, "a"), PR(Q, normal_cell2, "b"),
                             PR(Q, normal_cell3, "c"), PR(Q, normal_cell4, "d"), PR(Q, input_cell, "i"), PR(Q, output_cell, "o"),
                             PR(Q, const_0_cell, "0"), PR(Q, const_1_cell, "1"), PR(Q, constant_cell, "01")},
                            " abcdio01"};
    const auto v = static_cast<std::uint8_t>(c.systematic(256));
    types(c, t, v);
    modes<Q>(v);
    marks<Q>();
    const auto clk = Q::cell_clock_number(static_cast<Q::cell_type>(v));
    REQUIRE_EQ(clk, static_cast<std::uint64_t>(v >= 'a' && v <= 'd' ? v - 'a' : 0), "the clock number of '" << static_cast<char>(v) << "'");
    REQUIRE_THAT(static_cast<char>(Q::cell_type::NORMAL1) == 'a' && static_cast<char>(Q::cell_type::NORMAL4) == 'd', "the symbols");
}
PBT("inml", 256, 256, "a cell type of the technology")
{
    using Q = inml_technology;
    static const table<Q> t{{PR(Q, empty_cell, " "), PR(Q, normal_cell, "x"), PR(Q, input_cell, "i"), PR(Q, output_cell, "o"),
                             PR(Q, slanted_edge_up_magnet, "u"), PR(Q, slanted_edge_down_magnet, "d"), PR(Q, slanted_edge_magnet, "ud"),
                             PR(Q, inverter_magnet, "n"), PR(Q, crosswire_magnet, "c"), PR(Q, fanout_coupler_magnet, "f")},
                            " xioudncf"};
    const auto v = static_cast<std::uint8_t>(c.systematic(256));
    types(c, t, v);
    marks<Q>();
    REQUIRE_THAT(Q::is_normal_cell_mode({}), "magnets have no modes");
    REQUIRE_THAT(Q::CELL_WIDTH == 50 && Q::CELL_HEIGHT == 100 && Q::CELL_HSPACE == 10 && Q::CELL_VSPACE == 25, "NMLSim's default magnet size and spacing");
}
PBT("sidb", 256, 256, "a cell type of the technology")
{
    using Q = sidb_technology;
    static const table<Q> t{{PR(Q, empty_cell, " "), PR(Q, normal_cell, "x"), PR(Q, input_cell, "i"), PR(Q, output_cell, "o"), PR(Q, logic_cell, "l")},
                            " xiol"};
    const auto v = static_cast<std::uint8_t>(c.systematic(256));
    types(c, t, v);
    marks<Q>();
    REQUIRE_THAT(static_cast<Q::cell_type>(Q::cell_mark::LOGIC) == Q::cell_type::LOGIC, "the mark of logic cells");
    REQUIRE_THAT(Q::is_normal_cell_mode({}), "SiDBs have no modes");
    REQUIRE_THAT(Q::CELL_WIDTH == 0.0 && Q::CELL_HEIGHT == 0.0 && Q::CELL_HSPACE == 0.384 && Q::CELL_VSPACE == 0.384, "the SiDB pitch");
}
