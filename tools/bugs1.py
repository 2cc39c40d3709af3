"""First batch of planted bugs: the headers that the repository's own offline build compiles."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


I = "include/fiction/"

bug("p01-cube-order-packed", "P01", "two cube coordinates on one layer whose rows have different signs",
    "the order of cube coordinates: a negative row sorts behind every non-negative one",
    [(I + "layouts/coordinates.hpp", """    constexpr bool operator<(const coord_t& other) const noexcept
    {
        if (z < other.z)
        {
            return true;
        }

        if (z == other.z)
        {
            if (y < other.y)
            {
                return true;
            }

            if (y == other.y)
            {
                return x < other.x;
            }
        }

        return false;
    }
    /**
     * Determine whether this coordinate is "greater than" another one. This is the case if the other one is "less
     * than".
     *
     * @param other Right-hand side coordinate.
     * @return `true` iff this coordinate is "greater than" the other coordinate.
     */
    constexpr bool operator>(const coord_t& other) const noexcept
""", """    constexpr bool operator<(const coord_t& other) const noexcept
    {
        // compare layer and row in one go
        const auto row_key = [](const coord_t& c) noexcept
        { return static_cast<int64_t>(c.z) * (int64_t{1} << 32) + static_cast<int64_t>(static_cast<uint32_t>(c.y)); };

        if (row_key(*this) != row_key(other))
        {
            return row_key(*this) < row_key(other);
        }

        return x < other.x;
    }
    /**
     * Determine whether this coordinate is "greater than" another one. This is the case if the other one is "less
     * than".
     *
     * @param other Right-hand side coordinate.
     * @return `true` iff this coordinate is "greater than" the other coordinate.
     */
    constexpr bool operator>(const coord_t& other) const noexcept
""")],
    """
#include <fiction/layouts/coordinates.hpp>
int main()
{
    using c = fiction::cube::coord_t;
    return (c{0, -1, 0} < c{0, 1, 0}) && !(c{0, 1, 0} < c{0, -1, 0}) ? 0 : 1;
}
""")

bug("p02-start-negative-row", "P02", "an enumeration started at a negative row",
    "the enumeration starts outside the boundary: negative start rows are not clamped",
    [(I + "layouts/coordinates.hpp", """        coord.x = std::max(coord.x, static_cast<decltype(coord.x)>(0));
        coord.y = std::max(coord.y, static_cast<decltype(coord.y)>(0));
        coord.z = std::max(coord.z, static_cast<decltype(coord.z)>(0));""", """        if (coord.x < 0 || coord.z < 0)
        {
            coord.x = std::max(coord.x, static_cast<decltype(coord.x)>(0));
            coord.y = std::max(coord.y, static_cast<decltype(coord.y)>(0));
            coord.z = std::max(coord.z, static_cast<decltype(coord.z)>(0));
        }""")],
    """
#include <fiction/layouts/coordinates.hpp>
int main()
{
    using c = fiction::cube::coord_t;
    const c ar{3, 2, 0};
    fiction::coord_iterator<c> it{ar, c{1, -2, 0}};
    return *it == c{1, 0, 0} ? 0 : 1;
}
""")

bug("p02-volume-narrow", "P02", "a cube extent whose volume exceeds 32 bits",
    "the volume of large cube extents is computed modulo 2^32",
    [(I + "layouts/coordinates.hpp", """    return (static_cast<uint64_t>(integral_abs(coord.x)) + 1) * (static_cast<uint64_t>(integral_abs(coord.y)) + 1) *
           (static_cast<uint64_t>(integral_abs(coord.z)) + 1);""",
      """    return static_cast<uint64_t>((integral_abs(coord.x) + 1) * (integral_abs(coord.y) + 1)) *
           (static_cast<uint64_t>(integral_abs(coord.z)) + 1);""")],
    """
#include <fiction/layouts/coordinates.hpp>
int main()
{
    return fiction::volume(fiction::cube::coord_t{99999, 99999, 1}) == 20000000000ull ? 0 : 1;
}
""")

bug("p03-siqad-negative-odd-row", "P03", "a negative odd Cartesian row",
    "conversion to SiQAD coordinates truncates negative odd rows towards zero, so that converting back is off by two rows",
    [(I + "layouts/coordinates.hpp", "return {coord.x, (coord.y + (coord.y % 2)) / 2, (coord.y % 2 == 0 ? 0 : 1)};",
      "return {coord.x, coord.y / 2, (coord.y % 2 == 0 ? 0 : 1)};")],
    """
#include <fiction/layouts/coordinates.hpp>
int main()
{
    const fiction::cube::coord_t c{4, -3};
    const auto s = fiction::siqad::to_siqad_coord(c);
    return fiction::siqad::to_fiction_coord<fiction::cube::coord_t>(s) == c ? 0 : 1;
}
""")

bug("p03-siqad-minus-borrow", "P03", "subtracting SiQAD coordinates where the lower atom is taken from the upper one",
    "the borrow from the dimer row is dropped when both operands lie in the same row",
    [(I + "layouts/coordinates.hpp",
      "return coord_t{x - other.x, y - other.y - static_cast<decltype(y)>(!z && other.z), z - other.z};",
      "return coord_t{x - other.x, y - other.y - static_cast<decltype(y)>(y != other.y && !z && other.z), z - other.z};")],
    """
#include <fiction/layouts/coordinates.hpp>
int main()
{
    using c = fiction::siqad::coord_t;
    const c a{2, 5, 0}, b{1, 5, 1};
    return (a - b) + b == a ? 0 : 1;
}
""")

bug("p04-even-candidates", "P04", "a number of tiles with an even divisor above two, such as 16",
    "the factorisation skips even widths above two, so that for example 4 x 4 is never offered for 16 tiles",
    [(I + "algorithms/iter/aspect_ratio_iterator.hpp", "for (auto i = 1u; i <= std::sqrt(num); ++i)",
      "for (auto i = 1u; i <= std::sqrt(num); i += (i < 3u ? 1u : 2u))")],
    """
#include <fiction/algorithms/iter/aspect_ratio_iterator.hpp>
#include <fiction/layouts/coordinates.hpp>
int main()
{
    for (fiction::aspect_ratio_iterator<fiction::offset::ucoord_t> it{16}; it <= 16; ++it)
    {
        if (*it == fiction::offset::ucoord_t{3, 3}) { return 0; }
    }
    return 1;
}
""")

bug("p05-subscript-or", "P05", "subscripting a Gray code iterator that does not start at zero with a colliding index",
    "operator[] yields the code of a different position",
    [(I + "algorithms/iter/gray_code_iterator.hpp", "uint64_t result = start_number + index;",
      "uint64_t result = start_number | index;")],
    """
#include <fiction/algorithms/iter/gray_code_iterator.hpp>
int main()
{
    fiction::gray_code_iterator a{5};
    fiction::gray_code_iterator b{8};
    return a[3] == *b ? 0 : 1;
}
""")

bug("p05-difference-narrow", "P05", "two Gray code iterators more than 2^31 positions apart",
    "the difference of two iterators is truncated to 32 bits",
    [(I + "algorithms/iter/gray_code_iterator.hpp",
      "return static_cast<int64_t>(current_iteration) - static_cast<int64_t>(other.current_iteration);",
      "return static_cast<int>(current_iteration - other.current_iteration);")],
    """
#include <fiction/algorithms/iter/gray_code_iterator.hpp>
int main()
{
    const fiction::gray_code_iterator a{1ull << 40u}, b{1};
    return a - b == static_cast<int64_t>((1ull << 40u) - 1u) ? 0 : 1;
}
""")

bug("p06-permute-restore", "P06", "enumerating the permutations of at least four elements to the end",
    "the range is not put back into its original order after all permutations of four or more elements were visited",
    [("vendors/combinations/combinations.h", """            std::reverse(first1, last1);
            break;""", """            std::reverse(fp1, last1);
            break;""")],
    """
#include <vector>
#include <combinations.h>
int main()
{
    std::vector<int> v{1, 2, 3, 4};
    combinations::for_each_permutation(v.begin(), v.end(), v.end(), [](auto, auto) { return false; });
    return v == std::vector<int>{1, 2, 3, 4} ? 0 : 1;
}
""")

bug("p07-round-negative-ties", "P07", "rounding a negative value that lies exactly between two decimals",
    "negative ties are rounded towards zero, so that rounding is not symmetric",
    [(I + "utils/math_utils.hpp", "std::round(static_cast<double>(number) * factor) / factor",
      "std::floor((static_cast<double>(number) * factor) + 0.5) / factor")],
    """
#include <fiction/utils/math_utils.hpp>
int main()
{
    using fiction::round_to_n_decimal_places;
    return round_to_n_decimal_places(-0.5, 0) == -round_to_n_decimal_places(0.5, 0) ? 0 : 1;
}
""")

bug("p08-first-two-candidate", "P08", "a candidate list in which one value occurs twice with different successors",
    "find_first_two_of gives up on the candidates after the first one whose first element matches",
    [(I + "utils/stl_utils.hpp", """            if (*first == *it && *(first + 1) == *(it + 1))
            {
                return first;
            }""", """            if (*first == *it)
            {
                if (*(first + 1) == *(it + 1))
                {
                    return first;
                }

                break;
            }""")],
    """
#include <fiction/utils/stl_utils.hpp>
#include <vector>
int main()
{
    const std::vector<int> v{9, 1, 3}, s{1, 2, 1, 3};
    return fiction::find_first_two_of(v.begin(), v.end(), s.begin(), s.end()) == v.begin() + 1 ? 0 : 1;
}
""")

bug("p08-localtime-shared", "P08", "two threads converting times concurrently",
    "the time conversion goes through the C library's shared buffer, so concurrent callers see each other's time",
    [(I + "utils/stl_utils.hpp", "    localtime_r(&time, &tm_snapshot);",
      "    tm_snapshot = *std::localtime(&time);")],
    """
#include <fiction/utils/stl_utils.hpp>
#include <atomic>
#include <thread>
#include <vector>
int main()
{
    std::atomic<bool> bad{false};
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t)
    {
        ts.emplace_back([t, &bad] {
            const std::time_t when = 86400l * 366 * t * 7;
            const auto want = fiction::safe_localtime(when).tm_year;
            (void)want;
            const int expect = std::gmtime(&when) ? 0 : 0;
            (void)expect;
            std::tm ref{};
            localtime_r(&when, &ref);
            for (int i = 0; i < 400000 && !bad; ++i)
            {
                const auto r = fiction::safe_localtime(when);
                if (r.tm_year != ref.tm_year || r.tm_yday != ref.tm_yday) { bad = true; }
            }
        });
    }
    for (auto& t : ts) { t.join(); }
    return bad ? 1 : 0;
}
""")

bug("p09-unordered-cancel", "P09", "an unordered combination in which a value occurs twice",
    "repeated values cancel out: collections that differ in pairs of equal elements hash equally",
    [(I + "utils/hash.hpp", "    seed += static_cast<std::size_t>(scrambled);", "    seed ^= static_cast<std::size_t>(scrambled);")],
    """
#include <fiction/utils/hash.hpp>
int main()
{
    std::size_t a = 0, b = 0;
    fiction::hash_combine_unordered(a, 1);
    fiction::hash_combine_unordered(a, 1);
    fiction::hash_combine_unordered(b, 2);
    fiction::hash_combine_unordered(b, 2);
    return a != b ? 0 : 1;
}
""")

bug("p10-best-not-current", "P10", "a chain of at least two moves in which a best state is followed by a worse neighbour",
    "a state that improves on the best one is recorded but the walk does not continue from it",
    [(I + "algorithms/optimization/simulated_annealing.hpp", """                best_state    = new_state;
                best_cost     = new_cost;
                current_state = std::move(new_state);
                current_cost  = std::move(new_cost);

                continue;""", """                best_state   = std::move(new_state);
                best_cost    = std::move(new_cost);
                current_cost = best_cost;

                continue;""")],
    """
#include <fiction/algorithms/optimization/simulated_annealing.hpp>
int main()
{
    // every neighbour is better: 20 moves of one step each must arrive at -20
    const auto r = fiction::simulated_annealing(
        0, 20.0, 10.0, 20, [](int s) { return s; }, [](double t) { return t - 10.0; }, [](int s) { return s - 1; });
    return r.first == -20 && r.second == -20 ? 0 : 1;
}
""")

bug("p10-shortcut-too-early", "P10", "a worse neighbour whose cost difference lies between one and ten times the temperature",
    "neighbours that are worse by more than the temperature are never accepted",
    [(I + "algorithms/optimization/simulated_annealing.hpp", "if (cost_delta > 10.0 * temp)", "if (cost_delta * 10.0 > 10.0 * temp)")],
    """
#include <fiction/algorithms/optimization/simulated_annealing.hpp>
int main()
{
    // neighbours are worse by 2 T: about 13.5 % of 10000 must be accepted
    int moves = 0;
    fiction::simulated_annealing(
        0, 1.0, 0.5, 10000, [](int s) { return 2.0 * s; }, [](double t) { return t - 10.0; },
        [&moves](int s) { moves = s > moves ? s : moves; return s + 1; });
    return moves > 100 ? 0 : 1;
}
""")

bug("p11-shared-best", "P11", "at least two annealing instances that finish at about the same time",
    "every instance folds its result into a shared slot without synchronisation",
    [(I + "algorithms/optimization/simulated_annealing.hpp",
      "    { results[index] = simulated_annealing(rand_state(), init_temp, final_temp, cycles, cost, schedule, next); };",
      """    {
        results[index] = simulated_annealing(rand_state(), init_temp, final_temp, cycles, cost, schedule, next);

        // keep the best result in front
        if (index != 0 && results[index].second < results.front().second)
        {
            std::swap(results[index], results.front());
        }
    };""")],
    """
#include <fiction/algorithms/optimization/simulated_annealing.hpp>
#include <atomic>
int main()
{
    for (int i = 0; i < 60; ++i)
    {
        std::atomic<int> n{0};
        const auto r = fiction::multi_simulated_annealing(
            30.0, 10.0, 20, 6, [&n] { return ++n; }, [](int s) { return s; }, [](double t) { return t - 10.0; },
            [](int s) { return s - 1; });
        if (r.first == 12345) { return 2; }
    }
    return 0;
}
""", flags=["-fsanitize=thread", "-g"])

bug("p12-loop-tolerance", "P12", "a potential that is small against the tolerance, or a fine precision",
    "the search stops one or more steps early when the potential is within a fixed tolerance of the target",
    [(I + "algorithms/simulation/sidb/potential_to_distance_conversion.hpp",
      "while (potential_for_given_distance > potential)", "while (potential_for_given_distance - potential > 1e-7)")],
    """
#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>
int main()
{
    const fiction::sidb_simulation_parameters p{};
    const double target = 1e-7;
    const double d = fiction::potential_to_distance_conversion(target, p, 2);
    const double v = p.k() / (d * 1e-9) * std::exp(-d / p.lambda_tf) * fiction::constants::physical::ELEMENTARY_CHARGE;
    return v <= target * (1 + 1e-9) ? 0 : 1;
}
""")

bug("p13-csv-own-stream", "P13", "a stream with non-default formatting",
    "fields are formatted by a fresh stream, so that precision and flags of the target stream are ignored",
    [(I + "io/csv_writer.hpp", "            stream << std::forward<T>(arg) << DELIMITER;",
      """            std::ostringstream field{};
            field << std::forward<T>(arg) << DELIMITER;
            stream << field.str();"""),
     (I + "io/csv_writer.hpp", "#include <ostream>\n", "#include <ostream>\n#include <sstream>\n")],
    """
#include <fiction/io/csv_writer.hpp>
#include <iomanip>
#include <sstream>
int main()
{
    std::ostringstream os;
    os << std::fixed << std::setprecision(2);
    fiction::csv_writer w{os};
    w.write_line(1.5, 2.5);
    return os.str() == "1.50,2.50\\n" ? 0 : 1;
}
""")

bug("p14-charge-narrow", "P14", "a defect charge beyond the range of a byte",
    "positively charged defects are classified through a narrowed charge",
    [(I + "technology/sidb_defects.hpp", "    return defect.charge > 0;", "    return static_cast<int8_t>(defect.charge) > 0;")],
    """
#include <fiction/technology/sidb_defects.hpp>
int main()
{
    const fiction::sidb_defect d{fiction::sidb_defect_type::UNKNOWN, 200};
    return fiction::is_positively_charged_defect(d) ? 0 : 1;
}
""")

bug("p15-molqca-clock", "P15", "a molQCA input, output or constant cell",
    "cells without a clock-specific type report the clock number of the last phase instead of the first",
    [(I + "technology/cell_technologies.hpp", """        if (is_normal_cell4(c))
        {
            return 3u;
        }

        return 0u;""", """        return is_empty_cell(c) || is_normal_cell1(c) ? 0u : 3u;""")],
    """
#include <fiction/technology/cell_technologies.hpp>
int main()
{
    using t = fiction::mol_qca_technology;
    return t::cell_clock_number(t::cell_type::INPUT) == 0 ? 0 : 1;
}
""")

bug("p16-hash-flags", "P16", "two ports at the same location that differ in their input or output flag",
    "the hash of a port position depends on its flags although equality does not",
    [(I + "technology/cell_ports.hpp", "fiction::hash_combine(h, port.x, port.y);",
      "fiction::hash_combine(h, port.x, port.y, port.pi, port.po);")],
    """
#include <fiction/technology/cell_ports.hpp>
int main()
{
    const fiction::port_position a{3, 4}, b{3, 4, true, false};
    return a == b && std::hash<fiction::port_position>{}(a) == std::hash<fiction::port_position>{}(b) ? 0 : 1;
}
""")

bug("p17-le-swapped", "P17", "the less-or-equal gate evaluated on unequal inputs",
    "the library's less-or-equal gate computes greater-or-equal",
    [(I + "technology/technology_mapping_library.hpp", "O=!(a*!b); ", "O=!(!a*b); ")],
    """
#include <fiction/technology/technology_mapping_library.hpp>
#include <string>
// evaluates the expression of a genlib line: '+' < '^' < '*' < '!'
static const char* p;
static bool A, B;
static void ws() { while (*p == ' ') { ++p; } }
static bool sum();
static bool atom()
{
    ws();
    if (*p == '!') { ++p; return !atom(); }
    if (*p == '(') { ++p; const bool v = sum(); ws(); ++p; return v; }
    return *p++ == 'a' ? A : B;
}
static bool product() { bool v = atom(); for (ws(); *p == '*'; ws()) { ++p; const bool w = atom(); v = v && w; } return v; }
static bool parity() { bool v = product(); for (ws(); *p == '^'; ws()) { ++p; const bool w = product(); v = v != w; } return v; }
static bool sum() { bool v = parity(); for (ws(); *p == '+'; ws()) { ++p; const bool w = parity(); v = v || w; } return v; }
int main()
{
    const std::string line = fiction::GATE_LE2;
    for (int i = 0; i < 4; ++i)
    {
        A = (i & 1) != 0;
        B = (i & 2) != 0;
        p = line.c_str() + line.find("O=") + 2;
        if (sum() != (A <= B)) { return 1; }
    }
    return 0;
}
""")

bug("p18-mcs-color-count", "P18", "a vertex whose neighbours' colours have a gap",
    "a vertex gets as colour the number of distinct colours around it, which a neighbour may already have",
    [("vendors/graph-coloring/Source/mcs.cpp", """        for (int i : colorvec)
        {
            if (i == newcolor)
            {
                newcolor++;
            }
        }""", """        for (int i : colorvec)
        {
            if (i >= 0)
            {
                newcolor++;
            }
        }""")],
    """
#include <mcs.hpp>
#include <cstdlib>
#include <string>
int main()
{
    unsigned long long s = 88172645463325252ull;
    for (int round = 0; round < 2000; ++round)
    {
        std::map<std::string, std::vector<std::string>> g;
        const int n = 4 + round % 6;
        for (int i = 0; i < n; ++i) { g[std::string(1, 'a' + i)]; }
        for (int i = 0; i < n; ++i)
        {
            for (int j = i + 1; j < n; ++j)
            {
                s ^= s << 13; s ^= s >> 7; s ^= s << 17;
                if (s & 1)
                {
                    g[std::string(1, 'a' + i)].push_back(std::string(1, 'a' + j));
                    g[std::string(1, 'a' + j)].push_back(std::string(1, 'a' + i));
                }
            }
        }
        GraphColoring::Mcs m{g};
        m.color();
        if (!m.is_valid()) { return 1; }
    }
    return 0;
}
""", srcs=["vendors/graph-coloring/Source/mcs.cpp", "vendors/graph-coloring/Source/coloring_algorithm.cpp"])

bug("p18-dsatur-one-pass", "P18", "a vertex whose neighbours' colours are met in descending order",
    "the lowest free colour is searched in a single pass over the neighbours' colours",
    [("vendors/graph-coloring/Source/dsatur.cpp", """                    lowest_color += 1;
                    done = 0;""", """                    lowest_color += 1;""")],
    """
#include <dsatur.hpp>
#include <string>
int main()
{
    unsigned long long s = 88172645463325252ull;
    for (int round = 0; round < 4000; ++round)
    {
        std::map<std::string, std::vector<std::string>> g;
        const int n = 4 + round % 7;
        for (int i = 0; i < n; ++i) { g[std::string(1, 'a' + i)]; }
        for (int i = 0; i < n; ++i)
        {
            for (int j = i + 1; j < n; ++j)
            {
                s ^= s << 13; s ^= s >> 7; s ^= s << 17;
                if (s & 1)
                {
                    g[std::string(1, 'a' + i)].push_back(std::string(1, 'a' + j));
                    g[std::string(1, 'a' + j)].push_back(std::string(1, 'a' + i));
                }
            }
        }
        GraphColoring::Dsatur m{g};
        m.color();
        if (!m.is_valid()) { return 1; }
    }
    return 0;
}
""", srcs=["vendors/graph-coloring/Source/dsatur.cpp", "vendors/graph-coloring/Source/coloring_algorithm.cpp"])

bug("p19-erase-vertex-neighbour", "P19", "erasing a vertex that has a self-loop and further neighbours",
    "after a self-loop was removed the edges to the other neighbours stay behind",
    [("vendors/undirected_graph/source/undirected_graph.h", """        auto& adj_list = adjacency.at(vertex_id);
        for (auto it = adj_list.begin(); it != adj_list.end(); ++it)
        {
            const auto other_id = *it;
""", """        auto& adj_list = adjacency.at(vertex_id);
        for (auto it = adj_list.begin(); it != adj_list.end(); ++it)
        {
            const auto other_id = *it;

            if (edges.count(edge_id_type(other_id, other_id)) == 1)
            {
                continue;
            }
""")],
    """
#include <undirected_graph.h>
#include <undirected_pair.h>
int main()
{
    undirected_graph<int, int, undirected_pair<int>, int> g;
    g.insert_vertex(1, 0);
    g.insert_vertex(2, 0);
    g.insert_edge(1, 2, 0);
    g.insert_edge(2, 2, 0);
    g.erase_vertex(1);
    return g.size_edges() == 1 && g.find_edge(undirected_pair<int>(1, 2)) == g.end_edges() ? 0 : 1;
}
""")

bug("p20-fanout-tile", "P20", "printing a layout in which a node has a fanout on another tile",
    "the tile of a fanout is printed as the tile of the node that drives it",
    [(I + "utils/debug/layout_printer.hpp", """            lyt.foreach_fanout(n, [&lyt](const auto& fn)
                               { std::cout << fmt::format("\\t   {} @ {}", fn, lyt.get_tile(fn)) << std::endl; });
        });

    std::cout << std::endl << "----------------------" << std::endl;
}

template <typename Lyt>
void print_tile""", """            lyt.foreach_fanout(n, [&lyt, &n](const auto& fn)
                               { std::cout << fmt::format("\\t   {} @ {}", fn, lyt.get_tile(n)) << std::endl; });
        });

    std::cout << std::endl << "----------------------" << std::endl;
}

template <typename Lyt>
void print_tile""")],
    """
#include <fiction/utils/debug/layout_printer.hpp>
#include <iostream>
#include <sstream>
struct lyt
{
    template <class F> void foreach_node(F&& f) const { f(2); f(3); }
    template <class F> void foreach_fanin(int n, F&& f) const { if (n == 3) f(2); }
    template <class F> void foreach_fanout(int n, F&& f) const { if (n == 2) f(3); }
    int get_tile(int n) const { return n * 100; }
    int get_node(int n) const { return n; }
};
int main()
{
    std::ostringstream os;
    auto* old = std::cout.rdbuf(os.rdbuf());
    fiction::debug::print_node_to_tile_assignments(lyt{});
    std::cout.rdbuf(old);
    return os.str().find("with fanouts:\\n\\t   3 @ 300") != std::string::npos ? 0 : 1;
}
""")
