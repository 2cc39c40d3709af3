// P35: what is written to a layout file is what is read back; malformed files are rejected
#include "gl_common.hpp"

#include <fiction/io/read_fgl_layout.hpp>
#include <fiction/io/read_fqca_layout.hpp>
#include <fiction/io/read_sidb_surface_defects.hpp>
#include <fiction/io/read_sqd_layout.hpp>
#include <fiction/io/tt_reader.hpp>
#include <fiction/io/write_fgl_layout.hpp>
#include <fiction/io/write_fqca_layout.hpp>
#include <fiction/io/write_sqd_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/types.hpp>

#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <sstream>

using namespace fiction;
using lyt::P3;
using lyt::p3;
using lyt::s3;
using lyt::tl;
using namespace glr;

namespace
{
/// a file below a directory of its own that disappears again
struct scratch
{
    std::string dir, name;
    scratch()
    {
        std::string t = (std::filesystem::temp_directory_path() / "verif_files_XXXXXX").string();
        if (::mkdtemp(t.data()) == nullptr) { throw pbt::discard{}; }
        dir  = t;
        name = t + "/layout.txt";
    }
    scratch(const scratch&) = delete;
    scratch& operator=(const scratch&) = delete;
    ~scratch()
    {
        std::error_code ec{};
        std::filesystem::remove(name, ec);
        std::filesystem::remove(dir, ec);
    }
};

// ------------------------------------------------------------------------------------------------------------- gate level
template <typename Lyt>
void same_layout(const Lyt& a, const Lyt& b)
{
    REQUIRE_EQ(p3(tile<Lyt>{b.x(), b.y(), b.z()}) == p3(tile<Lyt>{a.x(), a.y(), a.z()}), true, "size of the layout");
    REQUIRE_EQ(static_cast<int>(b.num_clocks()), static_cast<int>(a.num_clocks()), "number of clock phases of a " << a.get_clocking_scheme().name << " layout");
    REQUIRE_EQ(std::string{b.get_clocking_scheme().name}, std::string{a.get_clocking_scheme().name}, "clocking scheme");
    for (long y = 0; y <= static_cast<long>(a.y()); ++y)
    {
        for (long x = 0; x <= static_cast<long>(a.x()); ++x)
        {
            for (long z = 0; z <= static_cast<long>(a.z()); ++z)
            {
                REQUIRE_EQ(static_cast<int>(b.get_clock_number(tl<Lyt>({x, y, z}))), static_cast<int>(a.get_clock_number(tl<Lyt>({x, y, z}))), "clock number of " << s3({x, y, z}));
            }
        }
    }
    const auto ga = gates_of(a, true), gb = gates_of(b, false);
    for (const auto& [p, g] : ga)
    {
        const auto it = gb.find(p);
        REQUIRE_THAT(it != gb.end(), "the gate at " << s3(p) << " is lost: " << show(g));
        REQUIRE_THAT(it->second == g, "gate at " << s3(p) << " is " << show(it->second) << ", expected " << show(g));
    }
    REQUIRE_EQ(gb.size(), ga.size(), "number of gates");
    std::vector<P3> pa{}, pb{}, oa{}, ob{};
    a.foreach_pi([&](const auto& n) { pa.push_back(p3(a.get_tile(n))); });
    b.foreach_pi([&](const auto& n) { pb.push_back(p3(b.get_tile(n))); });
    a.foreach_po([&](const auto& f) { oa.push_back(p3(static_cast<tile<Lyt>>(f))); });
    b.foreach_po([&](const auto& f) { ob.push_back(p3(static_cast<tile<Lyt>>(f))); });
    REQUIRE_THAT(pa == pb, "inputs come in another order: " << lyt::show(pb) << ", expected " << lyt::show(pa));
    REQUIRE_THAT(oa == ob, "outputs come in another order: " << lyt::show(ob) << ", expected " << lyt::show(oa));
    REQUIRE_EQ(std::string{get_name(b)}, std::string{get_name(a)}, "name of the layout");
}

template <typename Lyt>
void fgl(pbt::ctx& c)
{
    const auto l = random_layout<Lyt>(c, c.below(3) == 0);
    const auto before = gates_of(l, false);
    Lyt        r{};
    const auto mode = c.below(10);
    if (mode == 0)
    {
        const scratch f{};
        write_fgl_layout(l, f.name);
        if (c.flip()) { r = read_fgl_layout<Lyt>(f.name, "other"); }
        else { read_fgl_layout(r, f.name); }
        if (std::string{get_name(l)}.empty() && std::string{get_name(r)} == "other") { set_name(r, ""); }
    }
    else
    {
        std::stringstream s{};
        write_fgl_layout(l, s);
        if (mode < 7) { r = read_fgl_layout<Lyt>(s); }
        else { read_fgl_layout(r, s); }
    }
    REQUIRE_THAT(gates_of(l, false) == before, "writing changes the layout");
    same_layout(l, r);
    c.key(std::hash<std::string>{}(std::string{l.get_clocking_scheme().name}) + before.size() * 31);
    c.nontrivial(l.num_pos() > 0 && before.size() > l.num_pis() + l.num_pos());
}

struct line_edit
{
    std::string              doc;
    std::vector<std::size_t> at;
};
std::vector<std::string> lines_of(const std::string& s)
{
    std::vector<std::string> r{};
    std::istringstream       is{s};
    for (std::string x{}; std::getline(is, x);) { r.push_back(x); }
    return r;
}
std::string join(const std::vector<std::string>& v)
{
    std::string r{};
    for (const auto& x : v) { r += x + "\n"; }
    return r;
}
std::string trim(const std::string& s)
{
    const auto b = s.find_first_not_of(" \t");
    return b == std::string::npos ? std::string{} : s.substr(b);
}
bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
}  // namespace

PBT("fgl-cartesian", 6000, 150000, "there are gates between inputs and outputs") { fgl<cart>(c); }
PBT("fgl-shifted", 6000, 150000, "there are gates between inputs and outputs")
{
    switch (c.below(4))
    {
        case 0: fgl<sc_or>(c); break;
        case 1: fgl<sc_er>(c); break;
        case 2: fgl<sc_oc>(c); break;
        default: fgl<sc_ec>(c);
    }
}
PBT("fgl-hexagonal", 6000, 150000, "there are gates between inputs and outputs")
{
    switch (c.below(4))
    {
        case 0: fgl<h_or>(c); break;
        case 1: fgl<h_er>(c); break;
        case 2: fgl<h_oc>(c); break;
        default: fgl<h_ec>(c);
    }
}

PBT("fgl-malformed", 8000, 200000, "always")
{
    const auto         l = random_layout<cart>(c, false);
    std::ostringstream s{};
    write_fgl_layout(l, s);
    auto                     ls = lines_of(s.str());
    std::vector<std::size_t> at{};
    const auto               mode = c.below(5);
    std::string              what{};
    const auto               inside = [&](const std::size_t i, const std::string& open, const std::string& close)
    {
        bool in = false;
        for (std::size_t k = 0; k < i; ++k)
        {
            const auto t = trim(ls[k]);
            if (t == open) { in = true; }
            if (t == close) { in = false; }
        }
        return in;
    };
    for (std::size_t i = 0; i < ls.size(); ++i)
    {
        const auto t = trim(ls[i]);
        const bool one = t.find("</") != std::string::npos && !starts(t, "</");
        if (mode == 0 && one && !starts(t, "<fiction") && !starts(t, "<available") && !starts(t, "<date"))
        {
            // the name of a layout and of a gate that is neither input nor output may be missing
            if (starts(t, "<name>"))
            {
                const bool io = i > 0 && (trim(ls[i - 1]) == "<type>PI</type>" || trim(ls[i - 1]) == "<type>PO</type>");
                if (!io && !inside(i, "<clocking>", "</clocking>")) { continue; }
            }
            at.push_back(i);
        }
        if (mode == 1 && (starts(t, "<topology>") || starts(t, "<type>") || (starts(t, "<name>") && inside(i, "<clocking>", "</clocking>")))) { at.push_back(i); }
        if (mode == 2 && (starts(t, "<x>") || starts(t, "<y>") || starts(t, "<z>") || starts(t, "<id>"))) { at.push_back(i); }
        if (mode == 3 && starts(t, "<topology>")) { at.push_back(i); }
        if (mode == 4 && i > 1 && i + 1 < ls.size()) { at.push_back(i); }
    }
    if (at.empty()) { throw pbt::discard{}; }
    const auto i = c.pick(at);
    auto       e = ls;
    if (mode == 0)
    {
        e.erase(e.begin() + static_cast<long>(i));
        what = "without " + trim(ls[i]);
    }
    else if (mode < 4)
    {
        const auto a = ls[i].find('>') + 1, b = ls[i].find("</");
        const std::string by = mode == 1 ? c.pick(std::vector<std::string>{"NONSENSE", "and", "P", "zz"}) : mode == 2 ? c.pick(std::vector<std::string>{"", "x", "-"}) : c.pick(std::vector<std::string>{"odd_row_cartesian", "even_column_hex", "odd_column_cartesian", "cartesian_"});
        e[i] = ls[i].substr(0, a) + by + ls[i].substr(b);
        what = "with " + trim(e[i]) + " instead of " + trim(ls[i]);
    }
    else
    {
        e.resize(i);
        what = "that ends before " + trim(ls[i]);
    }
    c.note(what);
    c.nontrivial(true);
    std::istringstream is{join(e)};
    bool               rejected = false;
    try
    {
        const auto r = read_fgl_layout<cart>(is);
    }
    catch (const fgl_parsing_error&)
    {
        rejected = true;
    }
    catch (const std::invalid_argument&)
    {
        // a number that is none
        rejected = mode == 2;
    }
    REQUIRE_THAT(rejected, "a file " << what << " is accepted");
}

// ------------------------------------------------------------------------------------------------------------- QCA cells
namespace
{
using qca_t = cell_level_layout<qca_technology, clocked_layout<cartesian_layout<offset::ucoord_t>>>;
using st_t  = stacked_qca_cell_clk_lyt;
using qca   = qca_technology;
struct qcell
{
    qca::cell_type type;
    qca::cell_mode mode;
    int            clock;  // -1: not part of the file
    std::string    name;
};
template <typename L>
std::map<P3, qcell> qcells(const L& l)
{
    std::map<P3, qcell> r{};
    l.foreach_cell([&](const auto& x) { r[p3(x)] = {l.get_cell_type(x), l.get_cell_mode(x), static_cast<int>(l.get_clock_number(x)), l.get_cell_name(x)}; });
    return r;
}

/// W: type of the layout to write, R: type of the layout to read
template <typename W, typename R>
void fqca(pbt::ctx& c, const bool vias)
{
    const long  X = static_cast<long>(c.below(7)), Y = static_cast<long>(c.below(7));
    const long  Z    = static_cast<long>(c.below(3) == 0);
    const auto  nm   = c.pick(std::vector<std::string>{"OPEN", "USE", "2DDWAVE", "COLUMNAR", "ROW3", "RES"});
    W           l{{static_cast<int>(X), static_cast<int>(Y), static_cast<int>(Z)}, *get_clocking_scheme<W>(nm), c.flip() ? std::string{} : gen_name(c, "lyt", c.flip())};
    const auto  n = 1 + c.below(static_cast<std::uint64_t>((X + 1) * (Y + 1)));
    std::size_t named = 0;
    std::map<P3, qcell> want{};
    std::set<int>       kinds{};
    std::set<P3>        done{};
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const P3 p{static_cast<long>(c.below(static_cast<std::uint64_t>(X) + 1)), static_cast<long>(c.below(static_cast<std::uint64_t>(Y) + 1)), Z == 0 ? 0 : static_cast<long>(c.below(2))};
        if (!done.insert(p).second) { continue; }
        auto       k    = c.below(10);
        const auto t    = k < 5 ? qca::cell_type::NORMAL : k == 5 ? qca::cell_type::INPUT : k == 6 ? qca::cell_type::OUTPUT : k == 7 ? qca::cell_type::CONST_0 : k == 8 ? qca::cell_type::CONST_1 : qca::cell_type::NORMAL;
        const auto x    = tl<W>(p);
        l.assign_cell_type(x, t);
        kinds.insert(static_cast<int>(t));
        const bool name = (k == 5 || k == 6) ? c.below(4) != 0 : k == 9;
        std::string s{};
        if (name)
        {
            s = gen_name(c, "c" + std::to_string(named), c.flip());
            l.assign_cell_name(x, s);
        }
        named += name || k == 5 || k == 6 ? 1 : 0;
        if (named > 52) { throw pbt::discard{}; }
        if (nm == "OPEN") { l.assign_clock_number(x, static_cast<unsigned char>(c.below(4))); }
        const long z = std::get<2>(p);
        qca::cell_mode m = qca::cell_mode::NORMAL;
        if (z == 0 && vias && Z == 1 && k < 5 && c.below(3) == 0)
        {
            l.assign_cell_mode(x, qca::cell_mode::VERTICAL);
        }
        const P3 q{std::get<0>(p), std::get<1>(p), vias ? 2 * z : z};
        if (std::get<2>(q) != 0) { m = std::get<2>(q) % 2 == 0 ? qca::cell_mode::CROSSOVER : qca::cell_mode::VERTICAL; }
        want[q] = {t, m, name || k == 5 || k == 6 || k < 5 || k == 9 ? static_cast<int>(l.get_clock_number(x)) : -1, s};
        if (l.get_cell_mode(x) == qca::cell_mode::VERTICAL) { want[P3{std::get<0>(p), std::get<1>(p), 1}] = {qca::cell_type::NORMAL, qca::cell_mode::VERTICAL, static_cast<int>(l.get_clock_number(x)), ""}; }
    }
    P3 max{0, 0, 0};
    for (auto& [p, q] : want)
    {
        max     = {std::max(std::get<0>(max), std::get<0>(p)), std::max(std::get<1>(max), std::get<1>(p)), std::max(std::get<2>(max), std::get<2>(p))};
    }
    write_fqca_layout_params ps{};
    ps.create_inter_layer_via_cells = vias;
    R    r{};
    std::string text{};
    if (c.below(12) == 0)
    {
        const scratch f{};
        write_fqca_layout(l, f.name, ps);
        r = read_fqca_layout<R>(f.name, "abc");
    }
    else
    {
        std::stringstream s{};
        write_fqca_layout(l, s, ps);
        text = s.str();
        r    = read_fqca_layout<R>(s, "abc");
    }
    c.note(text);
    REQUIRE_EQ(r.get_layout_name(), std::string{"abc"}, "name of the layout");
    REQUIRE_EQ(s3({static_cast<long>(r.x()), static_cast<long>(r.y()), static_cast<long>(r.z())}), s3(max), "size of the layout");
    const auto got = qcells(r);
    for (const auto& [p, q] : want)
    {
        const auto it = got.find(p);
        REQUIRE_THAT(it != got.end(), "the cell at " << s3(p) << " is lost");
        REQUIRE_EQ(static_cast<char>(it->second.type), static_cast<char>(q.type), "type of the cell at " << s3(p));
        REQUIRE_EQ(static_cast<int>(it->second.mode), static_cast<int>(q.mode), "mode of the cell at " << s3(p));
        if (q.clock >= 0) { REQUIRE_EQ(it->second.clock, q.clock, "clock number of the cell at " << s3(p)); }
        REQUIRE_EQ(it->second.name, q.name, "name of the cell at " << s3(p));
    }
    REQUIRE_EQ(got.size(), want.size(), "number of cells");
    c.key(got.size() * 131 + kinds.size());
    c.nontrivial(kinds.size() > 2);
}
}  // namespace

PBT("fqca", 9000, 250000, "there are cells of at least three kinds")
{
    if (c.flip()) { fqca<qca_t, qca_t>(c, false); }
    else { fqca<qca_t, st_t>(c, false); }
}
PBT("fqca-stacked", 9000, 250000, "there are cells of at least three kinds")
{
    if (c.flip()) { fqca<qca_t, st_t>(c, true); }
    else { fqca<st_t, st_t>(c, c.flip()); }
}

PBT("fqca-limits", 3000, 60000, "always")
{
    c.nontrivial(true);
    const auto mode = c.below(4);
    if (mode == 0)
    {
        // more names than letters
        const auto n = 40 + c.below(25);
        qca_t      l{{static_cast<int>(n), 0}};
        for (std::uint64_t i = 0; i < n; ++i)
        {
            l.assign_cell_type(tl<qca_t>({static_cast<long>(i), 0, 0}), c.flip() ? qca::cell_type::INPUT : qca::cell_type::OUTPUT);
        }
        std::stringstream s{};
        bool              thrown = false;
        try
        {
            write_fqca_layout(l, s);
        }
        catch (const out_of_cell_names_exception&)
        {
            thrown = true;
        }
        REQUIRE_EQ(thrown, n > 52, "out of names with " << n << " inputs and outputs");
        if (!thrown)
        {
            const auto r = read_fqca_layout<qca_t>(s);
            REQUIRE_EQ(r.num_pis() + r.num_pos(), n, "number of inputs and outputs");
        }
        return;
    }
    // a small file with one defect
    const auto        w = 1 + c.below(4), h = 1 + c.below(3);
    std::string       sep{}, doc{};
    for (std::uint64_t i = 0; i < w; ++i) { sep += "= "; }
    const auto  bx = c.below(w), by = c.below(h);
    const char  bad = c.pick(std::vector<char>{'?', '!', '*', ';', '#', '~', '(', '%'});
    doc = sep + "\n";
    for (std::uint64_t y = 0; y < h; ++y)
    {
        for (std::uint64_t x = 0; x < w; ++x)
        {
            doc += x == bx && y == by ? (mode == 1 ? bad : 'a') : c.pick(std::vector<char>{'0', '1', '2', '3', ' ', '+', '-'});
            doc += ' ';
        }
        doc += "\n";
    }
    doc += sep + "\n$\n";
    const auto        known = std::string{"a:\n- input\n- label = \"x\"\n- clock = 2\n"};
    std::size_t       line  = 0;
    const char        label = c.pick(std::vector<char>{'b', 'z', 'A', 'Z'});
    if (mode == 2) { doc += known + std::string(1, label) + ":\n- output\n"; }
    if (mode == 3)
    {
        doc += known;
        line = static_cast<std::size_t>(std::count(doc.begin(), doc.end(), '\n')) + 1;
        doc += c.pick(std::vector<std::string>{"- inputs\n", "- clock = x\n", "- clock = 12\n", "nonsense\n", "- label = x\n", "ab:\n"});
    }
    c.note(doc);
    std::istringstream is{doc};
    try
    {
        const auto r = read_fqca_layout<qca_t>(is);
        c.fail("a malformed file is accepted");
    }
    catch (const unsupported_character_exception& e)
    {
        REQUIRE_THAT(mode == 1 && e.which() == bad, "unsupported character " << e.which());
    }
    catch (const undefined_cell_label_exception& e)
    {
        REQUIRE_THAT(mode == 2 && e.which() == label, "undefined label " << e.which());
    }
    catch (const unrecognized_cell_definition_exception& e)
    {
        REQUIRE_THAT(mode == 3, "unrecognized definition");
        REQUIRE_EQ(e.where(), line, "line of the unrecognized definition");
    }
}

// ------------------------------------------------------------------------------------------------------------- SiDBs
namespace
{
const std::vector<sidb_defect_type> DEFECTS{sidb_defect_type::DB, sidb_defect_type::SI_VACANCY, sidb_defect_type::SINGLE_DIHYDRIDE, sidb_defect_type::DIHYDRIDE_PAIR, sidb_defect_type::ONE_BY_ONE, sidb_defect_type::THREE_BY_ONE, sidb_defect_type::SILOXANE, sidb_defect_type::RAISED_SI, sidb_defect_type::MISSING_DIMER, sidb_defect_type::ETCH_PIT, sidb_defect_type::STEP_EDGE, sidb_defect_type::GUNK, sidb_defect_type::ARSENIC, sidb_defect_type::UNKNOWN};

template <typename Lyt>
coordinate<Lyt> dot_at(const long n, const long m, const long k)
{
    if constexpr (has_siqad_coord_v<Lyt>) { return coordinate<Lyt>(n, m, k); }
    else { return coordinate<Lyt>(n, 2 * m + k); }
}
template <typename Lyt>
constexpr bool defects_v = has_assign_sidb_defect_v<Lyt>;

template <typename Lyt>
void sqd(pbt::ctx& c)
{
    using ct = sidb_technology::cell_type;
    const long range = c.below(3) == 0 ? 300 : 12;
    Lyt        l{};
    l.resize(dot_at<Lyt>(range, range, 1));
    const auto        n = c.below(14);
    std::map<P3, ct>  dots{};
    std::map<P3, sidb_defect> defs{};
    P3                max{0, 0, 0};
    const auto        grow = [&](const P3& p) { max = {std::max(std::get<0>(max), std::get<0>(p)), std::max(std::get<1>(max), std::get<1>(p)), std::max(std::get<2>(max), std::get<2>(p))}; };
    const bool negative = has_siqad_coord_v<Lyt> && c.below(4) == 0;
    const auto any      = [&]
    {
        return dot_at<Lyt>(c.in<long>(negative ? -range : 0, range), c.in<long>(negative ? -range : 0, range), static_cast<long>(c.below(2)));
    };
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const auto x = any();
        const auto t = c.pick(std::vector<ct>{ct::NORMAL, ct::NORMAL, ct::INPUT, ct::OUTPUT, ct::LOGIC});
        l.assign_cell_type(x, t);
        dots[p3(x)] = t;
        grow(p3(x));
    }
    if constexpr (defects_v<Lyt>)
    {
        const auto k = c.below(6);
        for (std::uint64_t i = 0; i < k; ++i)
        {
            const auto x = any();
            if (dots.count(p3(x))) { continue; }
            const auto t = c.pick(DEFECTS);
            sidb_defect d{t};
            if (is_charged_defect_type(d) || c.below(4) == 0)
            {
                d = sidb_defect{t, c.in<std::int64_t>(-3, 3), c.flip() ? 5.6 : c.real(0, 12), c.flip() ? 5.0 : c.real(0, 9)};
                // only charged defects have a field that could be written
                if (!is_charged_defect_type(d)) { d = sidb_defect{t}; }
            }
            l.assign_sidb_defect(x, d);
            defs.insert_or_assign(p3(x), d);
            grow(p3(x));
        }
    }
    Lyt r{};
    if (c.below(12) == 0)
    {
        const scratch f{};
        write_sqd_layout(l, f.name);
        if (c.flip()) { r = read_sqd_layout<Lyt>(f.name, "abc"); }
        else { read_sqd_layout(r, f.name); }
    }
    else
    {
        std::stringstream s{};
        write_sqd_layout(l, s);
        if (c.flip()) { r = read_sqd_layout<Lyt>(s, "abc"); }
        else { read_sqd_layout(r, s); }
        c.note(s.str().substr(s.str().find("<design>") == std::string::npos ? 0 : s.str().find("<design>"), 1500));
    }
    std::map<P3, ct> got{};
    r.foreach_cell([&](const auto& x) { got[p3(x)] = r.get_cell_type(x); });
    for (const auto& [p, t] : dots)
    {
        REQUIRE_THAT(got.count(p), "the dot at " << s3(p) << " is lost");
        REQUIRE_EQ(static_cast<char>(got[p]), static_cast<char>(t), "type of the dot at " << s3(p));
    }
    REQUIRE_EQ(got.size(), dots.size(), "number of dots");
    if constexpr (defects_v<Lyt>)
    {
        std::map<P3, sidb_defect> gd{};
        r.foreach_sidb_defect([&](const auto& x) { gd.insert_or_assign(p3(x.first), x.second); });
        for (const auto& [p, d] : defs)
        {
            const auto it = gd.find(p);
            REQUIRE_THAT(it != gd.end(), "the defect at " << s3(p) << " is lost");
            REQUIRE_THAT(it->second == d, "the defect at " << s3(p) << " has type " << static_cast<int>(it->second.type) << ", charge " << it->second.charge << ", eps_r " << it->second.epsilon_r << ", lambda_tf " << it->second.lambda_tf << "; expected " << static_cast<int>(d.type) << ", " << d.charge << ", " << d.epsilon_r << ", " << d.lambda_tf);
        }
        REQUIRE_EQ(gd.size(), defs.size(), "number of defects");
    }
    // both sublattices belong to a layout in SiQAD coordinates in any case
    if constexpr (has_siqad_coord_v<Lyt>) { std::get<2>(max) = 1; }
    REQUIRE_EQ(s3({static_cast<long>(r.x()), static_cast<long>(r.y()), static_cast<long>(r.z())}), s3(max), "size of the layout");
    c.key(got.size() * 31 + defs.size() + static_cast<std::size_t>(std::get<0>(max)) * 1009);
    c.nontrivial(dots.size() > 2);
}
using siqad_100 = sidb_100_cell_clk_lyt_siqad;
using siqad_111 = sidb_111_cell_clk_lyt_siqad;
using cube_100  = sidb_100_cell_clk_lyt_cube;
using cube_111  = sidb_111_cell_clk_lyt_cube;
using off_100   = sidb_100_cell_clk_lyt;
using off_111   = sidb_111_cell_clk_lyt;

template <typename Lyt>
bool reads(const std::string& s)
{
    std::istringstream is{s};
    try
    {
        const auto l = read_sqd_layout<Lyt>(is);
        return true;
    }
    catch (const sqd_parsing_error&)
    {
        return false;
    }
}
}  // namespace

PBT("sqd", 12000, 300000, "there are more than two dots")
{
    switch (c.below(6))
    {
        case 0: sqd<siqad_100>(c); break;
        case 1: sqd<siqad_111>(c); break;
        case 2: sqd<cube_100>(c); break;
        case 3: sqd<off_100>(c); break;
        case 4: sqd<cube_111>(c); break;
        default: sqd<off_111>(c);
    }
}
PBT("sqd-defects", 8000, 200000, "there are more than two dots")
{
    switch (c.below(4))
    {
        case 0: sqd<sidb_defect_surface<siqad_100>>(c); break;
        case 1: sqd<sidb_defect_surface<off_100>>(c); break;
        case 2: sqd<sidb_defect_surface<siqad_111>>(c); break;
        default: sqd<sidb_defect_surface<cube_100>>(c);
    }
}

PBT("sqd-malformed", 6000, 120000, "always")
{
    using L = sidb_defect_surface<siqad_100>;
    c.nontrivial(true);
    L l{};
    l.resize({20, 20, 1});
    l.assign_cell_type({1, 2, 0}, sidb_technology::cell_type::INPUT);
    l.assign_cell_type({static_cast<int>(4 + c.below(9)), 2, 1}, sidb_technology::cell_type::NORMAL);
    l.assign_cell_type({2, static_cast<int>(7 + c.below(9)), 1}, sidb_technology::cell_type::OUTPUT);
    l.assign_sidb_defect({3, 3, 0}, sidb_defect{sidb_defect_type::DB, -1, 5.6, 5.0});
    std::ostringstream os{};
    write_sqd_layout(l, os);
    const auto                doc = os.str();
    struct edit
    {
        std::string from, to;
        bool        positive;  // still a valid file
    };
    static const std::vector<edit> edits{{"Si(100) 2x1", "Si(111) 1x1", false}, {"Si(100) 2x1", "Si(100) 1x1", false}, {"<type>input</type>", "<type>in</type>", false}, {"<type>output</type>", "<type></type>", false},
                                         {" n=\"1\"", "", false}, {" m=\"2\"", "", false}, {" l=\"1\"", "", false}, {"layer type=\"DB\"", "layer kind=\"DB\"", false}, {"charge=\"-1\"", "", false}, {"eps_r=\"5.6\"", "", false}, {"lambda_tf=\"5\"", "", false},
                                         {"<siqad>", "<siqae>", false}, {"</design>", "", false}, {"<type>input</type>", "", true}, {"<name>Si(100) 2x1</name>", "", true}};
    const auto  i = c.systematic(edits.size());
    const auto& e = edits[i];
    auto        x = doc;
    const auto  p = x.find(e.from);
    REQUIRE_THAT(p != std::string::npos, "the file does not contain " << e.from);
    x.replace(p, e.from.size(), e.to);
    c.note(e.from + " -> " + e.to);
    REQUIRE_EQ(reads<L>(x), e.positive, "a file with '" << e.to << "' instead of '" << e.from << "' can be read");
    // layers, design
    for (const std::string tag : {"layers", "design", "lat_vec", "layer_prop"})
    {
        auto y = doc;
        for (auto q = y.find("<" + tag + ">"); q != std::string::npos; q = y.find("<" + tag + ">")) { y.replace(q, tag.size() + 2, "<other>"); }
        for (auto q = y.find("</" + tag + ">"); q != std::string::npos; q = y.find("</" + tag + ">")) { y.replace(q, tag.size() + 3, "</other>"); }
        REQUIRE_THAT(!reads<L>(y), "a file without '" << tag << "' is accepted");
    }
    // negative coordinates and other dots do not exist on a Cartesian lattice
    auto z = doc;
    const auto q = z.find(" n=\"1\" m=\"2\" l=\"0\"");
    z.replace(q, 18, c.pick(std::vector<std::string>{" n=\"-1\" m=\"2\" l=\"0\"", " n=\"1\" m=\"-2\" l=\"0\"", " n=\"1\" m=\"2\" l=\"2\"", " n=\"1\" m=\"2\" l=\"-1\""}));
    REQUIRE_THAT(!reads<off_100>(z), "a dot that does not exist is accepted");
    REQUIRE_THAT(reads<off_100>(doc) && reads<L>(doc), "a correct file is rejected");
    REQUIRE_THAT(!reads<siqad_111>(doc), "a file of another lattice orientation is accepted");
}

PBT("qca-as-sqd", 6000, 120000, "there are constant cells")
{
    const long X = static_cast<long>(c.below(6)), Y = static_cast<long>(c.below(6));
    qca_t      l{{static_cast<int>(X), static_cast<int>(Y)}};
    std::set<P3> want{};
    bool       constants = false;
    const auto n = c.below(8);
    std::set<P3> done{};
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const long x = static_cast<long>(c.below(static_cast<std::uint64_t>(X) + 1)), y = static_cast<long>(c.below(static_cast<std::uint64_t>(Y) + 1));
        if (!done.insert({x, y, 0}).second) { continue; }
        const auto t = c.pick(std::vector<qca::cell_type>{qca::cell_type::NORMAL, qca::cell_type::INPUT, qca::cell_type::OUTPUT, qca::cell_type::CONST_0, qca::cell_type::CONST_1});
        l.assign_cell_type(tl<qca_t>({x, y, 0}), t);
        constants |= t == qca::cell_type::CONST_0 || t == qca::cell_type::CONST_1;
        // four dots at the corners of a square; constants only have those of their polarization
        if (t != qca::cell_type::CONST_1) { want.insert({14 * x, 7 * y, 0}), want.insert({14 * x + 6, 7 * y + 3, 0}); }
        if (t != qca::cell_type::CONST_0) { want.insert({14 * x + 6, 7 * y, 0}), want.insert({14 * x, 7 * y + 3, 0}); }
    }
    std::stringstream s{};
    write_sqd_layout(l, s);
    const auto   r = read_sqd_layout<siqad_100>(s);
    std::set<P3> got{};
    r.foreach_cell([&](const auto& x) { got.insert(p3(x)); });
    REQUIRE_THAT(got == want, "dots " << lyt::show({got.begin(), got.end()}) << ", expected " << lyt::show({want.begin(), want.end()}));
    c.key(want.size());
    c.nontrivial(constants);
}

PBT("surface-defects", 10000, 250000, "the file is a matrix with several rows")
{
    using L = sidb_100_cell_clk_lyt;
    static const std::vector<sidb_defect_type> by_index{sidb_defect_type::NONE, sidb_defect_type::DB, sidb_defect_type::SI_VACANCY, sidb_defect_type::DIHYDRIDE_PAIR, sidb_defect_type::SINGLE_DIHYDRIDE, sidb_defect_type::ONE_BY_ONE, sidb_defect_type::THREE_BY_ONE, sidb_defect_type::SILOXANE, sidb_defect_type::RAISED_SI, sidb_defect_type::ETCH_PIT, sidb_defect_type::MISSING_DIMER};
    const auto w = 1 + c.below(9), h = c.below(9);
    const auto fault = h == 0 ? 0 : c.below(6);  // 1: unknown index, 2: short row
    const auto fy = h == 0 ? 0 : c.below(h), fx = c.below(w);
    const auto wrong = static_cast<int>(11 + c.below(90));
    std::map<P3, sidb_defect_type> want{};
    std::string doc = c.flip() ? "[" : "";
    const bool  wrap = c.flip();
    for (std::uint64_t y = 0; y < h; ++y)
    {
        doc += y == 0 ? "[" : " [";
        const auto n = fault == 2 && y == fy && y > 0 && w > 1 ? 1 + c.below(w - 1) : w;
        for (std::uint64_t x = 0; x < n; ++x)
        {
            int k = static_cast<int>(c.flip() ? 0 : c.below(11));
            if (fault == 1 && y == fy && x == fx) { k = wrong; }
            else if (k != 0) { want[{static_cast<long>(x), static_cast<long>(y), 0}] = by_index[static_cast<std::size_t>(k)]; }
            doc += std::string(x == 0 ? c.below(2) : 1 + c.below(2), ' ') + std::to_string(k);
            if (wrap && x % 4 == 3) { doc += "\n "; }
        }
        doc += "]\n";
    }
    doc += doc[0] == '[' && (h == 0 || doc[1] == '[') ? "]" : "";
    c.note(doc);
    const bool short_row = fault == 2 && fy > 0 && w > 1;
    try
    {
        sidb_defect_surface<L> s{};
        if (c.below(12) == 0)
        {
            const scratch f{};
            std::ofstream(f.name) << doc;
            s = read_sidb_surface_defects<L>(f.name, "abc");
        }
        else
        {
            std::istringstream is{doc};
            s = read_sidb_surface_defects<L>(is, "abc");
        }
        REQUIRE_THAT(fault != 1 && !short_row, "a malformed file is accepted");
        std::map<P3, sidb_defect_type> got{};
        s.foreach_sidb_defect([&](const auto& x) { got[p3(x.first)] = x.second.type; });
        REQUIRE_THAT(got == want, "other defects than in the file: " << got.size() << ", expected " << want.size());
        REQUIRE_EQ(static_cast<long>(s.x()), h == 0 ? 0 : static_cast<long>(w) - 1, "width");
        REQUIRE_EQ(static_cast<long>(s.y()), h == 0 ? 0 : static_cast<long>(h) - 1, "height");
        REQUIRE_EQ(s.get_layout_name(), std::string{"abc"}, "name");
        c.nontrivial(h > 1);
    }
    catch (const unsupported_defect_index_exception& e)
    {
        REQUIRE_THAT(fault == 1, "unsupported defect index");
        REQUIRE_EQ(e.which(), wrong, "unsupported index");
        c.nontrivial(true);
    }
    catch (const missing_sidb_position_exception& e)
    {
        REQUIRE_THAT(short_row, "missing position");
        REQUIRE_EQ(static_cast<std::uint64_t>(e.where()), fy, "row with a missing position");
        c.nontrivial(true);
    }
}

PBT("truth-tables", 10000, 250000, "there are several truth tables")
{
    const auto                         n = c.below(7);
    std::vector<kitty::dynamic_truth_table> want{};
    std::string                        doc{};
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const auto                 v = 2 + static_cast<unsigned>(c.below(5));
        kitty::dynamic_truth_table t{v};
        for (std::uint64_t b = 0; b < (1ull << v); ++b)
        {
            if (c.flip()) { kitty::set_bit(t, b); }
        }
        want.push_back(t);
        doc += (c.below(4) == 0 ? " 0x" : "0x") + kitty::to_hex(t) + (c.flip() ? " " : "  ") + c.pick(std::vector<std::string>{"(ab)", "!(a[bc])", "<abc>", "0x1"}) + (c.below(3) == 0 ? "\n\n" : "\n");
    }
    c.note(doc);
    const auto check = [&](tt_reader<>& r)
    {
        for (const auto& w : want)
        {
            const auto t = r.next();
            REQUIRE_THAT(t.has_value(), "a truth table is missing");
            REQUIRE_THAT(*t == w, "truth table " << kitty::to_hex(*t) << ", expected " << kitty::to_hex(w));
        }
        for (int i = 0; i < 3; ++i) { REQUIRE_THAT(!r.next().has_value(), "there are more truth tables than in the file"); }
    };
    if (c.below(8) == 0)
    {
        const scratch f{};
        if (n > 0 || c.flip()) { std::ofstream(f.name) << doc; }
        tt_reader<> r{f.name};
        check(r);
    }
    else
    {
        std::istringstream is{doc};
        tt_reader<>        r{is};
        check(r);
    }
    c.key(std::hash<std::string>{}(doc));
    c.nontrivial(n > 1);
}
