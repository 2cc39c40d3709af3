// P41: files written for other tools (QCADesigner, ToPoliNano/MagCAD, SCERPA, SiQAD, SVG, CSV) describe exactly the written object
#include "gl_common.hpp"
#include "sidb_common.hpp"

#include <fiction/algorithms/simulation/sidb/defect_influence.hpp>
#include <fiction/algorithms/simulation/sidb/operational_domain.hpp>
#include <fiction/algorithms/simulation/sidb/sidb_simulation_result.hpp>
#include <fiction/io/csv_writer.hpp>
#include <fiction/io/write_defect_influence_domain.hpp>
#include <fiction/io/write_location_and_ground_state.hpp>
#include <fiction/io/write_operational_domain.hpp>
#include <fiction/io/write_qca_layout.hpp>
#include <fiction/io/write_qcc_layout.hpp>
#include <fiction/io/write_qll_layout.hpp>
#include <fiction/io/write_sqd_sim_result.hpp>
#include <fiction/io/write_svg_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/types.hpp>

#include <unistd.h>

#include <cmath>
#include <filesystem>
#include <fstream>
#include <memory>
#include <sstream>

using namespace fiction;
using lyt::P3;
using lyt::p3;
using lyt::s3;
using lyt::tl;
using glr::gen_name;

namespace
{
[[noreturn]] void fail_now(const std::string& m) { throw pbt::failure{m}; }

// ------------------------------------------------------------------------------------------------------------- XML
struct node
{
    std::string                        name, text{};
    std::map<std::string, std::string> at{};
    std::vector<node>                  kids{};
    [[nodiscard]] std::string a(const std::string& k) const
    {
        const auto it = at.find(k);
        if (it == at.end()) { fail_now("<" + name + "> has no attribute " + k); }
        return it->second;
    }
    [[nodiscard]] long   i(const std::string& k) const { return std::stol(a(k)); }
    [[nodiscard]] const node& kid(const std::string& k) const
    {
        const node* r = nullptr;
        for (const auto& x : kids)
        {
            if (x.name == k)
            {
                if (r != nullptr) { fail_now("<" + name + "> has two <" + k + ">"); }
                r = &x;
            }
        }
        if (r == nullptr) { fail_now("<" + name + "> has no <" + k + ">"); }
        return *r;
    }
};

/// strict parser of the XML subset in use
class xml
{
  public:
    explicit xml(std::string d) : s{std::move(d)} {}
    node parse()
    {
        misc();
        node r = element();
        misc();
        if (p != s.size()) { bad("content after the root element"); }
        return r;
    }

  private:
    std::string s;
    std::size_t p = 0;
    [[noreturn]] void bad(const std::string& m) const { fail_now("not well-formed XML: " + m + " at: " + s.substr(p, 60)); }
    [[nodiscard]] bool at(const char* t) const { return s.compare(p, std::strlen(t), t) == 0; }
    void               skip(const char* e)
    {
        const auto q = s.find(e, p);
        if (q == std::string::npos) { bad("open comment or declaration"); }
        p = q + std::strlen(e);
    }
    void ws()
    {
        while (p < s.size() && std::isspace(static_cast<unsigned char>(s[p])) != 0) { ++p; }
    }
    void misc()
    {
        for (;;)
        {
            ws();
            if (at("<?")) { skip("?>"); }
            else if (at("<!--")) { skip("-->"); }
            else { return; }
        }
    }
    std::string name()
    {
        const auto b = p;
        while (p < s.size() && (std::isalnum(static_cast<unsigned char>(s[p])) != 0 || s[p] == '_' || s[p] == ':' || s[p] == '-' || s[p] == '.')) { ++p; }
        if (b == p || std::isdigit(static_cast<unsigned char>(s[b])) != 0) { bad("no name"); }
        return s.substr(b, p - b);
    }
    char entity()
    {
        const auto q = s.find(';', p);
        if (q == std::string::npos || q - p > 6) { bad("bare ampersand"); }
        const auto n = s.substr(p + 1, q - p - 1);
        const char r = n == "lt" ? '<' : n == "gt" ? '>' : n == "amp" ? '&' : n == "quot" ? '"' : n == "apos" ? '\'' : '\0';
        if (r == '\0') { bad("unknown entity"); }
        p = q + 1;
        return r;
    }
    node element()
    {
        if (p >= s.size() || s[p] != '<') { bad("no element"); }
        ++p;
        node r{name()};
        for (;;)
        {
            const auto b = p;
            ws();
            if (at("/>"))
            {
                p += 2;
                return r;
            }
            if (at(">"))
            {
                ++p;
                break;
            }
            if (b == p) { bad("no space before an attribute"); }
            const auto k = name();
            ws();
            if (!at("=")) { bad("no value"); }
            ++p;
            ws();
            const char  q = p < s.size() ? s[p] : ' ';
            if (q != '"' && q != '\'') { bad("no quotes"); }
            std::string v{};
            for (++p; p < s.size() && s[p] != q;)
            {
                if (s[p] == '<') { bad("< in an attribute"); }
                if (s[p] == '&') { v += entity(); }
                else { v += s[p++]; }
            }
            if (p >= s.size()) { bad("open attribute"); }
            ++p;
            if (!r.at.emplace(k, v).second) { bad("attribute " + k + " twice"); }
        }
        for (;;)
        {
            if (p >= s.size()) { bad("open element " + r.name); }
            if (at("<!--")) { skip("-->"); }
            else if (at("</"))
            {
                p += 2;
                const auto n = name();
                if (n != r.name) { bad("</" + n + "> closes <" + r.name + ">"); }
                ws();
                if (!at(">")) { bad("closing tag"); }
                ++p;
                return r;
            }
            else if (s[p] == '<') { r.kids.push_back(element()); }
            else if (s[p] == '&') { r.text += entity(); }
            else { r.text += s[p++]; }
        }
    }
};

/// a file below a directory of its own that disappears again
struct scratch
{
    std::string dir, name;
    explicit scratch(const std::string& base)
    {
        std::string t = (std::filesystem::temp_directory_path() / "verif_artef_XXXXXX").string();
        if (::mkdtemp(t.data()) == nullptr) { throw pbt::discard{}; }
        dir  = t;
        name = t + "/" + base;
    }
    scratch(const scratch&) = delete;
    scratch& operator=(const scratch&) = delete;
    ~scratch()
    {
        std::error_code ec{};
        std::filesystem::remove(name, ec);
        std::filesystem::remove(dir, ec);
    }
    [[nodiscard]] std::string read() const
    {
        std::ifstream      f{name};
        std::ostringstream s{};
        s << f.rdbuf();
        return s.str();
    }
};

std::vector<std::string> split(const std::string& l, const char d)
{
    std::vector<std::string> r{};
    std::string              x{};
    for (const char ch : l)
    {
        if (ch == d)
        {
            r.push_back(x);
            x.clear();
        }
        else { x += ch; }
    }
    r.push_back(x);
    return r;
}
std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> r{};
    std::istringstream       is{s};
    for (std::string x{}; std::getline(is, x);) { r.push_back(x); }
    return r;
}

// ------------------------------------------------------------------------------------------------------------- iNML
using inml = inml_technology;
using item_t = std::tuple<int, long, long, int, int>;  // component, x, y, phase, length
using pin_t  = std::tuple<std::string, int, long, long>;

struct magnets
{
    inml_cell_clk_lyt     lyt{};
    std::multiset<item_t> items{};
    std::multiset<pin_t>  pins{};
    long                  w = 0, h = 0;
    std::uint64_t         count = 0;
    bool                  legal = true;
    std::set<int>         kinds{};
};

magnets gen_magnets(pbt::ctx& c)
{
    static const std::vector<std::vector<std::string>> pats{
        {"dxxx", "d   ", "d   ", "    "}, {"uxxx", "u   ", "u   ", "    "}, {"xx  ", " x  ", "xxxx", " x  "}, {"    ", "    ", "nnnn", "    "}, {"nnnn", "x   ", "x   ", "    "},
        {"c cx", " c  ", "c cx", "    "}, {"ffxx", "f   ", "ffxx", "    "}, {"xxxx", "    ", "xxxx", "    "}, {"xxx ", "x x ", "  xx", "    "}, {"    ", "dxxx", "d   ", "d   "}};
    magnets    m{};
    const long tw = 1 + static_cast<long>(c.below(3)), th = 1 + static_cast<long>(c.below(3));
    std::map<std::pair<long, long>, char> g{};
    std::map<std::pair<long, long>, int>  anchors{};
    std::set<std::pair<long, long>>       covered{};
    for (long ty = 0; ty < th; ++ty)
    {
        for (long tx = 0; tx < tw; ++tx)
        {
            if (c.below(4) == 0) { continue; }
            const auto& pt = pats[c.below(pats.size())];
            bool        first = true;
            for (long y = 0; y < 4; ++y)
            {
                for (long x = 0; x < 4; ++x)
                {
                    const char ch = pt[static_cast<std::size_t>(y)][static_cast<std::size_t>(x)];
                    if (ch == ' ') { continue; }
                    const std::pair<long, long> q{1 + 4 * tx + x, 4 * ty + y};
                    g[q] = ch;
                    if (ch != 'x')
                    {
                        if (first) { anchors[q] = ch == 'f' ? 1 : ch == 'c' ? 2 : ch == 'd' ? 3 : ch == 'n' ? 4 : 5; }
                        else { covered.insert(q); }
                        first = false;
                    }
                }
            }
        }
    }
    // pins in the columns next to the structures
    const long right = 4 * tw + 1;
    const auto ni = c.below(4), no = c.below(3);
    std::map<std::pair<long, long>, std::string> names{};
    for (std::uint64_t k = 0; k < ni; ++k)
    {
        const std::pair<long, long> q{0, static_cast<long>(c.below(static_cast<std::uint64_t>(4 * th)))};
        g[q] = 'i';
    }
    for (std::uint64_t k = 0; k < no; ++k)
    {
        const std::pair<long, long> q{right, static_cast<long>(c.below(static_cast<std::uint64_t>(4 * th)))};
        g[q] = 'o';
    }
    if (c.below(8) == 0)
    {
        // a pin inside of the layout
        const std::pair<long, long> q{2 + static_cast<long>(c.below(2)), 4 * th};
        g[q] = c.flip() ? 'i' : 'o';
    }
    const long ox = static_cast<long>(c.below(3)), oy = static_cast<long>(c.below(3)), mx = static_cast<long>(c.below(3)), my = static_cast<long>(c.below(3));
    const bool open = c.flip();
    m.lyt = inml_cell_clk_lyt{{static_cast<int>(ox + right + mx), static_cast<int>(oy + 4 * th + my)}, open ? open_clocking<inml_cell_clk_lyt>(c.flip() ? num_clks::THREE : num_clks::FOUR) : *get_clocking_scheme<inml_cell_clk_lyt>(c.pick(std::vector<std::string>{"2DDWAVE", "COLUMNAR", "USE", "ROW3"})), gen_name(c, "lyt", true)};
    long x0 = 1000, y0 = 1000, x1 = 0, y1 = 0;
    std::vector<std::pair<std::pair<long, long>, char>> order{g.begin(), g.end()};
    c.shuffle(order);
    std::uint64_t inv = 0;
    for (const auto& [q, ch] : order)
    {
        const auto t = tl<inml_cell_clk_lyt>({q.first + ox, q.second + oy, 0});
        m.lyt.assign_cell_type(t, static_cast<inml::cell_type>(ch));
        if (open) { m.lyt.assign_clock_number(t, static_cast<unsigned char>(c.below(3))); }
        if (ch == 'i' || ch == 'o' || c.below(10) == 0)
        {
            if (c.below(5) != 0)
            {
                names[q] = gen_name(c, "n" + std::to_string(c.below(9)), true);
                m.lyt.assign_cell_name(t, names[q]);
            }
        }
        x0 = std::min(x0, q.first), y0 = std::min(y0, q.second), x1 = std::max(x1, q.first), y1 = std::max(y1, q.second);
        m.kinds.insert(ch);
        inv += ch == 'n' ? 1 : 0;
    }
    if (g.empty()) { throw pbt::discard{}; }
    m.count = g.size() - inv + inv / 4;
    m.w = x1 - x0, m.h = y1 - y0;
    for (const auto& [q, ch] : g)
    {
        const long x = q.first - x0, y = q.second - y0;
        if (ch == 'i') { m.legal &= x == 0; }
        if (ch == 'o') { m.legal &= q.first == x1; }
        if (ch == 'i' || ch == 'o') { m.pins.insert({names.count(q) != 0 ? names[q] : std::string{}, ch == 'o' ? 1 : 0, x, y}); }
        if (covered.count(q) != 0) { continue; }
        const auto it = anchors.find(q);
        m.items.insert({it == anchors.end() ? 0 : it->second, x, y, static_cast<int>(m.lyt.get_clock_number(tl<inml_cell_clk_lyt>({q.first + ox, q.second + oy, 0}))), ch == 'n' ? 4 : 0});
    }
    return m;
}

std::string txt(const item_t& i)
{
    return "component " + std::to_string(std::get<0>(i)) + " at " + s3({std::get<1>(i), std::get<2>(i), 0}) + " phase " + std::to_string(std::get<3>(i)) + " length " + std::to_string(std::get<4>(i));
}
std::string txt(const pin_t& i)
{
    return std::string{std::get<1>(i) != 0 ? "output " : "input "} + std::get<0>(i) + " at " + s3({std::get<2>(i), std::get<3>(i), 0});
}
using mitem = std::tuple<long, long, long, int>;                     // x, y, layer, phase
using mpin  = std::tuple<std::string, int, long, long, long>;        // name, direction, x, y, layer
std::string txt(const mitem& i) { return "cell at " + s3({std::get<0>(i), std::get<1>(i), std::get<2>(i)}) + " phase " + std::to_string(std::get<3>(i)); }
std::string txt(const mpin& i) { return (std::get<1>(i) != 0 ? "output " : "input ") + std::get<0>(i) + " at " + s3({std::get<2>(i), std::get<3>(i), std::get<4>(i)}); }

template <typename T>
void same(const std::multiset<T>& got, const std::multiset<T>& want, const std::string& what)
{
    for (const auto& x : want) { REQUIRE_THAT(got.count(x) >= want.count(x), what << " lost: " << txt(x)); }
    for (const auto& x : got) { REQUIRE_THAT(want.count(x) >= got.count(x), what << " made up: " << txt(x)); }
}

item_t item_of(const node& n)
{
    int phase = -1, length = 0;
    for (const auto& k : n.kids)
    {
        REQUIRE_EQ(k.name, std::string{"property"}, "child of an item");
        if (k.a("name") == "phase") { phase = static_cast<int>(k.i("value")); }
        else
        {
            REQUIRE_EQ(k.a("name"), std::string{"length"}, "property of an item");
            length = static_cast<int>(k.i("value"));
        }
    }
    return {static_cast<int>(n.i("comp")), n.i("x"), n.i("y"), phase, length};
}
std::vector<std::string> components(const node& n)
{
    std::vector<std::string> r{};
    for (const auto& k : n.kids) { r.push_back(k.a("name")); }
    return r;
}
}  // namespace

PBT("qcc", 12000, 300000, "an accepted layout with two kinds of structures and pins on both sides")
{
    const auto         m = gen_magnets(c);
    std::ostringstream s{};
    bool               thrown = false;
    std::string        doc{}, name = m.lyt.get_layout_name();
    REQUIRE_EQ(magcad_magnet_count(m.lyt), m.count, "number of magnets");
    try
    {
        if (c.below(20) == 0)
        {
            const scratch            f{"some-file.name.qcc"};
            write_qcc_layout_params ps{};
            ps.use_filename_as_component_name = c.flip();
            write_qcc_layout(m.lyt, f.name, ps);
            if (ps.use_filename_as_component_name) { name = "some-file.name"; }
            doc = f.read();
        }
        else
        {
            write_qcc_layout(m.lyt, s);
            doc = s.str();
        }
    }
    catch (const std::invalid_argument&)
    {
        thrown = true;
    }
    REQUIRE_EQ(thrown, !m.legal, "rejecting a layout of which the pins " << (m.legal ? "are all" : "are not all") << " at the borders");
    if (thrown) { return; }
    c.note(doc);
    const auto r = xml{doc}.parse();
    REQUIRE_EQ(r.name, std::string{"qcacomponent"}, "root element");
    REQUIRE_EQ(r.a("tech"), std::string{"iNML"}, "technology");
    REQUIRE_EQ(r.a("name"), name, "component name");
    REQUIRE_EQ(r.i("maxX"), m.w, "width");
    REQUIRE_EQ(r.i("maxY"), m.h, "height");
    REQUIRE_EQ(static_cast<std::uint64_t>(r.i("MagnetsCount")), m.count, "number of magnets");
    REQUIRE_THAT((components(r.kid("components")) == std::vector<std::string>{"Magnet", "Coupler", "Cross Wire", "And", "Inverter", "Or"}), "list of components");
    std::multiset<pin_t>  pins{};
    std::multiset<item_t> items{};
    for (const auto& k : r.kid("entity").kids) { pins.insert({k.a("name"), static_cast<int>(k.i("direction")), k.i("x"), k.i("y")}); }
    for (const auto& k : r.kid("layout").kids) { items.insert(item_of(k)); }
    same(pins, m.pins, "pin");
    same(items, m.items, "item");
    // the same layout has the same identifier
    std::ostringstream s2{};
    write_qcc_layout(m.lyt, s2);
    REQUIRE_EQ(xml{s2.str()}.parse().a("ID"), r.a("ID"), "identifier of the same layout");
    c.key(std::hash<std::string>{}(doc));
    c.nontrivial(m.kinds.size() > 3 && m.lyt.num_pis() > 0 && m.lyt.num_pos() > 0);
}

PBT("qll-inml", 12000, 300000, "an accepted layout with two kinds of structures and pins on both sides")
{
    const auto         m = gen_magnets(c);
    std::ostringstream s{};
    bool               thrown = false;
    try
    {
        write_qll_layout(m.lyt, s);
    }
    catch (const std::invalid_argument&)
    {
        thrown = true;
    }
    REQUIRE_EQ(thrown, !m.legal, "rejecting a layout of which the pins " << (m.legal ? "are all" : "are not all") << " at the borders");
    if (thrown) { return; }
    c.note(s.str());
    const auto r = xml{s.str()}.parse();
    REQUIRE_EQ(r.name, std::string{"qcalayout"}, "root element");
    const auto& set = r.kid("technologies").kid("settings");
    REQUIRE_EQ(set.a("tech"), std::string{"iNML"}, "technology");
    for (const auto& k : set.kids)
    {
        if (k.a("name") == "PhaseNumber") { REQUIRE_EQ(k.i("value"), static_cast<long>(m.lyt.num_clocks()), "number of clock phases"); }
        if (k.a("name") == "layersEnabled") { REQUIRE_EQ(k.a("value"), std::string{"false"}, "layers"); }
    }
    REQUIRE_THAT((components(r.kid("components")) == std::vector<std::string>{"Magnet", "Coupler", "Cross Wire", "And", "Inverter", "Or"}), "list of components");
    std::multiset<pin_t>  pins{};
    std::multiset<item_t> items{};
    std::set<long>        ids{};
    for (const auto& k : r.kid("layout").kids)
    {
        REQUIRE_THAT(ids.insert(k.i("id")).second, "identifier " << k.i("id") << " is used twice");
        if (k.name == "pin") { pins.insert({k.a("name"), static_cast<int>(k.i("direction")), k.i("x"), k.i("y")}); }
        else { items.insert(item_of(k)); }
    }
    same(pins, m.pins, "pin");
    same(items, m.items, "item");
    c.key(std::hash<std::string>{}(s.str()));
    c.nontrivial(m.kinds.size() > 3 && m.lyt.num_pis() > 0 && m.lyt.num_pos() > 0);
}

// ------------------------------------------------------------------------------------------------------------- QCA and molQCA
namespace
{
struct qc
{
    char        type;
    int         mode;
    int         clock;
    std::string name;
};

template <typename L>
struct cells
{
    L                l{};
    std::map<P3, qc> m{};
    std::set<char>   kinds{};
};

/// random cells; vias (vertical mode) are normal cells below the topmost layer
template <typename L>
cells<L> gen_cells(pbt::ctx& c, const long X, const long Y, const long Z, const bool plain, const bool odd)
{
    cells<L>   r{};
    constexpr bool mol = std::is_same_v<typename L::technology, mol_qca_technology>;
    const auto nm = c.pick(std::vector<std::string>{"OPEN", "OPEN", "USE", "2DDWAVE", "COLUMNAR3", "ROW", "RES"});
    r.l = L{{static_cast<int>(X), static_cast<int>(Y), static_cast<int>(Z)}, *get_clocking_scheme<L>(nm), c.flip() ? std::string{} : gen_name(c, "lyt", odd)};
    std::vector<P3> at{};
    const auto      n = 1 + c.below(static_cast<std::uint64_t>((X + 1) * (Y + 1)));
    for (std::uint64_t k = 0; k < n; ++k)
    {
        at.push_back({static_cast<long>(c.below(static_cast<std::uint64_t>(X + 1))), static_cast<long>(c.below(static_cast<std::uint64_t>(Y + 1))), Z == 0 || c.below(3) != 0 ? 0 : static_cast<long>(c.below(static_cast<std::uint64_t>(Z + 1)))});
    }
    for (const auto& p : at)
    {
        if (r.m.count(p) != 0) { continue; }
        const auto x = tl<L>(p);
        const auto k = c.below(10);
        const char t = k < 5 || k == 9 ? (mol ? static_cast<char>('a' + static_cast<char>(c.below(4))) : 'x') : k == 5 ? 'i' : k == 6 ? 'o' : k == 7 ? '0' : '1';
        r.l.assign_cell_type(x, static_cast<typename L::cell_type>(t));
        qc q{t, 0, 0, {}};
        if (k == 5 || k == 6 || k == 9)
        {
            q.name = gen_name(c, "c" + std::to_string(c.below(9)), odd);
            if (c.below(5) == 0) { q.name.clear(); }
            r.l.assign_cell_name(x, q.name);
        }
        if (!plain && k < 5)
        {
            const auto md = c.below(4);
            if (md == 0 && (Z > 0)) { q.mode = static_cast<int>(L::cell_mode::VERTICAL); }
            if (md == 1) { q.mode = static_cast<int>(L::cell_mode::ROTATED); }
            if (q.mode != 0) { r.l.assign_cell_mode(x, static_cast<typename L::cell_mode>(q.mode)); }
        }
        if (nm == "OPEN") { r.l.assign_clock_number(x, static_cast<unsigned char>(c.below(4))); }
        r.kinds.insert(t);
        r.m[p] = q;
    }
    for (auto& [p, q] : r.m) { q.clock = static_cast<int>(r.l.get_clock_number(tl<L>(p))); }
    return r;
}

template <typename L>
void qll(pbt::ctx& c, const long maxz)
{
    constexpr bool mol = std::is_same_v<typename L::technology, mol_qca_technology>;
    const long     Z   = c.flip() ? 0 : static_cast<long>(1 + c.below(static_cast<std::uint64_t>(maxz)));
    const auto     g   = gen_cells<L>(c, static_cast<long>(c.below(7)), static_cast<long>(c.below(7)), Z, false, true);
    std::ostringstream s{};
    write_qll_layout(g.l, s);
    c.note(s.str());
    long x0 = 1000, y0 = 1000;
    for (const auto& [p, q] : g.m) { x0 = std::min(x0, std::get<0>(p)), y0 = std::min(y0, std::get<1>(p)); }
    std::multiset<mitem> items{}, gi{};
    std::multiset<mpin>  pins{}, gp{};
    for (const auto& [p, q] : g.m)
    {
        const long x = std::get<0>(p) - x0, y = std::get<1>(p) - y0, z = 2 * std::get<2>(p);
        const int  phase = mol ? q.type - 'a' : q.clock;
        if (q.type == 'i' || q.type == 'o') { pins.insert({q.name, q.type == 'o' ? 1 : 0, x, y, z}); }
        else if (q.type == '0' || q.type == '1') { pins.insert({q.type == '0' ? "const0" : "const1", 0, x, y, z}); }
        else
        {
            items.insert({x, y, z, phase});
            if (q.mode == static_cast<int>(L::cell_mode::VERTICAL) && std::get<2>(p) != Z) { items.insert({x, y, z + 1, phase}); }
        }
    }
    const auto r = xml{s.str()}.parse();
    REQUIRE_EQ(r.name, std::string{"qcalayout"}, "root element");
    const auto& set = r.kid("technologies").kid("settings");
    REQUIRE_EQ(set.a("tech"), std::string{"MolFCN"}, "technology");
    for (const auto& k : set.kids)
    {
        if (k.a("name") == "PhaseNumber") { REQUIRE_EQ(k.i("value"), static_cast<long>(g.l.num_clocks()), "number of clock phases"); }
        if (k.a("name") == "layersEnabled") { REQUIRE_EQ(k.a("value"), std::string{Z > 0 ? "true" : "false"}, "layers"); }
    }
    std::set<long> ids{};
    for (const auto& k : r.kid("layout").kids)
    {
        REQUIRE_THAT(ids.insert(k.i("id")).second, "identifier " << k.i("id") << " is used twice");
        if (k.name == "pin") { gp.insert({k.a("name"), static_cast<int>(k.i("direction")), k.i("x"), k.i("y"), k.i("layer")}); }
        else
        {
            REQUIRE_EQ(k.name, std::string{"item"}, "element of the layout");
            REQUIRE_EQ(k.i("comp"), 0L, "component");
            const auto& ph = k.kid("property");
            REQUIRE_EQ(ph.a("name"), std::string{"phase"}, "property");
            gi.insert({k.i("x"), k.i("y"), k.i("layer"), static_cast<int>(ph.i("value"))});
        }
    }
    same(gp, pins, "pin");
    same(gi, items, "cell");
    c.key(std::hash<std::string>{}(s.str()));
    c.nontrivial(g.kinds.size() > 2);
}
}  // namespace

PBT("qll-qca", 12000, 300000, "there are cells of at least three kinds")
{
    if (c.flip()) { qll<qca_cell_clk_lyt>(c, 1); }
    else { qll<stacked_qca_cell_clk_lyt>(c, 3); }
}
PBT("qll-molqca", 8000, 200000, "there are cells of at least three kinds") { qll<mol_qca_cell_clk_lyt>(c, 1); }

// ------------------------------------------------------------------------------------------------------------- QCADesigner
namespace
{
struct block
{
    std::string                                      type;
    std::vector<std::pair<std::string, std::string>> kv{};
    std::vector<block>                               kids{};
    [[nodiscard]] std::string v(const std::string& k) const
    {
        const std::string* r = nullptr;
        for (const auto& [a, b] : kv)
        {
            if (a == k)
            {
                if (r != nullptr) { fail_now("[" + type + "] has " + k + " twice"); }
                r = &b;
            }
        }
        if (r == nullptr) { fail_now("[" + type + "] has no " + k); }
        return *r;
    }
    [[nodiscard]] double d(const std::string& k) const { return std::stod(v(k)); }
    [[nodiscard]] const block* child(const std::string& k) const
    {
        for (const auto& x : kids)
        {
            if (x.type == k) { return &x; }
        }
        return nullptr;
    }
};
block parse_blocks(const std::string& doc)
{
    std::vector<block> st{block{"root"}};
    for (const auto& l : lines(doc))
    {
        if (l.size() > 2 && l[0] == '[' && l[1] == '#' && l.back() == ']')
        {
            const auto t = l.substr(2, l.size() - 3);
            if (st.size() < 2 || st.back().type != t) { fail_now("[#" + t + "] closes [" + st.back().type + "]"); }
            auto b = st.back();
            st.pop_back();
            st.back().kids.push_back(b);
        }
        else if (l.size() > 2 && l[0] == '[' && l.back() == ']') { st.push_back(block{l.substr(1, l.size() - 2)}); }
        else
        {
            const auto e = l.find('=');
            if (e == std::string::npos) { fail_now("line without a meaning: " + l); }
            st.back().kv.emplace_back(l.substr(0, e), l.substr(e + 1));
        }
    }
    if (st.size() != 1) { fail_now("[" + st.back().type + "] is never closed"); }
    return st[0];
}

template <typename L>
void qca_file(pbt::ctx& c, const long maxz)
{
    const long Z    = c.flip() ? 0 : static_cast<long>(1 + c.below(static_cast<std::uint64_t>(maxz)));
    const auto g    = gen_cells<L>(c, static_cast<long>(c.below(7)), static_cast<long>(c.below(7)), Z, false, true);
    const bool vias = c.flip();
    write_qca_layout_params ps{};
    ps.create_inter_layer_via_cells = vias;
    std::string doc{};
    if (c.below(20) == 0)
    {
        const scratch f{"a.qca"};
        write_qca_layout(g.l, f.name, ps);
        doc = f.read();
    }
    else
    {
        std::ostringstream s{};
        write_qca_layout(g.l, s, ps);
        doc = s.str();
    }
    c.note(doc);
    const auto root = parse_blocks(doc);
    const auto* lay = root.child("LAYOUT");
    REQUIRE_THAT(lay != nullptr, "no layout block");
    if (!g.l.get_layout_name().empty()) { REQUIRE_EQ(lay->v("name"), g.l.get_layout_name(), "name of the layout"); }
    const auto* des = root.child("TYPE:DESIGN");
    REQUIRE_THAT(des != nullptr, "no design block");
    // expected layers: z0, vias between 0 and 1 (if any), z1, ...
    struct layer
    {
        long        z;
        bool        via;
        std::string name;
    };
    std::vector<layer> want{};
    int                nv = 0;
    for (long z = 0; z <= Z; ++z)
    {
        want.push_back({z, false, z == 0 ? "Ground Layer" : "Crossing Layer " + std::to_string(z)});
        const bool any = std::any_of(g.m.begin(), g.m.end(), [&](const auto& e) { return std::get<2>(e.first) == z && e.second.mode == static_cast<int>(qca_technology::cell_mode::VERTICAL); });
        if (vias && any && z < Z) { want.push_back({z, true, "Via Layer " + std::to_string(++nv)}); }
    }
    std::vector<const block*> got{};
    for (const auto& k : des->kids)
    {
        REQUIRE_EQ(k.type, std::string{"TYPE:QCADLayer"}, "element of the design");
        if (k.v("type") == "1") { got.push_back(&k); }
    }
    REQUIRE_EQ(got.size(), want.size(), "number of cell layers");
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        const auto& w = want[i];
        REQUIRE_EQ(got[i]->v("pszDescription"), w.name, "name of layer " << i);
        std::map<std::pair<long, long>, const block*> at{};
        for (const auto& k : got[i]->kids)
        {
            REQUIRE_EQ(k.type, std::string{"TYPE:QCADCell"}, "element of a layer");
            const auto* o = k.child("TYPE:QCADDesignObject");
            REQUIRE_THAT(o != nullptr, "a cell without a design object");
            const double x = (o->d("x") - 100) / 20, y = (o->d("y") - 100) / 20;
            REQUIRE_THAT(x == std::floor(x) && y == std::floor(y), "cell off the grid: " << o->v("x") << " " << o->v("y"));
            const bool isnew = at.emplace(std::pair{static_cast<long>(x), static_cast<long>(y)}, &k).second;
            REQUIRE_THAT(isnew, "two cells at " << x << " " << y << " of layer " << w.name);
        }
        std::size_t n = 0;
        for (const auto& [p, q] : g.m)
        {
            const bool via = q.mode == static_cast<int>(qca_technology::cell_mode::VERTICAL);
            if (std::get<2>(p) != w.z || (w.via && !via)) { continue; }
            ++n;
            const auto it = at.find({std::get<0>(p), std::get<1>(p)});
            REQUIRE_THAT(it != at.end(), "the cell at " << s3(p) << " is missing in " << w.name);
            const auto& b = *it->second;
            REQUIRE_EQ(std::stoi(b.v("cell_options.clock")), q.clock, "clock of the cell at " << s3(p));
            const std::string mode = via ? "VERTICAL" : w.z > 0 ? "CROSSOVER" : q.mode == static_cast<int>(qca_technology::cell_mode::ROTATED) ? "ROTATED" : "NORMAL";
            REQUIRE_EQ(b.v("cell_options.mode"), "QCAD_CELL_MODE_" + mode, "mode of the cell at " << s3(p));
            REQUIRE_EQ(b.v("cell_function"), std::string{q.type == 'i' ? "QCAD_CELL_INPUT" : q.type == 'o' ? "QCAD_CELL_OUTPUT" : q.type == 'x' ? "QCAD_CELL_NORMAL" : "QCAD_CELL_FIXED"}, "function of the cell at " << s3(p));
            // labels
            const std::string  label = q.type == '0' ? "-1.00" : q.type == '1' ? "1.00" : q.name;
            const auto* const  lb    = b.child("TYPE:QCADLabel");
            REQUIRE_EQ(lb != nullptr, !label.empty(), "label of the cell at " << s3(p));
            if (lb != nullptr) { REQUIRE_EQ(lb->v("psz"), label, "label of the cell at " << s3(p)); }
            // four dots around the centre; the charges of a fixed cell give its polarization
            const double cx = 100.0 + 20.0 * static_cast<double>(std::get<0>(p)), cy = 100.0 + 20.0 * static_cast<double>(std::get<1>(p));
            double       diag = 0, anti = 0, sum = 0;
            std::set<std::pair<int, int>> quad{};
            for (const auto& k : b.kids)
            {
                if (k.type != "TYPE:CELL_DOT") { continue; }
                const double dx = k.d("x") - cx, dy = k.d("y") - cy;
                REQUIRE_THAT(std::abs(std::abs(dx) - 4.5) < 1e-3 && std::abs(std::abs(dy) - 4.5) < 1e-3, "position of a dot of the cell at " << s3(p));
                quad.insert({dx > 0 ? 1 : -1, dy > 0 ? 1 : -1});
                const double ch = k.d("charge") / 1.602176e-19;
                sum += ch;
                (dx * dy > 0 ? diag : anti) += ch;
            }
            REQUIRE_EQ(quad.size(), std::size_t{4}, "dots of the cell at " << s3(p));
            REQUIRE_THAT(std::abs(sum - 2) < 1e-4, "charge " << sum << " in the cell at " << s3(p));
            const double pol = (anti - diag) / 2;  // 1: the charges sit at the upper right and at the lower left
            REQUIRE_THAT(std::abs(pol - (q.type == '1' ? 1 : q.type == '0' ? -1 : 0)) < 1e-4, "polarization " << pol << " of the cell at " << s3(p) << " of type " << q.type);
        }
        REQUIRE_EQ(at.size(), n, "number of cells in " << w.name);
    }
    c.key(std::hash<std::string>{}(doc));
    c.nontrivial(g.kinds.size() > 2);
}
}  // namespace

PBT("qcadesigner", 5000, 120000, "there are cells of at least three kinds")
{
    if (c.flip()) { qca_file<qca_cell_clk_lyt>(c, 1); }
    else { qca_file<stacked_qca_cell_clk_lyt>(c, 3); }
}

// ------------------------------------------------------------------------------------------------------------- SVG
namespace
{
struct shape
{
    double      x, y, w, h;
    std::string fill;
};
std::string style_of(const node& n, const std::string& k)
{
    for (const auto& e : split(n.at.count("style") != 0 ? n.at.at("style") : std::string{}, ';'))
    {
        const auto b = e.find_first_not_of(" \n");
        if (b != std::string::npos && e.compare(b, k.size() + 1, k + ":") == 0) { return e.substr(b + k.size() + 1); }
    }
    return {};
}
std::pair<double, double> translate_of(const node& n)
{
    const auto it = n.at.find("transform");
    if (it == n.at.end()) { return {0, 0}; }
    const auto& t = it->second;
    if (t.rfind("translate(", 0) != 0) { return {0, 0}; }
    const auto comma = t.find(',');
    return {std::stod(t.substr(10, comma - 10)), std::stod(t.substr(comma + 1))};
}
/// all rectangles of the given width with absolute positions, in drawing order
void rects(const node& n, double x, double y, const double w, std::vector<shape>& out)
{
    const auto [dx, dy] = translate_of(n);
    x += dx, y += dy;
    if (n.name == "rect" && std::abs(std::stod(n.a("width")) - w) < 1e-6)
    {
        out.push_back({x + std::stod(n.a("x")), y + std::stod(n.a("y")), w, std::stod(n.a("height")), style_of(n, "fill")});
    }
    for (const auto& k : n.kids) { rects(k, x, y, w, out); }
}
std::vector<double> viewbox(const node& n)
{
    std::vector<double> r{};
    for (const auto& x : split(n.a("viewBox"), ' ')) { r.push_back(std::stod(x)); }
    REQUIRE_EQ(r.size(), std::size_t{4}, "view box");
    return r;
}
void inside(const shape& s, const std::vector<double>& v, const std::string& what)
{
    REQUIRE_THAT(s.x >= v[0] - 1e-6 && s.y >= v[1] - 1e-6 && s.x + s.w <= v[0] + v[2] + 1e-6 && s.y + s.h <= v[1] + v[3] + 1e-6,
                 what << " at " << s.x << " " << s.y << " lies outside of the view box of " << v[2] << " x " << v[3]);
}
bool near(const double a, const double b) { return std::abs(a - b) < 1e-3; }

/// colour classes: cells of the same class share a colour, cells of different classes do not
using classes = std::map<std::string, std::string>;
void classify(classes& m, const std::string& cls, const std::string& col)
{
    const auto [it, isnew] = m.emplace(cls, col);
    REQUIRE_EQ(col, it->second, "two colours for " << cls);
    if (isnew)
    {
        for (const auto& [k, v] : m)
        {
            // both constants are black
            if (k != cls) { REQUIRE_THAT(v != col, k << " and " << cls << " have the same colour"); }
        }
    }
}
std::string class_of(const qc& q, const bool mol)
{
    switch (q.type)
    {
        case 'i': return "input";
        case 'o': return "output";
        case '0':
        case '1': return "constant";
        default: return "phase " + std::to_string(mol ? q.type - 'a' : q.clock);
    }
}

template <typename L>
void svg_cells(pbt::ctx& c)
{
    constexpr bool mol = std::is_same_v<typename L::technology, mol_qca_technology>;
    const double   D = mol ? 10 : 23, W = mol ? 10 : 20;
    (void)D;
    const auto g = gen_cells<L>(c, static_cast<long>(c.below(9)), static_cast<long>(c.below(9)), 0, true, true);
    write_qca_layout_svg_params ps{};
    ps.simple = c.flip();
    std::string doc{};
    std::ostringstream s{};
    if constexpr (mol) { write_mol_qca_layout_svg(g.l, s, ps); }
    else { write_qca_layout_svg(g.l, s, ps); }
    c.note(s.str());
    const auto r  = xml{s.str()}.parse();
    REQUIRE_EQ(r.name, std::string{"svg"}, "root element");
    const auto vb = viewbox(r);
    // one drawing per cell
    const auto&        body = r.kid("g");
    REQUIRE_EQ(body.kids.size(), g.m.size(), "number of drawn cells");
    std::map<P3, shape> at{};
    std::vector<shape>  all{};
    rects(body, 0, 0, W, all);
    REQUIRE_EQ(all.size(), g.m.size(), "number of squares");
    // the pitch follows from the size of the picture
    const double px = (vb[2] - 22) / (static_cast<double>(g.l.x()) + 1), py = (vb[3] - 22) / (static_cast<double>(g.l.y()) + 1);
    REQUIRE_THAT(px >= W && near(px, py), "pitch of the cells " << px << " " << py);
    classes cl{};
    std::set<P3> seen{};
    for (const auto& x : all)
    {
        inside(x, vb, "a cell");
        const P3   p{static_cast<long>(std::lround((x.x - all[0].x) / px)), static_cast<long>(std::lround((x.y - all[0].y) / py)), 0};
        REQUIRE_THAT(near(x.x - all[0].x, px * static_cast<double>(std::get<0>(p))) && near(x.y - all[0].y, py * static_cast<double>(std::get<1>(p))), "a cell is off the grid");
        REQUIRE_THAT(seen.insert(p).second, "two cells at the same place");
        at.emplace(p, x);
    }
    // the pictures' cells are the layout's cells up to the offset between the two
    const auto low = [](const auto& m) { return *std::min_element(m.begin(), m.end(), [](const auto& a, const auto& b) { return a.first < b.first; }); };
    const auto p0 = low(at).first, q0 = low(g.m).first;
    for (const auto& [p, q] : g.m)
    {
        const auto it = at.find({std::get<0>(p) - std::get<0>(q0) + std::get<0>(p0), std::get<1>(p) - std::get<1>(q0) + std::get<1>(p0), 0});
        REQUIRE_THAT(it != at.end(), "the cell at " << s3(p) << " is not drawn at its place");
        classify(cl, class_of(q, mol), it->second.fill);
    }
    c.key(std::hash<std::string>{}(s.str()));
    c.nontrivial(g.kinds.size() > 2);
}
}  // namespace

PBT("svg-cells", 6000, 150000, "there are cells of at least three kinds")
{
    if (c.flip()) { svg_cells<qca_cell_clk_lyt>(c); }
    else { svg_cells<mol_qca_cell_clk_lyt>(c); }
}

PBT("svg-tiles", 4000, 100000, "two tiles with cells")
{
    using L = qca_cell_clk_lyt;
    const long tw = 1 + static_cast<long>(c.below(4)), th = 1 + static_cast<long>(c.below(4));
    const auto nm = c.pick(std::vector<std::string>{"OPEN", "USE", "2DDWAVE", "COLUMNAR3", "ROW", "RES"});
    L          l{{static_cast<int>(5 * tw - 1), static_cast<int>(5 * th - 1)}, *get_clocking_scheme<L>(nm), "tiles", 5, 5};
    const bool sync = c.below(3) == 0;
    std::map<std::pair<long, long>, int> latch{};
    for (long y = 0; y < th; ++y)
    {
        for (long x = 0; x < tw; ++x)
        {
            if (sync && c.below(3) == 0)
            {
                const int d = 1 + static_cast<int>(c.below(5));
                latch[{x, y}] = d;
                for (long k = 0; k < 25; ++k) { l.assign_synchronization_element(tl<L>({5 * x + k % 5, 5 * y + k / 5, 0}), static_cast<typename L::sync_elem_t>(d)); }
            }
            if (nm == "OPEN")
            {
                const auto cn = static_cast<unsigned char>(c.below(4));
                for (long k = 0; k < 25; ++k) { l.assign_clock_number(tl<L>({5 * x + k % 5, 5 * y + k / 5, 0}), cn); }
            }
        }
    }
    std::map<P3, char>              m{};
    std::set<std::pair<long, long>> used{};
    for (std::uint64_t n = 1 + c.below(20); n-- > 0;)
    {
        const P3 p{static_cast<long>(c.below(static_cast<std::uint64_t>(5 * tw))), static_cast<long>(c.below(static_cast<std::uint64_t>(5 * th))), 0};
        if (!m.emplace(p, c.pick(std::vector<char>{'x', 'x', 'x', 'i', 'o', '0', '1'})).second) { continue; }
        l.assign_cell_type(tl<L>(p), static_cast<L::cell_type>(m[p]));
        used.insert({std::get<0>(p) / 5, std::get<1>(p) / 5});
    }
    write_qca_layout_svg_params ps{};
    ps.simple = c.flip();
    std::ostringstream s{};
    write_qca_layout_svg(l, s, ps);
    c.note(s.str());
    const auto r  = xml{s.str()}.parse();
    const auto vb = viewbox(r);
    REQUIRE_THAT(near(vb[2], 22 + 119.0 * static_cast<double>(tw)) && near(vb[3], 22 + 119.0 * static_cast<double>(th)), "size of the picture of " << tw << " x " << th << " tiles: " << vb[2] << " " << vb[3]);
    // tiles and the cells within them
    std::map<std::pair<long, long>, std::pair<std::string, int>> tiles{};  // colour, number of drawings
    std::map<P3, shape>                                          at{};
    classes                                                      cl{}, tc{};
    for (const auto& t : r.kid("g").kids)
    {
        std::vector<shape> bg{}, cs{};
        rects(t, 0, 0, 118.80357, bg);
        rects(t, 0, 0, 20, cs);
        REQUIRE_EQ(bg.size(), std::size_t{1}, "squares of a tile");
        inside(bg[0], vb, "a tile");
        const auto tx = static_cast<long>(std::lround((bg[0].x - 11) / 119)), ty = static_cast<long>(std::lround((bg[0].y - 11) / 119));
        REQUIRE_THAT(std::abs(bg[0].x - 11 - 119.0 * static_cast<double>(tx)) < 2 && std::abs(bg[0].y - 11 - 119.0 * static_cast<double>(ty)) < 2, "a tile is off the grid: " << bg[0].x << " " << bg[0].y);
        REQUIRE_THAT((tiles.emplace(std::pair{tx, ty}, std::pair{bg[0].fill, 0}).second), "tile " << tx << " " << ty << " is drawn twice");
        const auto zone = static_cast<int>(l.get_clock_number(tl<L>({5 * tx, 5 * ty, 0})));
        const bool lt = latch.count({tx, ty}) != 0;
        if (!lt)
        {
            classify(tc, "zone " + std::to_string(zone), bg[0].fill);
            if (!ps.simple)
            {
                const std::function<std::string(const node&)> text = [&](const node& n) -> std::string
                {
                    if (n.name == "tspan") { return n.text; }
                    for (const auto& k : n.kids)
                    {
                        if (auto x = text(k); !x.empty()) { return x; }
                    }
                    return {};
                };
                REQUIRE_EQ(text(t), std::to_string(zone + 1), "number on tile " << tx << " " << ty);
            }
        }
        for (const auto& x : cs)
        {
            REQUIRE_THAT(x.x >= bg[0].x - 1e-3 && x.y >= bg[0].y - 1e-3 && x.x + 20 <= bg[0].x + 118.81 && x.y + 20 <= bg[0].y + 118.81, "a cell of tile " << tx << " " << ty << " lies outside of it");
            const double ix = (x.x - bg[0].x) / 23, iy = (x.y - bg[0].y) / 23;
            const P3     p{5 * tx + static_cast<long>(std::floor(ix)), 5 * ty + static_cast<long>(std::floor(iy)), 0};
            REQUIRE_THAT(at.emplace(p, x).second, "two cells at " << s3(p));
            const auto it = m.find(p);
            REQUIRE_THAT(it != m.end(), "there is no cell at " << s3(p));
            const char ty2 = it->second;
            classify(cl, ty2 == 'i' ? "input" : ty2 == 'o' ? "output" : ty2 != 'x' ? "constant" : lt ? "latch" : "phase " + std::to_string(l.get_clock_number(tl<L>(p))), x.fill);
        }
    }
    REQUIRE_EQ(at.size(), m.size(), "number of drawn cells");
    for (long y = 0; y < th; ++y)
    {
        for (long x = 0; x < tw; ++x)
        {
            const bool drawn = tiles.count({x, y}) != 0;
            if (!ps.simple || used.count({x, y}) != 0) { REQUIRE_THAT(drawn, "tile " << x << " " << y << (latch.count({x, y}) != 0 ? " (synchronization element)" : "") << " is not drawn"); }
            else { REQUIRE_THAT(!drawn, "empty tile " << x << " " << y << " is drawn in a simple picture"); }
        }
    }
    c.key(std::hash<std::string>{}(s.str()));
    c.nontrivial(used.size() > 1);
}

namespace
{
template <typename L>
void svg_sidbs(pbt::ctx& c)
{
    const auto dots = sm::gen_dots(c, 1 + c.below(9), {12, 6, sm::is_signed_coord<L>()});
    const auto l    = sm::build<L>(dots);
    const auto lat  = sm::lattice_of<L>();
    write_sidb_layout_svg_params ps{};
    const bool show = c.flip();
    ps.lattice_mode = show ? write_sidb_layout_svg_params::sidb_lattice_mode::SHOW_LATTICE : write_sidb_layout_svg_params::sidb_lattice_mode::HIDE_LATTICE;
    ps.color_background = c.flip() ? write_sidb_layout_svg_params::color_mode::DARK : write_sidb_layout_svg_params::color_mode::LIGHT;
    std::ostringstream s{};
    std::map<sm::pos, int> charge{};
    const bool             charged = c.flip();
    if (charged)
    {
        charge_distribution_surface<L> cds{l};
        for (const auto& p : dots)
        {
            charge[p] = c.in(-1, 1);
            cds.assign_charge_state(sm::cell<L>(p), sm::cs(charge[p]));
        }
        write_sidb_layout_svg(cds, s, ps);
    }
    else { write_sidb_layout_svg(l, s, ps); }
    c.note(s.str());
    const auto r  = xml{s.str()}.parse();
    const auto vb = viewbox(r);
    std::vector<std::pair<double, double>> got{};
    std::vector<std::string>               look{};
    std::set<std::pair<long, long>>        grid{};
    std::size_t                            points = 0;
    for (const auto& k : r.kid("g").kids)
    {
        REQUIRE_EQ(k.name, std::string{"use"}, "drawing");
        const double x = std::stod(k.a("x")), y = std::stod(k.a("y"));
        REQUIRE_THAT(x >= vb[0] - 1e-6 && y >= vb[1] - 1e-6 && x <= vb[0] + vb[2] + 1e-6 && y <= vb[1] + vb[3] + 1e-6, "a dot at " << x << " " << y << " lies outside of the view box");
        if (k.a("xlink:href") == "#lattice_point")
        {
            ++points;
            grid.insert({std::lround(x * 1000), std::lround(y * 1000)});
        }
        else
        {
            REQUIRE_EQ(k.a("xlink:href"), std::string{"#sidb_color"}, "drawing");
            got.emplace_back(x, y);
            look.push_back(style_of(k, "fill") + " " + style_of(k, " fill-opacity") + style_of(k, "fill-opacity"));
        }
    }
    REQUIRE_EQ(got.size(), dots.size(), "number of drawn SiDBs");
    // drawn positions are the physical ones (in Angstrom) up to one common offset
    std::vector<std::pair<std::pair<double, double>, sm::pos>> want{};
    for (const auto& p : dots) { want.push_back({sm::nm(lat, p), p}); }
    const auto less = [](const auto& a, const auto& b) { return a.second < b.second - 1e-6 || (std::abs(a.second - b.second) <= 1e-6 && a.first < b.first); };
    std::sort(want.begin(), want.end(), [&](const auto& a, const auto& b) { return less(a.first, b.first); });
    std::vector<std::size_t> idx(got.size());
    for (std::size_t i = 0; i < idx.size(); ++i) { idx[i] = i; }
    std::sort(idx.begin(), idx.end(), [&](const auto a, const auto b) { return less(got[a], got[b]); });
    const double ox = got[idx[0]].first - 10 * want[0].first.first, oy = got[idx[0]].second - 10 * want[0].first.second;
    classes cl{};
    for (std::size_t i = 0; i < idx.size(); ++i)
    {
        const auto& q = got[idx[i]];
        REQUIRE_THAT(near(q.first, 10 * want[i].first.first + ox) && near(q.second, 10 * want[i].first.second + oy), "SiDB " << sm::str(want[i].second) << " is drawn at " << q.first << " " << q.second);
        if (charged) { classify(cl, "charge " + std::to_string(charge[want[i].second]), look[idx[i]]); }
        if (show) { REQUIRE_THAT(grid.count({std::lround(q.first * 1000), std::lround(q.second * 1000)}) != 0, "SiDB " << sm::str(want[i].second) << " is drawn beside the lattice"); }
    }
    REQUIRE_EQ(points, grid.size(), "lattice points drawn twice");
    int x0 = 1 << 20, x1 = -x0, y0 = x0, y1 = -x0;
    for (const auto& p : dots) { x0 = std::min(x0, p.x), x1 = std::max(x1, p.x), y0 = std::min(y0, 2 * p.y + p.z), y1 = std::max(y1, 2 * p.y + p.z); }
    REQUIRE_EQ(points, show ? static_cast<std::size_t>((x1 - x0 + 1) * (y1 - y0 + 1)) : std::size_t{0}, "number of lattice points");
    c.key(std::hash<std::string>{}(s.str()));
    c.nontrivial(dots.size() > 2);
}
}  // namespace

PBT("svg-sidbs", 4000, 100000, "three SiDBs or more")
{
    switch (c.below(4))
    {
        case 0: svg_sidbs<sidb_100_cell_clk_lyt_siqad>(c); break;
        case 1: svg_sidbs<sidb_111_cell_clk_lyt_siqad>(c); break;
        case 2: svg_sidbs<sidb_100_cell_clk_lyt>(c); break;
        default: svg_sidbs<sidb_100_cell_clk_lyt_cube>(c); break;
    }
}

// ------------------------------------------------------------------------------------------------------------- simulation results
namespace
{
template <typename L>
struct results
{
    sidb_simulation_result<L>                     r{};
    std::vector<sm::pos>                          dots{};
    std::vector<std::map<sm::pos, int>>           ch{};
};
template <typename L>
results<L> gen_results(pbt::ctx& c)
{
    results<L> g{};
    sm::world  w{};
    w.lat  = sm::lattice_of<L>();
    g.dots = sm::gen_dots(c, 1 + c.below(7), {12, 5, sm::is_signed_coord<L>()});
    sm::gen_params(c, w);
    const auto l = sm::build<L>(g.dots);
    g.r.algorithm_name        = gen_name(c, "Engine", c.flip());
    g.r.simulation_runtime    = std::chrono::duration<double>{0.25 * static_cast<double>(c.below(100))};
    g.r.simulation_parameters = sm::sim(w);
    const auto n = c.below(6);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        std::map<sm::pos, int> m{};
        if (!g.ch.empty() && c.below(4) == 0) { m = c.pick(g.ch); }
        else
        {
            for (const auto& p : g.dots) { m[p] = c.in(-1, 1); }
        }
        charge_distribution_surface<L> s{l, sm::sim(w)};
        for (const auto& p : g.dots) { s.assign_charge_state(sm::cell<L>(p), sm::cs(m[p])); }
        s.update_after_charge_change();
        g.ch.push_back(m);
        g.r.charge_distributions.push_back(s);
    }
    return g;
}
std::vector<sm::pos> sorted(std::vector<sm::pos> v)
{
    std::sort(v.begin(), v.end());
    return v;
}

template <typename L>
void sim_result(pbt::ctx& c)
{
    auto g = gen_results<L>(c);
    std::map<std::string, std::string> extra{};
    const auto                         nx = c.below(4);
    for (std::uint64_t i = 0; i < nx; ++i)
    {
        const auto k = "param_" + std::to_string(i);
        switch (c.below(5))
        {
            case 0:
            {
                const auto v = gen_name(c, "value", true);
                g.r.additional_simulation_parameters[k] = v;
                extra[k] = v;
                break;
            }
            case 1:
            {
                const auto v = c.u64();
                g.r.additional_simulation_parameters[k] = v;
                extra[k] = std::to_string(v);
                break;
            }
            case 2:
            {
                const auto v = static_cast<std::int32_t>(c.u64());
                g.r.additional_simulation_parameters[k] = v;
                extra[k] = std::to_string(v);
                break;
            }
            case 3:
            {
                const auto v = static_cast<std::uint8_t>(c.u64());
                g.r.additional_simulation_parameters[k] = v;
                extra[k] = std::to_string(static_cast<unsigned>(v));
                break;
            }
            default:
            {
                const auto v = static_cast<double>(c.in(-1000, 1000)) / 8;
                g.r.additional_simulation_parameters[k] = v;
                extra[k] = std::to_string(v);
            }
        }
    }
    std::string doc{};
    if (c.below(20) == 0)
    {
        const scratch f{"r.xml"};
        write_sqd_sim_result(g.r, f.name);
        doc = f.read();
    }
    else
    {
        std::ostringstream s{};
        write_sqd_sim_result(g.r, s);
        doc = s.str();
    }
    c.note(doc);
    const auto r = xml{doc}.parse();
    REQUIRE_EQ(r.name, std::string{"sim_out"}, "root element");
    REQUIRE_EQ(r.kid("eng_info").kid("engine").text, g.r.algorithm_name, "name of the engine");
    REQUIRE_EQ(r.kid("eng_info").kid("return_code").text, std::string{"0"}, "return code");
    REQUIRE_THAT(std::abs(std::stod(r.kid("eng_info").kid("time_elapsed_s").text) - g.r.simulation_runtime.count()) < 1e-9, "runtime");
    const auto& sp = r.kid("sim_params");
    REQUIRE_THAT(std::abs(std::stod(sp.kid("debye_length").text) - g.r.simulation_parameters.lambda_tf) < 1e-9, "lambda_TF");
    REQUIRE_THAT(std::abs(std::stod(sp.kid("eps_r").text) - g.r.simulation_parameters.epsilon_r) < 1e-9, "epsilon_r");
    REQUIRE_THAT(std::abs(std::stod(sp.kid("muzm").text) - g.r.simulation_parameters.mu_minus) < 1e-9, "mu_minus");
    for (const auto& [k, v] : extra) { REQUIRE_EQ(sp.kid(k).text, v, "parameter " << k); }
    REQUIRE_EQ(sp.kids.size(), 3 + extra.size(), "number of parameters");
    // positions in Angstrom; the order of the charges is the order of the positions
    std::vector<sm::pos> order{};
    const auto           lat = sm::lattice_of<L>();
    std::set<std::size_t> used{};
    for (const auto& k : r.kid("physloc").kids)
    {
        const double x = std::stod(k.a("x")), y = std::stod(k.a("y"));
        bool         found = false;
        for (std::size_t i = 0; i < g.dots.size(); ++i)
        {
            const auto [px, py] = sm::nm(lat, g.dots[i]);
            if (std::abs(10 * px - x) < 1e-4 && std::abs(10 * py - y) < 1e-4)
            {
                REQUIRE_THAT(used.insert(i).second, "SiDB " << sm::str(g.dots[i]) << " is listed twice");
                order.push_back(g.dots[i]);
                found = true;
            }
        }
        REQUIRE_THAT(found, "there is no SiDB at " << x << " " << y);
    }
    REQUIRE_EQ(order.size(), g.ch.empty() ? 0 : g.dots.size(), "number of SiDBs");
    std::multimap<std::string, std::pair<double, int>> want{};
    for (std::size_t i = 0; i < g.ch.size(); ++i)
    {
        std::string s{};
        for (const auto& p : order) { s += g.ch[i].at(p) < 0 ? '-' : g.ch[i].at(p) > 0 ? '+' : '0'; }
        want.emplace(s, std::pair{g.r.charge_distributions[i].get_electrostatic_potential_energy(), g.r.charge_distributions[i].is_physically_valid() ? 1 : 0});
    }
    double last = -1e300;
    for (const auto& k : r.kid("elec_dist").kids)
    {
        const double e = std::stod(k.a("energy"));
        REQUIRE_THAT(e >= last - 1e-9, "distributions are not sorted by energy");
        last = e;
        const auto it = want.find(k.text);
        REQUIRE_THAT(it != want.end(), "distribution " << k.text << " is made up or listed too often");
        REQUIRE_THAT(std::abs(it->second.first - e) < 1e-5, "energy of " << k.text << " is " << e << ", expected " << it->second.first);
        REQUIRE_EQ(k.i("physically_valid"), static_cast<long>(it->second.second), "validity of " << k.text);
        REQUIRE_EQ(k.i("count"), 1L, "count of " << k.text);
        want.erase(it);
    }
    REQUIRE_THAT(want.empty(), "distribution " << want.begin()->first << " is lost");
    c.key(std::hash<std::string>{}(doc));
    c.nontrivial(g.ch.size() > 1);
}

template <typename L>
void ground_state_file(pbt::ctx& c)
{
    const auto         g = gen_results<L>(c);
    std::ostringstream s{};
    write_location_and_ground_state(g.r, s);
    c.note(s.str());
    if (g.ch.empty())
    {
        REQUIRE_EQ(s.str(), std::string{}, "file for no charge distributions");
        return;
    }
    double min = 1e300;
    for (const auto& d : g.r.charge_distributions) { min = std::min(min, d.get_electrostatic_potential_energy()); }
    std::vector<std::size_t> gs{};
    for (std::size_t i = 0; i < g.ch.size(); ++i)
    {
        const double d = g.r.charge_distributions[i].get_electrostatic_potential_energy() - min;
        if (d < 1e-9) { gs.push_back(i); }
        else if (d < 3e-6) { throw pbt::discard{}; }
    }
    const auto ls = lines(s.str());
    REQUIRE_EQ(ls.size(), 1 + g.dots.size(), "number of lines");
    std::string head = "x [nm]; y [nm];";
    for (std::size_t i = 0; i < gs.size(); ++i) { head += "GS_" + std::to_string(i) + ";"; }
    REQUIRE_EQ(ls[0], head, "header");
    const auto            lat = sm::lattice_of<L>();
    std::set<std::size_t> used{};
    for (std::size_t k = 1; k < ls.size(); ++k)
    {
        const auto f = split(ls[k], ';');
        REQUIRE_EQ(f.size(), 3 + gs.size(), "fields in " << ls[k]);
        const double x = std::stod(f[0]), y = std::stod(f[1]);
        bool         found = false;
        for (std::size_t i = 0; i < g.dots.size(); ++i)
        {
            const auto [px, py] = sm::nm(lat, g.dots[i]);
            if (std::abs(px - x) < 6e-4 && std::abs(py - y) < 6e-4)
            {
                found = true;
                REQUIRE_THAT(used.insert(i).second, "SiDB " << sm::str(g.dots[i]) << " is listed twice");
                for (std::size_t j = 0; j < gs.size(); ++j) { REQUIRE_EQ(f[2 + j], std::to_string(g.ch[gs[j]].at(g.dots[i])), "charge of SiDB " << sm::str(g.dots[i]) << " in ground state " << j); }
            }
        }
        REQUIRE_THAT(found, "there is no SiDB at " << x << " " << y);
    }
    c.key(std::hash<std::string>{}(s.str()));
    c.nontrivial(g.ch.size() > 1);
}
}  // namespace

PBT("siqad-results", 5000, 120000, "two charge distributions or more")
{
    switch (c.below(3))
    {
        case 0: sim_result<sidb_100_cell_clk_lyt_siqad>(c); break;
        case 1: sim_result<sidb_111_cell_clk_lyt_siqad>(c); break;
        default: sim_result<sidb_100_cell_clk_lyt>(c);
    }
}
PBT("ground-states", 5000, 120000, "two charge distributions or more")
{
    switch (c.below(3))
    {
        case 0: ground_state_file<sidb_100_cell_clk_lyt_siqad>(c); break;
        case 1: ground_state_file<sidb_111_cell_clk_lyt_siqad>(c); break;
        default: ground_state_file<sidb_100_cell_clk_lyt>(c);
    }
}

// ------------------------------------------------------------------------------------------------------------- CSV
PBT("csv-domains", 8000, 200000, "three samples or more")
{
    const auto dim = static_cast<unsigned>(c.below(5));
    std::vector<sweep_parameter> sw{sweep_parameter::EPSILON_R, sweep_parameter::LAMBDA_TF, sweep_parameter::MU_MINUS};
    c.shuffle(sw);
    const auto name = [](const sweep_parameter p) { return std::string{p == sweep_parameter::EPSILON_R ? "epsilon_r" : p == sweep_parameter::LAMBDA_TF ? "lambda_tf" : "mu_minus"}; };
    write_operational_domain_params ps{};
    const bool only = c.flip();
    ps.writing_mode = only ? write_operational_domain_params::sample_writing_mode::OPERATIONAL_ONLY : write_operational_domain_params::sample_writing_mode::ALL_SAMPLES;
    if (c.flip()) { ps.operational_tag = "yes", ps.non_operational_tag = "no"; }
    const bool                            ct = c.flip();
    operational_domain                    d{};
    critical_temperature_domain           t{};
    for (unsigned k = 0; k < dim; ++k)
    {
        d.add_dimension(sw[k % 3]);
        t.add_dimension(sw[k % 3]);
    }
    std::map<std::vector<int>, std::pair<bool, int>> want{};
    for (std::uint64_t n = c.below(12); n-- > 0;)
    {
        std::vector<int>    k{};
        std::vector<double> v{};
        for (unsigned i = 0; i < dim; ++i)
        {
            k.push_back(c.in(-40, 1200));
            v.push_back(k.back() / 100.0);
        }
        const bool op = c.flip();
        const int  temp = op ? c.in(0, 40000) : 0;
        if (!want.emplace(k, std::pair{op, temp}).second) { continue; }
        const auto st = op ? operational_status::OPERATIONAL : operational_status::NON_OPERATIONAL;
        d.add_value(parameter_point{v}, std::make_tuple(st));
        t.add_value(parameter_point{v}, std::make_tuple(st, temp / 100.0));
    }
    std::ostringstream s{};
    bool               thrown = false;
    try
    {
        if (ct) { write_operational_domain(t, s, ps); }
        else { write_operational_domain(d, s, ps); }
    }
    catch (const std::invalid_argument&)
    {
        thrown = true;
    }
    REQUIRE_EQ(thrown, dim == 0 || dim > 3, "rejecting " << dim << " dimensions");
    if (thrown) { return; }
    c.note(s.str());
    const auto  ls = lines(s.str());
    std::string head{};
    for (unsigned k = 0; k < dim; ++k) { head += name(sw[k]) + ","; }
    head += "operational status";
    if (ct) { head += ",critical temperature"; }
    REQUIRE_THAT(!ls.empty(), "no header");
    REQUIRE_EQ(ls[0], head, "header");
    std::size_t n = 0;
    for (const auto& [k, v] : want) { n += v.first || !only ? 1 : 0; }
    REQUIRE_EQ(ls.size(), n + 1, "number of lines");
    std::set<std::vector<int>> seen{};
    for (std::size_t i = 1; i < ls.size(); ++i)
    {
        const auto f = split(ls[i], ',');
        REQUIRE_EQ(f.size(), std::size_t{dim + 1 + (ct ? 1 : 0)}, "number of fields in " << ls[i]);
        std::vector<int> k{};
        for (unsigned j = 0; j < dim; ++j) { k.push_back(static_cast<int>(std::lround(std::stod(f[j]) * 100))); }
        const auto it = want.find(k);
        REQUIRE_THAT(it != want.end(), "made up sample " << ls[i]);
        REQUIRE_THAT(seen.insert(k).second, "sample written twice: " << ls[i]);
        REQUIRE_EQ(f[dim], std::string{it->second.first ? ps.operational_tag : ps.non_operational_tag}, "status in " << ls[i]);
        REQUIRE_THAT(!only || it->second.first, "a non-operational sample is written: " << ls[i]);
        if (ct) { REQUIRE_THAT(std::abs(std::stod(f[dim + 1]) - it->second.second / 100.0) < 1e-2, "temperature in " << ls[i]); }
    }
    c.key(std::hash<std::string>{}(s.str()));
    c.nontrivial(n > 2);
}

PBT("csv-defects", 4000, 100000, "three positions or more")
{
    using L = sidb_100_cell_clk_lyt;
    defect_influence_domain<L>         d{};
    std::map<std::pair<int, int>, bool> want{};
    for (std::uint64_t n = c.below(15); n-- > 0;)
    {
        const int  x = c.in(0, 30), y = c.in(0, 30);
        const bool in = c.flip();
        if (!want.emplace(std::pair{x, y}, in).second) { continue; }
        d.add_value(L::cell{x, y}, std::make_tuple(in ? defect_influence_status::INFLUENTIAL : defect_influence_status::NON_INFLUENTIAL));
    }
    write_defect_influence_domain_params ps{};
    if (c.flip()) { ps.influential_tag = "1", ps.non_influential_tag = "0"; }
    std::string doc{};
    if (c.below(20) == 0)
    {
        const scratch f{"d.csv"};
        write_defect_influence_domain(d, f.name, ps);
        doc = f.read();
    }
    else
    {
        std::ostringstream s{};
        write_defect_influence_domain(d, s, ps);
        doc = s.str();
    }
    c.note(doc);
    const auto ls = lines(doc);
    REQUIRE_EQ(ls.size(), want.size() + 1, "number of lines");
    std::set<std::pair<int, int>> seen{};
    for (std::size_t i = 1; i < ls.size(); ++i)
    {
        const auto f = split(ls[i], ',');
        REQUIRE_EQ(f.size(), std::size_t{3}, "number of fields in " << ls[i]);
        const auto it = want.find({std::stoi(f[0]), std::stoi(f[1])});
        REQUIRE_THAT(it != want.end(), "made up position " << ls[i]);
        REQUIRE_THAT(seen.insert(it->first).second, "position written twice: " << ls[i]);
        REQUIRE_EQ(f[2], std::string{it->second ? ps.influential_tag : ps.non_influential_tag}, "status in " << ls[i]);
    }
    c.key(std::hash<std::string>{}(doc));
    c.nontrivial(want.size() > 2);
}
