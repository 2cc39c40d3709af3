// charge states and surface defects
#include "pbt.hpp"

#include <fiction/technology/sidb_charge_state.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>

#include <cstdint>
#include <functional>
#include <optional>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

using namespace fiction;

static const std::vector<sidb_charge_state> ALL{sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL, sidb_charge_state::POSITIVE, sidb_charge_state::NONE};
static const std::vector<sidb_defect_type>  TYPES{
    sidb_defect_type::NONE,      sidb_defect_type::DB,         sidb_defect_type::SI_VACANCY, sidb_defect_type::SINGLE_DIHYDRIDE,
    sidb_defect_type::DIHYDRIDE_PAIR, sidb_defect_type::ONE_BY_ONE, sidb_defect_type::THREE_BY_ONE, sidb_defect_type::SILOXANE,
    sidb_defect_type::RAISED_SI, sidb_defect_type::MISSING_DIMER, sidb_defect_type::ETCH_PIT,  sidb_defect_type::STEP_EDGE,
    sidb_defect_type::GUNK,      sidb_defect_type::ARSENIC,    sidb_defect_type::UNKNOWN};

PBT("sign", 256, 256, "a charge state other than none")
{
    const auto s = static_cast<std::int8_t>(static_cast<int>(c.systematic(256)) - 128);
    c.note(static_cast<int>(s));
    const auto cs = sign_to_charge_state(s);
    c.nontrivial(s >= -1 && s <= 1);
    switch (s)
    {
        case -1: REQUIRE_THAT(cs == sidb_charge_state::NEGATIVE, "-1 is negative"); break;
        case 0: REQUIRE_THAT(cs == sidb_charge_state::NEUTRAL, "0 is neutral"); break;
        case 1: REQUIRE_THAT(cs == sidb_charge_state::POSITIVE, "1 is positive"); break;
        default: REQUIRE_THAT(cs == sidb_charge_state::NONE, static_cast<int>(s) << " is no charge"); return;
    }
    REQUIRE_EQ(static_cast<int>(charge_state_to_sign(cs)), static_cast<int>(s), "there and back");
    REQUIRE_EQ(static_cast<int>(charge_state_to_sign(sidb_charge_state::NONE)), 0, "an empty position carries no charge");
}
PBT("string", 200000, 2000000, "at least two charged and one empty position")
{
    std::vector<sidb_charge_state> v{};
    std::string                    want{};
    int                            charged = 0, none = 0, sum = 0;
    for (auto n = c.below(14); n > 0; --n)
    {
        v.push_back(c.pick(ALL));
        sum += charge_state_to_sign(v.back());
        switch (v.back())
        {
            case sidb_charge_state::NEGATIVE: want += "-"; ++charged; break;
            case sidb_charge_state::NEUTRAL: want += "0"; break;
            case sidb_charge_state::POSITIVE: want += "+"; ++charged; break;
            default: ++none; break;
        }
    }
    c.note(want, " with ", none, " empty positions");
    c.nontrivial(charged >= 2 && none >= 1);
    const auto s = charge_configuration_to_string(v);
    REQUIRE_EQ(s, want, "the string");
    int total = 0;
    for (char ch : s)
    {
        total += ch == '+' ? 1 : (ch == '-' ? -1 : 0);
    }
    REQUIRE_EQ(total, sum, "the total charge is preserved");
}
PBT("base", 256, 256, "base 2 or 3")
{
    const auto b = static_cast<std::uint8_t>(c.systematic(256));
    const auto v = sidb_charge_states_for_base_number(b);
    c.note(static_cast<int>(b));
    c.nontrivial(b == 2 || b == 3);
    const std::vector<sidb_charge_state> two{sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL};
    const std::vector<sidb_charge_state> three{sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL, sidb_charge_state::POSITIVE};
    REQUIRE_THAT(v == (b == 2 ? two : three), "the states of base " << static_cast<int>(b));
}

static sidb_defect gen_defect(pbt::ctx& c)
{
    return sidb_defect{TYPES[c.below(TYPES.size())], c.pick({std::int64_t{0}, std::int64_t{1}, std::int64_t{-1}, c.edgy<std::int64_t>(-1000000, 1000000)}),
                       static_cast<double>(c.below(3)) * 2.8, static_cast<double>(c.below(3)) * 2.5};
}
PBT("defect.classes", 200000, 2000000, "a defect with a charge or of a charged type")
{
    const auto d       = gen_defect(c);
    const bool type_ch = d.type == sidb_defect_type::DB || d.type == sidb_defect_type::SI_VACANCY || d.type == sidb_defect_type::ARSENIC;
    const bool charged = d.charge != 0 || type_ch;
    c.note("type ", static_cast<int>(d.type), " charge ", d.charge);
    c.nontrivial(charged);
    REQUIRE_EQ(is_charged_defect_type(d), charged, "charged type");
    REQUIRE_EQ(is_neutral_defect_type(d), !charged && d.type != sidb_defect_type::NONE, "neutral type");
    REQUIRE_EQ(is_positively_charged_defect(d), d.charge > 0, "positive");
    REQUIRE_EQ(is_negatively_charged_defect(d), d.charge < 0, "negative");
    REQUIRE_EQ(is_neutrally_charged_defect(d), d.charge == 0, "neutral");
    using P = std::pair<std::uint16_t, std::uint16_t>;
    auto gp = [&] { return c.flip() ? std::optional<P>{P{static_cast<std::uint16_t>(c.edgy<int>(0, 65535)), static_cast<std::uint16_t>(c.edgy<int>(0, 65535))}} : std::nullopt; };
    const auto ch = gp(), ne = gp();
    if (d.type == sidb_defect_type::NONE && d.charge != 0)
    {
        return;  // a contradictory defect
    }
    const P want = charged ? ch.value_or(P{26, 13}) : (d.type == sidb_defect_type::NONE ? P{0, 0} : ne.value_or(P{1, 0}));
    REQUIRE_THAT(defect_extent(d, ch, ne) == want, "the extent is " << defect_extent(d, ch, ne).first << "," << defect_extent(d, ch, ne).second
                                                                    << ", not " << want.first << "," << want.second);
    REQUIRE_THAT(defect_extent(d) == (charged ? P{26, 13} : (d.type == sidb_defect_type::NONE ? P{0, 0} : P{1, 0})), "the default extent");
    REQUIRE_THAT(defect_extent(d, ch) == (charged ? ch.value_or(P{26, 13}) : defect_extent(d)), "the extent with one override");
}
PBT("defect.equality", 200000, 2000000, "two defects that differ in at most one member")
{
    const auto a = gen_defect(c);
    auto       b = a;
    int        changed = static_cast<int>(c.below(6));
    switch (changed)
    {
        case 1: b.type = TYPES[c.below(TYPES.size())]; break;
        case 2: b.charge = c.in<std::int64_t>(-2, 2); break;
        case 3: b.epsilon_r = static_cast<double>(c.below(3)) * 2.8; break;
        case 4: b.lambda_tf = static_cast<double>(c.below(3)) * 2.5; break;
        case 5: b = gen_defect(c); break;
        default: break;
    }
    const bool eq = a.type == b.type && a.charge == b.charge && a.epsilon_r == b.epsilon_r && a.lambda_tf == b.lambda_tf;
    c.note("member ", changed, eq ? " equal" : " different");
    c.nontrivial(changed < 5);
    REQUIRE_EQ(a == b, eq, "equality compares every member");
    REQUIRE_EQ(a != b, !eq, "inequality");
    REQUIRE_EQ(b == a, eq, "symmetry");
    const auto ha = std::hash<sidb_defect>{}(a), hb = std::hash<sidb_defect>{}(b);
    REQUIRE_THAT(!eq || ha == hb, "equal defects have equal hashes");
    const sidb_defect z{a.type, a.charge, a.epsilon_r == 0.0 ? -0.0 : a.epsilon_r, a.lambda_tf};
    REQUIRE_THAT(a == z && std::hash<sidb_defect>{}(z) == ha, "negative zero equals zero, and so do the hashes");
    const sidb_defect def{};
    REQUIRE_THAT(def.type == sidb_defect_type::UNKNOWN && def.charge == 0 && def.epsilon_r == 0.0 && def.lambda_tf == 0.0, "the default defect");
}
/// every member contributes to the hash: over a grid of defects, hashes are spread
PBT("defect.spread", 60, 600, "all defects of a grid")
{
    std::unordered_set<std::size_t> h{};
    std::size_t                     n  = 0;
    const double                    e0 = c.real(1, 10), l0 = c.real(1, 10);
    const auto                      q0 = c.in<std::int64_t>(-50, 50);
    for (auto t : TYPES)
    {
        for (std::int64_t q = 0; q < 6; ++q)
        {
            for (int e = 0; e < 4; ++e)
            {
                for (int l = 0; l < 4; ++l)
                {
                    h.insert(std::hash<sidb_defect>{}(sidb_defect{t, q0 + q, e0 + e, l0 + l}));
                    ++n;
                }
            }
        }
    }
    c.nontrivial();
    c.evals = n;
    c.note(h.size(), " of ", n);
    REQUIRE_THAT(h.size() * 10 >= n * 9, h.size() << " distinct hashes of " << n << " defects");
}
