// conversions between the coordinate systems and coordinate arithmetic
#include "coord_common.hpp"

#include <limits>

using namespace fiction;

PBT("siqad.to_fiction", 300000, 3000000, "a live SiQAD coordinate off the origin")
{
    const auto p = gen_plain<sco>(c);
    const auto s = to_c<sco>(p);
    c.note(sp(p));
    c.nontrivial(!p.d && (p.x != 0 || p.y != 0 || p.z != 0));
    const auto f = siqad::to_fiction_coord<cco>(s);
    if (p.d)
    {
        c.label("dead");
        REQUIRE_THAT(f.is_dead(), "a dead coordinate converts to a dead one");
        REQUIRE_THAT(siqad::to_fiction_coord<uco>(s).is_dead(), "a dead coordinate converts to a dead one");
        return;
    }
    const std::int64_t full = 2 * p.y + p.z;
    const std::int64_t want = std::min<std::int64_t>(std::max<std::int64_t>(full, I32MIN), U31);
    c.label(full == want ? "in range" : "saturates");
    REQUIRE_THAT((of_c(f) == plain{p.x, want, 0, false}), sp(p) << " converts to " << sp(of_c(f)));
    if (full == want)
    {
        REQUIRE_THAT(siqad::to_siqad_coord(f) == s, "converting back gives " << sp(of_c(siqad::to_siqad_coord(f))));
    }
    if (p.x >= 0 && p.y >= 0)
    {
        const auto u = siqad::to_fiction_coord<uco>(s);
        REQUIRE_THAT((of_c(u) == plain{p.x, want, 0, false}), sp(p) << " converts to " << sp(of_c(u)));
        if (full == want)
        {
            REQUIRE_THAT(siqad::to_siqad_coord(u) == s, "converting back (offset)");
        }
    }
}
template <typename C>
void from_fiction(pbt::ctx& c)
{
    auto p = gen_plain<C>(c);
    p.z    = 0;
    p.d    = false;
    const auto f = to_c<C>(p);
    c.note(sp(p));
    c.nontrivial(p.y != 0);
    c.label(p.y < 0 ? "negative row" : "row >= 0");
    const auto s = siqad::to_siqad_coord(f);
    REQUIRE_THAT(!s.is_dead(), "a live coordinate converts to a live one");
    REQUIRE_THAT(of_c(s).x == p.x && 2 * of_c(s).y + of_c(s).z == p.y && (of_c(s).z == 0 || of_c(s).z == 1),
                 sp(p) << " converts to " << sp(of_c(s)));
    const auto back = siqad::to_fiction_coord<C>(s);
    REQUIRE_THAT(back == f, sp(p) << " converts there and back to " << sp(of_c(back)));
}
PBT("fiction.to_siqad.ucoord", 200000, 2000000, "a row other than 0") { from_fiction<uco>(c); }
PBT("fiction.to_siqad.cube", 200000, 2000000, "a row other than 0") { from_fiction<cco>(c); }

PBT("conversion.monotone", 150000, 1500000, "two different SiQAD coordinates")
{
    // the SiQAD order is the row-major order of the converted coordinates
    auto pa = gen_plain<sco>(c, 1000000000);
    auto pb = gen_near<sco>(c, pa);
    pb.x    = std::min<std::int64_t>(std::max<std::int64_t>(pb.x, -1000000000), 1000000000);
    pb.y    = std::min<std::int64_t>(std::max<std::int64_t>(pb.y, -1000000000), 1000000000);
    pa.d = pb.d = false;
    c.note(sp(pa), " ", sp(pb));
    c.nontrivial(!(pa == pb));
    const auto a = to_c<sco>(pa);
    const auto b = to_c<sco>(pb);
    REQUIRE_EQ(a < b, siqad::to_fiction_coord<cco>(a) < siqad::to_fiction_coord<cco>(b), "order is preserved");
    REQUIRE_EQ(a == b, siqad::to_fiction_coord<cco>(a) == siqad::to_fiction_coord<cco>(b), "conversion is injective");
}
PBT("offset.to_cube", 100000, 1000000, "a live coordinate off the origin")
{
    const auto p = gen_plain<uco>(c);
    const auto r = offset_to_cube_coord(to_c<uco>(p));
    c.note(sp(p));
    c.nontrivial(!p.d && (p.x != 0 || p.y != 0 || p.z != 0));
    if (p.d)
    {
        REQUIRE_THAT(r.is_dead(), "a dead coordinate converts to a dead one");
    }
    else
    {
        REQUIRE_THAT(of_c(r) == p, sp(p) << " converts to " << sp(of_c(r)));
    }
}

template <typename C>
void arithmetic(pbt::ctx& c)
{
    const std::int64_t cap = c.pick({3, 100, 500000000});
    auto               pa  = gen_plain<C>(c, cap);
    auto               pb  = gen_plain<C>(c, cap);
    auto               pc  = gen_plain<C>(c, cap);
    c.note(sp(pa), " ", sp(pb), " ", sp(pc));
    c.nontrivial((pa.z != 0 || pb.z != 0) && pb.y != 0);
    const C a0 = to_c<C>(pa);
    const C b0 = to_c<C>(pb);
    // results are live whatever the operands
    REQUIRE_THAT(!(a0 + b0).is_dead() && !(a0 - b0).is_dead(), "results are live");
    pa.d = pb.d = pc.d = false;
    const C a = to_c<C>(pa);
    const C b = to_c<C>(pb);
    const C d = to_c<C>(pc);
    const C zero{0, 0, 0};
    REQUIRE_THAT(a + b == b + a, "commutativity: " << sp(of_c(a + b)) << " vs " << sp(of_c(b + a)));
    REQUIRE_THAT((a + b) + d == a + (b + d), "associativity");
    REQUIRE_THAT(a + zero == a && zero + a == a && a - zero == a, "identity");
    REQUIRE_THAT(a - a == zero, "a - a is " << sp(of_c(a - a)));
    REQUIRE_THAT((a + b) - b == a, "(a + b) - b is " << sp(of_c((a + b) - b)));
    REQUIRE_THAT((a - b) + b == a, "(a - b) + b is " << sp(of_c((a - b) + b)));
    REQUIRE_THAT(a - (b + d) == (a - b) - d, "subtraction distributes");
    REQUIRE_THAT(a0 + b0 == a + b && a0 - b0 == a - b, "liveness of the operands does not matter");
    REQUIRE_THAT(of_c(a) == pa && of_c(b) == pb, "operands are not modified");
    if constexpr (std::is_same_v<C, sco>)
    {
        const auto fa = siqad::to_fiction_coord<cco>(a);
        const auto fb = siqad::to_fiction_coord<cco>(b);
        REQUIRE_THAT(siqad::to_fiction_coord<cco>(a + b) == fa + fb, "addition commutes with conversion");
        REQUIRE_THAT(siqad::to_fiction_coord<cco>(a - b) == fa - fb, "subtraction commutes with conversion");
    }
    else
    {
        REQUIRE_THAT((of_c(a + b) == plain{pa.x + pb.x, pa.y + pb.y, pa.z + pb.z, false}), "componentwise sum");
        REQUIRE_THAT((of_c(a - b) == plain{pa.x - pb.x, pa.y - pb.y, pa.z - pb.z, false}), "componentwise difference");
    }
}
PBT("arithmetic.cube", 200000, 2000000, "operands off the ground layer and off row 0") { arithmetic<cco>(c); }
PBT("arithmetic.siqad", 200000, 2000000, "operands off the ground layer and off row 0") { arithmetic<sco>(c); }
