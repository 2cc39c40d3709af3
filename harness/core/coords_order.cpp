// packing, construction, equality, ordering, hashing and printing of the three coordinate types
#include "coord_common.hpp"

#include <fmt/format.h>

#include <algorithm>
#include <functional>
#include <set>
#include <sstream>
#include <unordered_set>
#include <vector>

using namespace fiction;

PBT("ucoord.pack", 400000, 6000000, "a packed word that is neither 0 nor all-ones")
{
    std::uint64_t w = 0;
    switch (c.below(3))
    {
        case 0: w = c.u64(); break;
        case 1: w = 1ull << c.below(64); break;
        default:
        {
            const auto p = gen_plain<uco>(c);
            w = (static_cast<std::uint64_t>(p.d) << 63u) | (static_cast<std::uint64_t>(p.z) << 62u) |
                (static_cast<std::uint64_t>(p.y) << 31u) | static_cast<std::uint64_t>(p.x);
        }
    }
    c.note("word=", w);
    c.nontrivial(w != 0 && w != ~0ull);
    const uco u{w};
    REQUIRE_EQ(static_cast<std::uint64_t>(u), w, "decode/encode");
    REQUIRE_EQ(u.is_dead(), (w >> 63u) != 0, "dead indicator is the MSB");
    REQUIRE_EQ(static_cast<std::uint64_t>(u.z), (w >> 62u) & 1u, "z bit");
    REQUIRE_EQ(static_cast<std::uint64_t>(u.y), (w >> 31u) & 0x7fffffffull, "y bits");
    REQUIRE_EQ(static_cast<std::uint64_t>(u.x), w & 0x7fffffffull, "x bits");
    REQUIRE_THAT(u == w, "comparison against the packed word");
    REQUIRE_THAT(!(u == (w ^ (1ull << c.below(64)))), "comparison against another word");
    const uco again{static_cast<std::uint64_t>(u)};
    REQUIRE_THAT(again == u && !(again != u), "encode/decode");
    REQUIRE_EQ(static_cast<std::uint64_t>(u.get_dead()), w | (1ull << 63u), "get_dead only sets the dead bit");
}

template <typename C>
void construct_check(pbt::ctx& c)
{
    const auto p = gen_plain<C>(c);
    c.note(sp(p));
    c.nontrivial(p.x != 0 || p.y != 0 || p.z != 0);
    const C a{p.x, p.y, p.z};
    REQUIRE_THAT((of_c(a) == plain{p.x, p.y, p.z, false}), "three-argument construction gives " << sp(of_c(a)));
    const C b{p.x, p.y};
    REQUIRE_THAT((of_c(b) == plain{p.x, p.y, 0, false}), "two-argument construction gives " << sp(of_c(b)));
    const C n{};
    REQUIRE_THAT((of_c(n) == plain{0, 0, 0, true}), "default construction gives " << sp(of_c(n)));
    const C d = a.get_dead();
    REQUIRE_THAT((of_c(d) == plain{p.x, p.y, p.z, true}), "get_dead gives " << sp(of_c(d)));
    REQUIRE_THAT(d.get_dead() == d, "get_dead is idempotent");
    REQUIRE_THAT(d != a && !(d == a), "a dead coordinate differs from its live twin");
    const C cp = a;
    REQUIRE_THAT(cp == a && of_c(cp) == of_c(a), "copies compare equal");
    const auto want = "(" + std::to_string(p.x) + "," + std::to_string(p.y) + "," + std::to_string(p.z) + ")";
    REQUIRE_EQ(a.str(), want, "str()");
    REQUIRE_EQ(fmt::format("{}", a), want, "fmt");
    REQUIRE_EQ(d.str(), want, "str() does not show the dead indicator");
    REQUIRE_EQ(fmt::format("{}", d), want, "fmt does not show the dead indicator");
    if constexpr (std::is_same_v<C, uco>)
    {
        std::ostringstream os;
        os << a;
        REQUIRE_EQ(os.str(), want, "ostream");
    }
}
PBT("construct.ucoord", 60000, 600000, "a coordinate off the origin") { construct_check<uco>(c); }
PBT("construct.cube", 60000, 600000, "a coordinate off the origin") { construct_check<cco>(c); }
PBT("construct.siqad", 60000, 600000, "a coordinate off the origin") { construct_check<sco>(c); }

template <typename C>
void order_check(pbt::ctx& c)
{
    const auto pa = gen_plain<C>(c);
    const auto pb = gen_near<C>(c, pa);
    c.note(sp(pa), " ? ", sp(pb));
    const C    a  = to_c<C>(pa);
    const C    b  = to_c<C>(pb);
    const auto ra = rank<C>(pa);
    const auto rb = rank<C>(pb);
    c.nontrivial(!(pa == pb));
    c.label(ra < rb ? "less" : (rb < ra ? "greater" : (pa == pb ? "equal" : "differ only in liveness")));
    REQUIRE_EQ(a == b, pa == pb, "equality respects x, y, z and the dead indicator");
    REQUIRE_EQ(b == a, pa == pb, "equality is symmetric");
    REQUIRE_EQ(a != b, !(pa == pb), "inequality is the negation");
    REQUIRE_EQ(a < b, ra < rb, "documented lexicographic order");
    REQUIRE_EQ(b < a, rb < ra, "documented lexicographic order, swapped");
    REQUIRE_EQ(a > b, rb < ra, "greater-than");
    REQUIRE_EQ(a <= b, ra <= rb, "less-or-equal");
    REQUIRE_EQ(a >= b, rb <= ra, "greater-or-equal");
    if (pa == pb)
    {
        REQUIRE_EQ(std::hash<C>{}(a), std::hash<C>{}(b), "equal coordinates hash equally");
    }
    else if (std::is_same_v<C, uco>)
    {
        REQUIRE_THAT(!(static_cast<std::uint64_t>(std::hash<C>{}(a)) == static_cast<std::uint64_t>(std::hash<C>{}(b)) &&
                       a == b),
                     "hash");
    }
}
PBT("order.ucoord", 250000, 3000000, "two different coordinates") { order_check<uco>(c); }
PBT("order.cube", 250000, 3000000, "two different coordinates") { order_check<cco>(c); }
PBT("order.siqad", 250000, 3000000, "two different coordinates") { order_check<sco>(c); }

template <typename C>
void container_check(pbt::ctx& c)
{
    // ordered and hashed containers of live coordinates behave like containers of plain tuples
    std::vector<plain> ps;
    const std::int64_t cap = c.pick({2, 3, 1000});
    while (ps.size() < 40 && c.chance(14, 15))
    {
        auto p = gen_plain<C>(c, cap);
        p.d    = false;
        ps.push_back(p);
    }
    std::set<C>                     s;
    std::unordered_set<C>           h;
    std::set<decltype(rank<C>(plain{}))> ref;
    for (const auto& p : ps)
    {
        const bool is_new = ref.insert(rank<C>(p)).second;
        REQUIRE_EQ(s.insert(to_c<C>(p)).second, is_new, "std::set insertion of " << sp(p));
        REQUIRE_EQ(h.insert(to_c<C>(p)).second, is_new, "std::unordered_set insertion of " << sp(p));
    }
    c.note(ps.size(), " insertions, ", ref.size(), " distinct");
    c.nontrivial(ref.size() >= 3);
    REQUIRE_EQ(s.size(), ref.size(), "size");
    auto it = s.begin();
    for (const auto& r : ref)
    {
        REQUIRE_THAT(rank<C>(of_c(*it)) == r, "iteration order of an ordered container");
        ++it;
    }
    const auto q = gen_plain<C>(c, cap);
    const auto qc = make<C>(q.x, q.y, q.z);
    REQUIRE_EQ(s.count(qc) != 0, ref.count(rank<C>(q)) != 0, "lookup");
    REQUIRE_EQ(h.count(qc) != 0, ref.count(rank<C>(q)) != 0, "hashed lookup");
}
PBT("container.ucoord", 8000, 80000, "at least three distinct coordinates") { container_check<uco>(c); }
PBT("container.cube", 8000, 80000, "at least three distinct coordinates") { container_check<cco>(c); }
PBT("container.siqad", 8000, 80000, "at least three distinct coordinates") { container_check<sco>(c); }
