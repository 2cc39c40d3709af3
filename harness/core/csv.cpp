// CSV writing
#include "pbt.hpp"

#include <fiction/io/csv_writer.hpp>

#include <cstdint>
#include <sstream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

using fiction::csv_writer;

static std::string gen_text(pbt::ctx& c)
{
    std::string s{};
    for (auto n = c.below(6); n > 0; --n)
    {
        s.push_back(static_cast<char>(c.pick({'a', 'b', 'Z', '0', ' ', '.', '"', '-', '\t', ',', '%'})));
    }
    return s;
}
/// one field of each of several types; the expected text comes from the standard stream formatting
struct field
{
    int         kind;
    std::string s;
    std::int64_t i;
    double      d;
};
static field gen_field(pbt::ctx& c)
{
    return {static_cast<int>(c.below(7)), gen_text(c), c.edgy<std::int64_t>(std::numeric_limits<std::int64_t>::min(), std::numeric_limits<std::int64_t>::max()),
            static_cast<double>(c.in<std::int64_t>(-100000, 100000)) / 64.0};
}
static std::string text(const field& f)
{
    std::ostringstream o{};
    switch (f.kind)
    {
        case 0: o << f.s; break;
        case 1: o << f.i; break;
        case 2: o << f.d; break;
        case 3: o << static_cast<std::uint64_t>(f.i); break;
        case 4: o << (f.i % 2 == 0); break;
        case 5: o << (f.s.empty() ? 'x' : f.s[0]); break;
        default: o << f.s.c_str(); break;
    }
    return o.str();
}
/// calls k with the field's value in its own type
template <typename K>
void with(const field& f, K&& k)
{
    switch (f.kind)
    {
        case 0: k(f.s); break;
        case 1: k(f.i); break;
        case 2: k(f.d); break;
        case 3: k(static_cast<std::uint64_t>(f.i)); break;
        case 4: k(f.i % 2 == 0); break;
        case 5: k(f.s.empty() ? 'x' : f.s[0]); break;
        default: k(f.s.c_str()); break;
    }
}

PBT("lines", 60000, 600000, "a line of at least two fields and a second line")
{
    std::ostringstream os{};
    csv_writer         w{os};
    std::string        want{};
    const auto         lines = 1 + c.below(5);
    bool               wide  = false;
    for (std::uint64_t l = 0; l < lines; ++l)
    {
        const auto         n = c.below(4);
        std::vector<field> f{};
        for (std::uint64_t i = 0; i < n; ++i)
        {
            f.push_back(gen_field(c));
            want += (i > 0 ? "," : "") + text(f.back());
        }
        want += "\n";
        wide |= n >= 2;
        switch (n)
        {
            case 0: w.write_line(); break;
            case 1: with(f[0], [&](auto&& a) { w.write_line(a); }); break;
            case 2: with(f[0], [&](auto&& a) { with(f[1], [&](auto&& b) { w.write_line(a, b); }); }); break;
            default:
                with(f[0], [&](auto&& a) { with(f[1], [&](auto&& b) { with(f[2], [&](auto&& d) { w.write_line(a, b, d); }); }); });
                break;
        }
        REQUIRE_EQ(os.str(), want, "after line " << l);
    }
    c.note(want);
    c.nontrivial(wide && lines >= 2);
}
PBT("wide", 60000, 600000, "a line of eight fields")
{
    std::vector<std::string> f(8);
    for (auto& s : f)
    {
        s = gen_text(c);
    }
    std::ostringstream os{};
    csv_writer         w{os};
    const int          i = static_cast<int>(c.in<std::int64_t>(-9, 9));
    w.write_line(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]);
    w.write_line(i, f[0], 0.5, f[1], 'c', f[2], true, "lit", std::string_view{f[3]}, std::string{"tmp"});
    std::string want{};
    for (std::size_t k = 0; k < 8; ++k)
    {
        want += (k ? "," : "") + f[k];
    }
    want += "\n" + std::to_string(i) + "," + f[0] + ",0.5," + f[1] + ",c," + f[2] + ",1,lit," + f[3] + ",tmp\n";
    c.note(want);
    c.nontrivial();
    REQUIRE_EQ(os.str(), want, "eight and ten fields");
    // fields without delimiters are recovered by splitting
    std::vector<std::string> clean{};
    for (auto& s : f)
    {
        std::string t{};
        for (char ch : s)
        {
            t += ch == ',' ? ';' : ch;
        }
        clean.push_back(t);
    }
    std::ostringstream o2{};
    csv_writer         w2{o2};
    w2.write_line(clean[0], clean[1], clean[2], clean[3], clean[4]);
    std::vector<std::string> back{};
    std::string              cur{};
    for (char ch : o2.str())
    {
        if (ch == ',' || ch == '\n')
        {
            back.push_back(cur);
            cur.clear();
        }
        else
        {
            cur += ch;
        }
    }
    clean.resize(5);
    REQUIRE_THAT(back == clean && cur.empty(), "the fields are recovered");
}
/// writers share nothing; the stream's formatting is left alone
PBT("interleaved", 30000, 300000, "two streams written in turn")
{
    std::ostringstream a{}, b{};
    csv_writer         wa{a}, wb{b};
    a << std::hex;
    std::string wanta{}, wantb{};
    const auto  n = 1 + c.below(6);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const auto v = static_cast<int>(c.below(5000));
        std::ostringstream h{};
        h << std::hex << v;
        if (c.flip())
        {
            wa.write_line(v, v);
            wanta += h.str() + "," + h.str() + "\n";
        }
        else
        {
            wb.write_line("v", v);
            wantb += "v," + std::to_string(v) + "\n";
        }
    }
    c.nontrivial(!wanta.empty() && !wantb.empty());
    c.note(n, " lines");
    REQUIRE_EQ(a.str(), wanta, "the first stream");
    REQUIRE_EQ(b.str(), wantb, "the second stream");
}
