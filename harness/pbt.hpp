// Minimal property-based testing core: choice-sequence generation, integrated shrinking, replay files,
// coverage statistics. See DESIGN.md, section "Machinery". No dependency besides the C++20 standard library.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstddef>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt
{

inline std::uint64_t splitmix(std::uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30u)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27u)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31u);
}
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    return splitmix(a ^ splitmix(b + 0x632BE59BD9B4E019ull));
}
inline std::uint64_t hash_str(const std::string& s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : s)
    {
        h = (h ^ ch) * 1099511628211ull;
    }
    return splitmix(h);
}

/// Thrown by a property that does not hold.
struct failure : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
/// Thrown by a generator that cannot build a case of the wanted shape; counted, never a failure.
struct discard
{};

class ctx
{
  public:
    // --- random mode
    ctx(std::uint64_t case_seed, std::uint64_t index) : state{case_seed}, idx{index}, random{true} {}
    // --- replay mode
    explicit ctx(std::vector<std::uint64_t> choices) : input{std::move(choices)} {}
    // --- fuzzing mode: the bytes are the choices
    ctx(const std::uint8_t* d, std::size_t n) : bytes{d}, nbytes{n}, fuzz{true} {}

    /// the only source of randomness: a choice in [0, n)
    std::uint64_t below(std::uint64_t n)
    {
        std::uint64_t v = 0;
        if (n > 1)
        {
            if (random)
            {
                state = splitmix(state);
                v     = n == 0 ? state : state % n;
            }
            else if (fuzz)
            {
                v = take(n) % n;
            }
            else
            {
                v = pos < input.size() ? input[pos] : 0;
                v %= n;
            }
        }
        ++pos;
        record(v);
        return v;
    }
    /// full 64 bit choice
    std::uint64_t u64()
    {
        std::uint64_t v = 0;
        if (random)
        {
            state = splitmix(state);
            v     = state;
        }
        else if (fuzz)
        {
            v = take(0);
        }
        else
        {
            v = pos < input.size() ? input[pos] : 0;
        }
        ++pos;
        record(v);
        return v;
    }
    /// systematic choice in [0, n): enumerates the domain with the case index in random mode
    std::uint64_t systematic(std::uint64_t n)
    {
        if (random && n > 0)
        {
            const auto v = idx % n;
            idx /= n;
            ++pos;
            record(v);
            return v;
        }
        return below(n);
    }
    /// integer in [lo, hi], uniform
    template <typename T = std::int64_t>
    T in(T lo, T hi)
    {
        using U           = std::uint64_t;
        const U     range = static_cast<U>(static_cast<std::int64_t>(hi)) - static_cast<U>(static_cast<std::int64_t>(lo));
        const U     v     = range == std::numeric_limits<U>::max() ? u64() : below(range + 1);
        return static_cast<T>(static_cast<U>(static_cast<std::int64_t>(lo)) + v);
    }
    /// integer in [lo, hi], biased to both ends, to small absolute values and to powers of two
    template <typename T>
    T edgy(T lo, T hi)
    {
        using W      = __int128;
        const W wlo  = static_cast<W>(lo);
        const W whi  = static_cast<W>(hi);
        auto    clip = [&](W v) { return static_cast<T>(v < wlo ? wlo : (v > whi ? whi : v)); };
        switch (below(8))
        {
            case 0: return clip(wlo + static_cast<W>(below(4)));
            case 1: return clip(whi - static_cast<W>(below(4)));
            case 2:
            case 3: return clip(static_cast<W>(below(9)) - 4);
            case 4:
            {
                const W p = static_cast<W>(1) << below(64);
                const W v = p + static_cast<W>(below(3)) - 1;
                return clip(below(2) ? -v : v);
            }
            default:
            {
                const W range = whi - wlo;
                if (range >= (static_cast<W>(1) << 64u) - 1)
                {
                    return static_cast<T>(wlo + static_cast<W>(u64()));
                }
                return static_cast<T>(wlo + static_cast<W>(below(static_cast<std::uint64_t>(range) + 1)));
            }
        }
    }
    bool chance(unsigned num, unsigned den)
    {
        // the "simple" outcome (0) is false
        return below(den) >= den - num;
    }
    bool flip()
    {
        return below(2) != 0;
    }
    double unit()
    {
        return static_cast<double>(below(1ull << 53u)) / static_cast<double>((1ull << 53u) - 1);
    }
    double real(double lo, double hi)
    {
        return lo + (hi - lo) * unit();
    }
    template <typename C>
    auto pick(const C& c) -> std::decay_t<decltype(*c.begin())>
    {
        if (c.size() == 0)
        {
            throw discard{};
        }
        auto it = c.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(below(c.size())));
        return *it;
    }
    template <typename T>
    T pick(std::initializer_list<T> c)
    {
        return *(c.begin() + below(c.size()));
    }
    template <typename V>
    void shuffle(V& v)
    {
        for (std::size_t i = v.size(); i > 1; --i)
        {
            std::swap(v[i - 1], v[i - 1 - below(i)]);
        }
    }

    // ---- statistics -------------------------------------------------------------------------------------------
    void label(const std::string& l)
    {
        ++labels[l];
    }
    /// marks the case as non-trivial by the rule stated at registration
    void nontrivial(bool b = true)
    {
        nontriv |= b;
    }
    /// what identifies the case for the distinctness count (default: the choice sequence)
    void key(std::uint64_t k)
    {
        has_key  = true;
        case_key = mix(case_key, k);
    }
    template <typename... A>
    void note(const A&... a)
    {
        if (!want_notes)
        {
            return;
        }
        std::ostringstream os;
        (os << ... << a);
        notes.push_back(os.str());
    }
    [[noreturn]] void fail(const std::string& m)
    {
        throw failure{m};
    }

    std::vector<std::uint64_t>           rec{};
    std::size_t volatile*                mirror_n{nullptr};  // a copy of the record that survives the process
    std::uint64_t*                       mirror_v{nullptr};
    std::map<std::string, std::uint64_t> labels{};
    std::vector<std::string>             notes{};
    bool                                 want_notes{true};
    bool                                 nontriv{false};
    bool                                 has_key{false};
    std::uint64_t                        case_key{0};
    std::uint64_t                        evals{1};  // checks of the property made by this case
    bool                                 thorough{false};

    [[nodiscard]] std::uint64_t distinct_hash() const
    {
        if (has_key)
        {
            return case_key;
        }
        std::uint64_t h = 7;
        for (auto v : rec)
        {
            h = mix(h, v);
        }
        return h;
    }

  private:
    void record(std::uint64_t v)
    {
        if (rec.size() < 200000)
        {
            rec.push_back(v);
            if (mirror_v != nullptr)
            {
                mirror_v[rec.size() - 1] = v;
                *mirror_n                = rec.size();
            }
        }
    }
    std::uint64_t take(std::uint64_t n)
    {
        unsigned need = 8;
        if (n != 0)
        {
            need = n <= 256 ? 1 : (n <= 65536 ? 2 : (n <= (1ull << 32u) ? 4 : 8));
        }
        std::uint64_t v = 0;
        for (unsigned i = 0; i < need; ++i)
        {
            v = (v << 8u) | (bpos < nbytes ? bytes[bpos++] : 0u);
        }
        return v;
    }
    std::uint64_t              state{0};
    std::uint64_t              idx{0};
    bool                       random{false};
    std::vector<std::uint64_t> input{};
    const std::uint8_t*        bytes{nullptr};
    std::size_t                nbytes{0};
    std::size_t                bpos{0};
    bool                       fuzz{false};
    std::size_t                pos{0};
};

struct prop
{
    std::string               name;
    std::uint64_t             quick;     // cases in the quick tier
    std::uint64_t             thorough;  // cases in the thorough tier
    std::string               rule;      // when a case is non-trivial
    std::function<void(ctx&)> fn;
    std::string               known{};  // id of a known finding, if the sub-check reproduces exactly that one
};

inline std::vector<prop>& registry()
{
    static std::vector<prop> r{};
    return r;
}
struct reg
{
    reg(std::string n, std::uint64_t q, std::uint64_t t, std::string rule, std::function<void(ctx&)> f,
        std::string known = {})
    {
        registry().push_back({std::move(n), q, t, std::move(rule), std::move(f), std::move(known)});
    }
};

template <typename T>
std::string show(const T& v)
{
    if constexpr (std::is_same_v<T, bool>)
    {
        return v ? "true" : "false";
    }
    else if constexpr (std::is_enum_v<T>)
    {
        return std::to_string(static_cast<long long>(v));
    }
    else if constexpr (std::is_same_v<T, unsigned char> || std::is_same_v<T, signed char>)
    {
        return std::to_string(static_cast<int>(v));
    }
    else if constexpr (std::is_same_v<T, __int128> || std::is_same_v<T, unsigned __int128>)
    {
        unsigned __int128 u   = v < 0 ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
        std::string       out = u == 0 ? "0" : "";
        while (u != 0)
        {
            out.insert(out.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
            u /= 10;
        }
        return (v < 0 ? "-" : "") + out;
    }
    else if constexpr (requires(std::ostream& o, const T& x) { o << x; })
    {
        std::ostringstream os;
        os.precision(17);
        os << v;
        return os.str();
    }
    else if constexpr (requires(const T& x) { x.begin(); x.end(); x.size(); })
    {
        std::string s = "[";
        for (const auto& e : v)
        {
            s += (s.size() > 1 ? "," : "") + show(e);
        }
        return s + "]";
    }
    else if constexpr (requires(const T& x) { x.first; x.second; })
    {
        return "<" + show(v.first) + "," + show(v.second) + ">";
    }
    else
    {
        return "?";
    }
}

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b)  PBT_CAT2(a, b)
/// PBT(name, quick cases, thorough cases, rule of non-triviality) { body using ctx& c }
#define PBT(NAME, QUICK, THOROUGH, RULE)                                                                             \
    static void           PBT_CAT(pbt_fn_, __LINE__)(pbt::ctx&);                                                     \
    static const pbt::reg PBT_CAT(pbt_reg_, __LINE__){NAME, QUICK, THOROUGH, RULE, PBT_CAT(pbt_fn_, __LINE__)};      \
    static void           PBT_CAT(pbt_fn_, __LINE__)([[maybe_unused]] pbt::ctx & c)
#define PBT_KNOWN(KF, NAME, RULE)                                                                                    \
    static void           PBT_CAT(pbt_fn_, __LINE__)(pbt::ctx&);                                                     \
    static const pbt::reg PBT_CAT(pbt_reg_, __LINE__){NAME, 1, 1, RULE, PBT_CAT(pbt_fn_, __LINE__), KF};             \
    static void           PBT_CAT(pbt_fn_, __LINE__)([[maybe_unused]] pbt::ctx & c)

#define REQUIRE_THAT(COND, ...)                                                                                      \
    do {                                                                                                             \
        if (!(COND))                                                                                                 \
        {                                                                                                            \
            std::ostringstream pbt_os;                                                                               \
            pbt_os << __VA_ARGS__;                                                                                   \
            throw pbt::failure{std::string{#COND} + " does not hold: " + pbt_os.str()};                              \
        }                                                                                                            \
    } while (false)
#define REQUIRE_EQ(A, B, ...)                                                                                        \
    do {                                                                                                             \
        const auto& pbt_a = (A);                                                                                     \
        const auto& pbt_b = (B);                                                                                     \
        if (!(pbt_a == pbt_b))                                                                                       \
        {                                                                                                            \
            std::ostringstream pbt_os;                                                                               \
            pbt_os << __VA_ARGS__;                                                                                   \
            throw pbt::failure{std::string{#A " == " #B} + " does not hold: " + pbt::show(pbt_a) + " vs " +          \
                               pbt::show(pbt_b) + "; " + pbt_os.str()};                                              \
        }                                                                                                            \
    } while (false)

#endif
