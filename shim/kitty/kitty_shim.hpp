// Stand-in for kitty (not installed). Truth tables as plain bit vectors; documented semantics of kitty only.
#pragma once
#include <algorithm>
#include <cassert>
#include <cctype>
#include <cstdint>
#include <functional>
#include <iostream>
#include <iterator>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace kitty
{
struct dynamic_truth_table
{
    explicit dynamic_truth_table(int num_vars) : _bits(num_vars <= 6 ? 1u : (1u << (num_vars - 6))), _num_vars(num_vars) {}
    dynamic_truth_table() = default;

    dynamic_truth_table construct() const { return dynamic_truth_table(_num_vars); }
    int      num_vars() const noexcept { return _num_vars; }
    uint64_t num_blocks() const noexcept { return _bits.size(); }
    uint64_t num_bits() const noexcept { return uint64_t(1) << _num_vars; }
    auto     begin() noexcept { return _bits.begin(); }
    auto     end() noexcept { return _bits.end(); }
    auto     begin() const noexcept { return _bits.begin(); }
    auto     end() const noexcept { return _bits.end(); }
    auto     cbegin() const noexcept { return _bits.cbegin(); }
    auto     cend() const noexcept { return _bits.cend(); }
    auto     rbegin() noexcept { return _bits.rbegin(); }
    auto     rend() noexcept { return _bits.rend(); }
    auto     rbegin() const noexcept { return _bits.rbegin(); }
    auto     rend() const noexcept { return _bits.rend(); }
    auto     crbegin() const noexcept { return _bits.crbegin(); }
    auto     crend() const noexcept { return _bits.crend(); }
    void     mask_bits() noexcept
    {
        if (_num_vars < 6 && !_bits.empty()) { _bits[0] &= (uint64_t(1) << (uint64_t(1) << _num_vars)) - 1; }
    }
    std::vector<uint64_t> _bits{};
    int                   _num_vars{0};
};
template <typename TT>
struct is_truth_table : std::false_type
{};
template <>
struct is_truth_table<dynamic_truth_table> : std::true_type
{};
template <typename TT>
struct is_complete_truth_table : is_truth_table<TT>
{};
template <typename TT>
inline constexpr bool is_truth_table_v = is_truth_table<TT>::value;

inline bool get_bit(const dynamic_truth_table& tt, uint64_t i) { return (tt._bits[i >> 6] >> (i & 63)) & 1u; }
inline void set_bit(dynamic_truth_table& tt, uint64_t i) { tt._bits[i >> 6] |= uint64_t(1) << (i & 63); }
inline void clear_bit(dynamic_truth_table& tt, uint64_t i) { tt._bits[i >> 6] &= ~(uint64_t(1) << (i & 63)); }
inline void flip_bit(dynamic_truth_table& tt, uint64_t i) { tt._bits[i >> 6] ^= uint64_t(1) << (i & 63); }
inline void clear(dynamic_truth_table& tt) { std::fill(tt.begin(), tt.end(), 0); }
inline uint64_t get_block(const dynamic_truth_table& tt, uint64_t b) { return tt._bits[b]; }
inline uint64_t count_ones(const dynamic_truth_table& tt)
{
    uint64_t c = 0;
    for (auto b : tt) { c += static_cast<uint64_t>(__builtin_popcountll(b)); }
    return c;
}
inline uint64_t count_zeros(const dynamic_truth_table& tt) { return tt.num_bits() - count_ones(tt); }

inline bool equal(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    return a._num_vars == b._num_vars && a._bits == b._bits;
}
inline bool less_than(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    return std::lexicographical_compare(a.rbegin(), a.rend(), b.rbegin(), b.rend());
}
inline bool operator==(const dynamic_truth_table& a, const dynamic_truth_table& b) { return equal(a, b); }
inline bool operator!=(const dynamic_truth_table& a, const dynamic_truth_table& b) { return !equal(a, b); }
inline bool operator<(const dynamic_truth_table& a, const dynamic_truth_table& b) { return less_than(a, b); }

template <class F>
dynamic_truth_table binary_operation(const dynamic_truth_table& a, const dynamic_truth_table& b, F&& f)
{
    assert(a._num_vars == b._num_vars);
    auto r = a.construct();
    for (std::size_t i = 0; i < r._bits.size(); ++i) { r._bits[i] = f(a._bits[i], b._bits[i]); }
    r.mask_bits();
    return r;
}
inline dynamic_truth_table unary_not(const dynamic_truth_table& a)
{
    auto r = a.construct();
    for (std::size_t i = 0; i < r._bits.size(); ++i) { r._bits[i] = ~a._bits[i]; }
    r.mask_bits();
    return r;
}
inline dynamic_truth_table operator~(const dynamic_truth_table& a) { return unary_not(a); }
inline dynamic_truth_table operator&(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    return binary_operation(a, b, [](auto x, auto y) { return x & y; });
}
inline dynamic_truth_table operator|(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    return binary_operation(a, b, [](auto x, auto y) { return x | y; });
}
inline dynamic_truth_table operator^(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    return binary_operation(a, b, [](auto x, auto y) { return x ^ y; });
}
inline dynamic_truth_table& operator&=(dynamic_truth_table& a, const dynamic_truth_table& b) { return a = a & b; }
inline dynamic_truth_table& operator|=(dynamic_truth_table& a, const dynamic_truth_table& b) { return a = a | b; }
inline dynamic_truth_table& operator^=(dynamic_truth_table& a, const dynamic_truth_table& b) { return a = a ^ b; }
inline bool is_const0(const dynamic_truth_table& tt)
{
    return std::all_of(tt.begin(), tt.end(), [](auto b) { return b == 0; });
}
inline bool is_const1(const dynamic_truth_table& tt) { return is_const0(~tt); }
inline bool is_normal(const dynamic_truth_table& tt) { return !get_bit(tt, 0); }

template <typename InputIt>
void create_from_words(dynamic_truth_table& tt, InputIt begin, InputIt end)
{
    auto it = tt.begin();
    while (it != tt.end() && begin != end) { *it++ = static_cast<uint64_t>(*begin++); }
    tt.mask_bits();
}
inline void create_nth_var(dynamic_truth_table& tt, uint8_t var, bool complement = false)
{
    for (uint64_t i = 0; i < tt.num_bits(); ++i)
    {
        if ((((i >> var) & 1u) != 0) != complement) { set_bit(tt, i); }
        else { clear_bit(tt, i); }
    }
}
inline void create_from_binary_string(dynamic_truth_table& tt, const std::string& binary)
{
    assert(binary.size() == tt.num_bits());
    clear(tt);
    std::size_t i = 0, j = binary.size();
    do
    {
        --j;
        if (binary[i] == '1') { set_bit(tt, j); }
        ++i;
    } while (i < binary.size() && j > 0);
}
inline bool create_from_hex_string(dynamic_truth_table& tt, const std::string& hex)
{
    clear(tt);
    const auto digit = [](char c) -> int
    {
        if (c >= '0' && c <= '9') { return c - '0'; }
        c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
        if (c >= 'a' && c <= 'f') { return c - 'a' + 10; }
        return -1;
    };
    if (tt.num_vars() < 2)
    {
        // kitty: only the values that fit are valid
        if (hex.size() != 1 || digit(hex[0]) < 0) { return false; }
        tt._bits[0] = static_cast<uint64_t>(digit(hex[0]));
        tt.mask_bits();
        return true;
    }
    if ((hex.size() << 2) != tt.num_bits()) { return false; }
    for (std::size_t k = 0; k < hex.size(); ++k)
    {
        const auto d = digit(hex[hex.size() - 1 - k]);
        if (d < 0) { return false; }
        tt._bits[k >> 4] |= static_cast<uint64_t>(d) << ((k & 15) * 4);
    }
    return true;
}
inline std::string to_binary(const dynamic_truth_table& tt)
{
    std::string s;
    for (uint64_t i = tt.num_bits(); i > 0; --i) { s += get_bit(tt, i - 1) ? '1' : '0'; }
    return s;
}
inline std::string to_hex(const dynamic_truth_table& tt)
{
    const auto  digits = tt.num_vars() <= 1 ? 1u : static_cast<unsigned>(tt.num_bits() >> 2);
    std::string s;
    for (unsigned k = digits; k > 0; --k)
    {
        s += "0123456789abcdef"[(tt._bits[(k - 1) >> 4] >> (((k - 1) & 15) * 4)) & 15];
    }
    return s;
}
inline void print_binary(const dynamic_truth_table& tt, std::ostream& os = std::cout) { os << to_binary(tt); }
inline void print_hex(const dynamic_truth_table& tt, std::ostream& os = std::cout) { os << to_hex(tt); }

template <typename TT>
struct hash
{
    std::size_t operator()(const TT& tt) const
    {
        std::size_t seed = static_cast<std::size_t>(tt.num_vars());
        for (auto b : tt) { seed ^= std::hash<uint64_t>{}(b) + 0x9e3779b97f4a7c15ull + (seed << 6) + (seed >> 2); }
        return seed;
    }
};
}  // namespace kitty

namespace std
{
template <>
struct hash<kitty::dynamic_truth_table>
{
    std::size_t operator()(const kitty::dynamic_truth_table& tt) const { return kitty::hash<kitty::dynamic_truth_table>{}(tt); }
};
}  // namespace std
