#pragma once
#include <cstdint>
#include <iterator>
#include <type_traits>
#include <utility>

namespace mockturtle
{
template <typename IntType>
struct range_iter
{
    using iterator_category = std::random_access_iterator_tag;
    using value_type        = IntType;
    using difference_type   = std::ptrdiff_t;
    using pointer           = const IntType*;
    using reference         = IntType;
    IntType     v{};
    IntType     operator*() const { return v; }
    IntType     operator[](difference_type d) const { return static_cast<IntType>(v + d); }
    range_iter& operator++() { ++v; return *this; }
    range_iter  operator++(int) { auto c = *this; ++v; return c; }
    range_iter& operator--() { --v; return *this; }
    range_iter  operator--(int) { auto c = *this; --v; return c; }
    range_iter& operator+=(difference_type d) { v = static_cast<IntType>(v + d); return *this; }
    range_iter& operator-=(difference_type d) { v = static_cast<IntType>(v - d); return *this; }
    friend range_iter operator+(range_iter a, difference_type d) { return a += d; }
    friend range_iter operator+(difference_type d, range_iter a) { return a += d; }
    friend range_iter operator-(range_iter a, difference_type d) { return a -= d; }
    friend difference_type operator-(range_iter a, range_iter b) { return static_cast<difference_type>(a.v) - static_cast<difference_type>(b.v); }
    friend bool operator==(range_iter a, range_iter b) { return a.v == b.v; }
    friend bool operator!=(range_iter a, range_iter b) { return a.v != b.v; }
    friend bool operator<(range_iter a, range_iter b) { return a.v < b.v; }
    friend bool operator>(range_iter a, range_iter b) { return a.v > b.v; }
    friend bool operator<=(range_iter a, range_iter b) { return a.v <= b.v; }
    friend bool operator>=(range_iter a, range_iter b) { return a.v >= b.v; }
};
template <typename IntType>
struct range_t
{
    IntType b, e;
    auto begin() const { return range_iter<IntType>{b}; }
    auto end() const { return range_iter<IntType>{e}; }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
};
template <typename IntType = int64_t>
range_t<IntType> range(IntType from, IntType to)
{
    return {from, to};
}
template <typename IntType = int64_t>
range_t<IntType> range(IntType to)
{
    return {IntType{}, to};
}

namespace detail
{
template <class Fn, class ElementType, class ReturnType>
inline constexpr bool is_callable_with_index_v = std::is_invocable_r_v<ReturnType, Fn, ElementType&, uint32_t>;
template <class Fn, class ElementType, class ReturnType>
inline constexpr bool is_callable_without_index_v = std::is_invocable_r_v<ReturnType, Fn, ElementType&>;

// returns true iff iteration shall go on
template <class ElementType, class Fn>
bool shim_apply(Fn& fn, ElementType e, uint32_t idx)
{
    if constexpr (std::is_invocable_v<Fn&, ElementType, uint32_t>)
    {
        using R = std::invoke_result_t<Fn&, ElementType, uint32_t>;
        if constexpr (std::is_same_v<R, bool>) { return fn(e, idx); }
        else { fn(e, idx); return true; }
    }
    else
    {
        using R = std::invoke_result_t<Fn&, ElementType>;
        if constexpr (std::is_same_v<R, bool>) { return fn(e); }
        else { fn(e); return true; }
    }
}
template <class Iterator, class Fn>
Iterator foreach_element(Iterator begin, Iterator end, Fn&& fn, uint32_t counter_offset = 0)
{
    using element_type = typename std::iterator_traits<Iterator>::value_type;
    while (begin != end)
    {
        if (!shim_apply<element_type>(fn, static_cast<element_type>(*begin++), counter_offset++)) { return begin; }
    }
    return begin;
}
template <class Iterator, class PredFn, class Fn>
Iterator foreach_element_if(Iterator begin, Iterator end, PredFn&& pred, Fn&& fn, uint32_t counter_offset = 0)
{
    using element_type = typename std::iterator_traits<Iterator>::value_type;
    while (begin != end)
    {
        if (!pred(*begin)) { ++begin; continue; }
        if (!shim_apply<element_type>(fn, static_cast<element_type>(*begin++), counter_offset++)) { return begin; }
    }
    return begin;
}
template <class Iterator, class ElementType, class TransformFn, class Fn>
Iterator foreach_element_transform(Iterator begin, Iterator end, TransformFn&& transform, Fn&& fn, uint32_t counter_offset = 0)
{
    while (begin != end)
    {
        if (!shim_apply<ElementType>(fn, static_cast<ElementType>(transform(*begin++)), counter_offset++)) { return begin; }
    }
    return begin;
}
}  // namespace detail
}  // namespace mockturtle
