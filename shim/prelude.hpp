// Bridges the installed fmt 9 to the overload fiction uses of a newer fmt, and the transitive includes it relies on.
#pragma once
#include <cmath>
#include <string>
#include <fmt/color.h>
#include <fmt/format.h>
#if FMT_VERSION < 100000
namespace fmt
{
template <typename... Args>
std::string format(const text_style& ts, basic_runtime<char> f, const Args&... args)
{
    return vformat(ts, string_view(f.str), fmt::make_format_args(args...));
}
}  // namespace fmt
#endif
