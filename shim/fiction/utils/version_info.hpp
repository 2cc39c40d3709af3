// Stand-in for the header CMake generates from version_info.hpp.in.
#ifndef FICTION_VERSION_INFO_HPP_IN
#define FICTION_VERSION_INFO_HPP_IN
namespace fiction
{
inline constexpr const char* FICTION_VERSION = "fiction v0.0.0";
inline constexpr const char* FICTION_REPO    = "https://github.com/cda-tum/fiction";
inline constexpr const char* COMPILED_DATE   = __DATE__;
inline constexpr const char* COMPILED_TIME   = __TIME__;
}  // namespace fiction
#endif
