// The header that the build system generates.
#ifndef FICTION_VERSION_INFO_HPP
#define FICTION_VERSION_INFO_HPP
#include <ctime>
namespace fiction
{
inline constexpr const char* FICTION_VERSION = "fiction v0";
inline constexpr const char* FICTION_REPO    = "https://github.com/cda-tum/fiction";
inline constexpr const char* COMPILED_DATE   = "";
inline constexpr const char* COMPILED_TIME   = "";
}  // namespace fiction
#endif
