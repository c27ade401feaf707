// Force-included before every /repo source: /opt/vp/build.sh force-includes
// <filesystem>; upstream's Abseil has string_view == std::string_view, which
// makes it a path source.
#ifndef SIM_PRELUDE_H_
#define SIM_PRELUDE_H_
#include <filesystem>
#include <vector>
#include "absl/strings/str_format.h"
#include "absl/strings/string_view.h"
namespace std::filesystem::__detail {
template <> inline constexpr bool __is_path_src<absl::string_view> = true;
template <> struct __source_value_type_impl<absl::string_view> { using type = char; };
template <> inline auto __effective_range<absl::string_view>(const absl::string_view& s) {
  return std::basic_string_view<char>(s.data(), s.size());
}
}  // namespace std::filesystem::__detail
#endif
