// Header-only StrFormat family with %v / AbslStringify (absent from the
// installed Abseil). Semantics: printf with type-directed length.
#ifndef SIM_STR_FORMAT_H_
#define SIM_STR_FORMAT_H_
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
namespace absl {
namespace simfmt {
struct Arg {
  enum K { I, U, D, S, P, C } k = I;
  long long i = 0; unsigned long long u = 0; double d = 0; std::string s;
  const void* p = nullptr; int bytes = 8;
};
template <typename T, typename = void> struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(
    std::declval<::simstr::StringSink&>(), std::declval<const T&>()))>> : std::true_type {};
template <typename T> Arg Make(const T& v) {
  Arg a;
  if constexpr (HasStringify<T>::value) {
    a.k = Arg::S; ::simstr::StringSink sink{&a.s}; AbslStringify(sink, v);
  } else if constexpr (std::is_same_v<T, bool>) { a.k = Arg::I; a.i = v; a.u = v; a.bytes = 4; }
  else if constexpr (std::is_same_v<T, char>) { a.k = Arg::C; a.i = v; a.u = (unsigned char)v; a.bytes = 1; }
  else if constexpr (std::is_enum_v<T>) { return Make(static_cast<std::underlying_type_t<T>>(v)); }
  else if constexpr (std::is_floating_point_v<T>) { a.k = Arg::D; a.d = v; }
  else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) { a.k = Arg::I; a.i = v; a.u = (std::make_unsigned_t<T>)v; a.bytes = sizeof(T); }
  else if constexpr (std::is_integral_v<T>) { a.k = Arg::U; a.u = v; a.i = (long long)v; a.bytes = sizeof(T); }
  else if constexpr (std::is_convertible_v<const T&, const char*>) { a.k = Arg::S; const char* c = v; a.s = c ? c : ""; }
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) { a.k = Arg::S; a.s = std::string(std::string_view(v)); }
  else { a.k = Arg::P; a.p = (const void*)v; }
  return a;
}
inline std::string Printf(const char* f, ...) {
  va_list ap; va_start(ap, f); va_list ap2; va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, f, ap); va_end(ap);
  std::string r(n, 0); vsnprintf(&r[0], n + 1, f, ap2); va_end(ap2); return r;
}
inline std::string Run(std::string_view f, const std::vector<Arg>& args) {
  std::string out; size_t n = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { out += f[i]; continue; }
    if (i + 1 < f.size() && f[i + 1] == '%') { out += '%'; ++i; continue; }
    std::string spec = "%"; ++i;
    while (i < f.size() && std::string_view("-+ #0").find(f[i]) != std::string_view::npos) spec += f[i++];
    auto num = [&]() {
      if (i < f.size() && f[i] == '*') { spec += std::to_string(n < args.size() ? args[n].i : 0); ++n; ++i; return; }
      while (i < f.size() && isdigit((unsigned char)f[i])) spec += f[i++];
    };
    num();
    if (i < f.size() && f[i] == '.') { spec += f[i++]; num(); }
    while (i < f.size() && std::string_view("hlLqjzt").find(f[i]) != std::string_view::npos) ++i;
    char c = i < f.size() ? f[i] : 's';
    Arg a; if (n < args.size()) a = args[n]; ++n;
    if (c == 'v') c = a.k == Arg::S ? 's' : a.k == Arg::D ? 'g' : a.k == Arg::U ? 'u' : a.k == Arg::P ? 'p' : a.k == Arg::C ? 'c' : 'd';
    switch (c) {
      case 'd': case 'i': out += a.k == Arg::U ? Printf((spec + "llu").c_str(), a.u) : Printf((spec + "lld").c_str(), a.i); break;
      case 'u': case 'x': case 'X': case 'o': out += Printf((spec + "ll" + c).c_str(), a.u); break;
      case 'c': out += Printf((spec + "c").c_str(), (int)a.i); break;
      case 'p': out += Printf((spec + "p").c_str(), a.p); break;
      case 's': out += a.k == Arg::S ? Printf((spec + "s").c_str(), a.s.c_str()) : a.k == Arg::U ? std::to_string(a.u) : std::to_string(a.i); break;
      default: out += Printf((spec + c).c_str(), a.k == Arg::D ? a.d : a.k == Arg::U ? (double)a.u : (double)a.i);
    }
  }
  return out;
}
struct Streamed { std::string s; };
inline std::ostream& operator<<(std::ostream& os, const Streamed& s) { return os << s.s; }
}  // namespace simfmt
template <typename... A> std::string StrFormat(std::string_view f, const A&... a) { return simfmt::Run(f, {simfmt::Make(a)...}); }
template <typename... A> simfmt::Streamed StreamFormat(std::string_view f, const A&... a) { return {simfmt::Run(f, {simfmt::Make(a)...})}; }
template <typename... A> std::string& StrAppendFormat(std::string* d, std::string_view f, const A&... a) { return d->append(simfmt::Run(f, {simfmt::Make(a)...})); }
template <typename... A> int FPrintF(std::FILE* fp, std::string_view f, const A&... a) {
  std::string s = simfmt::Run(f, {simfmt::Make(a)...});
  if (fwrite(s.data(), 1, s.size(), fp) != s.size()) return -1;
  return (int)s.size();
}
template <typename... A> int PrintF(std::string_view f, const A&... a) { return FPrintF(stdout, f, a...); }
template <typename Sink, typename... A> bool Format(Sink* sink, std::string_view f, const A&... a) {
  std::string s = simfmt::Run(f, {simfmt::Make(a)...});
  if constexpr (std::is_same_v<Sink, std::string>) sink->append(s);
  else if constexpr (std::is_base_of_v<std::ostream, Sink>) *sink << s;
  else sink->Append(s);
  return true;
}
}  // namespace absl
#endif
