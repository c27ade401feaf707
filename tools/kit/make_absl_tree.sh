#!/bin/bash
# make_absl_tree.sh DST: builds the include tree the simulator compiles /repo
# against: the installed Abseil headers with (a) string_view convertible
# from/to std::string_view (upstream's Abseil uses std::string_view itself),
# (b) AbslStringify support in StrCat, (c) the overlay headers of
# sim/shim/absl_overlay (hash containers, mutex, str_format, ...), which put
# hash order and thread scheduling behind the simulator's seams.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
DST=$1
rm -rf "$DST.tmp"; mkdir -p "$DST.tmp/third_party/abseil"
cp -r /usr/include/absl "$DST.tmp/absl"
ln -s ../../absl "$DST.tmp/third_party/abseil/absl"
python3 - "$DST.tmp/absl" <<'PY'
import sys,re
r=sys.argv[1]
p=r+'/strings/string_view.h'; s=open(p).read()
s=s.replace('#include <string>\n','#include <string>\n#include <string_view>\n#include <type_traits>\n',1)
a='  // Explicit conversion operators\n'
assert a in s
s=s.replace(a,'''  template <typename T, typename = std::enable_if_t<std::is_same_v<T, std::string_view>>>
  constexpr string_view(T sv) noexcept  // NOLINT (simulator)
      : ptr_(sv.data()), length_(sv.size()) {}
  constexpr operator std::string_view() const noexcept {  // NOLINT (simulator)
    return std::string_view(ptr_, length_);
  }
'''+a,1)
open(p,'w').write(s)
p=r+'/strings/str_cat.h'; s=open(p).read()
a='  AlphaNum(char c) = delete;'
assert a in s
s=s.replace(a,'''  template <typename T, typename = decltype(AbslStringify(
                            std::declval<::simstr::StringSink&>(),
                            std::declval<const T&>()))>
  AlphaNum(const T& v, std::string&& buf = {}) : piece_() {  // simulator
    ::simstr::StringSink sink{&buf};
    AbslStringify(sink, v);
    piece_ = absl::string_view(buf);
  }
  AlphaNum(std::string_view pc) : piece_(pc) {}  // simulator
'''+a,1)
s=s.replace('namespace absl {','''namespace simstr {
struct StringSink {
  std::string* out;
  void Append(std::string_view s) { out->append(s.data(), s.size()); }
  void Append(size_t n, char c) { out->append(n, c); }
};
}  // namespace simstr
namespace absl {''',1)
s=s.replace('#include <string>\n','#include <string>\n#include <string_view>\n',1)
open(p,'w').write(s)
PY
cp -r "$HERE/shim/absl_overlay/." "$DST.tmp/absl/"
rm -rf "$DST"; mv "$DST.tmp" "$DST"
