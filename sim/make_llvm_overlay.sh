#!/bin/bash
# make_llvm_overlay.sh DST: copies of two LLVM headers that also accept
# absl::string_view (upstream's Abseil uses std::string_view itself).
set -e
SRC=/usr/lib/llvm-20/include
DST=$1
rm -rf "$DST.tmp"; mkdir -p "$DST.tmp/llvm/ADT"
python3 - "$SRC" "$DST.tmp" <<'PY'
import sys
src,dst=sys.argv[1:]
s=open(src+'/llvm/ADT/Twine.h').read()
a='    /*implicit*/ Twine(const StringRef &Str) : LHSKind(PtrAndLengthKind) {'
assert a in s
s=s.replace(a,'''    /*implicit*/ Twine(const absl::string_view &Str) : LHSKind(PtrAndLengthKind) {
      LHS.ptrAndLength.ptr = Str.data();
      LHS.ptrAndLength.length = Str.size();
    }
'''+a,1)
s=s.replace('#include "llvm/ADT/SmallVector.h"','#include "absl/strings/string_view.h"\n#include "llvm/ADT/SmallVector.h"',1)
open(dst+'/llvm/ADT/Twine.h','w').write(s)
s=open(src+'/llvm/ADT/StringRef.h').read()
a='    constexpr operator std::string_view() const {'
assert a in s
s=s.replace(a,'''    operator absl::string_view() const {
      return absl::string_view(data(), size());
    }
    /*implicit*/ constexpr StringRef(absl::string_view Str)
        : Data(Str.data()), Length(Str.size()) {}
'''+a,1)
s=s.replace('#include <string_view>','#include "absl/strings/string_view.h"\n#include <string_view>',1)
open(dst+'/llvm/ADT/StringRef.h','w').write(s)
PY
rm -rf "$DST"; mv "$DST.tmp" "$DST"
