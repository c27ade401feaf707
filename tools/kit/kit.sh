#!/bin/bash
# kit.sh OUT MAIN.cc [repo sources...]: compiles MAIN.cc and the given sources
# of the current directory (/repo) against the installed headers; prints
# nothing when it works. KIT_LLVM=1 for the LLVM half, KIT_FLAGS for more flags,
# KIT_QUIPPER=1 links the perf.data stand-in.
set -e
K=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
OUT=$1; MAIN=$2; shift 2
W=$(mktemp -d /tmp/kit.XXXXXX); trap 'rm -rf "$W"' EXIT
bash "$K/make_absl_tree.sh" "$W/absl"
mkdir "$W/pb"
protoc -I "$K/shim/quipper" --cpp_out="$W/pb" "$K/shim/quipper/perf_data.proto"
for p in llvm_propeller_cfg llvm_propeller_options; do
  [ -f $p.proto ] && protoc -I . --cpp_out="$W/pb" $p.proto
done
F="-std=gnu++17 -O0 -U_FORTIFY_SOURCE -include $K/shim/sim_prelude.h -w -I$K/shim -I$K/shim/quipper -I$W/absl -I. -Iutil -I$W/pb $KIT_FLAGS"
L=
if [ -n "$KIT_LLVM" ]; then
  bash "$K/make_llvm_overlay.sh" "$W/llvmo"
  F="$F -DHAVE_LLVM=1 -I$W/llvmo -isystem /usr/lib/llvm-20/include"
  L="/usr/lib/llvm-20/lib/libLLVM.so -Wl,-rpath,/usr/lib/llvm-20/lib"
fi
X="$MAIN $K/kit_stub.cc"
[ -n "$KIT_QUIPPER" ] && X="$X $K/shim/quipper/quipper.cc $W/pb/perf_data.pb.cc"
for p in $KIT_PB; do X="$X $W/pb/$p"; done
for s in "$@"; do X="$X $s"; done
n=0; O=
for s in $X; do n=$((n+1)); O="$O $W/$n.o"; echo "g++ $F -c $s -o $W/$n.o"; done | xargs -P 8 -I{} sh -c '{}'
n=0; O=; for s in $X; do n=$((n+1)); O="$O $W/$n.o"; done
g++ -o "$OUT" $O $L -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lprotobuf -lelf -lcrypto -lz -lpthread -ldl
