#!/bin/bash
# Builds the committed fixture binaries (not run by the checks).
set -e
cd "$(dirname "$0")"; O=..; C="-O2 -ffreestanding -nostdlib -fno-exceptions -fno-rtti -fno-stack-protector -fno-asynchronous-unwind-tables -Wl,-e,_start -Wl,-z,noseparate-code"
R="-fdebug-prefix-map=$PWD=/src/app -ffile-prefix-map=$PWD=/src/app"
g++ $C $R -gdwarf-4 -no-pie -Wl,--build-id=0x1122334455667788990011223344556677889900 a.cc b.cc stub.cc -o $O/gcc_d4
g++ $C $R -gdwarf-5 -no-pie -Wl,--build-id=0x2122334455667788990011223344556677889900 a.cc b.cc stub.cc -o $O/gcc_d5
g++ $C $R -gdwarf-5 -fPIE -pie -Wl,--build-id=0x3122334455667788 a.cc b.cc stub.cc -o $O/gcc_d5_pie
g++ $C $R -gdwarf-4 -ffunction-sections -freorder-blocks-and-partition -no-pie -Wl,--build-id=none a.cc b.cc stub.cc -o $O/gcc_d4_sections
clang++ $C $R -gdwarf-4 -no-pie -fdebug-info-for-profiling -Wl,--build-id=0x4122334455667788990011223344556677889900 a.cc b.cc stub.cc -o $O/clang_d4
g++ $C $R -m32 -gdwarf-4 -no-pie -Wl,--build-id=0x6122334455667788990011223344556677889900 a.cc b.cc stub.cc -o $O/gcc_d4_32
N="-no-pie -Wl,--build-id=none a.cc b.cc stub.cc -o"; C0="${C/-O2 /}"
g++ -O2 $C0 $R -gdwarf-2 -gstrict-dwarf $N $O/gcc_d2
g++ -O3 $C0 $R -gdwarf-3 $N $O/gcc_d3_o3
g++ -Os $C0 $R -gdwarf-5 -ffunction-sections -Wl,--gc-sections $N $O/gcc_d5_os
g++ -O0 $C0 $R -gdwarf-4 $N $O/gcc_d4_o0
g++ -O3 $C0 $R -gdwarf-5 -gno-as-loc-support $N $O/gcc_d5_noasloc
g++ -O2 -g $C0 $R -flto $N $O/gcc_lto
clang++ -O2 $C0 $R -gdwarf-3 $N $O/clang_d3
clang++ -O2 $C0 $R -gline-tables-only -gdwarf-4 $N $O/clang_lines
A="--target=aarch64-linux-gnu -fuse-ld=lld"
clang++ $A -O2 $C0 $R -gdwarf-4 -fdebug-info-for-profiling -static -Wl,--build-id=0x7122334455667788990011223344556677889900 a.cc b.cc stub.cc -o $O/arm_d4
clang++ $A -O1 $C0 $R -gdwarf-5 -fPIE -pie -Wl,--build-id=none a.cc b.cc stub.cc -o $O/arm_d5
clang++ -O2 $C0 $R -gdwarf-5 -no-pie -fdebug-info-for-profiling -Wl,--build-id=0x8122334455667788990011223344556677889900 a.cc b.cc stub.cc -o $O/clang_d5
clang++ -O2 $C0 $R -gdwarf-5 -ffunction-sections -Wl,--gc-sections $N $O/clang_d5_sec
clang++ -O3 -funroll-loops $C0 $R -gdwarf-4 -no-pie -fdebug-info-for-profiling -mllvm -enable-fs-discriminator -mllvm -improved-fs-discriminator=true -Wl,--build-id=0x9122334455667788990011223344556677889900 a.cc b.cc stub.cc -o $O/clang_fs
# Kernel modules: relocatable; and for the golden files the same code linked with sections far apart.
K="-O2 -ffreestanding -fno-exceptions -fno-rtti -fno-stack-protector -fno-asynchronous-unwind-tables -fno-pic -mcmodel=kernel"
ko() {
  local o=$1 cc=$2; shift 2
  for f in k a b stub; do $cc $K $R "$@" -c $f.cc -o /tmp/ko_$f.o; done
  ld -r --force-group-allocation -T ko.ld --build-id=0xa122334455667788990011223344556677889900 /tmp/ko_{k,a,b,stub}.o -o $O/$o
  ld -e 0 -T ko_exe.ld $O/$o -o /tmp/$o.exe
  rm /tmp/ko_{k,a,b,stub}.o
}
ko ko_d4 g++ -gdwarf-4
ko ko_d5 clang++ -gdwarf-5 -fdebug-info-for-profiling
# Split DWARF: the .dwo files are named by absolute paths, /sim being where the simulated files are.
split() {
  local o=$1; shift
  mkdir -p /sim/$o
  for f in a b stub; do "$@" $C0 $R -gsplit-dwarf -c $f.cc -o /sim/$o/$f.o; cp /sim/$o/$f.dwo $O/$o.$f.dwo; done
  g++ -nostdlib -Wl,-e,_start -Wl,-z,noseparate-code -no-pie -Wl,--build-id=none /sim/$o/{a,b,stub}.o -o $O/$o
}
split split_gcc_d4 g++ -O2 -gdwarf-4
split split_gcc_d5 g++ -O2 -gdwarf-5
split split_gcc_o3 g++ -O3 -gdwarf-4
split split_clang_d4 clang++ -O2 -gdwarf-4
split split_clang_d5 clang++ -O2 -gdwarf-5
for o in split_gcc_d4 split_gcc_o3 split_clang_d4; do timeout 20 dwp -e $O/$o -o $O/$o.dwp; done
