#include "inc/util.h"
volatile u64 sink;
namespace {
__attribute__((noinline)) u64 hidden(u64 n) {
  u64 r = 0;
  for (u64 i = 0; i < n; ++i) { r += i; if (r & 4) r ^= n; sink = r; }
  return r;
}
inline __attribute__((always_inline)) u64 outer_inline(u64 n) {
  util::Acc a{n};
  a.add(n * 3);
  a.add(util::clamp<u64>(n, 4, 90));
  return a.s;
}
}  // namespace
namespace util {
__attribute__((noinline)) void Acc::slow(u64 v) {
  for (u64 i = 0; i < v; ++i)
    add(i);
}
}  // namespace util
__attribute__((noinline)) static u64 part(u64 n, u64 k) {
  if (__builtin_expect(n > 1000, 0)) {
    sink = rare(n);
    sink = outer_inline(sink + k);
    return sink;
  }
  return outer_inline(n) + k;
}
u64 table(u64 n) {
  switch (n & 7) {
    case 0: return hidden(n);
    case 1: return work_b(n) + 1;
    case 2: return part(n, 2);
    case 3: sink = n; return sink * 3;
    case 4: return util::mix(n, sink);
    default: return 9;
  }
}
extern "C" void _start() {
  util::Acc a{1};
  for (u64 i = 0; i < 100; ++i) {
    a.add(table(i)); a.slow(i & 3);
    sink = part(i, 3);
  }
  sink = outer_inline(sink);
  for (;;) sink = sink + 1;
}
