#include "inc/util.h"
// A kernel module: code of other sections starts at the same addresses.
#define AT(s) __attribute__((section(s), used, noinline))
extern "C" AT(".init.text") u64 init_module(u64 n) {
  u64 r = n;
  while (r > 3) { r = util::mix(r, n); if (r & 1) r = util::clamp<u64>(r, 3, n); }
  sink = r;
  return r;
}
AT(".init.text") u64 setup_rings(u64 n) {
  for (u64 i = 0; i < n; ++i) sink = util::mix(i, init_module(n));
  return sink;
}
extern "C" AT(".exit.text") void cleanup_module() { sink = util::clamp<u64>(sink, 1, 2) + util::mix(sink, 7); }
