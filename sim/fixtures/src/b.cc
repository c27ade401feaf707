#include "inc/util.h"
template <int N> __attribute__((noinline)) u64 unrolled(u64 v) {
  if constexpr (N > 0) return unrolled<N - 1>(util::mix(v, N));
  else return v;
}
struct Shape {
  virtual u64 area(u64) const;
  u64 w;
};
u64 Shape::area(u64 k) const { return util::clamp<u64>(w * k, 1, 1000); }
struct Circle : Shape {
  u64 area(u64 k) const override { return util::mix(w, k) * 3; }
};
__attribute__((noinline, cold)) u64 rare(u64 n) {
  u64 r = n;
  while (r > 10) { r /= 3; sink = util::mix(r, n); }
  return r;
}
static inline __attribute__((always_inline)) u64 twice(u64 x, u64 a) { return util::mix(x, a) * 2; }
extern "C" u64 c_linkage(u64 a) { return twice(a, 3) + twice(a + 1, a); }
u64 work_b(u64 n) {
  u64 t = 0;
  for (u64 i = 0; i < n; i++) {
    if (i % 3 == 0) t += unrolled<3>(i); else t ^= util::clamp<u64>(i, 2, 50);
    if (i & 1) { t = util::mix(t, i); } else if (i & 2) t--; sink = t;
  }
  Circle c; c.w = n;
  const Shape* s = &c;
  return t + s->area(n) + c_linkage(t);
}
