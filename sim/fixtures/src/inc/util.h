#pragma once
typedef unsigned long u64;
extern volatile u64 sink;
namespace util {
static inline __attribute__((always_inline)) u64 mix(u64 a, u64 b) {
  a ^= b + 0x9e3779b9 + (a << 6);
  return a ^ (a >> 3);
}
template <typename T> inline __attribute__((always_inline)) T clamp(T v, T lo, T hi) {
  if (v < lo)
    return lo;
  return v > hi ? hi : v;
}
struct Acc {
  u64 s;
  inline __attribute__((always_inline)) void add(u64 v) {
    s = mix(s, v);
    sink = s;
  }
  void slow(u64 v);
};
}  // namespace util
u64 work_b(u64 n);
u64 rare(u64 n);
