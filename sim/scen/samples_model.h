// Reference model of aggregated samples and an independent reader and writer
// of the text sample format.
#ifndef SAMPLES_MODEL_H_
#define SAMPLES_MODEL_H_
#include <map>
#include <string>
#include "../core/sim.h"
#include "sample_reader.h"

namespace samples {
struct Samples {
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> ranges, branches;
  std::map<uint64_t, uint64_t> addrs;
  void Add(const Samples& o) {
    for (auto& x : o.ranges) ranges[x.first] += x.second;
    for (auto& x : o.branches) branches[x.first] += x.second;
    for (auto& x : o.addrs) addrs[x.first] += x.second;
  }
  std::string Canon() const {
    std::string s = sim::Str("%zu\n", ranges.size());
    for (auto& x : ranges) s += sim::Str("%lx-%lx:%lu\n", x.first.first, x.first.second, x.second);
    s += sim::Str("%zu\n", addrs.size());
    for (auto& x : addrs) s += sim::Str("%lx:%lu\n", x.first, x.second);
    s += sim::Str("%zu\n", branches.size());
    for (auto& x : branches) s += sim::Str("%lx->%lx:%lu\n", x.first.first, x.first.second, x.second);
    return s;
  }
};
inline Samples Of(const devtools_crosstool_autofdo::SampleReader& r) {
  Samples s;
  for (auto& x : r.range_count_map()) s.ranges[x.first] = x.second;
  for (auto& x : r.address_count_map()) s.addrs[x.first] = x.second;
  for (auto& x : r.branch_count_map()) s.branches[x.first] = x.second;
  return s;
}
// Addresses from a small pool, so that merges meet.
inline uint64_t Addr() {
  switch (sim::Choose(6, "addr-kind")) {
    case 5: return ~uint64_t{0} - sim::Choose(3, "addr");
    case 4: return sim::Choose(uint64_t{1} << 47, "addr");
    case 3: return sim::Choose(3, "addr");
    default: return 0x400000 + 4 * sim::Choose(12, "addr");
  }
}
inline uint64_t Cnt() {
  switch (sim::Choose(8, "count-kind")) {
    case 7: return uint64_t{1} << sim::Choose(60, "count");
    case 6: return sim::Choose(1000000, "count");
    case 5: return 0;
    default: return 1 + sim::Choose(99, "count");
  }
}
inline Samples Generate(int max = 12) {
  Samples s;
  int kinds = 1 + sim::Choose(7, "kinds");  // which sections are filled
  if (kinds & 1) for (int i = sim::Choose(max, "ranges"); i > 0; --i) { uint64_t a = Addr(); s.ranges[{a, sim::Flip(1, 8, "odd-range") ? Addr() : a + sim::Choose(64, "len")}] += Cnt(); }
  if (kinds & 2) for (int i = sim::Choose(max, "addrs"); i > 0; --i) { uint64_t a = Addr(); s.addrs[a] += Cnt(); }
  if (kinds & 4) for (int i = sim::Choose(max, "branches"); i > 0; --i) { uint64_t a = Addr(), b = Addr(); s.branches[{a, b}] += Cnt(); }
  return s;
}
}  // namespace samples
#endif
