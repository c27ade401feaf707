// Random perf.data histories in the simulator's container format, and an
// independent resolution of addresses to (file, offset).
#ifndef PERF_GEN_H_
#define PERF_GEN_H_
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "../core/sim.h"
#include "quipper/arm_spe_decoder.h"
#include "quipper/perf_parser.h"
#include "quipper/perf_reader.h"

namespace perfgen {
using quipper::PerfDataProto;
struct Where { std::string file; uint64_t off = 0; bool known = false; };
struct Map { std::string file; uint64_t start, len, pgoff; };

struct Gen {
  PerfDataProto proto;
  std::map<uint32_t, std::vector<Map>> maps;
  std::vector<std::string> files;
  uint64_t clock = 1000;
  int max_branches = 8;
  std::function<uint64_t(const Map&)> pick;  // an address in a mapping

  void Mmap(uint32_t pid, const std::string& file, uint64_t start, uint64_t len, uint64_t pgoff) {
    auto* e = proto.add_events();
    e->mutable_header()->set_type(quipper::PERF_RECORD_MMAP2);
    auto* m = e->mutable_mmap_event();
    m->set_pid(pid); m->set_tid(pid); m->set_start(start); m->set_len(len); m->set_pgoff(pgoff); m->set_filename(file);
    m->mutable_sample_info()->set_pid(pid); m->mutable_sample_info()->set_tid(pid); m->mutable_sample_info()->set_sample_time_ns(clock);
    maps[pid].push_back({file, start, len, pgoff});
    e->set_timestamp(clock++);
  }
  Where Resolve(uint32_t pid, uint64_t a) const {
    auto it = maps.find(pid);
    Where w;
    if (it == maps.end()) return w;
    for (auto& m : it->second)  // the latest mapping wins
      if (a >= m.start && a - m.start < m.len) { w.file = m.file; w.off = a - m.start + m.pgoff; w.known = true; }
    return w;
  }
  uint64_t AnyAddr(uint32_t pid) {
    auto it = maps.find(pid);
    if (it == maps.end() || sim::Flip(1, 12, "wild")) return sim::Choose(1 << 24, "wild-addr");
    const Map& m = it->second[sim::Choose(it->second.size(), "map")];
    if (pick) return pick(m);
    // Mostly close together, so that ranges make sense.
    uint64_t span = std::min<uint64_t>(m.len, sim::Flip(1, 5, "far") ? m.len : 256);
    return m.start + sim::Choose(span, "in-map");
  }
};
}  // namespace perfgen
#endif
