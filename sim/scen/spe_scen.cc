// P21: sampled branches (Arm SPE) of a binary, as the counts AutoFDO works on.
#include "spe_sample_reader.h"

#include "prop_spe.h"

namespace prop {
namespace {
using devtools_crosstool_autofdo::PerfSpeDataSampleReader;
using sim::Disk;
using sim::ProcResult;

ProcResult Read(bool disassemble, const std::string& regex) {
  return sim::Process("read spe perf data", [&] {
    PerfSpeDataSampleReader r(disassemble ? PerfSpeDataSampleReader::BranchIdStrategy::kDisassembly : PerfSpeDataSampleReader::BranchIdStrategy::kSampling, "/sim/p", regex, "/sim/app");
    if (!r.ReadAndSetTotalCount()) return std::string("refused");
    SpeCounts c;
    for (auto& b : r.branch_count_map()) c.branches[{b.first.first, b.first.second}] += b.second;
    for (auto& b : r.range_count_map()) c.ranges[{b.first.first, b.first.second}] += b.second;
    c.total = r.GetTotalCount();
    return c.Show();
  });
}
}  // namespace

SIM_SCENARIO(spe_ranges, "P21", 3) {
  sim::SwarmHash(); sim::SwarmAlloc();
  GenOpts o; o.arm = true; o.may_lack_id = true; o.dup_names = false;
  Bin x = MakeBin(o);
  static const char* regexes[] = {".*/app$", ".*/usr/.*app", "nothing-of-this", "app"};
  const std::string regex = x.kernel ? "kallsyms" : regexes[Choose(4, "regex")];
  bool disassemble = Choose(2, "disassemble");
  Perf p = MakeSpe(x, x.build_id.empty() ? "~" + regex : "", 10);
  Disk::Write("/sim/app", x.bytes); Disk::Write("/sim/p", p.bytes);
  sim::HashBytes(x.bytes.data(), x.bytes.size()); sim::HashBytes(p.bytes.data(), p.bytes.size());
  ProcResult r = Read(disassemble, regex);
  SIM_REQUIRE(r.Ok(), "crash", "no fault injected: " + r.Describe());
  std::string want = "refused";
  if (p.used) want = SpeModel(x, p, disassemble).Show();
  if (sim::Verbose()) sim::Show("expected:\n" + want + "read:\n" + r.out);
  SIM_REQUIRE(r.out == want, p.used ? "wrong-counts" : "accepted-unusable", "expected\n" + want + "read\n" + r.out);
  sim::Count(p.used ? disassemble ? "reach.disassembled" : "reach.sampled" : "reach.refused");
  if (!p.used) return;
  sim::Count("reach.compared"); sim::Count("reach.kernel", x.kernel); sim::Count("reach.pie", x.pie); sim::Count("reach.no_id", x.build_id.empty());
  sim::Count("reach.not_taken", p.not_taken.size());
  // Another order of events, then read faults.
  Disk::Write("/sim/p", Reordered(p));
  r = Read(disassemble, regex);
  SIM_REQUIRE(r.Ok() && r.out == want, "order", "other counts after reordering the events: " + r.Describe() + " " + r.out);
  std::vector<sim::FaultKind> kinds = {sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kMmapFail, sim::kStatFail, sim::kVanish, sim::kSlowIo, sim::kSeekFail};
  if (Choose(2, "one-kind")) kinds = {kinds[Choose(kinds.size(), "kind")]};
  static const char* prefix[] = {"/sim/", "/sim/p", "/sim/app"};
  sim::SwarmFaults(kinds, prefix[Choose(3, "where")]);
  if (Choose(3, "few") != 2) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
  r = Read(disassemble, regex);
  sim::ClearFaults();
  if (!r.Ok() || r.out == "refused") { SIM_REQUIRE(sim::FaultsFired() > 0, "spurious-failure", r.Describe()); sim::Count("reach.fault_refused"); return; }
  SIM_REQUIRE(r.out == want, "success-but-wrong", "reported success after a read fault, but\n" + r.out + "instead of\n" + want);
  sim::Count("reach.accepted");
}
}  // namespace prop
