// PerfDataSampleReader: LBR and plain samples; SimpleSpeDataSampleReader.
#include <functional>
#include <regex>
#include "perf_model.h"
#include "profile_creator.h"
#include "sample_reader.h"
#include "samples_model.h"
#include "simple_spe_sample_reader.h"

int sample_merger_main(int, char**);
using devtools_crosstool_autofdo::PerfDataSampleReader;
using devtools_crosstool_autofdo::SimpleSpeDataSampleReader;
using perfgen::Gen;
using samples::Samples;
using perfgen::Expect;
using perfgen::GenFile;
using perfgen::IdHex;
using perfgen::IdBytes;
using sim::Choose;
using sim::Disk;
using sim::ProcResult;
using sim::Str;

namespace {
const std::vector<sim::FaultKind> kReadFaults = {sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kVanish, sim::kCrash, sim::kSlowIo};
std::string Times(const std::map<uint64_t, uint64_t>& m) { std::string s; for (auto& x : m) s += Str("%lx@%lu ", x.first, x.second); return s; }
std::string Regex() {
  static const char* v[] = {".*/app$", ".*/other$", "vmlinux$|kallsyms", "app"};
  return v[Choose(4, "regex")];
}
// A recording that can be read, but makes no sense: a mapping without end.
std::string Senseless(const std::string& data) {
  quipper::PerfDataProto p, q;
  p.ParseFromArray(data.data() + 16, data.size() - 16);
  q = p; q.clear_events();
  int at = Choose(p.events_size() + 1, "where");
  for (int i = 0; i <= p.events_size(); ++i) {
    if (i == at) { auto* e = q.add_events(); e->mutable_header()->set_type(quipper::PERF_RECORD_MMAP); auto* m = e->mutable_mmap_event(); m->set_pid(77); m->set_filename("/usr/bin/app"); m->set_start(~0xfffull); m->set_len(0x10000); m->set_pgoff(0); }
    if (i < p.events_size()) *q.add_events() = p.events(i);
  }
  return quipper::SerializePerfData(q);
}
}  // namespace

// Several perf.data files, some unreadable, into one reader.
SIM_SCENARIO(perf_histories, "P10", 4) {
  sim::SwarmAlloc(); sim::SwarmHash();
  std::string build_id = Choose(2, "by-build-id") ? IdHex(Choose(3, "which-id")) : "";
  std::string re = Regex();
  int n = 1 + Choose(4, "files");
  Expect want; std::vector<bool> good;
  for (int i = 0; i < n; ++i) {
    Expect e;
    std::string data = GenFile(build_id, re, &e);
    bool ok = Choose(6, "damaged") != 5;
    if (!ok) data = Choose(3, "how") ? data.substr(0, Choose(data.size(), "cut")) : Senseless(data);
    Disk::Write(Str("/sim/p%d", i), data);
    good.push_back(ok);
    if (ok) { want.s.Add(e.s); for (auto& t : e.first_time) want.first_time.insert(t); want.kernel |= e.kernel; }
  }
  bool faults = Choose(3, "faults") == 2;
  if (faults) { sim::SwarmFaults({sim::kReadEio, sim::kOpenFail, sim::kShortRead}, "/sim/p"); }
  else if (Choose(2, "short")) sim::SetFault(sim::kShortRead, 1 + Choose(3, "rate"));
  ProcResult r = sim::Process("read", [&] {
    PerfDataSampleReader rd("/sim/p0", re, build_id);
    std::string log;
    for (int i = 0; i < n; ++i) {
      uint64_t h = sim::HardFaults();
      std::string before = samples::Of(rd).Canon();
      bool ok = rd.Append(Str("/sim/p%d", i));
      bool hard = sim::HardFaults() > h;
      if (ok && !good[i]) return Str("BAD damaged file %d accepted", i);
      if (!ok && good[i] && !hard) return Str("BAD intact file %d refused", i);
      if (!ok && samples::Of(rd).Canon() != before) return Str("BAD refused file %d changed the samples", i);
      if (!ok) log += Str("-%d", i);
    }
    return log + "|" + samples::Of(rd).Canon() + Times(rd.address_timestamp_map()) + (rd.IsKernelSample() ? "K" : "U");
  });
  SIM_REQUIRE(r.Ok(), "crashed", r.Describe());
  SIM_REQUIRE(r.out.compare(0, 3, "BAD"), "wrong-verdict", r.out);
  std::string got = r.out.substr(r.out.find('|') + 1);
  sim::State(sim::HashStr(got));
  bool lost_good = false;  // an intact file lost to an injected fault
  std::string lost = r.out.substr(0, r.out.find('|'));
  for (int i = 0; i < n; ++i) if (good[i] && lost.find(Str("-%d", i)) != std::string::npos) lost_good = true;
  if (lost_good) { sim::Count("reach.lost_file"); return; }
  std::string w = want.s.Canon() + Times(want.first_time) + (want.kernel ? "K" : "U");
  SIM_REQUIRE(got == w, "samples-differ", "expected " + w.substr(0, 700) + " got " + got.substr(0, 700));
  sim::Count("reach.compared"); if (!want.s.ranges.empty()) sim::Count("reach.ranges"); if (want.kernel) sim::Count("reach.kernel"); if (n > 1) sim::Count("reach.multi_file");
}
// The order of the files does not matter.
SIM_SCENARIO(perf_file_order, "P10", 1) {
  std::string build_id = Choose(2, "by-build-id") ? IdHex(Choose(3, "which-id")) : "";
  std::string re = Regex();
  int n = 2 + Choose(3, "files"); std::vector<int> order;
  for (int i = 0; i < n; ++i) { Expect e; Disk::Write(Str("/sim/p%d", i), GenFile(build_id, re, &e)); order.push_back(i); }
  auto run = [&] {
    ProcResult r = sim::Process("read", [&] {
      PerfDataSampleReader rd("/sim/p0", re, build_id);
      for (int i : order) if (!rd.Append(Str("/sim/p%d", i))) return std::string("false");
      return samples::Of(rd).Canon() + (rd.IsKernelSample() ? "K" : "U");
    });
    SIM_REQUIRE(r.Ok(), "crashed", r.Describe());
    return r.out;
  };
  std::string a = run();
  sim::Shuffle(order, "order"); sim::SwarmAlloc(); sim::SwarmHash();
  std::string b = run();
  SIM_REQUIRE(a == b, "order-dependent", "one order " + a.substr(0, 500) + " another " + b.substr(0, 500));
  sim::Count("reach.orders");
}
// sample_merger over perf.data inputs.
SIM_SCENARIO(perf_merger, "P10", 2) {
  // An ELF file with a build id shorter than 20 bytes (padded), or none.
  bool with_id = Choose(2, "build-id");
  const std::string& elf = sim::TestData(with_id ? "propeller_barebone_nopie_buildid.bin" : "propeller_barebone_pie_nobuildid.bin");
  Disk::WriteConst("/sim/bin/app", elf.data(), elf.size());
  int n = 1 + Choose(3, "files"); std::string list; Samples sum;
  if (Choose(2, "previous")) { Samples s = samples::Generate(); Disk::Write("/sim/out", s.Canon()); sum.Add(s); }
  for (int i = 0; i < n; ++i) {
    Expect e;
    // By build id nothing matches here: the ids in the data are others.
    std::string d = GenFile(with_id ? std::string("none") : "", ".*/app$", &e);
    Disk::Write(Str("/sim/p%d", i), d); list += (i ? "," : "") + Str("/sim/p%d", i); sum.Add(e.s);
  }
  sim::SwarmAlloc(); sim::SwarmHash();
  bool faults = Choose(3, "faults") == 2;
  std::string before = Disk::Exists("/sim/out") ? Disk::Read("/sim/out") : "";
  if (faults) sim::SwarmFaults(kReadFaults, "/sim/p");
  ProcResult r = sim::RunMain(sample_merger_main, {"sample_merger", "--profiler=perf", "--binary=/sim/bin/app", "--profiles=" + list, "--output_file=/sim/out"});
  sim::ClearFaults();
  if (!r.Ok()) {
    SIM_REQUIRE(sim::HardFaults() > 0, "spurious-failure", r.Describe());
    SIM_REQUIRE((Disk::Exists("/sim/out") ? Disk::Read("/sim/out") : "") == before, "failed-merge-changed-output", "inputs failed, output changed");
    sim::Count("reach.merge_failed"); return;
  }
  SIM_REQUIRE(Disk::Read("/sim/out") == sum.Canon(), "samples-differ", "expected " + sum.Canon().substr(0, 500) + " got " + Disk::Read("/sim/out").substr(0, 500));
  sim::Count("reach.merged");
}

// ---- P13: Arm SPE (simple reader) ------------------------------------------
using perfgen::GenSpe; using perfgen::SpeExpect;
SIM_SCENARIO(spe_simple_histories, "P13", 3) {
  int n = 1 + Choose(3, "files"); Samples sum; std::vector<bool> good;
  for (int i = 0; i < n; ++i) {
    SpeExpect e; std::string d = GenSpe(&e);
    if (Choose(8, "damaged") == 7) { d = d.substr(0, Choose(d.size(), "cut")); e.ok = false; }
    Disk::Write(Str("/sim/s%d", i), d); good.push_back(e.ok); if (e.ok) sum.Add(e.s);
  }
  sim::SwarmAlloc(); sim::SwarmHash();
  if (Choose(3, "faults") == 2) sim::SwarmFaults({sim::kReadEio, sim::kOpenFail, sim::kShortRead}, "/sim/s");
  ProcResult r = sim::Process("read spe", [&] {
    SimpleSpeDataSampleReader rd("/sim/s0", "/data/app");
    bool lost = false;
    for (int i = 0; i < n; ++i) {
      uint64_t h = sim::HardFaults(); std::string before = samples::Of(rd).Canon();
      bool ok = rd.Append(Str("/sim/s%d", i)), hard = sim::HardFaults() > h;
      if (ok && !good[i]) return Str("BAD useless file %d accepted", i);
      if (!ok && good[i] && !hard) return Str("BAD intact file %d refused", i);
      if (!ok && samples::Of(rd).Canon() != before) return Str("BAD refused file %d changed the samples", i);
      if (!ok && good[i]) lost = true;
    }
    return lost ? std::string("lost") : samples::Of(rd).Canon();
  });
  SIM_REQUIRE(r.Ok(), "crashed", r.Describe());
  SIM_REQUIRE(r.out.compare(0, 3, "BAD"), "wrong-verdict", r.out);
  if (r.out == "lost") { sim::Count("reach.lost_file"); return; }
  SIM_REQUIRE(r.out == sum.Canon(), "samples-differ", "expected " + sum.Canon().substr(0, 600) + " got " + r.out.substr(0, 600));
  sim::Count("reach.compared"); sim::State(sim::HashStr(r.out));
}
