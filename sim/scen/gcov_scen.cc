// AutoFDO (.afdo) profiles: writer, reader, dump_gcov, profile_merger.
#include "absl/flags/flag.h"
#include "gcov.h"
#include "profile_model.h"
#include "profile_reader.h"
#include "profile_writer.h"

ABSL_DECLARE_FLAG(uint64_t, gcov_version);
int dump_gcov_main(int, char**);
int profile_merger_main(int, char**);

using namespace model;
using devtools_crosstool_autofdo::AutoFDOProfileReader;
using devtools_crosstool_autofdo::AutoFDOProfileWriter;
using devtools_crosstool_autofdo::SymbolMap;
using sim::Choose;
using sim::Disk;
using sim::ProcResult;
using sim::Str;

namespace {
uint64_t PickVersion() {
  static const uint64_t v[] = {0x3430372a, 3, 2, 1, 4};
  return v[Choose(5, "gcov-version")];
}
std::string WriteBody(const std::vector<Op>& ops, const std::string& path, uint64_t version) {
  absl::SetFlag(&FLAGS_gcov_version, version);
  SymbolMap m;
  for (auto& op : ops) Apply(op, &m);
  AutoFDOProfileWriter w(&m, version);
  return w.WriteToFile(path) ? "true" : "false";
}
ProcResult WriteProc(const std::vector<Op>& ops, const std::string& path, uint64_t version) {
  return sim::Process("write " + path, [&] { return WriteBody(ops, path, version); });
}
std::string ReadBody(const std::vector<std::string>& paths, bool ws, uint64_t mem_version = 0) {
  if (mem_version) absl::SetFlag(&FLAGS_gcov_version, mem_version);
  SymbolMap m;
  std::vector<std::unique_ptr<AutoFDOProfileReader>> rs;
  for (auto& p : paths) {
    rs.push_back(std::make_unique<AutoFDOProfileReader>(&m, true));
    if (!rs.back()->ReadFromFile(p)) return "false";
  }
  return Canon(m, ws);
}
ProcResult ReadProc(const std::vector<std::string>& paths, bool ws = true) {
  return sim::Process("read", [&] { return ReadBody(paths, ws); });
}
Model ModelOf(const std::vector<Op>& ops) { Model m; for (auto& o : ops) Apply(o, &m); return m; }
Model DropOldFields(Model m, uint64_t version) {
  if (version < 3) for (auto& s : m.syms) { s.second.file = ""; s.second.ts = 0; }
  return m;
}
// What a reader must see of `ops` written with `version`.
Model Expected(const std::vector<Op>& ops, uint64_t version, uint64_t threshold = 0) {
  return DropOldFields(AsWritten(ModelOf(ops).Above(threshold)), version);
}
void WsScale(Model*) {}
const std::vector<sim::FaultKind> kWriteFaults = {sim::kOpenFail, sim::kWriteEnospc, sim::kWriteEio, sim::kShortWrite, sim::kCloseEio, sim::kCrash, sim::kSlowIo};
const std::vector<sim::FaultKind> kReadFaults = {sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kVanish, sim::kCrash, sim::kSlowIo};
void WriteFaults(const std::string& prefix, uint64_t full_size) {
  sim::SwarmFaults(kWriteFaults, prefix);
  if (Choose(3, "disk-full") == 2) sim::SetDiskCapacity(sim::DiskUsed() + Choose(full_size + 2, "capacity"));
  if (Choose(2, "one-fault")) sim::SetMaxFaults(1 + Choose(3, "max-faults"));
}
}  // namespace

// ---- P03: what is written is what is read ---------------------------------
SIM_SCENARIO(afdo_roundtrip, "P03", 4) {
  sim::SwarmHash(); sim::SwarmAlloc();
  uint64_t v = PickVersion();
  GenOptions o; o.files = v >= 3;
  auto ops = Generate(o);
  ProcResult w = WriteProc(ops, "/sim/out.afdo", v);
  SIM_REQUIRE(w.Ok() && w.out == "true", "write-failed", "fault-free write: " + w.Describe() + " " + w.out);
  sim::State(sim::HashStr(Disk::Read("/sim/out.afdo")));
  sim::SetFault(sim::kShortRead, Choose(3, "short") ? 1 + Choose(3, "rate") : 0);
  if (Choose(2, "reader-hash")) sim::SwarmHash();
  ProcResult r = ReadProc({"/sim/out.afdo"});
  SIM_REQUIRE(r.Ok(), "read-failed", "fault-free read: " + r.Describe());
  std::string want = Canon(Expected(ops, v));
  SIM_REQUIRE(r.out == want, "roundtrip-mismatch", FirstDiff(want, r.out));
  sim::Count("reach.roundtrips");
}
// Several generations: read what was written, write it again, possibly under
// another hash order; the content never drifts.
SIM_SCENARIO(afdo_generations, "P03", 2) {
  sim::SwarmHash();
  uint64_t v = PickVersion();
  GenOptions o; o.files = v >= 3; o.ctor_names = false;
  auto ops = Generate(o);
  ProcResult w = WriteProc(ops, "/sim/g0", v);
  SIM_REQUIRE(w.Ok(), "write-failed", w.Describe());
  std::string want = Canon(Expected(ops, v));
  int gens = 1 + Choose(4, "generations");
  for (int g = 1; g <= gens; ++g) {
    sim::SwarmHash(); sim::SwarmAlloc();
    if (Choose(2, "short")) sim::SetFault(sim::kShortRead, 1 + Choose(4, "rate")); else sim::SetFault(sim::kShortRead, 0);
    std::string in = Str("/sim/g%d", g - 1), out = Str("/sim/g%d", g);
    ProcResult p = sim::Process("rewrite " + out, [&] {
      SymbolMap m;
      AutoFDOProfileReader r(&m, true);
      if (!r.ReadFromFile(in)) return std::string("false");
      AutoFDOProfileWriter wr(&m, absl::GetFlag(FLAGS_gcov_version));
      return wr.WriteToFile(out) ? std::string("true") : std::string("false");
    });
    SIM_REQUIRE(p.Ok() && p.out == "true", "rewrite-failed", p.Describe() + p.out);
    ProcResult r = ReadProc({out});
    SIM_REQUIRE(r.Ok(), "read-failed", r.Describe());
    SIM_REQUIRE(r.out == want, "generation-drift", Str("generation %d: ", g) + FirstDiff(want, r.out));
  }
}
// The summary stored in the profile agrees with the counters stored in it.
SIM_SCENARIO(afdo_summary, "P03", 1) {
  sim::SwarmHash();
  GenOptions o; o.ctor_names = false; o.max_count = 1 + Choose(1 << 20, "max");
  auto ops = Generate(o);
  ProcResult w = WriteProc(ops, "/sim/s", 0x3430372a);
  SIM_REQUIRE(w.Ok(), "write-failed", w.Describe());
  ProcResult r = sim::Process("read summary", [&] {
    SymbolMap m; AutoFDOProfileReader rd(&m, true); rd.ReadFromFile("/sim/s");
    auto* s = rd.GetSummaryInformation();
    if (!s) return std::string("none");
    std::string t = Str("%lu %lu %lu %lu %lu", s->total_count_, s->max_count_, s->max_function_count_, s->num_counts_, s->num_functions_);
    for (auto& d : s->detailed_summaries_) t += Str(" %u:%lu:%lu", d.cutoff_, d.min_count_, d.num_counts_);
    return t;
  });
  SIM_REQUIRE(r.Ok(), "read-failed", r.Describe());
  Model m = ModelOf(ops).Above(0);
  uint64_t total = 0, maxc = 0, maxf = 0, nc = 0;
  std::vector<uint64_t> counts;
  std::function<void(const Node&)> walk = [&](const Node& n) {
    for (auto& p : n.pos) { total += p.second.count; maxc = std::max(maxc, p.second.count); ++nc; counts.push_back(p.second.count); }
    for (auto& c : n.calls) walk(c.second);
  };
  for (auto& s : m.syms) { maxf = std::max(maxf, s.second.head); walk(s.second.body); }
  std::string want = Str("%lu %lu %lu %lu %lu", total, maxc, maxf, nc, (uint64_t)m.syms.size());
  std::sort(counts.rbegin(), counts.rend());
  static const uint32_t cut[] = {10000, 100000, 200000, 300000, 400000, 500000, 600000, 700000, 800000, 900000, 950000, 990000, 999000, 999900, 999990, 999999};
  for (uint32_t c : cut) {
    uint64_t need = (unsigned __int128)total * c / 1000000, sum = 0, seen = 0, minc = 0;
    size_t i = 0;
    while (sum < need && i < counts.size()) {
      minc = counts[i];
      while (i < counts.size() && counts[i] == minc) { sum += minc; ++seen; ++i; }
    }
    want += Str(" %u:%lu:%lu", c, minc, seen);
  }
  SIM_REQUIRE(r.out == want, "summary-mismatch", "expected '" + want.substr(0, 400) + "', got '" + r.out.substr(0, 400) + "'");
}

// ---- P01: a damaged profile is never taken for a whole one ------------------
namespace {
// Runs one of the three consumers; returns its answer ("" = it refused).
struct Answer { bool ok; std::string out; };
Answer Consume(int who, const std::string& path) {
  Answer a;
  if (who == 0) { ProcResult r = ReadProc({path}); a.ok = r.Ok(); a.out = r.out; if (r.out == "false") a.ok = false; }
  else if (who == 1) { ProcResult r = sim::RunMain(dump_gcov_main, {"dump_gcov", path}); a.ok = r.Ok(); a.out = r.text; }
  else {
    Disk::Remove("/sim/merged");
    ProcResult r = sim::RunMain(profile_merger_main, {"profile_merger", "--output_file=/sim/merged", path});
    a.ok = r.Ok(); a.out = Disk::Read("/sim/merged");
  }
  return a;
}
}  // namespace
SIM_SCENARIO(afdo_truncated, "P01", 3) {
  uint64_t v = PickVersion();
  GenOptions o; o.files = v >= 3;
  auto ops = Generate(o);
  ProcResult w = WriteProc(ops, "/sim/full", v);
  SIM_REQUIRE(w.Ok(), "write-failed", w.Describe());
  std::string full = Disk::Read("/sim/full");
  int who = Choose(3, "consumer");
  // The tail (working sets, 1536 bytes) and the rest, both covered.
  uint64_t cut = Choose(2, "region") ? Choose(full.size(), "cut") : full.size() - 1 - Choose(std::min<uint64_t>(full.size() - 1, 1700), "cut-tail");
  Disk::Write("/sim/torn", full.substr(0, cut));
  Answer a = Consume(who, "/sim/torn");
  sim::State(sim::Mix(who, cut * 8 / full.size()));
  SIM_REQUIRE(!a.ok, Str("truncated-accepted-%d", who), Str("a profile of %lu bytes cut to %lu was accepted", (unsigned long)full.size(), (unsigned long)cut));
  sim::Count("reach.truncations");
}
SIM_SCENARIO(afdo_torn_by_crash, "P01", 2) {
  uint64_t v = PickVersion();
  GenOptions o; o.files = v >= 3;
  auto ops = Generate(o);
  ProcResult w = WriteProc(ops, "/sim/full", v);
  SIM_REQUIRE(w.Ok(), "write-failed", w.Describe());
  std::string full = Disk::Read("/sim/full");
  if (Choose(2, "previous")) Disk::Write("/sim/out", full);  // an earlier run's output
  sim::SetFault(sim::kCrash, 1 + Choose(3, "crash-rate"));
  if (Choose(2, "short")) sim::SetFault(sim::kShortWrite, 1 + Choose(3, "short-rate"));
  w = WriteProc(ops, "/sim/out", v);
  sim::ClearFaults();
  int who = Choose(3, "consumer");
  Answer ref = Consume(who, "/sim/full");
  SIM_REQUIRE(ref.ok, "read-failed", "the complete profile was refused");
  if (!Disk::Exists("/sim/out")) { sim::Count("reach.crash_before_create"); return; }
  Answer a = Consume(who, "/sim/out");
  if (w.kind == ProcResult::kCrashed) sim::Count("reach.crashed_writes");
  if (a.ok) SIM_REQUIRE(Disk::Read("/sim/out") == full && a.out == ref.out, Str("torn-accepted-%d", who),
                        Str("%lu of %lu bytes survived the crash and were accepted", (unsigned long)Disk::Read("/sim/out").size(), (unsigned long)full.size()));
  else SIM_REQUIRE(Disk::Read("/sim/out") != full, "complete-refused", "the file was complete but refused");
}
SIM_SCENARIO(afdo_read_faults, "P01", 3) {
  uint64_t v = PickVersion();
  GenOptions o; o.files = v >= 3;
  auto ops = Generate(o);
  ProcResult w = WriteProc(ops, "/sim/in", v);
  SIM_REQUIRE(w.Ok(), "write-failed", w.Describe());
  int who = Choose(3, "consumer");
  Answer ref = Consume(who, "/sim/in");
  SIM_REQUIRE(ref.ok, "read-failed", "the complete profile was refused");
  sim::SwarmFaults(kReadFaults, "/sim/in");
  if (Choose(2, "one-fault")) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
  Answer a = Consume(who, "/sim/in");
  if (a.ok) SIM_REQUIRE(a.out == ref.out, Str("read-fault-accepted-%d", who), "after a read fault the tool succeeded with other content: " + FirstDiff(ref.out, a.out));
  else SIM_REQUIRE(sim::HardFaults() > 0, "spurious-failure", "failed without any fault (short reads are no fault)");
  if (!a.ok) sim::Count("reach.refused"); else sim::Count("reach.accepted");
}

// ---- P02: success means the complete profile is on disk --------------------
SIM_SCENARIO(afdo_write_faults, "P02", 3) {
  sim::SwarmHash();
  uint64_t v = PickVersion();
  GenOptions o; o.files = v >= 3;
  auto ops = Generate(o);
  ProcResult w = WriteProc(ops, "/sim/ref", v);
  SIM_REQUIRE(w.Ok() && w.out == "true", "write-failed", w.Describe());
  std::string full = Disk::Read("/sim/ref");
  if (Choose(2, "previous")) Disk::Write("/sim/out", std::string(Choose(9000, "old-size"), 'x'));
  WriteFaults("/sim/out", full.size());
  w = WriteProc(ops, "/sim/out", v);
  bool ok = w.Ok() && w.out == "true";
  sim::ClearFaults();
  sim::State(sim::Mix(ok, sim::HashStr(w.Describe())));
  if (ok) {
    SIM_REQUIRE(Disk::Read("/sim/out") == full, "success-but-incomplete", Str("reported success; %lu bytes on disk, expected %lu; %lu hard faults", (unsigned long)Disk::Read("/sim/out").size(), (unsigned long)full.size(), (unsigned long)sim::HardFaults()));
    SIM_REQUIRE(sim::FaultsFired(sim::kCloseEio) == 0, "close-error-ignored", "the close reported EIO and the write was reported as successful");
    sim::Count("reach.write_ok");
  } else {
    SIM_REQUIRE(sim::HardFaults() > 0, "spurious-failure", "failed without a hard fault: " + w.Describe() + w.out);
    sim::Count("reach.write_refused");
  }
}
SIM_SCENARIO(afdo_merger_write_faults, "P02", 2) {
  sim::SwarmHash();
  int n = 1 + Choose(3, "inputs");
  std::vector<std::string> args = {"profile_merger", "--output_file=/sim/ref"};
  for (int i = 0; i < n; ++i) {
    GenOptions o; o.stable_meta = true;
    ProcResult w = WriteProc(Generate(o), Str("/sim/in%d", i), 0x3430372a);
    SIM_REQUIRE(w.Ok(), "write-failed", w.Describe());
    args.push_back(Str("/sim/in%d", i));
  }
  ProcResult r = sim::RunMain(profile_merger_main, args);
  SIM_REQUIRE(r.Ok(), "merge-failed", r.Describe());
  std::string full = Disk::Read("/sim/ref");
  WriteFaults("/sim/out", full.size());
  args[1] = "--output_file=/sim/out";
  r = sim::RunMain(profile_merger_main, args);
  sim::ClearFaults();
  if (r.Ok()) {
    SIM_REQUIRE(Disk::Read("/sim/out") == full, "success-but-incomplete", "profile_merger exited 0 with an incomplete output");
    SIM_REQUIRE(sim::FaultsFired(sim::kCloseEio) == 0, "close-error-ignored", "close failed, exit 0");
    sim::Count("reach.write_ok");
  } else {
    SIM_REQUIRE(sim::HardFaults() > 0, "spurious-failure", r.Describe());
    sim::Count("reach.write_refused");
  }
}

// ---- P06: merging adds ------------------------------------------------------
namespace {
const char* kSep = "|";
std::string MergeTool(const std::vector<std::string>& in, const std::string& out) {
  std::vector<std::string> args = {"profile_merger", "--output_file=" + out};
  for (auto& i : in) args.push_back(i);
  ProcResult r = sim::RunMain(profile_merger_main, args);
  SIM_REQUIRE(r.Ok(), "merge-failed", r.Describe());
  return Disk::Read(out);
}
}  // namespace
SIM_SCENARIO(afdo_merge_sum, "P06", 3) {
  int n = 2 + Choose(4, "inputs");
  std::vector<std::string> in; Model sum; bool first = true;
  (void)kSep;
  for (int i = 0; i < n; ++i) {
    sim::SwarmHash();
    GenOptions o; o.stable_meta = true; o.max_count = 1 + Choose(1ull << 36, "max");
    auto ops = Generate(o);
    ProcResult w = WriteProc(ops, Str("/sim/in%d", i), 0x3430372a);
    SIM_REQUIRE(w.Ok(), "write-failed", w.Describe());
    in.push_back(Str("/sim/in%d", i));
    Model e = Expected(ops, 0x3430372a);
    if (first) { sum = e; first = false; } else sum.Add(e);
  }
  sim::SwarmHash(); sim::SwarmAlloc();
  sim::SetFault(sim::kShortRead, Choose(3, "short"));
  MergeTool(in, "/sim/out");
  ProcResult r = ReadProc({"/sim/out"});
  SIM_REQUIRE(r.Ok(), "read-failed", r.Describe());
  Model want = sum.Above(10);
  for (int i = 0; i < NUM_GCOV_WORKING_SETS; ++i) want.ws_num[i] = want.ws_num[i] / 10 * 10;
  std::string ws = Canon(want);
  SIM_REQUIRE(r.out == ws, "merge-sum-mismatch", FirstDiff(ws, r.out));
}
// Any order and any grouping of the same inputs through intermediate files.
SIM_SCENARIO(afdo_merge_grouping, "P06", 3) {
  int n = 2 + Choose(4, "inputs");
  std::vector<std::string> in; Model sum;
  for (int i = 0; i < n; ++i) {
    sim::SwarmHash();
    GenOptions o; o.stable_meta = true; o.min_total_above_threshold = true; o.working_sets = false; o.allow_big = false; o.max_count = 1 + Choose(1ull << 36, "max");
    auto ops = Generate(o);
    ProcResult w = WriteProc(ops, Str("/sim/in%d", i), 0x3430372a);
    SIM_REQUIRE(w.Ok(), "write-failed", w.Describe());
    in.push_back(Str("/sim/in%d", i));
    sum.Add(Expected(ops, 0x3430372a));
  }
  sim::Shuffle(in, "order");
  int step = 0;
  while (in.size() > 1 || step == 0) {
    sim::SwarmHash(); sim::SwarmAlloc();
    size_t k = std::min<size_t>(in.size(), 2 + Choose(3, "group"));
    size_t at = Choose(in.size() - k + 1, "at");
    std::vector<std::string> g(in.begin() + at, in.begin() + at + k);
    std::string out = Str("/sim/m%d", step++);
    MergeTool(g, out);
    in.erase(in.begin() + at, in.begin() + at + k);
    in.insert(in.begin() + at, out);
  }
  ProcResult r = ReadProc({in[0]});
  SIM_REQUIRE(r.Ok(), "read-failed", r.Describe());
  std::string want = Canon(sum.Above(10));
  SIM_REQUIRE(r.out == want, "merge-grouping-mismatch", FirstDiff(want, r.out));
  sim::State(sim::HashStr(want));
}

// ---- P24: dump_gcov prints the profile --------------------------------------
namespace {
void DumpNode(const Node& n, const std::string& file, bool files, int indent, std::string* s) {
  auto place = [&](const Off& o) { *s += Str("%*s%u", indent, "", o.line) + (o.disc ? Str(".%u: ", o.disc) : ": "); };
  for (auto& p : n.pos) {
    place(p.first);
    *s += Str("%lu", (unsigned long)p.second.count);
    std::vector<std::pair<uint64_t, std::string>> t;
    for (auto& x : p.second.targets) t.push_back({x.second, x.first});
    std::sort(t.rbegin(), t.rend());
    for (auto& x : t) *s += "  " + x.second + ":" + file + Str(":%lu", (unsigned long)x.first);
    *s += "\n";
  }
  for (auto& c : n.calls) {
    place(c.first.first);
    std::string of = files ? FileOf(c.first.second) : "";
    *s += c.first.second + ":" + of + Str(" total:%lu\n", (unsigned long)c.second.Total());
    DumpNode(c.second, of, files, indent + 2, s);
  }
}
std::string DumpOf(const Model& m, bool files) {
  std::map<uint64_t, std::vector<std::string>> by;
  for (auto& s : m.syms) if (s.second.body.Total()) by[~s.second.body.Total()].push_back(s.first);
  std::string s;
  for (auto& t : by) for (auto& n : t.second) {
    const Sym& y = m.syms.at(n);
    s += n + ":" + y.file + Str(" total:%lu head:%lu timestamp: %lu\n", (unsigned long)~t.first, (unsigned long)y.head, (unsigned long)y.ts);
    DumpNode(y.body, y.file, files, 2, &s);
  }
  return s;
}
}  // namespace
SIM_SCENARIO(dump_reading, "P24", 3) {
  sim::SwarmHash(); sim::SwarmAlloc();
  uint64_t v = PickVersion();
  GenOptions o; o.files = v >= 3; o.ctor_names = false;
  auto ops = Generate(o);
  ProcResult w = WriteProc(ops, "/sim/in", v);
  SIM_REQUIRE(w.Ok(), "write-failed", w.Describe());
  std::string want = DumpOf(Expected(ops, v), v >= 3);
  bool faults = Choose(3, "faults") == 2;
  if (faults) {
    sim::SwarmFaults(kReadFaults, "/sim/in");
    if (Choose(2, "few")) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
  } else sim::SetFault(sim::kShortRead, Choose(3, "short") ? 1 + Choose(3, "rate") : 0);
  if (Choose(2, "reader-hash")) sim::SwarmHash();
  ProcResult r = sim::RunMain(dump_gcov_main, {"dump_gcov", "/sim/in"});
  sim::ClearFaults();
  sim::State(sim::HashStr(want));
  if (!r.Ok()) {
    SIM_REQUIRE(sim::HardFaults() > 0, "spurious-failure", "no fault injected: " + r.Describe());
    SIM_REQUIRE(r.kind != ProcResult::kExited || r.code != 0, "impossible", r.Describe());
    sim::Count("reach.refused");
    return;
  }
  SIM_REQUIRE(r.text == want, "wrong-dump", FirstDiff(want, r.text));
  sim::Count(sim::HardFaults() ? "reach.accepted" : "reach.dumped");
  sim::Count("reach.functions", ModelOf(ops).syms.size());
}
