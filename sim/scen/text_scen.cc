// Text sample profiles and sample_merger.
#include "profile_creator.h"
#include "quipper/perf_parser.h"
#include "quipper/perf_reader.h"
#include "samples_model.h"

int sample_merger_main(int, char**);

using devtools_crosstool_autofdo::TextSampleReaderWriter;
using samples::Samples;
using sim::Choose;
using sim::Disk;
using sim::ProcResult;
using sim::Str;

namespace {
const std::vector<sim::FaultKind> kWriteFaults = {sim::kOpenFail, sim::kWriteEnospc, sim::kWriteEio, sim::kShortWrite, sim::kCloseEio, sim::kCrash, sim::kSlowIo};
const std::vector<sim::FaultKind> kReadFaults = {sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kVanish, sim::kCrash, sim::kSlowIo};

std::string WriteBody(const Samples& s, const std::string& path, const char* aux) {
  TextSampleReaderWriter w(path);
  for (auto& x : s.ranges) w.IncRange(x.first.first, x.first.second, x.second);
  for (auto& x : s.addrs) w.IncAddress(x.first, x.second);
  for (auto& x : s.branches) w.IncBranch(x.first.first, x.first.second, x.second);
  return w.Write(aux) ? "true" : "false";
}
ProcResult WriteProc(const Samples& s, const std::string& path, const char* aux = nullptr) {
  return sim::Process("write " + path, [&] { return WriteBody(s, path, aux); });
}
ProcResult ReadProc(const std::vector<std::string>& paths) {
  return sim::Process("read", [&] {
    TextSampleReaderWriter r;
    for (auto& p : paths) if (!r.Append(p)) return std::string("false");
    return samples::Of(r).Canon();
  });
}
bool Refused(const ProcResult& r) { return !r.Ok() || r.out == "false"; }
// The digits of the last count run to the end of what survived: see
// known-findings.txt.
bool InLastCount(const std::string& full, size_t cut) {
  size_t colon = full.rfind(':');
  return colon != std::string::npos && full.find('\n', colon) == full.size() - 1 && cut > colon + 1 && cut < full.size() - 1;
}
const char* Aux() {
  static const char* v[] = {nullptr, "", "aux line\n", "3\n1:2\n", "1->2:3\nrest"};
  return v[Choose(5, "aux")];
}
// Independent strict reading of a text sample file.
bool Strict(const std::string& text, Samples* out) {
  size_t p = 0; bool ok = true;
  auto line = [&]() -> std::string {
    size_t e = text.find('\n', p);
    if (e == std::string::npos) { ok = false; return ""; }
    std::string l = text.substr(p, e - p); p = e + 1; return l;
  };
  for (int sec = 0; sec < 3 && ok; ++sec) {
    std::string h = line();
    if (!ok || h.empty() || h.find_first_not_of("0123456789") != std::string::npos) return false;
    uint64_t n = strtoull(h.c_str(), nullptr, 10);
    for (uint64_t i = 0; i < n; ++i) {
      std::string l = line(); if (!ok) return false;
      unsigned long a, b, c; int used = 0;
      if (sec == 0) { if (sscanf(l.c_str(), "%lx-%lx:%lu%n", &a, &b, &c, &used) != 3) return false; out->ranges[{a, b}] += c; }
      else if (sec == 1) { if (sscanf(l.c_str(), "%lx:%lu%n", &a, &c, &used) != 2) return false; out->addrs[a] += c; }
      else { if (sscanf(l.c_str(), "%lx->%lx:%lu%n", &a, &b, &c, &used) != 3) return false; out->branches[{a, b}] += c; }
      if (used != (int)l.size()) return false;
    }
  }
  return ok && p == text.size();
}
}  // namespace

// ---- P04: text sample files -------------------------------------------------
SIM_SCENARIO(text_roundtrip, "P04", 3) {
  Samples s = samples::Generate(1 + Choose(40, "size")), sum = s;
  sim::SwarmHash(); sim::SwarmAlloc();
  const char* aux = Aux();
  if (Choose(2, "short-writes")) sim::SetFault(sim::kShortWrite, 1 + Choose(4, "rate"));
  ProcResult w = WriteProc(s, "/sim/a.txt", aux);
  SIM_REQUIRE(w.Ok() && w.out == "true", "write-failed", w.Describe() + w.out);
  std::string want = s.Canon() + (aux ? aux : "");
  SIM_REQUIRE(Disk::Read("/sim/a.txt") == want, "text-differs", "wrote '" + Disk::Read("/sim/a.txt").substr(0, 300) + "', expected '" + want.substr(0, 300) + "'");
  std::vector<std::string> in = {"/sim/a.txt"};
  for (int k = Choose(3, "more"); k > 0; --k) {
    Samples t = samples::Generate();
    ProcResult v = WriteProc(t, Str("/sim/b%d", k));
    SIM_REQUIRE(v.Ok() && v.out == "true", "write-failed", v.Describe());
    in.push_back(Str("/sim/b%d", k)); sum.Add(t);
  }
  if (Choose(2, "short-reads")) sim::SetFault(sim::kShortRead, 1 + Choose(4, "rate"));
  ProcResult r = ReadProc(in);
  SIM_REQUIRE(!Refused(r), "read-failed", r.Describe());
  SIM_REQUIRE(r.out == sum.Canon(), "roundtrip-mismatch", "expected " + sum.Canon().substr(0, 400) + " got " + r.out.substr(0, 400));
  sim::Count("reach.roundtrips"); sim::State(sim::HashStr(r.out));
}
// Files by another writer: entries in any order, the same one more than once.
SIM_SCENARIO(text_foreign, "P04", 1) {
  Samples s = samples::Generate(1 + Choose(30, "size")), sum;
  std::string text;
  auto section = [&](auto& m, auto* to, auto format) {
    std::vector<std::string> lines;
    for (auto& x : m) for (int k = Choose(4, "again") ? 1 : 1 + Choose(3, "times"); k > 0; --k) { lines.push_back(format(x.first, x.second)); (*to)[x.first] += x.second; }
    sim::Shuffle(lines, "order");
    text += Str("%zu\n", lines.size());
    for (auto& l : lines) text += l;
  };
  using P = std::pair<uint64_t, uint64_t>;
  section(s.ranges, &sum.ranges, [](P a, uint64_t n) { return Str("%lx-%lx:%lu\n", a.first, a.second, n); });
  section(s.addrs, &sum.addrs, [](uint64_t a, uint64_t n) { return Str(Choose(4, "pad") ? "%lx:%lu\n" : "%08lx:%lu\n", a, n); });
  section(s.branches, &sum.branches, [](P a, uint64_t n) { return Str(Choose(4, "upper") ? "%lx->%lx:%lu\n" : "%lX->%lX:%lu\n", a.first, a.second, n); });
  if (const char* aux = Aux()) text += aux;
  Disk::Write("/sim/a.txt", text);
  if (Choose(2, "short-reads")) sim::SetFault(sim::kShortRead, 1 + Choose(4, "rate"));
  ProcResult r = ReadProc({"/sim/a.txt"});
  SIM_REQUIRE(!Refused(r), "read-failed", r.Describe());
  SIM_REQUIRE(r.out == sum.Canon(), "roundtrip-mismatch", "expected " + sum.Canon().substr(0, 400) + " got " + r.out.substr(0, 400));
  sim::Count("reach.foreign"); sim::State(sim::HashStr(r.out));
}
SIM_SCENARIO(text_write_faults, "P04", 3) {
  Samples s = samples::Generate(1 + Choose(200, "size"));
  const char* aux = Aux();
  std::string full = s.Canon() + (aux ? aux : "");
  if (Choose(2, "previous")) Disk::Write("/sim/out", std::string(Choose(9000, "old-size"), '1'));
  sim::SwarmFaults(kWriteFaults, "/sim/out");
  if (Choose(3, "disk-full") == 2) sim::SetDiskCapacity(sim::DiskUsed() + Choose(full.size() + 2, "capacity"));
  if (Choose(2, "one-fault")) sim::SetMaxFaults(1 + Choose(3, "max-faults"));
  ProcResult w = WriteProc(s, "/sim/out", aux);
  sim::ClearFaults();
  if (w.Ok() && w.out == "true") {
    SIM_REQUIRE(Disk::Read("/sim/out") == full, "success-but-incomplete", Str("reported success; %zu bytes on disk, expected %zu", Disk::Read("/sim/out").size(), full.size()));
    SIM_REQUIRE(sim::FaultsFired(sim::kCloseEio) == 0, "close-error-ignored", "the close reported EIO and the write was reported as successful");
    sim::Count("reach.write_ok");
  } else {
    SIM_REQUIRE(sim::HardFaults() > 0, "spurious-failure", w.Describe() + w.out);
    sim::Count("reach.write_refused");
  }
}
SIM_SCENARIO(text_truncated, "P04", 2) {
  Samples s = samples::Generate(1 + Choose(40, "size"));
  std::string full = s.Canon();
  size_t cut = Choose(full.size(), "cut");
  Disk::Write("/sim/torn", full.substr(0, cut));
  if (Choose(2, "short-reads")) sim::SetFault(sim::kShortRead, 1 + Choose(4, "rate"));
  ProcResult r = ReadProc({"/sim/torn"});
  if (!Refused(r) && r.out != s.Canon())
    sim::Fail(InLastCount(full, cut) ? "torn-last-count" : "truncated-accepted", Str("%zu bytes cut to %zu were read as ", full.size(), cut) + r.out.substr(0, 300));
  SIM_REQUIRE(cut + 1 < full.size() || r.Ok(), "complete-refused", r.Describe());
  sim::Count("reach.truncations");
}
SIM_SCENARIO(text_torn_by_crash, "P04", 2) {
  Samples s = samples::Generate(1 + Choose(400, "size"));
  std::string full = s.Canon();
  if (Choose(2, "previous")) Disk::Write("/sim/out", samples::Generate().Canon());
  sim::SetFault(sim::kCrash, 1 + Choose(3, "crash-rate"));
  if (Choose(2, "short")) sim::SetFault(sim::kShortWrite, 1 + Choose(3, "short-rate"));
  ProcResult w = WriteProc(s, "/sim/out");
  sim::ClearFaults();
  if (w.kind == ProcResult::kCrashed) sim::Count("reach.crashed_writes");
  if (!Disk::Exists("/sim/out")) return;
  std::string left = Disk::Read("/sim/out");
  if (w.kind == ProcResult::kCrashed && !(left.size() <= full.size() && full.compare(0, left.size(), left) == 0)) return;  // the previous file, untouched
  ProcResult r = ReadProc({"/sim/out"});
  if (!Refused(r) && r.out != full)
    sim::Fail(InLastCount(full, left.size()) ? "torn-last-count" : "torn-accepted", Str("%zu of %zu bytes survived and were accepted", left.size(), full.size()));
}
SIM_SCENARIO(text_read_faults, "P04", 3) {
  Samples s = samples::Generate(1 + Choose(400, "size"));
  Disk::Write("/sim/in", s.Canon());
  sim::SwarmFaults(kReadFaults, "/sim/in");
  if (Choose(2, "one-fault")) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
  ProcResult r = ReadProc({"/sim/in"});
  if (!Refused(r)) { SIM_REQUIRE(r.out == s.Canon(), "read-fault-accepted", "after a read fault the file was accepted as " + r.out.substr(0, 300)); sim::Count("reach.accepted"); }
  else { SIM_REQUIRE(sim::HardFaults() > 0, "spurious-failure", "failed without a hard fault"); sim::Count("reach.refused"); }
}

// ---- P07: sample_merger ------------------------------------------------------
// A history of merges into one output file, with damaged or missing inputs,
// I/O faults, full disks and crashes; the output always holds the sum of the
// completed merges, or is refused.
SIM_SCENARIO(merger_history, "P07", 4) {
  Samples sum; bool exists = false, torn = false;
  int steps = 1 + Choose(5, "steps");
  for (int k = 0; k < steps; ++k) {
    sim::SwarmHash();
    int n = 1 + Choose(4, "inputs");
    std::vector<std::string> in; Samples add; bool bad = false;
    for (int i = 0; i < n; ++i) {
      std::string f = Str("/sim/in%d_%d", k, i);
      Samples s = samples::Generate();
      int what = Choose(10, "input-kind");
      if (what == 9) { bad = true; }                                   // missing
      else if (what == 8) { std::string t = s.Canon(); size_t c = t.rfind(':'); if (c == std::string::npos || s.branches.empty()) c = t.size() - 1; Disk::Write(f, t.substr(0, Choose(c, "cut"))); bad = true; }
      else if (what == 7) { in.push_back(""); continue; }              // skipped
      else { Disk::Write(f, s.Canon()); add.Add(s); }
      in.push_back(f);
    }
    std::string list; for (auto& f : in) list += (list.empty() && &f == &in[0] ? "" : ",") + f;
    if (list.find_first_not_of(',') == std::string::npos) continue;  // --profiles= means the default file name
    bool single = n == 1 && !in[0].empty() && Choose(2, "flag");
    std::string before = Disk::Exists("/sim/out") ? Disk::Read("/sim/out") : "-";
    bool before_exists = before != "-";
    uint64_t hard0 = sim::HardFaults(), vanish0 = sim::FaultsFired(sim::kVanish);
    int fm = Choose(3, "faults");
    if (fm == 1) sim::SwarmFaults(kWriteFaults, "/sim/out");
    if (fm == 2) sim::SwarmFaults(kReadFaults, "/sim/");
    if (fm == 1 && Choose(3, "disk-full") == 2) sim::SetDiskCapacity(sim::DiskUsed() + Choose(400, "capacity"));
    if (fm && Choose(2, "one-fault")) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
    if (!fm && Choose(2, "short")) sim::SetFault(sim::kShortRead, 1 + Choose(3, "rate"));
    ProcResult r = sim::RunMain(sample_merger_main, {"sample_merger", "--profiler=text", (single ? "--profile=" : "--profiles=") + list, "--output_file=/sim/out"});
    sim::ClearFaults();
    // A file that vanished before the merge opened it counts as absent.
    if (!Disk::Exists("/sim/out")) { exists = torn = false; sum = Samples(); if (before_exists) sim::Count("reach.output_vanished"); }
    bool hard = sim::HardFaults() > hard0;
    std::string after = Disk::Exists("/sim/out") ? Disk::Read("/sim/out") : "-";
    bool vanished = sim::FaultsFired(sim::kVanish) > vanish0;
    if (r.Ok()) {
      SIM_REQUIRE(!torn || vanished, "torn-output-accepted", "a merge succeeded on top of a torn output file");
      SIM_REQUIRE(!bad, "bad-input-accepted", "a merge with a damaged or missing input succeeded");
      Samples want = sum; want.Add(add);
      Samples got;
      if (vanished && !(Strict(after, &got) && got.Canon() == want.Canon())) {
        // The old output vanished under the merge: it started afresh.
        got = Samples();
        SIM_REQUIRE(Strict(after, &got) && got.Canon() == add.Canon(), "merge-sum-mismatch", "after the output vanished: " + after.substr(0, 300));
        sum = add;
      } else {
        got = Samples();
        SIM_REQUIRE(Strict(after, &got), "success-but-incomplete", "sample_merger exited 0; output '" + after.substr(0, 300) + "'");
        SIM_REQUIRE(got.Canon() == want.Canon(), "merge-sum-mismatch", "expected " + want.Canon().substr(0, 400) + " got " + got.Canon().substr(0, 400));
        sum = want;
      }
      exists = true; torn = false;
      sim::Count("reach.merged");
    } else {
      if (!bad && !torn) SIM_REQUIRE(hard, "spurious-failure", r.Describe());
      if ((bad || torn) && !hard) SIM_REQUIRE(after == before, "failed-merge-changed-output", "a merge that failed because of its inputs changed the output file");
      if (after != before && after != "-") {
        Samples want = sum; want.Add(add);
        Samples got;
        // The write was cut short. It may have been complete before the failure.
        if (!bad && !torn && Strict(after, &got) && got.Canon() == want.Canon()) { sum = want; exists = true; sim::Count("reach.failed_but_complete"); }
        else if (vanished && Strict(after, &(got = Samples())) && got.Canon() == add.Canon()) { sum = add; exists = true; torn = false; }
        else {
          bool refused = Refused(ReadProc({"/sim/out"}));
          if (!refused) { Disk::Remove("/sim/out"); exists = torn = false; sum = Samples(); if (!InLastCount(want.Canon(), after.size()) && !(after == want.Canon().substr(0, after.size()))) sim::Fail("torn-accepted", "a torn output reads as a complete one: " + after.substr(0, 300)); sim::Count("reach.torn_last_count"); }
          else { torn = exists = true; sim::Count("reach.torn"); if (Choose(2, "operator-deletes")) { Disk::Remove("/sim/out"); exists = torn = false; sum = Samples(); } }
        }
      }
      sim::Count("reach.merge_failed");
    }
    sim::State(sim::Mix(sim::HashStr(r.Describe()), torn * 4 + exists * 2 + bad));
  }
}
// Any order, any grouping through intermediate outputs.
SIM_SCENARIO(merger_grouping, "P07", 2) {
  int n = 2 + Choose(5, "inputs");
  std::vector<std::string> in; Samples sum;
  for (int i = 0; i < n; ++i) { Samples s = samples::Generate(); Disk::Write(Str("/sim/in%d", i), s.Canon()); in.push_back(Str("/sim/in%d", i)); sum.Add(s); }
  sim::Shuffle(in, "order");
  int step = 0;
  while (in.size() > 1 || !step) {
    sim::SwarmHash();
    size_t k = std::min<size_t>(in.size(), 1 + Choose(4, "group")), at = Choose(in.size() - k + 1, "at");
    if (in.size() > 1 && k < 2) k = 2, at = Choose(in.size() - 1, "at2");
    std::string list, out = Str("/sim/m%d", step++);
    bool incremental = Choose(2, "incremental");
    if (incremental) {
      for (size_t i = at; i < at + k; ++i) { ProcResult r = sim::RunMain(sample_merger_main, {"sample_merger", "--profiler=text", "--profile=" + in[i], "--output_file=" + out}); SIM_REQUIRE(r.Ok(), "merge-failed", r.Describe()); }
    } else {
      for (size_t i = at; i < at + k; ++i) list += (i == at ? "" : ",") + in[i];
      ProcResult r = sim::RunMain(sample_merger_main, {"sample_merger", "--profiler=text", "--profiles=" + list, "--output_file=" + out});
      SIM_REQUIRE(r.Ok(), "merge-failed", r.Describe());
    }
    in.erase(in.begin() + at, in.begin() + at + k); in.insert(in.begin() + at, out);
  }
  std::string got = Disk::Read(in[0]);
  SIM_REQUIRE(got == sum.Canon(), "merge-sum-mismatch", "expected " + sum.Canon().substr(0, 400) + " got " + got.substr(0, 400));
  sim::Count("reach.grouped"); sim::State(sim::HashStr(got));
}
