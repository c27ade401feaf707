// P19: create_gcov end to end, from samples and a binary to an AutoFDO profile.
#include "absl/flags/flag.h"
#include "create_model.h"
#include "profile_reader.h"

ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
int create_gcov_main(int, char**);

using devtools_crosstool_autofdo::AutoFDOProfileReader;
using devtools_crosstool_autofdo::SymbolMap;

namespace {
std::string DropFiles(const std::string& c) {
  std::string r; size_t i = 0;
  while (i < c.size()) {
    if (!c.compare(i, 6, " file=") ) { i += 6; while (i < c.size() && c.compare(i, 7, " total=")) ++i; continue; }
    r += c[i++];
  }
  return r;
}
std::string ReadBack(const std::string& path) {
  absl::SetFlag(&FLAGS_suffix_elision_policy, "none");  // names as they are in the file
  SymbolMap m;
  AutoFDOProfileReader r(&m, true);
  if (!r.ReadFromFile(path)) return "unreadable";
  return DropFiles(Canon(m, true));
}
struct Job : Input { std::string want; };
Job MakeJob(bool perf = false, bool spe = false) {
  Job j;
  static_cast<Input&>(j) = MakeInput("create_gcov", "--gcov=/sim/out", perf, spe);
  if (Choose(3, "version") == 2) { j.args.push_back("--gcov_version=2"); for (auto& y : j.m.syms) y.second.ts = 0; }
  if (Choose(6, "dump") == 5) { j.args.push_back("--debug_dump"); sim::Count("reach.dumped"); }
  j.want = DropFiles(Canon(j.m, true));
  Announce(j, j.want);
  return j;
}
}  // namespace

SIM_SCENARIO(create_model, "P19", 4) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob();
  if (Choose(3, "short")) sim::SetFault(sim::kShortRead, 1 + Choose(20, "short-rate"));
  if (Choose(4, "interrupts") == 3) sim::SetFault(sim::kInterrupt, 2 + Choose(20, "interrupt-rate"));
  ProcResult r = sim::RunMain(create_gcov_main, j.args);
  SIM_REQUIRE(r.Ok(), "spurious-failure", "no fault injected: " + r.Describe());
  sim::ClearFaults();
  ProcResult b = sim::Process("read back", [&] { return ReadBack("/sim/out"); });
  SIM_REQUIRE(b.Ok(), "unreadable", b.Describe());
  if (sim::Verbose()) sim::Show("got:\n" + b.out);
  SIM_REQUIRE(b.out == j.want, "wrong-profile", j.s.bin + ": " + FirstDiff(j.want, b.out));
  sim::Count("reach.compared");
}
SIM_SCENARIO(create_faults, "P19", 3) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob();
  static const char* prefix[] = {"/sim/app", "/sim/in", "/sim/out", "/sim/"};
  std::vector<sim::FaultKind> kinds = {sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kMmapFail, sim::kStatFail, sim::kVanish, sim::kSlowIo, sim::kWriteEnospc, sim::kWriteEio, sim::kShortWrite, sim::kCloseEio, sim::kCrash, sim::kSeekFail};
  if (Choose(2, "one-kind")) kinds = {kinds[Choose(kinds.size(), "kind")]};
  sim::SwarmFaults(kinds, prefix[Choose(4, "where")]);
  if (kinds.size() == 1 || Choose(3, "few") != 2) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
  if (kinds.size() > 1 && Choose(4, "disk-full") == 3) sim::SetDiskCapacity(sim::DiskUsed() + Choose(3000, "capacity"));
  ProcResult r = sim::RunMain(create_gcov_main, j.args);
  sim::ClearFaults();
  if (!r.Ok()) {
    SIM_REQUIRE(sim::FaultsFired() > 0, "spurious-failure", "no fault injected: " + r.Describe());
    sim::Count("reach.refused");
    return;
  }
  ProcResult b = sim::Process("read back", [&] { return ReadBack("/sim/out"); });
  SIM_REQUIRE(b.Ok() && b.out != "unreadable", "success-but-unreadable", "exit status 0, but the profile is unreadable: " + b.Describe());
  SIM_REQUIRE(b.out == j.want, "success-but-wrong", j.s.bin + ": exit status 0 after a fault, but another profile: " + FirstDiff(j.want, b.out));
  sim::Count("reach.accepted");
}
// One open or read of the binary fails, of the several that a run makes.
SIM_SCENARIO(create_lost_binary, "P19", 2) {
  sim::SwarmHash();
  Job j = MakeJob(Choose(4, "other-mode") != 3);
  bool vanish = Choose(4, "vanish") == 3;
  sim::SetFault(vanish ? sim::kVanish : Choose(3, "read") == 2 ? sim::kReadEio : sim::kOpenFail, 2 + Choose(4, "rate"));
  sim::SetFaultFilter("/sim/app");
  sim::SetMaxFaults(1);
  ProcResult r = sim::RunMain(create_gcov_main, j.args);
  bool fired = sim::FaultsFired() > 0;
  sim::ClearFaults();
  if (!r.Ok()) {
    SIM_REQUIRE(fired, "spurious-failure", "no fault injected: " + r.Describe());
    sim::Count("reach.refused");
    return;
  }
  ProcResult b = sim::Process("read back", [&] { return ReadBack("/sim/out"); });
  SIM_REQUIRE(b.Ok() && b.out != "unreadable", "success-but-unreadable", "exit status 0, but the profile is unreadable: " + b.Describe());
  SIM_REQUIRE(b.out == j.want, "success-but-wrong", j.s.bin + ": exit status 0 after a fault, but another profile: " + FirstDiff(j.want, b.out));
  sim::Count("reach.accepted");
}

// The same from Arm SPE records.
SIM_SCENARIO(create_spe, "P19", 2) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob(false, true);
  bool faults = Choose(4, "faults") == 3;
  if (faults) sim::SwarmFaults({sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kVanish, sim::kWriteEnospc, sim::kCrash}, "/sim/");
  ProcResult r = sim::RunMain(create_gcov_main, j.args);
  bool fired = sim::FaultsFired() > 0;
  sim::ClearFaults();
  if (!r.Ok()) {
    SIM_REQUIRE(fired, "spurious-failure", "no fault injected: " + r.Describe());
    sim::Count("reach.refused");
    return;
  }
  ProcResult b = sim::Process("read back", [&] { return ReadBack("/sim/out"); });
  SIM_REQUIRE(b.Ok() && b.out != "unreadable", "success-but-unreadable", "exit status 0, but the profile is unreadable: " + b.Describe());
  SIM_REQUIRE(b.out == j.want, "wrong-profile", j.s.bin + ": " + FirstDiff(j.want, b.out));
  sim::Count("reach.spe_compared");
}

// P30: the working sets that create_gcov stores.
SIM_SCENARIO(create_working_sets, "P30", 2) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob();
  ProcResult r = sim::RunMain(create_gcov_main, j.args);
  SIM_REQUIRE(r.Ok(), "spurious-failure", "no fault injected: " + r.Describe());
  ProcResult b = sim::Process("read back", [&] { return ReadBack("/sim/out"); });
  SIM_REQUIRE(b.Ok(), "unreadable", b.Describe());
  auto sets = [](const std::string& c) { size_t i = c.compare(0, 3, "ws ") ? c.find("\nws ") : 0; return i == std::string::npos ? "" : c.substr(i); };
  std::string want = sets(j.want), got = sets(b.out);
  SIM_REQUIRE(got == want, "wrong-working-sets", j.s.bin + ": " + FirstDiff(want, got));
  sim::Count(want.empty() ? "reach.file_without" : "reach.file_with");
}

// P24: the listing of --debug_dump. It names every function that is written,
// with its counts, and does not depend on hash order or what memory held before.
SIM_SCENARIO(dump_debug, "P24", 2) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob();
  if (j.args.back() != "--debug_dump") j.args.push_back("--debug_dump");
  bool times = true;  // version 2 has none
  for (auto& a : j.args) if (a == "--gcov_version=2") times = false;
  auto listing = [&] {
    ProcResult r = sim::RunMain(create_gcov_main, j.args);
    SIM_REQUIRE(r.Ok(), "spurious-failure", "no fault injected: " + r.Describe());
    return r.text;
  };
  auto lines = [](const std::string& text) {  // without their numbers in hash order
    std::vector<std::string> v; std::istringstream in(text); std::string l;
    while (std::getline(in, l)) { size_t i = l.find_first_not_of(' '); if (i != std::string::npos && l[i] == '#') { while (i < l.size() && l[i] != ':') ++i; l = l.substr(i); } v.push_back(l); }
    std::sort(v.begin(), v.end());
    return v;
  };
  std::string a = listing();
  sim::SwarmHash(); sim::SwarmAlloc();
  std::string b = listing();
  auto la = lines(a), lb = lines(b);
  for (size_t i = 0; i < la.size() || i < lb.size(); ++i) {
    std::string x = i < la.size() ? la[i] : "(end)", y = i < lb.size() ? lb[i] : "(end)";
    SIM_REQUIRE(x == y, "debug-dump-varies", "the same run prints '" + x + "' and '" + y + "'");
  }
  std::map<std::string, std::string> got; std::istringstream in(a); std::string l, name;
  std::map<std::string, std::map<Off, uint64_t>> at;  // what each function's own lines count
  std::map<std::string, std::string> info;
  std::string own; uint32_t start = 0; Off o{0, 0};
  int functions = -1;
  while (std::getline(in, l)) {
    if (!l.compare(0, 20, "Number of functions:")) functions = atoi(l.c_str() + 20);
    if (!name.empty()) { size_t i = l.find(" total:"); got[name] = i == std::string::npos ? l : times ? l.substr(i) : l.substr(i, l.find(" timestamp") - i); }
    name = !l.compare(0, 16, "VisitTopSymbol: ") ? l.substr(16) : "";
    if (!name.empty()) own = name;
    if (!l.compare(0, 15, "VisitCallSite: ")) own.clear();
    if (own.empty()) continue;
    size_t i;
    unsigned long n, d = 0;
    if (sscanf(l.c_str(), " Start line: %lu", &n) == 1) start = n;
    else if (!l.compare(0, 17, " Function name:  ")) info[own] = l.substr(17);
    else if ((i = l.find(": location (line")) != std::string::npos) { o = {0, 0}; if (sscanf(l.c_str() + l.find('=', i), "= %lu.%lu:", &n, &d) >= 1) o = Stored(uint32_t(n) - start, d); }
    else if ((i = l.find(": profile info execution count = ")) != std::string::npos) at[own][o] += strtoull(l.c_str() + i + 33, nullptr, 10);
  }
  std::map<std::string, std::string> want;
  for (auto& y : j.m.syms) want[y.first] = Str(" total:%lu head:%lu", y.second.body.total, y.second.head) + (times ? Str(" timestamp: %lu", y.second.ts) : "");
  for (auto& w : want) SIM_REQUIRE(got.count(w.first) && got[w.first] == w.second, "wrong-debug-dump", w.first + " should have" + w.second + ", not" + (got.count(w.first) ? got[w.first] : " be missing"));
  for (auto& y : j.m.syms)
    SIM_REQUIRE(!info[y.first].empty(), "wrong-debug-dump", y.first + " is listed without a name");
  for (auto& y : j.m.syms)
    for (auto& p : y.second.body.pos) SIM_REQUIRE(at[y.first].count(p.first) && at[y.first][p.first] == p.second.count, "wrong-debug-dump", Str("%s should have %lu at line %u.%u, and has %lu", y.first.c_str(), p.second.count, p.first.line, p.first.disc, at[y.first][p.first]));
  SIM_REQUIRE(got.size() == want.size() && functions == (int)want.size(), "wrong-debug-dump", Str("%zu functions are listed, %d announced, %zu written", got.size(), functions, want.size()));
  sim::Count(want.empty() ? "reach.debug_empty" : "reach.debug_dumped");
}
