// P11, P12, P14, P15, P16: Propeller, from branch records and a binary to a layout.
#include "prop_layout.h"

namespace prop {
SIM_SCENARIO(prop_profile, "P11", 4) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob();
  WriteInputs(j); Describe(j);
  ProcResult p = Run(j);
  if (Hopeless(j, p)) return;
  Result r = Collect();
  if (sim::Verbose()) sim::Show("cc:\n" + r.cc + "ld:\n" + r.ld);
  Got g = Match(j, r);
  CheckProfile(j, g);
  Kinds(j);
  sim::Count("reach.compared");
}
SIM_SCENARIO(prop_layout, "P14", 4) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob();
  WriteInputs(j); Describe(j);
  ProcResult p = Run(j);
  if (Hopeless(j, p)) return;
  Result r = Collect();
  if (sim::Verbose()) sim::Show("cc:\n" + r.cc + "ld:\n" + r.ld);
  Got g = Match(j, r);
  CheckClusters(j, g);
  CheckScores(j, g, CheckOrder(j, g, r));
  CheckDump(j, g, r);
  Kinds(j);
  sim::Count("reach.compared");
}
// P23: the layout is the one greedy ext-TSP merging gives.
SIM_SCENARIO(prop_greedy, "P23", 4) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob(false, true, Flip(1, 8, "spe"), !Flip(1, 8, "default-distances"));
  WriteInputs(j); Describe(j);
  ProcResult p = Run(j);
  if (Hopeless(j, p)) return;
  Result r = Collect();
  if (sim::Verbose()) sim::Show("cc:\n" + r.cc + "ld:\n" + r.ld);
  Got g = Match(j, r);
  CheckLayout(j, g, CheckOrder(j, g, r));
  Kinds(j);
}
// P25: what a run reports about itself is what it did.
SIM_SCENARIO(prop_stats, "P25", 4) {
  sim::SwarmHash(); sim::SwarmAlloc();
  const bool exact = Choose(3, "exact");
  Job j = MakeJob(!exact, true, Flip(1, 4, "spe"), exact, 1);
  WriteInputs(j); Describe(j);
  ProcResult p = Run(j, Say);
  if (Hopeless(j, p)) { SIM_REQUIRE(p.out.empty(), "reported-failure", "a run that failed reported " + p.out); return; }
  Result r = Collect();
  if (sim::Verbose()) sim::Show("cc:\n" + r.cc + "ld:\n" + r.ld + "reported:\n" + p.out);
  Got g = Match(j, r);
  CheckStats(j, g, p.out);
  Kinds(j);
  sim::Count("reach.compared");
}
// The same profile, whatever the order of samples, inputs and hash tables.
SIM_SCENARIO(prop_deterministic, "P15", 4) {
  sim::SetHashMode(sim::kInsertion, 0);
  Job j = MakeJob(true, Choose(4, "quiet") != 3, Choose(4, "spe") == 3);
  WriteInputs(j); Describe(j);
  ProcResult p = Run(j);
  SIM_REQUIRE(p.Ok() == !MustFail(j), "wrong-status", p.Describe());
  Result first = Collect();
  for (int n = 1 + Choose(3, "times"); n > 0; --n) {
    Clean();
    sim::SwarmHash(); sim::SwarmAlloc();
    Job k = j;
    if (Choose(2, "sample-shuffle")) for (auto& f : k.perf) f.bytes = Reordered(f);
    if (k.perf.size() > 1 && Choose(2, "input-shuffle")) sim::Shuffle(k.inputs, "input-order"), sim::Count("reach.input_orders");
    k.list = !j.api && Choose(4, "as-list") == 3;
    for (size_t i = 0; i < j.perf.size(); ++i) Disk::Write(j.inputs[i], k.perf[i].bytes);
    if (k.list) { std::string l; for (auto& f : k.inputs) l += f + "\n"; Disk::Write("/sim/list", l); }
    ProcResult q = Run(k);
    SIM_REQUIRE(q.Ok() == p.Ok(), "another-status", "first " + p.Describe() + ", then " + q.Describe());
    if (!p.Ok()) continue;
    Result again = Collect();
    if (again == first) continue;
    std::string a, b, what;
    auto diff = [&](const std::string& name, const std::string& x, const std::string& y) {
      if (x == y || !what.empty()) return;
      what = name;
      std::vector<std::string> u = Lines(x), v = Lines(y);
      for (size_t i = 0; i < std::max(u.size(), v.size()); ++i) { a = i < u.size() ? u[i] : "end"; b = i < v.size() ? v[i] : "end"; if (a != b) return; }
    };
    diff("/sim/cc", first.cc, again.cc); diff("/sim/ld", first.ld, again.ld);
    for (auto& d : first.dump) diff(d.first, d.second, again.dump.count(d.first) ? again.dump[d.first] : "");
    if (what.empty()) what = "set of dumped files";
    sim::Fail("another-profile", what + ": " + a + " became " + b);
  }
  sim::Count(p.Ok() ? "reach.compared" : "reach.refused");
  if (p.Ok()) Kinds(j);
}
// A run that could not read everything does not pass for one that could.
SIM_SCENARIO(prop_read_faults, "P12", 4) {
  sim::SetHashMode(sim::kInsertion, 0);
  Job j = MakeJob(true, Choose(4, "quiet") != 3, Choose(4, "spe") == 3);
  WriteInputs(j); Describe(j);
  ProcResult p = Run(j);
  SIM_REQUIRE(p.Ok() == !MustFail(j), "wrong-status", p.Describe());
  Result want = Collect();
  Clean();
  static const char* prefix[] = {"/sim/", "/sim/p", "/sim/app", "/sim/list", "/sim/p2"};
  std::vector<sim::FaultKind> kinds = {sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kMmapFail, sim::kStatFail, sim::kVanish, sim::kSlowIo, sim::kSeekFail};
  if (Choose(2, "one-kind")) kinds = {kinds[Choose(kinds.size(), "kind")]};
  const char* where = prefix[Choose(5, "where")];
  // A list that is handed out in pieces, and fails after the first of them.
  if (j.list && Choose(3, "list-torn") == 2) { kinds = {sim::kReadEio, sim::kShortRead}; where = "/sim/list"; }
  sim::SwarmFaults(kinds, where);
  if (Choose(3, "few") != 2) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
  ProcResult q = Run(j);
  sim::ClearFaults();
  if (!q.Ok()) { SIM_REQUIRE(MustFail(j) || sim::FaultsFired() > 0, "spurious-failure", "no fault injected: " + q.Describe()); sim::Count("reach.refused"); return; }
  SIM_REQUIRE(!MustFail(j), "success-despite-faults", "exit status 0, but without faults: " + p.Describe());
  Result got = Collect();
  SIM_REQUIRE(got == want, "success-but-wrong", "exit status 0 after a read fault, but another profile");
  sim::Count("reach.accepted");
}
// Exit status 0: the files are complete.
SIM_SCENARIO(prop_write_faults, "P16", 4) {
  sim::SetHashMode(sim::kInsertion, 0);
  Job j = MakeJob(false, Choose(4, "quiet") != 3, Choose(4, "spe") == 3);
  WriteInputs(j); Describe(j);
  ProcResult p = Run(j);
  SIM_REQUIRE(p.Ok() == !MustFail(j), "wrong-status", p.Describe());
  if (!p.Ok()) sim::Skip("not applicable");
  Result want = Collect();
  if (Choose(3, "fresh")) Clean();
  static const char* prefix[] = {"/sim/", "/sim/cc", "/sim/ld", "/sim/dump"};
  std::vector<sim::FaultKind> kinds = {sim::kOpenFail, sim::kWriteEnospc, sim::kWriteEio, sim::kShortWrite, sim::kCloseEio, sim::kCrash, sim::kSlowIo};
  if (Choose(2, "one-kind")) kinds = {kinds[Choose(kinds.size(), "kind")]};
  sim::SwarmFaults(kinds, prefix[Choose(j.dump ? 4 : 3, "where")]);
  if (Choose(3, "few") != 2) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
  if (kinds.size() > 1 && Choose(4, "disk-full") == 3) sim::SetDiskCapacity(sim::DiskUsed() + Choose(3000, "capacity"));
  ProcResult q = Run(j);
  sim::ClearFaults();
  if (!q.Ok()) { SIM_REQUIRE(sim::FaultsFired() > 0, "spurious-failure", "no fault injected: " + q.Describe()); sim::Count("reach.refused"); return; }
  Result got = Collect();
  SIM_REQUIRE(got == want, "success-but-incomplete", got.cc != want.cc ? "exit status 0, but the cluster file is incomplete" : got.ld != want.ld ? "exit status 0, but the symbol order is incomplete" : "exit status 0, but the dump is incomplete");
  sim::Count("reach.accepted");
}
// P20: the same from statistical records of taken and not taken branches.
SIM_SCENARIO(prop_spe, "P20", 4) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob(true, true, true);
  WriteInputs(j); Describe(j);
  ProcResult p = Run(j);
  if (Hopeless(j, p)) return;
  Result r = Collect();
  if (sim::Verbose()) sim::Show("cc:\n" + r.cc + "ld:\n" + r.ld);
  Got g = Match(j, r);
  CheckProfile(j, g);
  CheckClusters(j, g);
  CheckScores(j, g, CheckOrder(j, g, r));
  CheckDump(j, g, r);
  Kinds(j);
  sim::Count("reach.compared");
}
// P29: options which cannot be honoured are refused before anything is written.
SIM_SCENARIO(prop_options, "P29", 2) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob(false, true, Choose(6, "spe") == 5, false, 0);
  WriteInputs(j); Describe(j);
  ProcResult p = Run(j);
  SIM_REQUIRE(p.Ok() == !MustFail(j), "wrong-status", p.Describe());
  Result want = Collect();
  if (Choose(2, "older-files")) for (auto* f : {"/sim/cc", "/sim/ld", "/sim/out2"}) Disk::Write(f, "older\n");
  std::vector<std::string> why;
  if (MustFail(j)) why.push_back("input");
  bool alias = Choose(3, "alias") == 2, no_profile = false;
  auto drop = [&](const std::string& flag) { for (size_t i = 0; i < j.args.size();) if (j.args[i] == "--" + flag || !j.args[i].compare(0, flag.size() + 3, "--" + flag + "=")) j.args.erase(j.args.begin() + i); else ++i; };
  if (alias) { if (Choose(2, "instead")) drop("out"); j.args.push_back("--gcov=/sim/cc"); sim::Count("reach.alias"); }
  for (int n = Choose(3, "problems"); n > 0; --n) {
    switch (Choose(6, "problem")) {
      case 0: drop("propeller_split_only"); drop("propeller_layout_only"); j.args.push_back("--propeller_split_only"); j.args.push_back("--propeller_layout_only"); why.push_back("split and layout only"); break;
      case 1: drop("out"); drop("gcov"); why.push_back("no output"); break;
      case 2: drop("out"); drop("gcov"); j.args.push_back("--out=/sim/cc"); j.args.push_back("--gcov=/sim/out2"); why.push_back("two outputs"); break;
      case 3: { static const int v[] = {0, 3, -1, 100}; drop("propeller_cluster_encoding_version"); j.args.push_back(Str("--propeller_cluster_encoding_version=%d", v[Choose(4, "version")])); why.push_back("encoding"); break; }
      case 4: no_profile = true; why.push_back("profiles"); break;
      default: { static const char* f[] = {"", "/sim/nothing", "/sim/p1"}; drop("binary"); j.args.push_back(Str("--binary=%s", f[Choose(3, "binary")])); why.push_back("binary"); break; }
    }
  }
  std::vector<std::string> args = Args(j, j.inputs);
  if (no_profile) {
    static const char* f[] = {"", ";", "@/sim/empty", "@/sim/no-list", "@", "/sim/nothing", "/sim/p1;/sim/nothing", "@/sim/with-missing", ";;/sim/cc2"};
    Disk::Write("/sim/empty", "# nothing\n\n");
    Disk::Write("/sim/with-missing", "/sim/nothing\n/sim/p1\n");
    args.back() = Str("--profile=%s", f[Choose(9, "profiles")]);
    if (Choose(6, "none") == 5) args.pop_back();
  }
  for (size_t i = args.size(); i > 2; --i) std::swap(args[i - 1], args[1 + Choose(i - 1, "order")]);
  std::map<std::string, std::string> before;
  for (auto& f : Disk::List()) before[f] = Disk::Read(f);
  ProcResult q = sim::RunMain(create_llvm_prof_main, args);
  std::string all, w;
  for (auto& a : args) all += " " + a;
  for (auto& x : why) w += (w.empty() ? "" : ", ") + x;
  sim::State(sim::HashStr(w + all + want.cc));
  if (why.empty()) {
    SIM_REQUIRE(q.Ok(), "spurious-failure", "refused" + all + ": " + q.Describe());
    SIM_REQUIRE(Collect() == want, "wrong-profile", "another result with options" + all);
    sim::Count("reach.propeller_same");
    return;
  }
  SIM_REQUIRE(!q.Ok(), "accepted-options", "success although the options cannot be honoured (" + w + "):" + all);
  std::map<std::string, std::string> after;
  for (auto& f : Disk::List()) after[f] = Disk::Read(f);
  SIM_REQUIRE(before == after, "refused-but-wrote", "refused (" + w + "), but a file was changed:" + all);
  sim::Count("reach.refused_propeller");
}
}  // namespace prop
