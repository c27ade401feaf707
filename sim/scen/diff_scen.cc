// P22: profile_diff reports the overlap of two LLVM profiles.
#include <cmath>

#include "llvm_gen.h"

int profile_diff_main(int, char**);

using sim::Choose;
using sim::Disk;
using sim::ProcResult;
using sim::Str;
using namespace lm;

namespace {
using Totals = std::map<std::string, uint64_t>;
// A function without samples inside counts what its header says.
Totals TotalsOf(const Profile& p) {
  Totals t;
  for (auto& f : p.fns) { uint64_t s = f.second.Sum(); t[f.first] = s ? s : f.second.total; }
  return t;
}
uint64_t All(const Totals& t) { uint64_t s = 0; for (auto& x : t) s += x.second; return s; }
uint64_t Max(const Totals& t) { uint64_t m = 0; for (auto& x : t) m = std::max(m, x.second); return m; }
uint64_t At(const Totals& t, const std::string& n) { auto i = t.find(n); return i == t.end() ? 0 : i->second; }
double Overlap(const Totals& a, const Totals& b) {
  double ta = All(a), tb = All(b), r = 0;
  if (ta == 0 || tb == 0) return 0;
  for (auto& x : a) r += std::min(x.second / ta, At(b, x.first) / tb);
  return r;
}
struct Input { std::string path; Totals t; };
Input MakeInput(const char* path, const Profile* base) {
  Profile p = GenProfile();
  if (base) for (auto& f : base->fns) if (Choose(2, "common")) { p.fns[f.first] = f.second; if (Choose(2, "changed")) p.fns[f.first].pos[{1, 0}].count += Cnt(); }
  Disk::Write(path, Encode(&p));
  if (sim::Verbose()) sim::Show(std::string(path) + ":\n" + Canon(p));
  return {path, TotalsOf(p)};
}
struct Line { double a, b; std::string name; };
// The functions worth showing: those of the first profile in order of their
// counts, then those of the second that the first did not show.
std::vector<Line> Listing(const Totals& a, const Totals& b, int cutoff) {
  std::vector<Line> r;
  uint64_t ma = Max(a), mb = Max(b);
  auto hot = [&](uint64_t c, uint64_t m) { return c * 100 >= m * cutoff; };
  auto sorted = [](const Totals& t) {
    std::vector<std::pair<std::string, uint64_t>> v;
    for (auto& x : t) if (x.second) v.push_back(x);
    std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.second > y.second; });
    return v;
  };
  for (auto& x : sorted(a)) if (hot(x.second, ma)) r.push_back({100.0 * x.second / ma, 100.0 * At(b, x.first) / mb, x.first});
  for (auto& x : sorted(b)) if (hot(x.second, mb) && !(a.count(x.first) && hot(At(a, x.first), ma))) r.push_back({100.0 * At(a, x.first) / ma, 100.0 * x.second / mb, x.first});
  return r;
}
// Same numbers up to the last printed digit. The division by an empty
// profile's maximum has no defined result.
void CheckOutput(const std::string& text, const Totals& a, const Totals& b, int cutoff, const std::string& when) {
  std::vector<std::string> lines;
  for (size_t i = 0; i < text.size();) { size_t e = text.find('\n', i); lines.push_back(text.substr(i, e - i)); i = e == std::string::npos ? e : e + 1; }
  SIM_REQUIRE(!lines.empty(), "no-output", "nothing was printed" + when);
  double want = Overlap(a, b); char* end;
  double got = strtod(lines.back().c_str(), &end);
  SIM_REQUIRE(end != lines.back().c_str() && std::fabs(got - want) < 2e-4, "wrong-overlap", Str("the overlap is %.6f, printed '%s'", want, lines.back().c_str()) + when);
  if (cutoff < 0) { SIM_REQUIRE(lines.size() == 1, "extra-output", "more than the overlap was printed" + when); return; }
  std::vector<Line> l = Listing(a, b, cutoff);
  SIM_REQUIRE(lines.size() == l.size() + 1, "wrong-listing", Str("%zu functions to list, %zu listed", l.size(), lines.size() - 1) + when);
  for (size_t i = 0; i < l.size(); ++i) {
    double x = NAN, y = NAN; char name[512] = "";
    bool plain = Max(a) && Max(b);
    SIM_REQUIRE(sscanf(lines[i].c_str(), "%lf%% %lf%% %511s", &x, &y, name) == 3 && name == l[i].name, "wrong-listing", "line " + lines[i] + " should be for " + l[i].name + when);
    SIM_REQUIRE(!plain || (std::fabs(x - l[i].a) < 1e-3 && std::fabs(y - l[i].b) < 1e-3), "wrong-listing", Str("expected %.4f%% %.4f%%, got ", l[i].a, l[i].b) + lines[i] + when);
    sim::Count("reach.listed");
  }
}
struct Job { Input a, b; std::vector<std::string> args; int cutoff = -1; };
Job MakeJob() {
  Job j;
  j.a = MakeInput("/sim/a", nullptr);
  if (Choose(6, "same") == 5) { j.b = j.a; }
  else {
    Profile base; for (auto& x : j.a.t) { Fn f; if (x.second) f.pos[{2, 0}].count = x.second; base.fns[x.first] = f; }
    j.b = MakeInput("/sim/b", &base);
  }
  j.args = {"profile_diff"};
  if (Choose(2, "functions")) {
    static const int c[] = {2, 0, 1, 10, 50, 100};
    j.cutoff = c[Choose(6, "cutoff")];
    j.args.push_back("--compare_function");
    if (j.cutoff != 2) j.args.push_back(Str("--dump_cutoff_percent=%d", j.cutoff));
  }
  sim::State(sim::Mix(sim::HashStr(Str("%.4f", Overlap(j.a.t, j.b.t))), j.cutoff));
  return j;
}
ProcResult Run(const Job& j, const Input& a, const Input& b) {
  auto args = j.args; args.push_back(a.path); args.push_back(b.path);
  return sim::RunMain(profile_diff_main, args);
}
}  // namespace

SIM_SCENARIO(diff_overlap, "P22", 2) {
  Job j = MakeJob();
  sim::SwarmHash();
  if (Choose(3, "short")) sim::SetFault(sim::kShortRead, 1 + Choose(20, "short-rate"));
  struct { const Input *a, *b; const char* w; } runs[] = {{&j.a, &j.b, ""}, {&j.b, &j.a, " (the other way round)"}, {&j.a, &j.a, " (with itself)"}};
  int n = 1 + Choose(3, "runs");
  for (int i = 0; i < n; ++i) {
    ProcResult r = Run(j, *runs[i].a, *runs[i].b);
    SIM_REQUIRE(r.Ok(), "spurious-failure", "no fault injected: " + r.Describe());
    CheckOutput(r.text, runs[i].a->t, runs[i].b->t, j.cutoff, runs[i].w);
  }
  double o = Overlap(j.a.t, j.b.t);
  sim::Count(o == 0 ? "reach.disjoint" : o > 0.9999 ? "reach.identical" : "reach.partial");
  sim::Count("reach.compared");
}
// A profile that cannot be read is not compared.
SIM_SCENARIO(diff_faults, "P22", 1) {
  Job j = MakeJob();
  sim::SwarmHash();
  int damage = Choose(4, "damage");
  const std::string& victim = Choose(2, "victim") ? j.b.path : j.a.path;
  bool broken = damage == 2 || damage == 3;
  if (damage == 2) Disk::Remove(victim);
  if (damage == 3) Disk::Write(victim, "foo:12:1\n 1: 3\n what is this\n");
  if (!broken || Choose(2, "also")) {
    static const char* prefix[] = {"/sim/", "/sim/a", "/sim/b"};
    sim::SwarmFaults({sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kMmapFail, sim::kStatFail, sim::kSlowIo}, prefix[Choose(3, "where")]);
    if (Choose(2, "few")) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
  }
  ProcResult r = Run(j, j.a, j.b);
  sim::ClearFaults();
  if (!r.Ok()) {
    SIM_REQUIRE(broken || sim::FaultsFired() > 0, "spurious-failure", "no fault injected: " + r.Describe());
    sim::Count("reach.refused");
    return;
  }
  SIM_REQUIRE(!broken, "success-but-unread", "exit status 0 with an unreadable profile: " + r.text);
  CheckOutput(r.text, j.a.t, j.b.t, j.cutoff, " after a fault");
  sim::Count("reach.accepted");
}
