// P08: merging LLVM profiles (profile_merger --is_llvm); P05: LLVM profiles are
// written completely or not at all.
#include <deque>

#include "absl/flags/flag.h"
#include "absl/flags/declare.h"
#include "llvm_gen.h"
#include "llvm_profile_reader.h"
#include "llvm_profile_writer.h"
#include "symbol_map.h"

int profile_merger_main(int, char**);

using sim::Choose;
using sim::Disk;
using sim::ProcResult;
using sim::Str;
using namespace lm;

namespace {
std::string FirstDiff(const std::string& want, const std::string& got) {
  size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  size_t b = want.rfind('\n', i ? i - 1 : 0); b = b == std::string::npos ? 0 : b + 1;
  auto line = [&](const std::string& s) { return b < s.size() ? s.substr(b, std::min<size_t>(s.find('\n', b) - b, 300)) : std::string("<end>"); };
  return "expected '" + line(want) + "', got '" + line(got) + "'";
}
// ---- the reference merge ----
void AddFn(const Fn& f, Fn* a) {  // counts only; empty inlined functions are not kept
  for (auto& p : f.pos) { Pos& q = a->pos[p.first]; q.count += p.second.count; for (auto& t : p.second.targets) q.targets[t.first] += t.second; }
  for (auto& c : f.calls) if (!c.second.Empty()) AddFn(c.second, &a->calls[c.first]);
}
void Totals(Fn* f) { f->total = f->Sum(); for (auto& c : f->calls) Totals(&c.second); }
struct MergeOptions { bool special = false, fs = false, base_only = false; double frac = 0; int max_targets = 0, cutoff = 0, nesting = 0; std::string strip; };
void Trim(Fn* f, size_t n) {
  for (auto& p : f->pos) if (p.second.targets.size() > n) {
    std::vector<std::pair<std::string, uint64_t>> v(p.second.targets.begin(), p.second.targets.end());
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.second > b.second; });
    v.resize(n); p.second.targets = {v.begin(), v.end()};
  }
  for (auto& c : f->calls) Trim(&c.second, n);
}
uint64_t Throttle(Fn* f, size_t n) {
  std::map<Off, std::vector<std::pair<std::string, uint64_t>>> at;
  for (auto& c : f->calls) at[c.first.first].push_back({c.first.second, c.second.total});
  uint64_t removed = 0;
  for (auto& a : at) {
    std::stable_sort(a.second.begin(), a.second.end(), [](auto& x, auto& y) { return x.second > y.second; });
    for (size_t i = n; i < a.second.size(); ++i) { removed += a.second[i].second; f->calls.erase({a.first, a.second[i].first}); }
  }
  for (auto& c : f->calls) removed += Throttle(&c.second, n);
  removed = std::min(removed, f->total);
  f->total -= removed;
  return removed;
}
bool GreaterThan10OrFrac(uint64_t t, uint64_t threshold) { return t > threshold; }
Fn BaseOnly(const Fn& f) {
  Fn r; r.total = f.total; r.head = f.head;
  auto base = [](Off o) { o.disc &= 0xff; return o; };
  for (auto& p : f.pos) { Pos& q = r.pos[base(p.first)]; q.count += p.second.count; for (auto& t : p.second.targets) q.targets[t.first] += t.second; }
  for (auto& c : f.calls) AddFn(BaseOnly(c.second), &r.calls[{base(c.first.first), c.first.second}]);
  return r;
}
Profile Merge(std::vector<Profile> in, const MergeOptions& o) {
  Profile r;
  r.fs = o.fs;
  for (auto& p : in) if (p.fs && o.base_only) for (auto& f : p.fns) f.second = BaseOnly(f.second);
  std::map<std::string, Fn> acc;
  std::map<std::string, uint64_t> extra;
  std::set<std::string> sole, dropped;
  for (auto& p : in) {
    for (auto& f : p.fns) {
      const std::string& n = f.first;
      if (o.special) {
        if (Any(n, kStrip)) continue;
        if (Any(n, kSole) && !sole.insert(n).second) { dropped.insert(n); continue; }
        if (!Any(n, kSole) && Any(n, kCold)) { acc[n]; extra[n] = 11; continue; }
      }
      Fn& a = acc[n];
      a.head += f.second.head;
      AddFn(f.second, &a);
      if (f.second.Sum() == 0) extra[n] += f.second.total;
    }
    r.fs |= p.fs;
    r.symbols.insert(p.symbols.begin(), p.symbols.end());
  }
  uint64_t sum = 0;
  for (auto& a : acc) { Totals(&a.second); a.second.total += extra[a.first]; if (dropped.count(a.first)) a.second.total = a.second.head = 0; sum += a.second.total; }
  int64_t threshold = static_cast<int64_t>(sum) * o.frac;
  if (threshold < 10) threshold = 10;
  for (auto& a : acc) {
    if (!o.strip.empty() && a.first.find(o.strip) != std::string::npos) a.second.total = a.second.head = 0;
    if (o.cutoff > 0) Throttle(&a.second, o.cutoff);
    if (o.max_targets > 0) Trim(&a.second, o.max_targets);
    if (a.second.total > static_cast<uint64_t>(threshold)) r.fns[a.first] = a.second;
  }
  return r;
}
struct Job { std::vector<std::string> args; std::vector<Profile> in; std::string want; std::string format; bool md5 = false; MergeOptions o; };
Job MakeJob(bool allow_nesting) {
  Job j;
  j.args = {"profile_merger", "--is_llvm", "--output_file=/sim/out"};
  int n = 1 + Choose(4, "inputs");
  for (int i = 0; i < n; ++i) {
    Profile p = GenProfile();
    std::string path = Str("/sim/in%d", i);
    Disk::Write(path, Encode(&p));
    j.args.push_back(path);
    j.in.push_back(p);
    if (sim::Verbose()) sim::Show(path + ":\n" + Canon(p));
  }
  static const char* fmt[] = {"text", "binary", "extbinary"};
  j.format = fmt[Choose(3, "format")];
  j.args.push_back("--format=" + j.format);
  if (Choose(3, "special-syms") == 2) { j.o.special = true; j.args.push_back("--merge_special_syms=false"); }
  static const double fr[] = {0, 0.001, 0.05};
  j.o.frac = fr[Choose(3, "fraction")];
  j.args.push_back(Str("--sample_threshold_frac=%g", j.o.frac));
  if (Choose(4, "max-targets") == 3) { j.o.max_targets = 1 + Choose(3, "targets"); j.args.push_back(Str("--max_call_targets=%d", j.o.max_targets)); }
  if (Choose(4, "cutoff") == 3) { j.o.cutoff = 1 + Choose(3, "at-same-loc"); j.args.push_back(Str("--inline_instances_at_same_loc_cutoff=%d", j.o.cutoff)); }
  if (Choose(5, "strip") == 4) { static const char* s[] = {"foo", "ZN", "n1", "g"}; j.o.strip = s[Choose(4, "strip-what")]; j.args.push_back("--strip_symbols_regex=.*" + j.o.strip + ".*"); }
  if (Choose(5, "fs") == 4) { j.o.fs = true; j.args.push_back("--use_fs_discriminator"); }
  if (Choose(4, "base-only") == 3) { j.o.base_only = true; j.args.push_back("--use_base_only_in_fs_discriminator"); }
  bool list = false, partial = false;
  if (j.format == "extbinary") {
    if (Choose(2, "include-list")) { list = true; j.args.push_back("--include_symbol_list"); }
    if (Choose(4, "compress") == 3) j.args.push_back("--compress");
    if (Choose(4, "md5") == 3) { j.md5 = true; j.args.push_back("--use_md5"); }
    if (Choose(4, "partial") == 3) { partial = true; j.args.push_back("--partial_profile"); }
    if (Choose(4, "split") == 3) j.args.push_back("--split_layout");
  }
  Profile m = Merge(j.in, j.o);
  m.partial = partial;
  if (!list) m.symbols.clear();
  m.has_list = !m.symbols.empty();
  if (j.format != "extbinary") m.fs = false;  // no place for it
  if (j.md5) { Profile h = m; h.fns.clear(); for (auto& f : m.fns) h.fns[Str("%lu", (unsigned long)llvm::MD5Hash(f.first))] = Hashed(f.second); m = h; }
  j.want = Canon(m);
  if (sim::Verbose()) { std::string a; for (auto& x : j.args) a += x + " "; sim::Show(a + "\nwant:\n" + j.want); }
  sim::State(sim::HashStr(j.want));
  if (!m.fns.empty()) sim::Count("reach.functions", m.fns.size());
  return j;
}
// What is in the output, by LLVM's own reader.
std::string Got(const Job& j, bool* ok) {
  bool want_fns = j.want.find("fn ") != std::string::npos, text = j.format == "text";
  Profile p; *ok = true;
  std::string data = Disk::Exists("/sim/out") ? Disk::Read("/sim/out") : "";
  if (!(data.empty() && !want_fns && text) && !Decode(data, &p)) {  // an empty text profile is an empty file
    *ok = false; return "unreadable"; }
  return Canon(p);
}
}  // namespace

SIM_SCENARIO(llvm_merge, "P08", 4) {
  sim::SwarmHash();
  Job j = MakeJob(false);
  if (Choose(3, "short")) { sim::SetFault(sim::kShortRead, 1 + Choose(20, "short-rate")); sim::SetFault(sim::kShortWrite, 1 + Choose(20, "short-rate")); }
  ProcResult r = sim::RunMain(profile_merger_main, j.args);
  SIM_REQUIRE(r.Ok(), "spurious-failure", "no fault injected: " + r.Describe());
  sim::ClearFaults();
  bool ok; std::string got = Got(j, &ok);
  if (sim::Verbose()) sim::Show("got:\n" + got);
  SIM_REQUIRE(ok, "unreadable", "the merged profile is unreadable");
  SIM_REQUIRE(got == j.want, "wrong-merge", FirstDiff(j.want, got));
  sim::Count("reach.merged"); sim::Count("reach.format_" + j.format);
}
// A reported success is a complete profile, whatever fails on the way.
SIM_SCENARIO(llvm_merge_faults, "P05", 3) {
  sim::SwarmHash();
  Job j = MakeJob(false);
  static const char* prefix[] = {"/sim/in", "/sim/out", "/sim/"};
  std::vector<sim::FaultKind> kinds = {sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kMmapFail, sim::kStatFail, sim::kSlowIo, sim::kWriteEnospc, sim::kWriteEio, sim::kShortWrite, sim::kCloseEio, sim::kCrash};
  if (Choose(2, "one-kind")) kinds = {kinds[Choose(kinds.size(), "kind")]};
  sim::SwarmFaults(kinds, prefix[Choose(3, "where")]);
  if (kinds.size() == 1 || Choose(3, "few") != 2) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
  if (kinds.size() > 1 && Choose(4, "disk-full") == 3) sim::SetDiskCapacity(sim::DiskUsed() + Choose(3000, "capacity"));
  ProcResult r = sim::RunMain(profile_merger_main, j.args);
  sim::ClearFaults();
  if (!r.Ok()) {
    SIM_REQUIRE(sim::FaultsFired() > 0, "spurious-failure", "no fault injected: " + r.Describe());
    sim::Count("reach.refused");
    return;
  }
  bool ok; std::string got = Got(j, &ok);
  SIM_REQUIRE(ok, "success-but-unreadable", "exit status 0, but the profile is unreadable");
  SIM_REQUIRE(got == j.want, "success-but-wrong", "exit status 0 after a fault, but another profile: " + FirstDiff(j.want, got));
  sim::Count("reach.accepted");
}

namespace {
size_t Depth(const Fn& f) { size_t d = 0; for (auto& c : f.calls) d = std::max(d, 1 + Depth(c.second)); return d; }
void Leaves(const Fn& f, const std::string& n, std::map<std::string, uint64_t>* max_at) {
  for (auto& p : f.pos) { uint64_t& m = (*max_at)[n + Str("@%u.%u", p.first.line, p.first.disc)]; m = std::max(m, p.second.count); }
  for (auto& c : f.calls) Leaves(c.second, c.first.second, max_at);
}
}  // namespace
// Limiting the inline depth: the same result whatever the hash order and the
// order of the inputs, no deeper nesting, and no count lost.
SIM_SCENARIO(llvm_nesting, "P08", 2) {
  int n = 1 + Choose(3, "inputs"), level = 1 + Choose(4, "level");
  std::vector<std::string> args = {"profile_merger", "--is_llvm", "--output_file=/sim/out", "--format=binary", Str("--max_inline_callsite_nesting_level=%d", level)}, files;
  std::vector<Profile> in;
  for (int i = 0; i < n; ++i) {
    Profile p = GenProfile();
    for (auto& f : p.fns) if (f.second.pos.empty() && f.second.calls.empty()) f.second.pos[{1, 0}].count = 20;
    in.push_back(p); files.push_back(Str("/sim/in%d", i)); Disk::Write(files.back(), Text(p));
    sim::Show(files.back() + ":\n" + Text(p));
  }
  std::string first;
  for (int k = 0; k < 2; ++k) {
    sim::SwarmHash();
    sim::Shuffle(files, "order");
    std::vector<std::string> a = args; a.insert(a.end(), files.begin(), files.end());
    ProcResult r = sim::RunMain(profile_merger_main, a);
    SIM_REQUIRE(r.Ok(), "spurious-failure", "no fault injected: " + r.Describe());
    Profile p;
    SIM_REQUIRE(Decode(Disk::Read("/sim/out"), &p), "unreadable", "the flattened profile is unreadable");
    std::string c = Canon(p);
    if (k == 0) first = c;
    SIM_REQUIRE(c == first, "order-dependent", "another result in another order: " + FirstDiff(first, c));
    if (k) break;
    for (auto& f : p.fns) SIM_REQUIRE(Depth(f.second) < static_cast<size_t>(level), "too-deep", Str("%s has %zu levels, limit %d", f.first.c_str(), Depth(f.second), level));
    std::map<std::string, uint64_t> was, is;
    MergeOptions mo;
    Profile plain; for (auto& q : in) for (auto& f : q.fns) AddFn(f.second, &plain.fns[f.first]);
    for (auto& f : plain.fns) { Totals(&f.second); if (f.second.total > 10) Leaves(f.second, f.first, &was); }
    for (auto& f : p.fns) Leaves(f.second, f.first, &is);
    for (auto& w : was) SIM_REQUIRE(w.second <= 10 || is[w.first] >= w.second, "lost-count", Str("%s had %lu, has %lu", w.first.c_str(), (unsigned long)w.second, (unsigned long)is[w.first]));
  }
  sim::State(sim::HashStr(first));
  sim::Count("reach.flattened");
}

// P29: profile_merger refuses what it cannot do before it touches the output.
SIM_SCENARIO(llvm_options, "P29", 2) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob(false);
  std::string old;
  if (Choose(2, "older-file")) { old = "an older profile\n"; Disk::Write("/sim/out", old); }
  std::vector<std::string> why;
  for (int n = Choose(3, "problems"); n > 0; --n) {
    int k = Choose(6, "problem");
    if (k == 0) {
      static const char* f[] = {"compactbinary", "TEXT", "gcov", "", "extbinary2", "tex"};
      int i = Choose(6, "which");
      j.args.push_back(Str("--format=%s", f[i]));
      if (why.empty() || why.back() != "format") why.push_back("format");
    } else if (k <= 4) {
      static const char* f[] = {"--compress", "--use_md5", "--partial_profile", "--split_layout"};
      if (j.format == "extbinary") continue;
      j.args.push_back(f[k - 1]); why.push_back(f[k - 1]);
    } else {
      j.args.push_back("/sim/nothing"); why.push_back("no such input");
    }
  }
  std::map<std::string, std::string> before;
  for (auto& f : Disk::List()) before[f] = Disk::Read(f);
  ProcResult r = sim::RunMain(profile_merger_main, j.args);
  std::string all, w;
  for (auto& a : j.args) all += " " + a;
  for (auto& x : why) w += (w.empty() ? "" : ", ") + x;
  if (why.empty()) {
    SIM_REQUIRE(r.Ok(), "spurious-failure", "refused" + all + ": " + r.Describe());
    Profile p;
    std::string data = Disk::Exists("/sim/out") ? Disk::Read("/sim/out") : "none";
    SIM_REQUIRE((data.empty() && j.format == "text") || Decode(data, &p), "unreadable", "unreadable output:" + all);
    sim::Count("reach.merged");
    return;
  }
  SIM_REQUIRE(!r.Ok(), "accepted-options", "success although the options cannot be honoured (" + w + "):" + all);
  std::map<std::string, std::string> after;
  for (auto& f : Disk::List()) after[f] = Disk::Read(f);
  SIM_REQUIRE(before == after, "refused-but-wrote", "refused (" + w + "), but a file was changed:" + all);
  sim::Count("reach.refused_merge");
}
