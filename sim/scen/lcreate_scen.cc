// P05: create_llvm_prof end to end, from samples and a binary to an LLVM profile.
#include "spe_sample_reader.h"

#include "create_model.h"
#include "llvm_model.h"
#include "prop_spe.h"

int create_llvm_prof_main(int, char**);

namespace {
lm::Fn ToFn(const Node& n) {
  lm::Fn f;
  f.total = n.total;
  for (auto& p : n.pos) { lm::Pos& q = f.pos[{p.first.line, p.first.disc}]; q.count = p.second.count; q.targets = p.second.targets; }
  for (auto& c : n.calls) f.calls[{{c.first.first.line, c.first.first.disc}, c.first.second}] = ToFn(c.second);
  return f;
}
void NamesIn(const Node& n, std::set<std::string>* s) {
  for (auto& p : n.pos) for (auto& t : p.second.targets) s->insert(t.first);
  for (auto& c : n.calls) { s->insert(c.first.second); NamesIn(c.second, s); }
}
// Functions of the binary that are not in the profile, the biggest ones up to a share of the size.
std::set<std::string> Unsampled(const Input& j, double ratio) {
  std::set<std::string> in, r;
  for (auto& p : all_parts) if (p.second.total > 0) { in.insert(p.first); NamesIn(p.second.sym.body, &in); }
  std::vector<golden::FuncSym> v;
  std::vector<uint64_t> size; uint64_t sum = 0;
  for (auto& f : j.s.funcs) if (!in.count(f.name) && !in.count(Elide(f.name, j.policy))) { v.push_back(f); size.push_back(f.size); sum += f.size; }
  if (v.empty() || ratio == 0) return r;
  std::sort(size.rbegin(), size.rend());
  uint64_t want = sum * ratio, have = 0, cutoff = 0;
  if (size[0] > want) return r;
  for (uint64_t s : size) { cutoff = s; if ((have += s) >= want) break; }
  for (auto& f : v) if (f.size >= cutoff) r.insert(Elide(f.name, j.policy));
  return r;
}
struct Job : Input { std::string want, format; bool used = true, disassemble = false; };
void AddOutput(Job* job) {
  Job& j = *job;
  static const char* fmt[] = {"text", "binary", "extbinary"};
  j.format = fmt[Choose(3, "format")];
  j.args.push_back("--format=" + j.format);
  lm::Profile p;
  for (auto& y : j.m.syms) { lm::Fn& f = p.fns[y.first] = ToFn(y.second.body); f.head = y.second.head; }
  p.fs = j.format == "extbinary" && fs_disc;
  if (j.format == "extbinary" && j.s.bin != "clang_fs" && Choose(2, "symbol-list")) {
    static const double ratio[] = {1, 0.5, 0, 0.9, 0.1};
    double r = ratio[Choose(5, "ratio")];
    j.args.push_back("--prof_sym_list");
    j.args.push_back(Str("--symbol_list_size_coverage_ratio=%g", r));
    p.symbols = Unsampled(j, r);
    p.has_list = !p.symbols.empty();
    sim::Count("reach.symbol_list", p.has_list);
  }
  j.want = lm::Canon(p);
  Announce(j, j.want);
}
Job MakeJob() {
  Job j;
  static_cast<Input&>(j) = MakeInput("create_llvm_prof", "--out=/sim/out", false);
  AddOutput(&j);
  return j;
}
// The code of a fixture: functions, cut in blocks by the instructions that change the flow of control.
prop::Bin CodeOf(const std::string& bin, const Setup& s, const std::string& id) {
  prop::Bin x{};
  x.arm = true; x.build_id = id;
  Elf64_Ehdr eh; memcpy(&eh, s.image.data(), sizeof eh);
  x.pie = eh.e_type == ET_DYN;
  for (int i = 0; i < eh.e_phnum; ++i) {
    Elf64_Phdr ph; memcpy(&ph, s.image.data() + eh.e_phoff + i * sizeof ph, sizeof ph);
    if (ph.p_type == PT_LOAD && (ph.p_flags & PF_X)) x.segs.push_back({ph.p_offset, ph.p_vaddr, ph.p_memsz});
  }
  for (int i = 0; i < eh.e_shnum; ++i) {
    Elf64_Shdr h; memcpy(&h, s.image.data() + eh.e_shoff + i * sizeof h, sizeof h);
    if (h.sh_flags & SHF_EXECINSTR) x.secs.push_back({".text", h.sh_addr, h.sh_offset, h.sh_size});
  }
  std::istringstream in(sim::Fixture(bin + ".flow"));
  std::map<uint64_t, char> flow; std::string at; char k;
  while (in >> at >> k) { uint64_t a = strtoull(at.c_str(), nullptr, 16); flow[a] = k; x.insn[a] = prop::kFlow; }
  std::map<uint64_t, golden::FuncSym> by;
  for (auto& f : golden::Functions(sim::Fixture(bin))) by.insert({f.addr, f});
  for (auto& y : by) {
    prop::Func f; f.names = {y.second.name}; f.addr = y.first; f.size = y.second.size; f.sec = 0;
    for (uint64_t o = 0, from = 0; o < f.size; o += 4) {
      auto c = flow.find(f.addr + o);
      const bool last = o + 4 >= f.size;
      if (c == flow.end() && !last) continue;
      prop::Blk b{}; b.id = f.b.size(); b.off = from; b.size = o + 4 - from; b.last = 4;
      b.term = last ? prop::kRetT : c->second == '?' ? prop::kCond : prop::Term((int[]){prop::kJmp, prop::kInd, prop::kTail, prop::kRetT}[Choose(4, "flow")]);
      from = o + 4;
      f.b.push_back(b);
    }
    x.fn.push_back(f);
  }
  for (auto& f : x.fn) for (auto& b : f.b) {
    for (int n = b.term == prop::kInd ? 3 : 1; n > 0; --n) b.to.push_back(Choose(f.b.size(), "to"));
    b.tail = Choose(x.fn.size(), "tail");
  }
  return x;
}
Job MakeSpeJob() {
  Job j;
  static const char* bins[] = {"arm_d4", "arm_d5", "arm_d4", "arm_d5", "gcc_d5"};
  j.s = MakeBinary({bins[Choose(5, "arm-binary")]}, false);
  Disk::Write("/sim/app", j.s.image);
  std::string id = IdBytes(PerfBuildId(j.s.image));
  prop::Bin x = CodeOf(j.s.bin == "gcc_d5" ? "arm_d4" : j.s.bin, j.s, id);
  Options o; o.policy = j.policy = Choose(3, "suffix-policy");
  static const double fr[] = {0, 0.01, 0.3};
  static const char* pol[] = {"selected", "all", "none"};
  o.frac = fr[Choose(3, "fraction")];
  j.disassemble = Choose(2, "disassemble");
  j.args = {"create_llvm_prof", "--binary=/sim/app", "--profile=/sim/in", "--out=/sim/out", Str("--suffix_elision_policy=%s", pol[o.policy]), "--profiler=perf_spe",
            Str("--sample_threshold_frac=%g", o.frac), Str("--disassemble_arm_branches=%d", j.disassemble)};
  std::string regex = ".*/app$";
  if (Choose(3, "regex") == 2) { regex = Choose(2, "which") ? "usr/bin" : "app-copy|none"; j.args.push_back("--focus_binary_re=" + regex); }
  prop::Perf p = prop::MakeSpe(x, id.empty() ? "~" + regex : "", 10);
  j.used = p.used && j.s.bin != "gcc_d5";
  Disk::Write("/sim/in", p.bytes);
  sim::HashBytes(p.bytes.data(), p.bytes.size());
  Samples raw;
  prop::SpeCounts c = prop::SpeModel(x, p, j.disassemble);
  for (auto& b : c.branches) raw.branches[b.first] = b.second;
  for (auto& b : c.ranges) raw.ranges[b.first] = b.second;
  Samples v = AsStatic(j.s, raw);
  if (j.used) j.m = ExpectCounts(j.s, v, raw, o);
  j.input = raw.Canon();
  AddOutput(&j);
  return j;
}
std::string Got(const Job& j) {
  lm::Profile p;
  std::string data = Disk::Exists("/sim/out") ? Disk::Read("/sim/out") : "none";
  if (!(data.empty() && j.m.syms.empty() && j.format == "text") && !lm::Decode(data, &p)) return "unreadable";
  return lm::Canon(p);
}
}  // namespace

SIM_SCENARIO(lcreate_model, "P05", 4) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob();
  if (Choose(3, "short")) sim::SetFault(sim::kShortRead, 1 + Choose(20, "short-rate"));
  if (Choose(4, "interrupts") == 3) sim::SetFault(sim::kInterrupt, 2 + Choose(20, "interrupt-rate"));
  ProcResult r = sim::RunMain(create_llvm_prof_main, j.args);
  SIM_REQUIRE(r.Ok(), "spurious-failure", "no fault injected: " + r.Describe());
  sim::ClearFaults();
  std::string got = Got(j);
  if (sim::Verbose()) sim::Show("got:\n" + got);
  SIM_REQUIRE(got == j.want, "wrong-profile", j.s.bin + ": " + FirstDiff(j.want, got));
  sim::Count("reach.compared");
}
SIM_SCENARIO(lcreate_faults, "P05", 3) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob();
  static const char* prefix[] = {"/sim/app", "/sim/in", "/sim/out", "/sim/"};
  std::vector<sim::FaultKind> kinds = {sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kMmapFail, sim::kStatFail, sim::kVanish, sim::kSlowIo, sim::kWriteEnospc, sim::kWriteEio, sim::kShortWrite, sim::kCloseEio, sim::kCrash, sim::kSeekFail};
  if (Choose(2, "one-kind")) kinds = {kinds[Choose(kinds.size(), "kind")]};
  sim::SwarmFaults(kinds, prefix[Choose(4, "where")]);
  if (kinds.size() == 1 || Choose(3, "few") != 2) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
  if (kinds.size() > 1 && Choose(4, "disk-full") == 3) sim::SetDiskCapacity(sim::DiskUsed() + Choose(3000, "capacity"));
  ProcResult r = sim::RunMain(create_llvm_prof_main, j.args);
  sim::ClearFaults();
  if (!r.Ok()) {
    SIM_REQUIRE(sim::FaultsFired() > 0, "spurious-failure", "no fault injected: " + r.Describe());
    sim::Count("reach.refused");
    return;
  }
  std::string got = Got(j);
  SIM_REQUIRE(got != "unreadable", "success-but-unreadable", "exit status 0, but the profile is unreadable");
  SIM_REQUIRE(got == j.want, "success-but-wrong", j.s.bin + ": exit status 0 after a fault, but another profile: " + FirstDiff(j.want, got));
  sim::Count("reach.accepted");
}

SIM_SCENARIO(lcreate_spe, "P21", 1) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeSpeJob();
  if (Choose(3, "short")) sim::SetFault(sim::kShortRead, 1 + Choose(20, "short-rate"));
  if (Choose(4, "interrupts") == 3) sim::SetFault(sim::kInterrupt, 2 + Choose(20, "interrupt-rate"));
  ProcResult r = sim::RunMain(create_llvm_prof_main, j.args);
  sim::ClearFaults();
  if (!j.used) {
    SIM_REQUIRE(r.kind == ProcResult::kExited && !r.Ok(), "accepted-unusable", j.s.bin + ": a profile from a recording that cannot be used: " + r.Describe());
    sim::Count(j.s.bin == "gcc_d5" ? "reach.not_arm" : "reach.unusable");
    return;
  }
  SIM_REQUIRE(r.Ok(), "spurious-failure", "no fault injected: " + r.Describe());
  std::string got = Got(j);
  if (sim::Verbose()) sim::Show("got:\n" + got);
  SIM_REQUIRE(got == j.want, "wrong-profile", j.s.bin + ": " + FirstDiff(j.want, got));
  sim::Count(j.disassemble ? "reach.profile_disassembled" : "reach.profile_sampled");
}

// P29: what cannot be done is refused before anything is written.
SIM_SCENARIO(lcreate_options, "P29", 2) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob();
  std::string old;
  if (Choose(2, "older-file")) { old = "an older profile\n"; Disk::Write("/sim/out", old); }
  auto set = [&](const std::string& flag, const std::vector<std::string>& to) {
    std::vector<std::string> a;
    for (auto& x : j.args) if (x != "--" + flag && x.compare(0, flag.size() + 3, "--" + flag + "=")) a.push_back(x);
    for (auto& x : to) a.push_back(x);
    j.args = a;
  };
  std::vector<std::string> why;
  int alias = Choose(4, "alias");
  if (alias == 1) set("out", {"--gcov=/sim/out"});
  if (alias == 2) set("out", {"--gcov=/sim/out", "--out=/sim/out"});
  if (alias) sim::Count("reach.alias");
  for (int n = Choose(3, "problems"); n > 0; --n) {
    switch (Choose(8, "problem")) {
      case 0: set("out", {"--out=/sim/out"}); set("gcov", {Choose(2, "empty") ? "--gcov=/sim/other" : "--gcov=/sim/out2"}); why.push_back("two outputs"); break;
      case 1: set("out", {}); set("gcov", {}); why.push_back("no output"); break;
      case 2: { static const char* f[] = {"compactbinary", "TEXT", "gcov", "", "extbinary2", "tex", "propeller2"}; set("format", {Str("--format=%s", f[Choose(7, "which")])}); why.push_back("format"); break; }
      case 3: if (j.format != "extbinary") { set("prof_sym_list", {"--prof_sym_list"}); why.push_back("symbol list"); } break;
      case 4: set("ignore_build_id", {"--ignore_build_id"}); why.push_back("ignored build id"); break;
      case 5: {
        static const char* f[] = {"/sim/in;/sim/in", "/sim/in;", ";/sim/in", "@/sim/list", "@/sim/in"};
        Disk::Write("/sim/list", "/sim/in\n"); Disk::Write("/sim/in;", Disk::Read("/sim/in")); Disk::Write("@/sim/in", Disk::Read("/sim/in"));
        set("profile", {Str("--profile=%s", f[Choose(5, "profile")])}); why.push_back("several profiles"); break;
      }
      case 6: { static const char* f[] = {"perf2", "Text", "", "lbr", "gcov"}; set("profiler", {Str("--profiler=%s", f[Choose(5, "profiler")])}); why.push_back("profiler"); break; }
      default: { static const char* f[] = {"", "/sim/nothing", "/sim/in"}; set("binary", {Str("--binary=%s", f[Choose(3, "binary")])}); why.push_back("binary"); break; }
    }
  }
  for (size_t i = j.args.size(); i > 1; --i) std::swap(j.args[i - 1 ? i - 1 : 1], j.args[1 + Choose(i - 1, "order")]);
  std::map<std::string, std::string> before;
  for (auto& f : Disk::List()) before[f] = Disk::Read(f);
  ProcResult r = sim::RunMain(create_llvm_prof_main, j.args);
  std::string all, w;
  for (auto& a : j.args) all += " " + a;
  for (auto& x : why) w += (w.empty() ? "" : ", ") + x;
  if (why.empty()) {
    SIM_REQUIRE(r.Ok(), "spurious-failure", "refused" + all + ": " + r.Describe());
    std::string got = Got(j);
    SIM_REQUIRE(got == j.want, "wrong-profile", "options" + all + ": " + FirstDiff(j.want, got));
    sim::Count("reach.compared");
    return;
  }
  SIM_REQUIRE(!r.Ok(), "accepted-options", "success although the options cannot be honoured (" + w + "):" + all);
  std::map<std::string, std::string> after;
  for (auto& f : Disk::List()) after[f] = Disk::Read(f);
  SIM_REQUIRE(before == after, "refused-but-wrote", "refused (" + w + "), but a file was changed:" + all);
  for (auto& x : why) sim::Count("reach.refused_" + (x.find(' ') == std::string::npos ? x : x.substr(0, x.find(' '))));
  sim::Count("reach.refused");
}
