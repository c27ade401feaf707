// P26: Propeller's control flow graphs, handed to other programs.
#include <algorithm>
#include <sstream>

#include "frequencies_branch_aggregator.h"
#include "lbr_branch_aggregator.h"
#include "llvm_propeller_cfg.pb.h"
#include "llvm_propeller_code_layout.h"
#include "llvm_propeller_perf_branch_frequencies_aggregator.h"
#include "llvm_propeller_perf_data_provider.h"
#include "llvm_propeller_perf_lbr_aggregator.h"
#include "llvm_propeller_profile_computer.h"
#include "llvm_propeller_profile.h"
#include "llvm_propeller_profile_generator.h"
#include "llvm_propeller_profile_writer.h"
#include "llvm_propeller_program_cfg.h"
#include "llvm_propeller_program_cfg_builder.h"
#include "llvm_propeller_program_cfg_proto_builder.h"
#include "llvm_propeller_telemetry_reporter.h"
int create_llvm_prof_main(int, char**);
#include "prop_layout.h"

namespace prop {
namespace d = devtools_crosstool_autofdo;
// Hands out the recordings one by one, like a collector would. An error at `fail`.
struct Feed : d::PerfDataProvider {
  std::vector<std::string> bytes; size_t at = 0, fail = ~size_t(0);
  absl::StatusOr<std::optional<BufferHandle>> GetNext() override {
    sim::AdvanceNs(1 + Choose(1000000, "collect"));
    if (at == fail) return absl::UnavailableError("the collector is gone");
    if (at >= bytes.size()) return std::nullopt;
    size_t i = at++;
    return BufferHandle{.description = Str("recording %d", int(i)), .buffer = llvm::MemoryBuffer::getMemBufferCopy(llvm::StringRef(bytes[i].data(), bytes[i].size()), "recording")};
  }
};
using FeedPtr = std::unique_ptr<Feed>;
FeedPtr MakeFeed(const Job& j) {
  auto f = std::make_unique<Feed>();
  for (auto& p : j.perf) {
    if (Flip(1, 12, "damaged")) f->bytes.push_back(std::string(Choose(64, "junk"), 'j'));
    f->bytes.push_back(p.bytes);
  }
  return f;
}
// One line for each thing there is to know about a graph, in a fixed order.
struct Graph {
  std::string names, section, module;
  std::vector<std::string> blocks;
  std::vector<std::string> intra, inter;
  std::string Text() const {
    std::string s = "function " + names + "in " + section + " of " + module + "\n";
    for (auto& b : blocks) s += "  block " + b + "\n";
    auto a = intra, b = inter; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    for (auto& e : a) s += "  edge " + e + "\n";
    for (auto& e : b) s += "  far edge " + e + "\n";
    return s;
  }
};
std::string BlockText(uint64_t addr, uint64_t size, int id, int md, uint64_t freq) { return Str("%llx+%llu id %d flags %d freq %llu", (unsigned long long)addr, (unsigned long long)size, id, md, (unsigned long long)freq); }
std::string EdgeText(const std::string& a, const std::string& b, int kind, uint64_t w, bool sections) { return a + " -> " + b + Str(" kind %d weight %llu%s", kind, (unsigned long long)w, sections ? " across sections" : ""); }
Graph WantGraph(const Job& j, int f, bool far) {
  const Func& fn = j.bin.fn[f]; Graph g;
  g.names = SortedNames(fn.names); g.section = SectionOf(j.bin, f); g.module = ModuleOf(j, f);
  for (int b = 0; b < int(fn.b.size()); ++b) g.blocks.push_back(BlockText(Addr(j.bin, {f, b}), fn.b[b].size, fn.b[b].id, fn.b[b].md, far ? *Freqs(j.p.g, {f, b}).begin() : 0));
  for (auto& e : j.p.g.e) {
    Node a = e.first.first, b = e.first.second;
    if (a.f != f) continue;
    std::string x = Str("%llx#%d", (unsigned long long)j.bin.fn[a.f].addr, a.b), y = Str("%llx#%d", (unsigned long long)j.bin.fn[b.f].addr, b.b);
    std::string t = EdgeText(x, y, e.second.begin()->first, e.second.begin()->second, SectionOf(j.bin, a.f) != SectionOf(j.bin, b.f));
    if (a.f == b.f) g.intra.push_back(t); else if (far) g.inter.push_back(t);
  }
  return g;
}
int KindOf(const d::CFGEdge& e) { return e.IsCall() ? kCall : e.IsReturn() ? kRet : kBranch; }
Graph GotGraph(const d::ProgramCfg& p, const d::ControlFlowGraph& c, bool far) {
  Graph g; std::vector<std::string> names;
  for (auto n : c.names()) names.push_back(n.str());
  g.names = SortedNames(names); g.section = c.section_name().str(); g.module = c.module_name() ? c.module_name()->str() : "-";
  for (auto& n : c.nodes()) {
    int md = (n->has_return() ? kRetMd : 0) | (n->has_tail_call() ? kTailMd : 0) | (n->is_landing_pad() ? kPadMd : 0) | (n->can_fallthrough() ? kFallMd : 0) | (n->has_indirect_branch() ? kIndMd : 0);
    g.blocks.push_back(BlockText(n->addr(), n->size(), n->bb_id(), md, far ? n->CalculateFrequency() : 0));
  }
  auto name = [&](const d::CFGNode* n) { auto* of = p.GetCfgByIndex(n->function_index()); return of ? Str("%llx#%d", (unsigned long long)of->GetEntryNode()->addr(), n->bb_index()) : std::string("nowhere"); };
  auto text = [&](const d::CFGEdge& e) { return EdgeText(name(e.src()), name(e.sink()), KindOf(e), e.weight(), e.inter_section()); };
  for (auto& e : c.intra_edges()) g.intra.push_back(text(*e));
  if (far) for (auto& e : c.inter_edges()) g.inter.push_back(text(*e));
  // The lists at the nodes name the same edges.
  size_t outs = 0, ins = 0, far_outs = 0;
  for (auto& n : c.nodes()) {
    outs += n->intra_outs().size(); ins += n->intra_ins().size(); far_outs += n->inter_outs().size();
    for (auto* e : n->intra_outs()) if (e->src() != n.get()) g.intra.push_back("stray edge out");
    for (auto* e : n->intra_ins()) if (e->sink() != n.get()) g.intra.push_back("stray edge in");
    for (auto* e : n->inter_outs()) if (e->src() != n.get()) g.intra.push_back("stray far edge out");
    for (auto* e : n->inter_ins()) if (e->sink() != n.get()) g.intra.push_back("stray far edge in");
    if (c.GetNodeById(n->intra_cfg_id()).bb_id() != n->bb_id()) g.blocks.push_back("misfiled block");
  }
  if (outs != c.intra_edges().size() || ins != outs || far_outs != c.inter_edges().size()) g.intra.push_back("edges and blocks disagree");
  return g;
}
// What the exported form holds of a program.
std::string WantExport(const Job& j) {
  std::string s;
  for (int f : j.p.hot) {
    const Func& fn = j.bin.fn[f];
    s += "function " + SortedNames(fn.names) + "in " + SectionOf(j.bin, f) + "\n";
    for (int b = 0; b < int(fn.b.size()); ++b) {
      s += Str(" block %d size %llu flags %d\n", fn.b[b].id, (unsigned long long)fn.b[b].size, fn.b[b].md & ~kIndMd);
      std::vector<std::string> out;
      for (auto& e : j.p.g.e) if (e.first.first == Node{f, b} && e.first.second.f == f) out.push_back(Str("  to %d kind %d weight %llu\n", e.first.second.b, e.second.begin()->first, (unsigned long long)e.second.begin()->second));
      std::sort(out.begin(), out.end());
      for (auto& o : out) s += o;
    }
  }
  return s;
}
std::string ExportText(const d::ProgramCfgPb& p) {
  std::vector<const d::ControlFlowGraphPb*> v;
  for (auto& c : p.cfg()) v.push_back(&c);
  std::sort(v.begin(), v.end(), [](auto* a, auto* b) { return a->function_index() < b->function_index(); });
  std::string s;
  for (auto* c : v) {
    s += "function " + SortedNames({c->name().begin(), c->name().end()}) + "in " + c->section_name() + "\n";
    for (auto& n : c->node()) {
      auto& m = n.metadata();
      s += Str(" block %d size %llu flags %d\n", int(n.bb_id()), (unsigned long long)n.size(), (m.has_return() ? kRetMd : 0) | (m.has_tail_call() ? kTailMd : 0) | (m.is_landing_pad() ? kPadMd : 0) | (m.can_fallthrough() ? kFallMd : 0));
      std::vector<std::string> out;
      for (auto& e : n.out_edges()) out.push_back(Str("  to %d kind %d weight %llu\n", int(e.sink().bb_index()), e.kind() == d::CFGEdgePb::CALL ? kCall : e.kind() == d::CFGEdgePb::RETURN ? kRet : kBranch, (unsigned long long)e.weight()) + (e.sink().function_index() == c->function_index() ? "" : "elsewhere\n"));
      std::sort(out.begin(), out.end());
      for (auto& o : out) s += o;
    }
  }
  return s;
}
absl::StatusOr<std::unique_ptr<d::PropellerProfileComputer>> Computer(const Job& j, const d::PropellerOptions& o, FeedPtr feed, std::unique_ptr<d::BinaryContent>* content) {
  if (!j.spe && Choose(2, "from-files")) return d::PropellerProfileComputer::Create(o);
  if (!j.spe && Choose(2, "from-feed")) return d::PropellerProfileComputer::Create(o, std::move(feed));
  auto c = d::GetBinaryContent(o.binary_name());
  if (!c.ok()) return c.status();
  *content = std::move(*c);
  std::unique_ptr<d::BranchAggregator> a;
  if (j.spe) a = std::make_unique<d::FrequenciesBranchAggregator>(std::make_unique<d::PerfBranchFrequenciesAggregator>(std::move(feed)), o, **content);
  else a = std::make_unique<d::LbrBranchAggregator>(std::make_unique<d::PerfLbrAggregator>(std::move(feed)), o, **content);
  return d::PropellerProfileComputer::Create(o, std::move(a));
}
struct Asked { int percentile[3], node[2], edge[2]; };
// The answers of the program-wide queries.
std::string WantAnswers(const Job& j, const Asked& q) {
  std::string s;
  std::vector<uint64_t> all;
  for (int f : j.p.hot) for (int b = 0; b < int(j.bin.fn[f].b.size()); ++b) if (uint64_t n = *Freqs(j.p.g, {f, b}).begin()) all.push_back(n);
  std::sort(all.begin(), all.end());
  for (int p : q.percentile) { long i = long(all.size() * p / 100) - 1; s += Str("%d%%: %llu\n", p, (unsigned long long)(i < 0 ? 0 : all[i])); }
  for (int k = 0; k < 2; ++k) {
    s += Str("joins %d %d:", q.node[k], q.edge[k]);
    for (int f : j.p.hot) for (int b = 1; b < int(j.bin.fn[f].b.size()); ++b) {
      if (*Freqs(j.p.g, {f, b}).begin() < uint64_t(q.node[k])) continue;
      int in = 0;
      for (auto& e : j.p.g.e) in += e.first.second == Node{f, b} && e.first.first.f == f && e.first.first.b != b && e.second.begin()->first == kBranch && e.second.begin()->second >= uint64_t(q.edge[k]);
      if (in > 1) s += Str(" %llx#%d", (unsigned long long)j.bin.fn[f].addr, b);
    }
    s += "\n";
  }
  return s;
}
std::string Answers(const d::ProgramCfg& p, const Asked& q) {
  std::string s;
  for (int x : q.percentile) s += Str("%d%%: %llu\n", x, (unsigned long long)p.GetNodeFrequencyThreshold(x));
  for (int k = 0; k < 2; ++k) {
    s += Str("joins %d %d:", q.node[k], q.edge[k]);
    std::map<int, std::set<int>> by;
    for (auto& f : p.GetHotJoinNodes(q.node[k], q.edge[k])) by[f.first].insert(f.second.begin(), f.second.end());
    for (auto& f : by) for (int b : f.second) s += Str(" %llx#%d", (unsigned long long)p.GetCfgByIndex(f.first)->GetEntryNode()->addr(), b);
    s += "\n";
  }
  return s;
}
// Copies of a path: new blocks like the old ones, without edges.
std::string ClonePaths(d::ControlFlowGraph& c) {
  std::string bad; const int n = c.nodes().size(); std::map<int, int> count; size_t paths = 0;
  for (int k = 1 + Choose(2, "paths"); k > 0; --k) {
    int pred = Choose(n, "pred"); std::vector<int> path;
    for (int len = 1 + Choose(3, "path-length"); len > 0; --len) path.push_back(Choose(n, "path-block"));
    c.ClonePath(pred, path);
    if (c.clone_paths().size() != ++paths) return "paths not counted";
    auto& got = c.clone_paths().back();
    if (got.size() != path.size() + 1 || got[0].bb_id != c.nodes()[pred]->bb_id() || got[0].intra_cfg_id.clone_number != 0) return "a path does not begin with its predecessor";
    for (size_t i = 0; i < path.size(); ++i) {
      int want = ++count[path[i]]; auto& old = *c.nodes()[path[i]];
      if (got[i + 1].bb_id != old.bb_id() || got[i + 1].intra_cfg_id.bb_index != path[i] || got[i + 1].intra_cfg_id.clone_number != want) return Str("block %d of the path is not copy %d of %d", int(i), want, path[i]);
      auto& x = c.GetNodeById(got[i + 1].intra_cfg_id);
      if (x.addr() != old.addr() || x.size() != old.size() || x.is_landing_pad() != old.is_landing_pad() || x.has_return() != old.has_return() || !x.is_cloned() || x.CalculateFrequency()) return "a copy differs from its block";
      if (c.nodes().at(x.node_index()).get() != &x) return "a copy is misfiled";
      auto all = c.GetAllClonesForBbIndex(path[i]);
      if (int(all.size()) < want + 1 || all[0] != &old || all[want] != &x) return "copies of a block are not all listed";
    }
    for (auto& x : count) if (int(c.GetAllClonesForBbIndex(x.first).size()) != x.second + 1) return "copies of a block miscounted";
  }
  size_t pads = 0; for (auto& x : c.nodes()) pads += x->is_landing_pad();
  return pads == size_t(c.n_landing_pads()) ? "" : "landing pads miscounted";
}
SIM_SCENARIO(cfg_program, "P26", 3) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob(true, true, Flip(1, 4, "spe"), false, 1);
  j.bad = 0;
  WriteInputs(j); Describe(j);
  Asked q;
  for (int& p : q.percentile) p = Choose(101, "percentile");
  for (int k = 0; k < 2; ++k) { q.node[k] = Choose(12, "node-threshold"); q.edge[k] = Choose(12, "edge-threshold"); }
  const bool mixed = j.p.g.mixed;
  const int out_faults = Choose(3, "export-faults");
  if (Choose(2, "old-export")) Disk::Write("/sim/cfg.pb", std::string(1 + Choose(6000, "old-size"), "\n x"[Choose(3, "old")]));
  const std::string parts = "\x01";
  ProcResult r = sim::Process("PropellerProfileComputer", [&]() -> std::string {
    d::PropellerOptions o = Options(j, j.inputs);
    d::DefaultStatusProvider progress("mapping");
    std::unique_ptr<d::BinaryContent> content;
    auto c = Computer(j, o, MakeFeed(j), &content);
    if (!c.ok()) return "no";
    auto p = (*c)->GetProgramCfg(&progress);
    if (!p.ok()) return "no";
    std::string s;
    if (!progress.IsDone()) s += "the mapping is not done\n";
    auto cfgs = (*p)->GetCfgs();
    if ((*p)->cfgs_by_index().size() != cfgs.size()) s += "graphs miscounted\n";
    size_t in_sections = 0;
    for (auto& x : (*p)->GetCfgsBySectionName()) { in_sections += x.second.size(); for (auto* g : x.second) if (g->section_name() != x.first) s += "a graph of another section\n"; }
    if (in_sections != cfgs.size()) s += "graphs miscounted by section\n";
    for (auto* g : cfgs) {
      s += GotGraph(**p, *g, true).Text();
      auto k = d::CloneCfg(*g);
      if (GotGraph(**p, *k, false).Text() != GotGraph(**p, *g, false).Text()) s += "a copy differs\n";
      if (!g->nodes().empty() && Flip(1, 3, "clone")) s += ClonePaths(*k);
    }
    s += parts;
    if (!mixed) s += Answers(**p, q);
    s += parts;
    // The exported form.
    d::ProgramCfgProtoBuilder b;
    if (out_faults == 2) {
      sim::SwarmFaults({sim::kOpenFail, sim::kWriteEnospc, sim::kWriteEio, sim::kShortWrite, sim::kCloseEio, sim::kCrash}, "/sim/cfg.pb");
      if (Choose(3, "disk-full") == 2) sim::SetDiskCapacity(sim::DiskUsed() + Choose(3000, "capacity"));
    } else sim::SetFault(sim::kShortWrite, Choose(3, "short") ? 1 + Choose(4, "short-rate") : 0);
    bool ok = b.InitWriter("/sim/cfg.pb");
    if (ok) { b.AddCfgs(std::move(**p).release_cfgs_by_index()); s += ExportText(b.program_cfg_pb()); ok = b.WriteAndClose(); }
    return s + parts + (ok ? "written" : "not written");
  });
  const bool torn = sim::FaultsFired() > 0, hard = sim::HardFaults() > 0;
  sim::ClearFaults();
  if (r.out == "no" || (!r.Ok() && !torn)) {
    SIM_REQUIRE(r.kind == ProcResult::kReturned, "crash", r.Describe());
    SIM_REQUIRE(!j.usable || j.p.failed || Nameless(j), "spurious-failure", "no fault injected, but no graphs");
    sim::Count("reach.refused");
    return;
  }
  if (!r.Ok()) { SIM_REQUIRE(hard, "crash", r.Describe()); sim::Count("reach.torn"); return; }
  SIM_REQUIRE(j.usable && !j.p.failed && !Nameless(j), "accepted-unusable", "graphs of unusable input");
  std::vector<std::string> got = Words(r.out, parts[0]);
  SIM_REQUIRE(got.size() == 4, "malformed", r.out);
  const bool written = got[3] == "written";
  if (!mixed) {
    std::string want;
    for (int f : j.p.hot) want += WantGraph(j, f, true).Text();
    auto diff = [](const std::string& a, const std::string& b) { auto x = Lines(a), y = Lines(b); for (size_t i = 0; i < std::max(x.size(), y.size()); ++i) { std::string u = i < x.size() ? x[i] : "end", v = i < y.size() ? y[i] : "end"; if (u != v) return "expected '" + u + "', got '" + v + "'"; } return std::string(); };
    SIM_REQUIRE(got[0] == want, "wrong-graphs", diff(want, got[0]));
    std::string answers = WantAnswers(j, q);
    SIM_REQUIRE(got[1] == answers, "wrong-answers", diff(answers, got[1]));
    if (written) { std::string e = WantExport(j); SIM_REQUIRE(got[2] == e, "wrong-export", diff(e, got[2])); }
    sim::Count("reach.graphs", j.p.hot.size());
  }
  if (!written) { SIM_REQUIRE(hard, "spurious-failure", "no fault injected, but nothing exported"); sim::Count("reach.not_written"); return; }
  sim::Count("reach.compared");
  // Read back, perhaps with trouble.
  const bool trouble = Choose(2, "read-trouble");
  if (trouble) sim::SwarmFaults({sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kVanish}, "/sim/cfg.pb");
  else sim::SetFault(sim::kShortRead, Choose(3, "short-read") ? 1 + Choose(4, "short-read-rate") : 0);
  ProcResult back = sim::Process("read", [&]() -> std::string {
    d::ProgramCfgProtoBuilder b;
    if (!b.Read("/sim/cfg.pb")) return "no";
    return "yes" + ExportText(b.program_cfg_pb());
  });
  const bool failed = sim::FaultsFired(sim::kOpenFail) + sim::FaultsFired(sim::kReadEio) + sim::FaultsFired(sim::kVanish) > 0;
  sim::ClearFaults();
  SIM_REQUIRE(back.kind == ProcResult::kReturned, "crash", back.Describe());
  if (back.out == "no") { SIM_REQUIRE(trouble && failed, "spurious-failure", "what was exported cannot be read"); sim::Count("reach.not_read"); return; }
  SIM_REQUIRE(back.out.substr(3) == got[2], "wrong-import", "the exported graphs were read differently");
  sim::Count("reach.read_back");
}
// The profile of what a collector hands out is the profile of the same data in
// files, unless the collector fails.
SIM_SCENARIO(cfg_feed, "P26", 1) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob(true, Choose(4, "quiet") != 3, Flip(1, 4, "spe"), false, 1);
  j.bad = 0;
  WriteInputs(j); Describe(j);
  ProcResult p = Run(j);
  if (Hopeless(j, p)) return;
  Result want = Collect();
  Clean();
  sim::SwarmHash(); sim::SwarmAlloc();
  bool fails = Choose(3, "collector-fails") == 2;
  const int type = Flip(1, 20, "no-type") ? 7 : 0;
  ProcResult q = sim::Process("GeneratePropellerProfiles", [&]() -> std::string {
    d::PropellerOptions o = Options(j, j.inputs);
    if (Choose(2, "no-inputs")) o.clear_input_profiles();
    FeedPtr f = MakeFeed(j);
    if (fails) f->fail = Choose(f->bytes.size() + 1, "fail-at");
    return d::GeneratePropellerProfiles(o, std::move(f), type ? d::FREQUENCIES_PROTO : j.spe ? d::PERF_SPE : d::PERF_LBR).ok() ? "yes" : "no";
  });
  SIM_REQUIRE(q.kind == ProcResult::kReturned, "crash", q.Describe());
  if (fails || type) { SIM_REQUIRE(q.out == "no", "success-despite-error", fails ? "the collector failed, but a profile was made" : "a profile of unsupported data"); sim::Count("reach.collector_failed"); return; }
  SIM_REQUIRE(q.out == "yes", "spurious-failure", "no profile of what the collector handed out");
  SIM_REQUIRE(Collect() == want, "another-profile", "another profile than from files");
  sim::Count("reach.fed");
}
// Graphs built in stages, each from some of the recordings on top of the graphs
// so far, are the sum of the stages, in whatever order.
SIM_SCENARIO(cfg_staged, "P26", 2) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob(true, true, false, false, 1);
  j.bad = 0;
  WriteInputs(j); Describe(j);
  if (j.p.g.mixed || j.p.failed || !j.usable || j.p.twice) { sim::Count("reach.unfit"); return; }
  const int times = 1 + Choose(2, "times");
  std::vector<int> order;
  for (int k = 0; k < times; ++k) for (size_t i = 0; i < j.perf.size(); ++i) order.push_back(i);
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[Choose(i, "order")]);
  std::vector<std::vector<int>> stages;
  for (int i : order) if (stages.empty() || Choose(3, "next-stage")) stages.push_back({i}); else stages.back().push_back(i);
  // Each stage has its own selection of functions.
  Job all = j; all.p = Program();
  for (auto& stage : stages) {
    Counters br, ft; bool used = false;
    for (int i : stage) {
      used |= j.perf[i].used;
      for (auto& b : j.perf[i].br) br[b.first] += b.second;
      for (auto& b : j.perf[i].ft) ft[b.first] += b.second;
    }
    if (!used) continue;
    Program p = Analyse(j.bin, br, ft, j.text_only);
    if (p.failed) { sim::Count("reach.unfit"); return; }
    for (auto& e : p.g.e) for (auto& k : e.second) all.p.g.e[e.first][k.first] += k.second;
    all.p.hot.insert(p.hot.begin(), p.hot.end());
  }
  for (auto& e : all.p.g.e) if (e.second.size() > 1) { sim::Count("reach.unfit"); return; }
  const bool one_stats = Choose(2, "one-statistics");
  ProcResult r = sim::Process("ProgramCfgBuilder", [&]() -> std::string {
    d::PropellerOptions o = Options(j, j.inputs);
    std::vector<std::unique_ptr<d::BinaryContent>> contents;
    std::vector<std::unique_ptr<d::BinaryAddressMapper>> mappers;
    std::unique_ptr<d::ProgramCfg> p; d::PropellerStats sum; uint64_t nodes = 0;
    for (auto& stage : stages) {
      if (contents.empty() || Choose(2, "read-again")) { auto c = d::GetBinaryContent(o.binary_name()); if (!c.ok()) return "no"; contents.push_back(std::move(*c)); }
      auto f = std::make_unique<Feed>();
      for (int i : stage) f->bytes.push_back(j.perf[i].bytes);
      d::PropellerStats own; d::PropellerStats& stats = one_stats ? sum : own;
      d::LbrBranchAggregator a(std::make_unique<d::PerfLbrAggregator>(std::move(f)), o, *contents.back());
      auto addresses = a.GetBranchEndpointAddresses();
      if (!addresses.ok()) { sim::Count("reach.empty_stages"); continue; }
      auto m = d::BuildBinaryAddressMapper(o, *contents.back(), stats, &*addresses);
      if (!m.ok()) { sim::Count("reach.empty_stages"); continue; }
      mappers.push_back(std::move(*m));
      auto agg = a.Aggregate(*mappers.back(), stats);
      if (!agg.ok()) return "no";
      auto next = d::ProgramCfgBuilder(mappers.back().get(), stats, std::move(p)).Build(*agg, nullptr, nullptr);
      if (!next.ok()) return "drift";
      p = std::move(*next);
      nodes += own.cfg_stats.nodes_created;
    }
    if (!p) return "none";
    std::string s;
    for (auto* g : p->GetCfgs()) s += GotGraph(*p, *g, true).Text();
    return s;
  });
  SIM_REQUIRE(r.kind == ProcResult::kReturned, "crash", r.Describe());
  SIM_REQUIRE(r.out != "drift", "spurious-failure", "a stage failed");
  std::string want;
  for (int f : all.p.hot) { Graph g = WantGraph(all, f, true); g.module = "-"; want += g.Text(); }
  auto diff = [](const std::string& a, const std::string& b) { auto x = Lines(a), y = Lines(b); for (size_t i = 0; i < std::max(x.size(), y.size()); ++i) { std::string u = i < x.size() ? x[i] : "end", v = i < y.size() ? y[i] : "end"; if (u != v) return "expected '" + u + "', got '" + v + "'"; } return std::string(); };
  SIM_REQUIRE(r.out == want, "wrong-stages", diff(want, r.out));
  sim::Count(stages.size() > 1 ? "reach.stages" : "reach.one_stage");
}
// Graphs as Propeller makes them, by the address of their function. Null if
// they cannot be had.
struct Source { std::unique_ptr<d::BinaryContent> content; std::unique_ptr<d::PropellerProfileComputer> computer; };  // of names
std::unique_ptr<d::ProgramCfg> Graphs(const Job& j, const d::PropellerOptions& o, Source* source, std::map<uint64_t, int>* index) {
  auto c = Computer(j, o, MakeFeed(j), &source->content);
  if (!c.ok()) return nullptr;
  source->computer = std::move(*c);
  auto p = source->computer->GetProgramCfg(nullptr);
  if (!p.ok()) return nullptr;
  for (auto* g : (*p)->GetCfgs()) index->insert({g->GetEntryNode()->addr(), g->function_index()});
  return std::move(*p);
}
// A layout that has to start from given chains of blocks, which it may split.
SIM_SCENARIO(cfg_chains, "P23", 2) {
  sim::SwarmHash(); sim::SwarmAlloc();
  const bool exact = !Flip(1, 8, "default-distances");
  Job j = MakeJob(false, true, false, exact, 1);
  j.bad = 0;
  WriteInputs(j);
  if (j.p.g.mixed || j.p.failed || !j.usable || Nameless(j)) { Describe(j); sim::Count("reach.unfit"); return; }
  std::string asked;
  for (int f : j.p.hot) {
    auto& fn = j.bin.fn[f];
    if (!Choose(4, "no-chains")) continue;
    int pads = 0; bool hot_pad = false;
    auto freq = [&](int b) { return *Freqs(j.p.g, {f, b}).begin(); };
    for (int b = 0; b < int(fn.b.size()); ++b) if (fn.b[b].md & kPadMd) ++pads, hot_pad |= freq(b) > 0;
    const bool entry = !j.inter || (pads > 1 && hot_pad);
    std::vector<Node> hot;
    for (int b = 0; b < int(fn.b.size()); ++b) if (freq(b) || (b == 0 && entry) || (hot_pad && (fn.b[b].md & kPadMd))) hot.push_back({f, b});
    sim::Shuffle(hot, "chain-order");
    auto& v = j.chains[f];
    for (Node n : hot) {
      if (Flip(1, 3, "left-out")) continue;
      if (v.empty() || n.b == 0 || !Choose(4, "next-chain")) v.push_back({});
      v.back().push_back(n);
    }
    if (v.empty()) { j.chains.erase(f); continue; }
    sim::Count("reach.chains", v.size());
    if (!sim::Verbose()) continue;
    for (auto& c : v) { asked += Str("chain of %d:", f); for (Node n : c) asked += Str(" %d", fn.b[n.b].id); asked += "\n"; }
  }
  Describe(j); if (sim::Verbose()) sim::Show(asked);
  ProcResult r = sim::Process("CodeLayout", [&]() -> std::string {
    d::PropellerOptions o = Options(j, j.inputs);
    std::map<uint64_t, int> index; Source source;
    d::PropellerProfile profile{.program_cfg = Graphs(j, o, &source, &index)};
    if (!profile.program_cfg) return "no";
    absl::flat_hash_map<int, std::vector<std::vector<d::CFGNode::IntraCfgId>>> chains;
    for (auto& f : j.chains) for (auto& c : f.second) {
      std::vector<d::CFGNode::IntraCfgId> ids;
      for (Node n : c) ids.push_back({n.b, 0});
      chains[index.at(j.bin.fn[f.first].addr)].push_back(ids);
    }
    d::PropellerStats::CodeLayoutStats stats;
    for (auto& s : profile.program_cfg->GetCfgsBySectionName()) {
      d::CodeLayout layout(o.code_layout_params(), s.second, chains);
      profile.functions_cluster_info_by_section_name.emplace(s.first, layout.OrderAll());
      stats += layout.stats();
    }
    if (!d::PropellerProfileWriter(o).Write(profile).ok()) return "not written";
    std::string s = Str("%d %d", stats.n_single_node_chains, stats.n_multi_node_chains);
    using M = d::ChainMergeOrder;
    for (auto k : {M::kSU, M::kS2S1U, M::kS1US2, M::kUS2S1, M::kS2US1}) s += Str(" %d", stats.n_assemblies_by_merge_order.count(k) ? int(stats.n_assemblies_by_merge_order.at(k)) : 0);
    return s;
  });
  SIM_REQUIRE(r.kind == ProcResult::kReturned, "crash", r.Describe());
  SIM_REQUIRE(r.out != "no" && r.out != "not written", "spurious-failure", "no fault injected, but " + r.out + " graphs");
  Result q = Collect();
  if (sim::Verbose()) sim::Show("cc:\n" + q.cc + "ld:\n" + q.ld);
  Got g = Match(j, q);
  CheckProfile(j, g);
  CheckClusters(j, g);
  auto order = CheckOrder(j, g, q);
  CheckScores(j, g, order);
  CheckLayout(j, g, order);
  Layout l(j, j.threshold, j.chain_split);
  std::map<std::string, std::vector<int>> all;
  for (int f : j.p.hot) all[SectionOf(j.bin, f)].push_back(f);
  for (auto& sec : all) { l.Section(sec.second); if (l.tied) return; }
  std::string want = Str("%d %d", l.single, l.multi);
  for (int n : l.orders) want += Str(" %d", n);
  SIM_REQUIRE(want == r.out, "wrong-statistics", "chains and merges: " + r.out + ", should be " + want);
  sim::Count("reach.compared_chains", !j.chains.empty() && j.reorder);
}
// Functions with copied paths: the paths, the copies and their places are
// written for the compiler, and everything else is as without copies.
SIM_SCENARIO(cfg_clones, "P14", 2) {
  sim::SwarmHash(); sim::SwarmAlloc();
  Job j = MakeJob(true, false, Flip(1, 6, "spe"), false, 1);
  j.bad = 0; j.version = 1; j.verbose = Choose(3, "verbose") == 2;
  WriteInputs(j); Describe(j);
  if (j.p.g.mixed || j.p.failed || !j.usable || j.p.hot.empty() || Nameless(j)) { sim::Count("reach.unfit"); return; }
  // Before the layout, the copies are laid out as the blocks not executed;
  // after it, here.
  const bool before = Choose(2, "before");
  std::map<int, std::vector<std::vector<int>>> paths;
  for (int f : j.p.hot) {
    int n = j.bin.fn[f].b.size();
    if (n < 2 || !Choose(3, "no-paths")) continue;
    for (int k = 1 + Choose(2, "paths"); k > 0; --k) {
      std::vector<int> path = {int(Choose(n, "pred"))};
      for (int len = 1 + Choose(3, "path-length"); len > 0; --len) path.push_back(1 + Choose(n - 1, "path-block"));
      paths[f].push_back(path);
    }
  }
  ProcResult r = sim::Process("PropellerProfileWriter", [&]() -> std::string {
    d::PropellerOptions o = Options(j, j.inputs);
    std::map<uint64_t, int> index; Source source;
    auto p = Graphs(j, o, &source, &index);
    if (!p) return "no";
    d::PropellerStats::CodeLayoutStats stats;
    d::PropellerProfile profile;
    std::unique_ptr<d::ProgramCfg> owner;  // of what names point to
    auto layout = [&]() { profile.functions_cluster_info_by_section_name = d::GenerateLayoutBySection(*profile.program_cfg, o.code_layout_params(), stats); };
    profile.program_cfg = std::move(p);
    if (!before) layout();
    auto graphs = std::move(*profile.program_cfg).release_cfgs_by_index();
    std::map<int, int> fn;
    for (auto& f : paths) {
      int i = index.at(j.bin.fn[f.first].addr); fn[i] = f.first;
      for (auto& path : f.second) graphs.at(i)->ClonePath(path[0], absl::MakeSpan(path).subspan(1));
    }
    owner = std::move(profile.program_cfg);
    profile.program_cfg = std::make_unique<d::ProgramCfg>(std::move(graphs));
    if (before) layout();
    else for (auto& s : profile.functions_cluster_info_by_section_name) for (auto& info : s.second) {
      auto* g = profile.program_cfg->GetCfgByIndex(info.function_index);
      for (auto& path : g->clone_paths()) for (size_t k = 1; k < path.size(); ++k) {
        if (!Choose(4, "not-placed")) continue;
        auto& c = info.clusters[Choose(info.clusters.size(), "cluster")].full_bb_ids;
        c.insert(c.begin() + 1 + Choose(c.size(), "place"), path[k]);
      }
    }
    if (!d::PropellerProfileWriter(o).Write(profile).ok()) return "not written";
    // What should have been written.
    std::string cc, ld;
    for (auto& s : profile.functions_cluster_info_by_section_name) {
      std::map<unsigned, std::string> hot, cold;
      for (auto& info : s.second) {
        auto* g = profile.program_cfg->GetCfgByIndex(info.function_index);
        std::string names, m, part; bool entry = false; size_t listed = 0;
        for (auto n : g->names()) names += (names.empty() ? "" : " ") + n.str();
        if (g->module_name()) cc += "m " + g->module_name()->str() + "\n";
        cc += "f " + names + "\n";
        std::map<std::pair<int, int>, int> seen;
        if (fn.count(info.function_index)) for (auto& path : paths.at(fn[info.function_index])) {
          for (size_t k = 0; k < path.size(); ++k) cc += Str("%s%d", k ? " " : "p", g->nodes()[path[k]]->bb_id());
          cc += "\n";
        }
        for (size_t c = 0; c < info.clusters.size(); ++c) {
          auto& ids = info.clusters[c].full_bb_ids;
          bool first = ids[0].intra_cfg_id.bb_index == 0; entry |= first; listed += ids.size();
          for (auto n : g->names()) hot[info.clusters[c].layout_index] += n.str() + (first ? "" : Str(".__part.%d", int(c))) + "\n";
          for (size_t k = 0; k < ids.size(); ++k) {
            auto& id = ids[k]; ++seen[{id.intra_cfg_id.bb_index, id.intra_cfg_id.clone_number}];
            cc += Str("%s%d", k ? " " : "c", id.bb_id) + (id.intra_cfg_id.clone_number ? Str(".%d", id.intra_cfg_id.clone_number) : "");
          }
          cc += "\n";
        }
        for (auto& b : seen) if (b.second != 1) return "block placed twice";
        if (listed != g->nodes().size()) for (auto n : g->names()) cold[info.cold_cluster_layout_index] += n.str() + (entry ? ".cold\n" : "\n");
        if (before && !j.split && listed != g->nodes().size()) return "not all blocks are placed";
      }
      for (auto& x : hot) ld += x.second;
      for (auto& x : cold) ld += x.second;
    }
    return cc + "\x01" + ld;
  });
  SIM_REQUIRE(r.kind == ProcResult::kReturned, "crash", r.Describe());
  SIM_REQUIRE(r.out != "no" && r.out != "not written", "spurious-failure", "no fault injected, but " + r.out + " graphs");
  std::vector<std::string> want = Words(r.out, '\x01');
  SIM_REQUIRE(want.size() == 2, "wrong-layout", r.out);
  Result q = Collect();
  std::string cc; std::vector<std::string> lines = Lines(q.cc);
  SIM_REQUIRE(!lines.empty() && lines[0] == "v1", "malformed", "no version line");
  for (size_t i = 1; i < lines.size(); ++i) if (lines[i][0] != '#') cc += lines[i] + "\n";
  auto diff = [](const std::string& a, const std::string& b) { auto x = Lines(a), y = Lines(b); for (size_t i = 0; i < std::max(x.size(), y.size()); ++i) { std::string u = i < x.size() ? x[i] : "end", v = i < y.size() ? y[i] : "end"; if (u != v) return "expected '" + u + "', got '" + v + "'"; } return std::string(); };
  SIM_REQUIRE(cc == want[0], "wrong-clusters", diff(want[0], cc));
  SIM_REQUIRE(q.ld == want[1], "wrong-symbols", diff(want[1], q.ld));
  // Without the copies it is a layout of the original blocks.
  std::string plain; bool placed = false;
  for (auto& l : Lines(cc)) {
    if (l[0] == 'p') continue;
    if (l[0] != 'c') { plain += l + "\n"; continue; }
    std::string line;
    for (auto& w : Words(l.substr(1), ' ')) { if (w.find('.') != std::string::npos) placed = true; else line += (line.empty() ? "c" : " ") + w; }
    if (!line.empty()) plain += line + "\n";
  }
  Job k = j;
  std::vector<OutFn> fns;
  Result bare{"v1\n" + plain, "", {}};
  // Sections are only named in verbose output.
  if (j.verbose) {
    bare.cc = "v1\n"; auto x = Lines(plain); size_t at = 0;
    for (size_t i = 1; i < lines.size(); ++i) {
      if (lines[i].rfind("#section", 0) == 0) bare.cc += lines[i] + "\n";
      else if (lines[i][0] == 'f') { do bare.cc += x[at] + "\n"; while (x[at++][0] != 'f'); while (at < x.size() && x[at][0] == 'c') bare.cc += x[at++] + "\n"; }
    }
    Got g = Match(k, bare);
    if (!before) CheckClusters(k, g);
  }
  sim::Count("reach.copies", !paths.empty()); sim::Count("reach.placed_copies", placed);
}
// Statistics of several runs added up, in any order.
SIM_SCENARIO(stats_sum, "P25", 1) {
  using E = d::CFGEdge; using M = d::ChainMergeOrder; using S = d::PropellerStats;
  int n = 1 + Choose(4, "runs");
  std::vector<S> v(n);
  S want;
  auto num = [](auto& at, auto& sum) { if (Flip(1, 3, "none")) return; auto x = static_cast<std::decay_t<decltype(at)>>(Choose(Flip(1, 4, "many") ? 100000000 : 9, "number")); at = x; sum += x; };
  for (S& s : v) {
#define NUM(f) num(s.f, want.f)
    NUM(profile_stats.binary_mmap_num); NUM(profile_stats.perf_file_parsed); NUM(profile_stats.br_counters_accumulated);
    NUM(bbaddrmap_stats.hot_functions); NUM(bbaddrmap_stats.duplicate_symbols); NUM(bbaddrmap_stats.bbaddrmap_function_does_not_have_symtab_entry);
    NUM(cfg_stats.cfgs_created); NUM(cfg_stats.nodes_created); NUM(cfg_stats.hot_basic_blocks); NUM(cfg_stats.hot_empty_basic_blocks);
    NUM(cfg_stats.cfgs_with_hot_landing_pads); NUM(cfg_stats.edges_with_same_src_sink_but_different_type);
    for (auto k : {E::Kind::kBranchOrFallthough, E::Kind::kCall, E::Kind::kRet}) if (Flip(2, 3, "kind")) { NUM(cfg_stats.edges_created_by_kind[k]); NUM(cfg_stats.total_edge_weight_by_kind[k]); }
    NUM(code_layout_stats.n_single_node_chains); NUM(code_layout_stats.n_multi_node_chains);
    for (auto k : {M::kSU, M::kS2S1U, M::kS1US2, M::kUS2S1, M::kS2US1}) if (Flip(1, 2, "order")) NUM(code_layout_stats.n_assemblies_by_merge_order[k]);
    NUM(code_layout_stats.original_intra_score); NUM(code_layout_stats.optimized_intra_score); NUM(code_layout_stats.original_inter_score); NUM(code_layout_stats.optimized_inter_score);
    for (auto p : {&S::DisassemblyStats::could_not_disassemble, &S::DisassemblyStats::may_affect_control_flow, &S::DisassemblyStats::cant_affect_control_flow}) {
      num((s.disassembly_stats.*p).absolute, (want.disassembly_stats.*p).absolute); num((s.disassembly_stats.*p).weighted, (want.disassembly_stats.*p).weighted);
    }
    NUM(cloning_stats.paths_cloned); NUM(cloning_stats.bbs_cloned); NUM(cloning_stats.bytes_cloned); NUM(cloning_stats.score_gain);
#undef NUM
  }
  // As a whole or part by part.
  S sum; sim::Shuffle(v, "stats-order");
  bool parts = Flip(1, 3, "by-part");
  for (S& s : v) {
    if (!parts) { sum += s; continue; }
    sum.bbaddrmap_stats += s.bbaddrmap_stats; sum.profile_stats += s.profile_stats; sum.disassembly_stats += s.disassembly_stats;
    sum.cfg_stats += s.cfg_stats; sum.code_layout_stats += s.code_layout_stats; sum.cloning_stats += s.cloning_stats;
  }
  std::string got = Say(sum) + Str("gain %.9g", sum.cloning_stats.score_gain), exp = Say(want) + Str("gain %.9g", want.cloning_stats.score_gain);
  SIM_REQUIRE(got == exp, "sum", "added up:\n" + got + "\nwant:\n" + exp);
  SIM_REQUIRE(got.find("missing") == std::string::npos, "sum-text", got);
  sim::Count("reach.summed");
}
}  // namespace prop
