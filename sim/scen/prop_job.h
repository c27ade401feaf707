// A Propeller run: inputs, command line, and what must come out.
#ifndef PROP_JOB_H_
#define PROP_JOB_H_
#include <sstream>

#include "llvm_propeller_profile_generator.h"
#include "llvm_propeller_telemetry_reporter.h"
#include "prop_spe.h"

int create_llvm_prof_main(int, char**);

namespace prop {
using sim::Disk;
using sim::ProcResult;

struct Job {
  Bin bin; std::vector<Perf> perf; std::vector<std::string> args, inputs;
  bool split = true, reorder = true, inter = false, clustering = false, dump = false, list = false, spe = false;
  unsigned fwd = 1024, bwd = 680, threshold = 0; bool chain_split = true; int version = 1;
  bool modules = false, has_dwp = true;  // name the compile units
  // By the library, with options the tool has no flags for.
  bool api = false, verbose = true, ignore_id = false, text_only = true; std::string match;
  unsigned w_fall = 10, w_fwd = 1, w_bwd = 1, merge_size = 2097152;
  int bad = 0;  // kinds of input which are not accepted
  bool usable = false; Program p;
  std::map<int, std::vector<std::vector<Node>>> chains;  // asked for, by function
};
inline void WriteInputs(const Job& j) {
  Disk::Write(j.bin.path, j.bin.bytes);
  if (!j.bin.dwp.empty() && j.has_dwp) Disk::Write(j.bin.path + ".dwp", j.bin.dwp);
  for (size_t i = 0; i < j.perf.size(); ++i) Disk::Write(j.inputs[i], j.perf[i].bytes);
  if (!j.list) return;
  std::string l = Choose(2, "comment") ? "# inputs\n\n" : "";
  for (auto& f : j.inputs) l += f + "\n";
  if (Flip(1, 3, "no-newline")) l.pop_back();
  Disk::Write("/sim/list", l);
}
// The command line for the inputs in the given order.
inline std::vector<std::string> Args(const Job& j, const std::vector<std::string>& inputs) {
  std::vector<std::string> a = j.args;
  std::string s;
  for (auto& f : inputs) s += (s.empty() ? "" : ";") + f;
  if (j.list) s = "@/sim/list"; else if (inputs.size() > 1 && s.size() % 3 == 0) s += ";";
  a.push_back("--profile=" + s);
  return a;
}
inline devtools_crosstool_autofdo::PropellerOptions Options(const Job& j, const std::vector<std::string>& inputs) {
  namespace d = devtools_crosstool_autofdo;
  d::PropellerOptions o; auto* l = o.mutable_code_layout_params();
  o.set_binary_name(j.bin.path); o.set_cluster_out_name("/sim/cc"); o.set_symbol_order_out_name("/sim/ld");
  if (!j.match.empty()) o.set_profiled_binary_name(j.match);
  if (j.ignore_id) o.set_ignore_build_id(true);
  if (j.dump) o.set_cfg_dump_dir_name("/sim/dump");
  o.set_verbose_cluster_output(j.verbose); o.set_output_module_name(j.modules); o.set_filter_non_text_functions(j.text_only);
  o.set_cluster_out_version(j.version == 1 ? d::VERSION_1 : d::VERSION_0);
  l->set_chain_split(j.chain_split); l->set_split_functions(j.split); l->set_reorder_hot_blocks(j.reorder);
  l->set_inter_function_reordering(j.inter); l->set_call_chain_clustering(j.clustering);
  l->set_fallthrough_weight(j.w_fall); l->set_forward_jump_weight(j.w_fwd); l->set_backward_jump_weight(j.w_bwd); l->set_cluster_merge_size_threshold(j.merge_size);
  if (j.threshold) l->set_chain_split_threshold(j.threshold);
  if (j.fwd != 1024) l->set_forward_jump_distance(j.fwd);
  if (j.bwd != 680) l->set_backward_jump_distance(j.bwd);
  size_t n = 0;
  if (j.bad != 1) for (auto& f : inputs) {
    auto* p = o.add_input_profiles(); p->set_name(f);
    if (j.spe) p->set_type(d::PERF_SPE); else if ((f.size() + n++ + j.bin.fn.size()) % 3) p->set_type(d::PERF_LBR);
  }
  if (j.bad == 2) o.add_profile_names(inputs[0]);
  if (j.bad == 3) for (auto& p : *o.mutable_input_profiles()) p.set_type(d::FREQUENCIES_PROTO);
  if (j.bad == 4) o.add_input_profiles()->set_type(j.spe ? d::PERF_LBR : d::PERF_SPE), o.mutable_input_profiles()->rbegin()->set_name(inputs[0]);
  return o;
}
// One run of the tool, or of the library as another program would use it.
using Reporter = std::function<std::string(const devtools_crosstool_autofdo::PropellerStats&)>;
inline ProcResult Run(const Job& j, const Reporter& report = nullptr) {
  if (!j.api) return sim::RunMain(create_llvm_prof_main, Args(j, j.inputs));
  ProcResult r = sim::Process("GeneratePropellerProfiles", [&]() -> std::string {
    namespace d = devtools_crosstool_autofdo;
    static std::string said;
    if (report) d::RegisterPropellerTelemetryReporter([&report](const d::BinaryContent& b, const d::PropellerStats& s) { said += "<" + b.file_name + ">" + report(s); });
    if (report) d::RegisterPropellerTelemetryReporter([](const d::BinaryContent&, const d::PropellerStats&) { said += "again"; });
    absl::Status s = d::GeneratePropellerProfiles(Options(j, j.inputs));
    return (s.ok() ? "1" : "0") + said;
  });
  if (r.kind == ProcResult::kReturned) { r.kind = ProcResult::kExited; r.code = r.out.empty() || r.out[0] != '1'; if (!r.out.empty()) r.out.erase(0, 1); }
  sim::Count("reach.library");
  return r;
}
// With `exact`, scores are sums of binary fractions, so that nothing is rounded.
inline Job MakeJob(bool wild = true, bool verbose = true, bool spe = false, bool exact = false, int api = -1) {
  Job j; j.spe = spe; j.verbose = verbose; j.api = api < 0 ? Flip(1, 4, "library") : api;
  GenOpts o;
  if (exact || Choose(2, "plain-symbols")) o.dup_names = false;
  const bool rich = exact ? Choose(3, "rich") : Flip(1, 6, "rich");
  if (rich) { o.rich = true; o.max_fn = 5; }
  if (Choose(3, "one-section") == 2) o.other_sections = false;
  o.modules = true;
  j.bin = MakeBin(o);
  std::string match;
  j.args = {"create_llvm_prof", "--format=propeller", "--binary=" + j.bin.path, "--out=/sim/cc", "--propeller_symorder=/sim/ld"};
  if (verbose) j.args.push_back("--propeller_verbose_cluster_output");
  switch (Flip(1, 4, "by-name") ? 1 + Choose(3, "name-kind") : 0) {
    case 1: match = j.bin.kernel ? j.bin.map_name : "/usr/bin/app"; break;
    case 2: match = j.bin.kernel ? j.bin.map_name : "app"; break;
    case 3: if (!j.bin.kernel) { match = "/sim/app"; j.ignore_id = true; j.args.push_back("--ignore_build_id"); }
  }
  if (!match.empty() && match != "/sim/app") { j.match = match; j.args.push_back("--profiled_binary_name=" + match); if (Choose(3, "both") == 2) j.ignore_id = true, j.args.push_back("--ignore_build_id"); }
  switch (Choose(5, "layout")) {
    case 3: j.reorder = false; j.args.push_back("--propeller_split_only"); break;
    case 4: j.split = false; j.args.push_back("--propeller_layout_only"); break;
  }
  if (Choose(3, "inter") == 2) { j.inter = true; j.args.push_back("--propeller_inter_function_ordering"); }
  if (Choose(3, "clustering") == 2) { j.clustering = true; j.args.push_back("--propeller_call_chain_clustering"); }
  if (Flip(1, 4, "no-chain-split")) { j.chain_split = false; j.args.push_back("--nopropeller_chain_split"); }
  else if (Choose(2, "threshold")) { j.threshold = 1 + Choose(12, "threshold-size"); j.args.push_back(Str("--propeller_chain_split_threshold=%u", j.threshold)); }
  if (exact || Flip(1, 4, "forward")) { j.fwd = exact ? 8u << Choose(9, "distance") : 1 + Choose(3000, "distance"); j.args.push_back(Str("--propeller_forward_jump_distance=%u", j.fwd)); }
  if (exact || Flip(1, 4, "backward")) { j.bwd = exact ? 8u << Choose(9, "distance") : 1 + Choose(3000, "distance"); j.args.push_back(Str("--propeller_backward_jump_distance=%u", j.bwd)); }
  if (Flip(1, 3, "old-encoding")) { j.version = 0; j.args.push_back("--propeller_cluster_encoding_version=1"); }
  if (Flip(1, 3, "dump")) { j.dump = true; j.args.push_back("--propeller_cfg_dump_dir=/sim/dump"); }
  if (Flip(1, j.bin.debug_info ? 2 : 12, "module-names")) { j.modules = true; j.args.push_back("--propeller_output_module_name"); }
  if (!j.bin.dwp.empty() && Flip(1, 6, "no-dwp")) j.has_dwp = false;
  if (!j.api) j.list = Flip(1, 4, "list");
  if (j.api) {
    if (Flip(1, 3, "all-sections")) j.text_only = false;
    if (Flip(1, 3, "merge-size")) j.merge_size = Choose(2, "small") ? 1 + Choose(60, "merge-bytes") : 1 + Choose(600, "merge-bytes");
    if (Flip(1, 3, "weights")) { j.w_fall = Choose(21, "weight"); j.w_fwd = Choose(5, "weight"); j.w_bwd = Choose(5, "weight"); }
    if (Flip(1, 40, "bad-input")) j.bad = 1 + Choose(4, "bad-kind");
  }
  if (spe) j.args.push_back("--profiler=perf_spe");
  Counters br, ft; std::map<uint64_t, uint64_t> not_taken;
  for (int n = 1 + (Choose(3, "many") == 2 ? 1 + Choose(2, "more") : 0); n > 0; --n) {
    j.perf.push_back(spe ? MakeSpe(j.bin, match, rich ? 40 : 12) : MakeLbr(j.bin, match, rich ? 40 : 12, wild && Flip(1, 3, "wild-file")));
    j.inputs.push_back(Str("/sim/p%d", int(j.perf.size())));
    Perf& f = j.perf.back();
    j.usable |= f.used;
    for (auto& b : f.br) br[b.first] += b.second;
    for (auto& b : f.ft) ft[b.first] += b.second;
    for (auto& b : f.not_taken) not_taken[b.first] += b.second;
  }
  std::set<uint64_t> also;
  for (auto& b : not_taken) also.insert(b.first);
  if (spe && j.usable) {
    std::set<uint64_t> all = also;
    for (auto& b : br) all.insert(b.first.first), all.insert(b.first.second);
    ft = Inferred(j.bin, Select(j.bin, all, j.text_only), br, not_taken);
  }
  if (j.usable) j.p = Analyse(j.bin, br, ft, j.text_only, also);
  sim::HashBytes(j.bin.bytes.data(), j.bin.bytes.size());
  for (auto& f : j.perf) sim::HashBytes(f.bytes.data(), f.bytes.size());
  return j;
}
// Names were asked for, and cannot be had.
inline bool Nameless(const Job& j) { return j.modules && (!j.bin.debug_info || (!j.bin.dwp.empty() && !j.has_dwp)); }
inline bool MustFail(const Job& j) { return j.bad || !j.usable || j.p.failed || Nameless(j); }
inline std::string ModuleOf(const Job& j, int f) {
  if (!j.modules) return "-";
  for (auto& c : j.bin.cus) if (j.bin.fn[f].addr >= c.lo && j.bin.fn[f].addr < c.hi) return c.name;
  return "-";
}

// ---- what was written --------------------------------------------------------
struct OutFn {
  std::string section, module = "-"; std::vector<std::string> names; std::vector<std::vector<int>> clusters;
  double intra0 = 0, intra1 = 0, inter0 = 0, inter1 = 0; unsigned long long entry = 0; bool scored = false;
  std::vector<std::pair<int, std::pair<long long, std::multiset<std::pair<int, long long>>>>> prof;
};
inline std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> r; std::string l; std::istringstream in(s);
  while (std::getline(in, l)) r.push_back(l);
  return r;
}
inline std::vector<std::string> Words(const std::string& s, char sep) {
  std::vector<std::string> r; std::string w; std::istringstream in(s);
  while (std::getline(in, w, sep)) r.push_back(w);
  return r;
}
inline bool Number(const std::string& s, long long* v) {
  if (s.empty() || s.size() > 18) return false;
  *v = 0;
  for (size_t i = s[0] == '-'; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; *v = *v * 10 + (s[i] - '0'); }
  if (s[0] == '-') *v = -*v;
  return true;
}
// "" or what is malformed.
inline std::string Parse(const std::string& text, int version, std::vector<OutFn>* out) {
  std::string section, module = "-";
  std::vector<std::string> lines = Lines(text);
  size_t i = 0;
  if (!text.empty() && text.back() != '\n') return "the last line is cut";
  if (version == 1 && (lines.empty() || lines[i++] != "v1")) return "no version line";
  auto ids = [&](const std::string& s) {
    std::vector<int> c; long long v;
    for (auto& w : Words(s, ' ')) { if (!Number(w, &v)) return false; c.push_back(v); }
    out->back().clusters.push_back(c);
    return !c.empty();
  };
  for (; i < lines.size(); ++i) {
    const std::string& l = lines[i];
    if (l.rfind("#section ", 0) == 0) { section = l.substr(9); continue; }
    bool fn = version == 1 ? l.rfind("f ", 0) == 0 : l.rfind("!", 0) == 0 && l.rfind("!!", 0) != 0;
    if (version == 1 && l.rfind("m ", 0) == 0) {
      if (module != "-") return "two module names: " + l;
      module = l.substr(2); continue;
    }
    if (module != "-" && !fn) return "a module name before " + l;
    if (fn) {
      std::string names = l; size_t at = l.find(" M=");
      if (version == 0 && at != std::string::npos) module = l.substr(at + 3), names.resize(at);
      OutFn f; f.section = section; f.module = module; module = "-"; f.names = Words(names.substr(version == 1 ? 2 : 1), version == 1 ? ' ' : '/');
      if (f.names.empty()) return "no name: " + l;
      out->push_back(f); continue;
    }
    if (out->empty()) return "before any function: " + l;
    OutFn& f = out->back();
    if (version == 1 && l.rfind("c", 0) == 0) { if (!ids(l.substr(1))) return "bad cluster: " + l; continue; }
    if (version == 0 && l.rfind("!!", 0) == 0) { if (!ids(l.substr(2))) return "bad cluster: " + l; continue; }
    if (l.rfind("#ext-tsp", 0) == 0) {
      if (sscanf(l.c_str(), "#ext-tsp score: [intra: %lf -> %lf] [inter: %lf -> %lf]", &f.intra0, &f.intra1, &f.inter0, &f.inter1) != 4) return "bad score: " + l;
      f.scored = true; continue;
    }
    if (l.rfind("#entry-freq ", 0) == 0) { f.entry = strtoull(l.c_str() + 12, nullptr, 10); continue; }
    if (l.rfind("#cfg-prof ", 0) == 0) {
      bool first = true;
      for (auto& w : Words(l.substr(10), ' ')) {
        auto q = Words(w, ':'); long long a, b;
        if (q.size() != 2 || !Number(q[0], &a) || !Number(q[1], &b)) return "bad profile: " + l;
        if (first) f.prof.push_back({int(a), {b, {}}}); else f.prof.back().second.second.insert({int(a), b});
        first = false;
      }
      continue;
    }
    return "unknown line: " + l;
  }
  return "";
}
struct Result { std::string cc, ld; std::map<std::string, std::string> dump; bool operator==(const Result& o) const { return cc == o.cc && ld == o.ld && dump == o.dump; } };
inline Result Collect() {
  Result r;
  if (Disk::Exists("/sim/cc")) r.cc = Disk::Read("/sim/cc");
  if (Disk::Exists("/sim/ld")) r.ld = Disk::Read("/sim/ld");
  for (auto& f : Disk::List()) if (f.rfind("/sim/dump/", 0) == 0) r.dump[f] = Disk::Read(f);
  return r;
}
inline void Clean() {
  Disk::Remove("/sim/cc"); Disk::Remove("/sim/ld");
  for (auto& f : Disk::List()) if (f.rfind("/sim/dump", 0) == 0) Disk::Remove(f);
}
inline void Describe(const Job& j) {
  if (!sim::Verbose()) return;
  std::string s;
  if (j.api) s = Options(j, j.inputs).DebugString(); else for (auto& a : Args(j, j.inputs)) s += a + " ";
  s += "\n";
  for (auto& q : j.bin.secs) s += Str("section %s %llx+%llx\n", q.name.c_str(), (unsigned long long)q.addr, (unsigned long long)q.size);
  for (size_t i = 0; i < j.bin.fn.size(); ++i) {
    const Func& f = j.bin.fn[i];
    s += Str("function %d at %llx+%llx sec %d%s:", int(i), (unsigned long long)f.addr, (unsigned long long)f.size, f.sec, f.mapped ? "" : " unmapped");
    for (auto& n : f.names) s += " " + n;
    s += "\n";
    for (auto& b : f.b) s += Str("  bb %d +%llx size %llu md %d\n", b.id, (unsigned long long)b.off, (unsigned long long)b.size, b.md);
  }
  for (size_t i = 0; i < j.perf.size(); ++i) {
    s += Str("input %d%s\n", int(i), j.perf[i].used ? "" : " (not usable)");
    for (auto& b : j.perf[i].br) s += Str("  branch %llx -> %llx: %llu\n", (unsigned long long)b.first.first, (unsigned long long)b.first.second, (unsigned long long)b.second);
    for (auto& b : j.perf[i].not_taken) s += Str("  not taken %llx: %llu\n", (unsigned long long)b.first, (unsigned long long)b.second);
    for (auto& b : j.perf[i].ft) s += Str("  range %llx .. %llx: %llu\n", (unsigned long long)b.first.first, (unsigned long long)b.first.second, (unsigned long long)b.second);
  }
  for (auto& e : j.p.g.e) for (auto& k : e.second) s += Str("edge %d.%d -> %d.%d kind %d: %llu\n", e.first.first.f, e.first.first.b, e.first.second.f, e.first.second.b, k.first, (unsigned long long)k.second);
  sim::Show(s);
}
}  // namespace prop
#endif
