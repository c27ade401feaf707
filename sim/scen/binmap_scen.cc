// P28: what a symbol map knows of a binary. For create (and with HAVE_LLVM).
#include <limits>

#include "create_model.h"

using devtools_crosstool_autofdo::NameSymbolMap;
using devtools_crosstool_autofdo::Symbol;
using devtools_crosstool_autofdo::SymbolMap;

namespace {
// Names that stand at one address only.
std::set<std::string> Unique(const Setup& s) {
  std::map<std::string, int> n;
  for (auto& a : s.names) for (auto& x : a.second) ++n[x];
  std::set<std::string> r;
  for (auto& x : n) if (x.second == 1) r.insert(x.first);
  return r;
}
uint64_t Address(const Setup& s) {
  if (Choose(12, "far") == 11) { static const uint64_t far[] = {0, 1, UINT64_MAX, UINT64_MAX - 1, uint64_t{1} << 32, uint64_t{1} << 63}; return far[Choose(6, "which")]; }
  const auto& f = s.funcs[Choose(s.funcs.size(), "func")];
  switch (Choose(5, "where")) {
    case 0: return f.addr;
    case 1: return f.addr + f.size - 1;
    case 2: return f.addr + f.size;
    case 3: return f.addr - 1;
    default: return f.addr + Choose(f.size, "inside");
  }
}
std::string Queries(const Setup& s, const SymbolMap& m, int n, bool kernel) {
  uint64_t base = kernel ? s.segs[0].first : 0;  // of a kernel, offsets count from its first segment
  for (int i = 0; i < n; ++i) {
    uint64_t a = Address(s);
    std::string want, got; const char* what = "";
    switch (Choose(5, "query")) {
      case 0: {
        what = "function at an address";
        const golden::FuncSym* f = s.Func(a);
        want = f ? Str("%s %lx %lx", s.names.at(f->addr)[0].c_str(), (unsigned long)f->addr, (unsigned long)(f->addr + f->size)) : "none";
        const std::string* name = nullptr; uint64_t lo = 0, hi = 0;
        bool parts[3] = {Choose(4, "name") != 3, Choose(4, "start") != 3, Choose(4, "end") != 3};
        bool ok = m.GetSymbolInfoByAddr(a, parts[0] ? &name : nullptr, parts[1] ? &lo : nullptr, parts[2] ? &hi : nullptr);
        if (ok && f) { if (!parts[1]) lo = f->addr; if (!parts[2]) hi = f->addr + f->size; }
        got = ok ? Str("%s %lx %lx", parts[0] ? name ? name->c_str() : "(null)" : f ? s.names.at(f->addr)[0].c_str() : "", (unsigned long)lo, (unsigned long)hi) : "none";
        break;
      }
      case 1: {
        what = "function that starts at";
        auto it = s.names.find(a); want = it == s.names.end() ? "none" : it->second[0];
        const std::string* p = m.GetSymbolNameByStartAddr(a); got = p ? *p : "none";
        break;
      }
      case 2: {
        what = "address of a name";
        const auto& f = s.funcs[Choose(s.funcs.size(), "func")]; const std::string& name = s.names.at(f.addr)[0];
        auto it = m.GetNameAddrMap().find(name);
        if (it == m.GetNameAddrMap().end()) { want = Str("%lx", (unsigned long)f.addr); got = "none"; break; }
        auto at = s.names.find(it->second);
        if (at == s.names.end() || at->second[0] != name) { want = Str("%lx", (unsigned long)f.addr); got = Str("%lx", (unsigned long)it->second); }
        break;
      }
      case 3: {
        what = "link-time address of an offset";
        const auto& f = s.funcs[Choose(s.funcs.size(), "func")]; uint64_t v = f.addr + Choose(f.size, "inside"), o = s.ToOffset(v);
        want = Str("%lx", (unsigned long)s.ToStatic(o)); got = Str("%lx", (unsigned long)m.get_static_vaddr(o - base));
        break;
      }
      case 4: {
        what = "offset of a link-time address";
        const auto& f = s.funcs[Choose(s.funcs.size(), "func")]; uint64_t v = f.addr + Choose(f.size, "inside");
        if (v < s.segs[0].second) break;
        want = Str("%lx", (unsigned long)(s.ToOffset(v) - base)); got = Str("%lx", (unsigned long)m.GetFileOffsetFromStaticVaddr(v));
        break;
      }
    }
    if (want != got) return Str("%s %lx: expected '%s', got '%s'", what, (unsigned long)a, want.c_str(), got.c_str());
    sim::State(sim::HashStr(got));
  }
  return "ok";
}
struct Group { uint64_t head = 0, total = 0; };
// Symbols of the binary are added and counted, with their other names.
std::string Counting(const Setup& s, SymbolMap* m) {
  std::map<std::string, int> map; std::vector<Group> groups;
  std::set<std::string> unique = Unique(s), given;  // `given`: other names added here
  std::map<std::string, std::vector<std::string>> also;  // first name -> other names
  std::vector<std::string> first;
  for (auto& a : s.names) {
    bool ok = true; for (auto& x : a.second) ok &= unique.count(x) > 0;
    if (!ok) continue;
    first.push_back(a.second[0]);
    also[a.second[0]].assign(a.second.begin() + 1, a.second.end());
  }
  if (first.empty()) return "ok";
  std::map<std::string, std::vector<std::string>> known;  // names of one symbol
  int policy = Choose(3, "policy"); static const char* pol[] = {"selected", "all", "none"};
  m->set_suffix_elision_policy(pol[policy]);
  if (m->suffix_elision_policy() != pol[policy]) return "policy is " + m->suffix_elision_policy();
  std::vector<uint64_t> hit;  // offsets
  for (int i = 0, n = Choose(30, "calls"); i < n; ++i) {
    const std::string& f = first[Choose(first.size(), "first")];
    switch (Choose(5, "call")) {
      case 0: case 1: {
        m->AddSymbol(f);
        if (!map.count(f)) { groups.push_back({}); int g = int(groups.size()) - 1; map[f] = g; for (auto& x : also[f]) map[x] = g; }
        break;
      }
      case 2: {  // another name, before the symbol is added
        std::string name = Str("given_%d%s", i, Choose(2, "suffix") ? ".llvm.77" : "");
        if (map.count(f)) break;
        m->AddAlias(f, name); also[f].push_back(name); sim::Count("reach.given_names");
        break;
      }
      default: {
        if (map.empty()) break;
        auto it = map.begin(); std::advance(it, Choose(map.size(), "name"));
        uint64_t h = Choose(1000, "head"), t = Choose(100000, "total");
        m->AddSymbolEntryCount(it->first, h, t); groups[it->second].head += h; groups[it->second].total += t;
      }
    }
  }
  if (Choose(3, "mappings") == 2) {  // symbols made elsewhere
    NameSymbolMap more;
    for (int k = 0, n = 1 + Choose(3, "more"); k < n; ++k) {
      Symbol* y = new Symbol(); groups.push_back({Choose(1000, "head"), Choose(100000, "total")});
      y->head_count = groups.back().head; y->total_count = groups.back().total;
      y->info.func_name = nullptr;
      int names = 1 + Choose(2, "names");
      for (int j = 0; j < names; ++j) {
        std::string x = Choose(2, "known") && !map.empty() ? std::next(map.begin(), Choose(map.size(), "name"))->first : Str("made_%d_%d", k, j);
        if (more.count(x)) x = Str("made_%d_%d", k, j);
        more.insert({x, y});
        map[x] = int(groups.size()) - 1;
      }
    }
    m->AddSymbolMappings(more);
    sim::Count("reach.mappings");
    // A symbol is named by an entry of the map.
    for (auto& x : m->map()) if (!x.second->info.func_name) x.second->info.func_name = x.first.c_str();
  }
  auto show = [&](const std::map<std::string, Group>& v) { std::string r; for (auto& x : v) r += Str("%s %lu %lu\n", x.first.c_str(), (unsigned long)x.second.head, (unsigned long)x.second.total); return r; };
  auto got = [&] { std::map<std::string, Group> v; for (auto& x : m->map()) v[x.first] = {x.second->head_count, x.second->total_count}; return show(v); };
  std::map<std::string, Group> want;
  for (auto& x : map) want[x.first] = groups[x.second];
  if (show(want) != got()) return "counts: " + FirstDiff(show(want), got());
  if (m->size() != map.size()) return "size";
  for (auto& x : map) for (auto& y : map) if ((x.second == y.second) != (m->GetSymbolByName(x.first) == m->GetSymbolByName(y.first))) return x.first + " and " + y.first + ": one symbol or two?";
  if (m->GetSymbolByName("nothing of this name")) return "a symbol of an unknown name";
  sim::Count("reach.counted", map.size());
  // Functions that were sampled: at these offsets, or by their counts.
  std::set<uint64_t> at; std::map<uint64_t, uint64_t> sampled;
  for (int i = Choose(10, "sampled"); i > 0; --i) {
    const auto& f = s.funcs[Choose(s.funcs.size(), "func")]; uint64_t o = s.ToOffset(f.addr + Choose(f.size, "inside"));
    const golden::FuncSym* g = s.Func(s.ToStatic(o));
    if (g && s.ToStatic(o) >= g->addr) { at.insert(o); sampled[g->addr] = g->size; }
  }
  // Of functions in unordered segments offsets do not order the addresses.
  for (size_t i = 1; i < s.segs.size(); ++i) if (s.segs[i].first < s.segs[i - 1].first) at.clear();
  if (at.empty()) sampled.clear();
  for (auto& f : s.funcs) { auto it = want.find(s.names.at(f.addr)[0]); if (it != want.end() && it->second.total > 0) sampled[f.addr] = f.size; }
  auto gs = m->GetSampledSymbolStartAddressSizeMap(at);
  if (gs != sampled) {
    for (auto& x : sampled) if (!gs.count(x.first)) return Str("sampled function %lx is missing", (unsigned long)x.first);
    for (auto& x : gs) if (!sampled.count(x.first)) return Str("function %lx was not sampled", (unsigned long)x.first);
    return "sampled function sizes";
  }
#ifdef HAVE_LLVM
  std::set<std::string> listed, cold;
  for (auto& x : m->collectNamesForProfSymList()) listed.insert(x.first.str());
  for (auto& f : s.funcs) {
    const std::string& n = s.names.at(f.addr)[0]; auto a = want.find(n), b = want.find(Elide(n, policy));
    if ((a == want.end() || !a->second.total) && (b == want.end() || !b->second.total)) cold.insert(n);
  }
  listed.erase("__llvm_fs_discriminator__");  // the mark of the compiler may be listed
  if (listed != cold) return Str("%zu names without samples, expected %zu", listed.size(), cold.size());
  sim::Count("reach.symbol_list");
#endif
  // The names that compilers add to are merged; counts are conserved.
  std::map<std::string, std::string> up;
  std::function<std::string(std::string)> root = [&](std::string x) { while (up.count(x) && up[x] != x) x = up[x]; return x; };
  auto join = [&](const std::string& x, const std::string& y) { std::string a = root(x), b = root(y); if (a != b) up[a] = b; };
  for (auto& x : map) { join("name " + x.first, Str("group %d", x.second)); join("name " + x.first, "name " + Elide(x.first, policy)); }
  std::map<std::string, Group> sum, merged;
  for (size_t g = 0; g < groups.size(); ++g) { Group& t = sum[root(Str("group %d", int(g)))]; t.head += groups[g].head; t.total += groups[g].total; }
  for (auto& x : map) merged[Elide(x.first, policy)] = sum[root("name " + x.first)];
  m->ElideSuffixesAndMerge();
  if (show(merged) != got()) return Str("merged (%s): ", pol[policy]) + FirstDiff(show(merged), got());
  for (auto& x : m->map()) if (m->GetOriginalName(x.first) != Elide(x.first, policy)) return "original name of " + x.first;
  if (merged.size() != want.size()) sim::Count("reach.merged_names");
  return "ok";
}
}  // namespace

SIM_SCENARIO(binary_symbols, "P28", 3) {
  Setup s = MakeBinary();
  Disk::Write("/sim/" + s.file, s.image);
  sim::SwarmHash(); sim::SwarmAlloc();
  if (Choose(3, "short-reads") == 2) sim::SetFault(sim::kShortRead, 1 + Choose(4, "rate"));
  bool kernel = Choose(4, "kernel") == 3 && s.bin[0] != 'k';
  ProcResult r = sim::Process("symbols", [&]() -> std::string {
    SymbolMap m("/sim/" + s.file);
    m.ReadLoadableExecSegmentInfo(kernel);
    if (!m.binary_is_readable()) return "called unreadable";
    std::string x = Queries(s, m, 1 + Choose(60, "nqueries"), kernel);
    if (x != "ok" || kernel) return x;
    return Counting(s, &m);
  });
  SIM_REQUIRE(r.Ok() && r.out == "ok", "wrong-answer", s.bin + ": " + r.Describe() + " " + r.out.substr(0, 500));
  sim::Count("reach.binaries"); if (kernel) sim::Count("reach.kernel"); if (s.segs.size() > 1) sim::Count("reach.segments");
}
// A binary that cannot be read in full is reported, not answered from in part.
SIM_SCENARIO(binary_lost, "P28", 2) {
  Setup s = MakeBinary();
  std::string path = "/sim/" + s.file;
  Disk::Write(path, s.image);
  sim::SwarmHash();
  sim::SwarmFaults({sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kMmapFail, sim::kStatFail, sim::kVanish, sim::kSlowIo}, path);
  if (Choose(2, "one-fault")) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
  ProcResult r = sim::Process("symbols", [&]() -> std::string {
    SymbolMap m(path);
    m.ReadLoadableExecSegmentInfo(false);
    if (!m.binary_is_readable()) return "unreadable";
    return Queries(s, m, 1 + Choose(40, "nqueries"), false);
  });
  bool fired = sim::HardFaults() > 0;
  sim::ClearFaults();
  if (r.Ok() && r.out == "ok") { sim::Count("reach.answered"); return; }
  bool refused = r.kind == ProcResult::kDied || r.kind == ProcResult::kSignal || r.out == "unreadable";
  SIM_REQUIRE(refused, "wrong-answer", s.bin + ": " + r.Describe() + " " + r.out.substr(0, 500));
  SIM_REQUIRE(fired, "spurious-failure", s.bin + ": " + r.Describe() + " " + r.out.substr(0, 500));
  sim::Count("reach.refused");
}
