// Profiles transformed in memory: flat and partly flat profiles, scaling,
// sums, and counts that include callees.
#include "profile_model.h"

using namespace model;
using devtools_crosstool_autofdo::SourceInfo;
using devtools_crosstool_autofdo::SourceStack;
using devtools_crosstool_autofdo::Symbol;
using devtools_crosstool_autofdo::SymbolMap;
using sim::Choose;
using sim::Flip;
using sim::ProcResult;
using sim::Str;

namespace {
using Key = std::pair<Off, std::string>;
struct T {  // one function, out of line or inlined
  uint64_t total = 0, head = 0, incl = 0;
  std::map<Off, Pos> pos;
  std::map<Key, T> calls;
};
using Map = std::map<std::string, T>;
Off At(uint64_t o) { Off r; r.line = o >> 32; r.disc = o & 0xffffffff; return r; }
T Snap(const Symbol& y) {
  T t; t.total = y.total_count; t.head = y.head_count; t.incl = y.total_count_incl;
  for (auto& p : y.pos_counts) {
    Pos& q = t.pos[At(p.first)]; q.count = p.second.count;
    for (auto& x : p.second.target_map) q.targets[x.first] = x.second;
  }
  for (auto& c : y.callsites) t.calls[{At(c.first.location), c.first.callee_name}] = Snap(*c.second);
  return t;
}
Map Snap(const SymbolMap& m) { Map r; for (auto& s : m.map()) r[s.first] = Snap(*s.second); return r; }

void Add(std::map<Off, Pos>& a, const std::map<Off, Pos>& b) {
  for (auto& p : b) { Pos& q = a[p.first]; q.count += p.second.count; for (auto& x : p.second.targets) q.targets[x.first] += x.second; }
}
void Add(T& a, const T& b, bool heads) {
  a.total += b.total; a.head += b.head;
  (void)heads;
  Add(a.pos, b.pos);
  for (auto& c : b.calls) Add(a.calls[c.first], c.second, heads);
}
// How often it was entered: recorded, or that of its first line.
uint64_t Head(const T& t) {
  if (t.head) return t.head;
  bool has = !t.pos.empty();
  if (!t.calls.empty() && (!has || t.calls.begin()->first.first < t.pos.begin()->first)) return Head(t.calls.begin()->second);
  return has ? t.pos.begin()->second.count : 0;
}
// The callsite as a call.
void Call(T& t, const Off& at, const std::string& callee, uint64_t head) {
  Pos& p = t.pos[at]; p.count = std::max(p.count, head); p.targets[callee] += head;
}
void Flatten(Map& d, const std::string& name, const T& src, uint64_t head, bool all) {
  T own; own.pos = src.pos;
  for (auto& c : src.calls) Call(own, c.first.first, c.first.second, Head(c.second));
  T& to = d[name]; to.head += head;
  for (auto& p : own.pos) to.total += p.second.count;
  Add(to.pos, own.pos);
  if (all) for (auto& c : src.calls) Flatten(d, c.first.second, c.second, Head(c.second), true);
}
void Hybrid(Map& d, T& to, const T& src, uint64_t limit, uint64_t* sites, uint64_t* flat) {
  T own = src;
  for (auto& c : src.calls) {
    ++*sites;
    if (c.second.total > limit) { Hybrid(d, to.calls[c.first], c.second, limit, sites, flat); continue; }
    ++*flat;
    Call(own, c.first.first, c.first.second, c.second.head);
    Hybrid(d, d[c.first.second], c.second, limit, sites, flat);
  }
  to.total += src.total; to.head += src.head;
  Add(to.pos, own.pos);
}
void Show(const T& t, int ind, std::string* s) {
  for (auto& p : t.pos) {
    std::string x;
    for (auto& y : p.second.targets) if (y.second) x += Str(" [%s:%lu]", y.first.c_str(), (unsigned long)y.second);
    if (p.second.count || !x.empty()) *s += Str("%*s@%u.%u %lu%s\n", ind, "", p.first.line, p.first.disc, (unsigned long)p.second.count, x.c_str());
  }
  for (auto& c : t.calls) {
    *s += Str("%*s>%u.%u %s total=%lu head=%lu\n", ind, "", c.first.first.line, c.first.first.disc, c.first.second.c_str(), (unsigned long)c.second.total, (unsigned long)c.second.head);
    Show(c.second, ind + 1, s);
  }
}
std::string Show(const Map& m) {
  std::string s;
  for (auto& f : m) { s += Str("%s total=%lu head=%lu\n", f.first.c_str(), (unsigned long)f.second.total, (unsigned long)f.second.head); Show(f.second, 1, &s); }
  return s;
}
void Heads(Symbol* y, int level) {
  std::map<std::pair<uint64_t, std::string>, Symbol*> v;  // the order is ours
  for (auto& c : y->callsites) v[{c.first.location, c.first.callee_name}] = c.second;
  for (auto& c : v) { if (Flip(1, 3, "inline-head")) c.second->head_count = 1 + Choose(5000, "head"); Heads(c.second, level + 1); }
}
struct Made { SymbolMap m; std::vector<Op> ops; };
void Fill(SymbolMap* m, bool heads) {
  GenOptions o; o.working_sets = false; o.files = false; o.ctor_names = false;
  for (auto& op : Generate(o)) Apply(op, m);
  if (heads) for (auto& s : m->map()) Heads(const_cast<Symbol*>(m->GetSymbolByName(s.first)), 0);
}
uint64_t Limit(const Map& m) {  // near the totals that occur
  std::vector<uint64_t> v = {0, 1, 1000};
  std::function<void(const T&)> walk = [&](const T& t) { v.push_back(t.total); for (auto& c : t.calls) walk(c.second); };
  for (auto& f : m) walk(f.second);
  uint64_t x = v[Choose(v.size(), "limit")];
  return x + Choose(3, "limit-off") - (x ? 1 : 0);
}
std::string Same(const Map& want, const SymbolMap& got, const char* what) {
  std::string w = Show(want), g = Show(Snap(got));
  return w == g ? "" : std::string(what) + ": " + FirstDiff(w, g);
}
void Check(const char* name, const std::function<std::string()>& body) {
  sim::SwarmHash(); sim::SwarmAlloc();
  ProcResult r = sim::Process(name, body);
  SIM_REQUIRE(r.Ok(), "failed", r.Describe());
  SIM_REQUIRE(r.out.empty(), "wrong", r.out.substr(0, 600));
}
}  // namespace

SIM_SCENARIO(map_flat, "P27", 3) {
  int kind = Choose(4, "kind");
  Check("flatten", [&]() -> std::string {
    SymbolMap src;
    Fill(&src, Flip(1, 2, "inline-heads"));
    Map was = Snap(src), want;
    sim::State(sim::HashStr(Show(was)));
    std::string bad;
    uint64_t sum = 0; for (auto& f : was) sum += f.second.total;
    if (src.GetTotalSum() != sum) return Str("GetTotalSum %lu, sum of the totals %lu", (unsigned long)src.GetTotalSum(), (unsigned long)sum);
    uint64_t limit = Limit(was), n = Choose(3, "counted"), k = Choose(3, "counted"), wn = n, wk = k;
    SymbolMap dst;
    if (kind == 0) {
      for (auto& f : was) { ++wn; ++wk; Flatten(want, f.first, f.second, f.second.head, true); }
      dst.BuildFlatProfile(src, false, limit, n, k);
      sim::Count("reach.flat");
    } else if (kind == 1) {
      for (auto& f : was) {
        ++wn;
        if (f.second.total >= limit) { Add(want[f.first], f.second, true); sim::Count("reach.kept"); continue; }
        ++wk; Flatten(want, f.first, f.second, f.second.head, false); sim::Count("reach.cold_flattened");
      }
      dst.BuildFlatProfile(src, true, limit, n, k);
    } else if (kind == 2) {
      for (auto& f : was) Hybrid(want, want[f.first], f.second, limit, &wn, &wk);
      dst.BuildHybridProfile(src, limit, n, k);
      sim::Count("reach.hybrid_flattened", wk);
    } else {
      static const double ratios[] = {0, 0.25, 0.5, 1, 1.5, 2, 0.0625, 3};
      double ratio = ratios[Choose(8, "ratio")];
      auto scale = [&](uint64_t& x) { x = (uint64_t)roundl((long double)x * ratio); };
      std::function<void(T&)> walk = [&](T& t) {
        scale(t.total); scale(t.head);
        for (auto& p : t.pos) { scale(p.second.count); for (auto& y : p.second.targets) scale(y.second); }
        for (auto& c : t.calls) walk(c.second);
      };
      want = was; for (auto& f : want) walk(f.second);
      src.UpdateWithRatio(ratio);
      sim::Count("reach.scaled");
      return Same(want, src, "scaled");
    }
    if (n != wn || k != wk) return Str("counted %lu and %lu, should be %lu and %lu", (unsigned long)n, (unsigned long)k, (unsigned long)wn, (unsigned long)wk);
    return Same(want, dst, kind == 0 ? "flat" : kind == 1 ? "partly flat" : "hybrid");
  });
}

// Counts that include the callees.
namespace {
struct Incl { double v = 0, err = 0; };
struct Graph {
  Map m;
  std::map<std::string, int> id; std::vector<std::string> names;
  std::vector<std::vector<bool>> reach;
  std::vector<double> incl, err;
  std::map<const T*, Incl> inlined;
  std::vector<int> state;
  bool big = false;
  void Out(const T& t, int from) {
    for (auto& p : t.pos) for (auto& x : p.second.targets) if (id.count(x.first)) reach[from][id[x.first]] = true;
    for (auto& c : t.calls) Out(c.second, from);
  }
  Incl Eval(const T& t, int self) {
    Incl r; r.v = t.total;
    for (auto& p : t.pos) for (auto& x : p.second.targets) {
      auto it = id.find(x.first); if (it == id.end()) continue;
      int c = it->second;
      if (c == self || (reach[self][c] && reach[c][self])) { sim::Count("reach.cycles"); continue; }
      Solve(c);
      uint64_t h = m[x.first].head; double times = h ? h : 1;
      double v = incl[c] / times * x.second;
      r.v += v; r.err += err[c] / times * x.second + 1 + v * 1e-6;
    }
    for (auto& c : t.calls) { Incl i = Eval(c.second, self); inlined[&c.second] = i; r.v += i.v - c.second.total; r.err += i.err; }
    if (r.v > 1e17) big = true;
    return r;
  }
  void Solve(int i) {
    if (state[i]) return;
    double v = 0, e = 0; std::vector<int> scc;
    for (size_t j = 0; j < names.size(); ++j) if ((int)j == i || (reach[i][j] && reach[j][i])) scc.push_back(j);
    for (int j : scc) state[j] = 1;
    for (int j : scc) { Incl r = Eval(m[names[j]], j); v += r.v; e += r.err; }
    for (int j : scc) { incl[j] = v; err[j] = e; }
  }
  void Run() {
    for (auto& f : m) { id[f.first] = names.size(); names.push_back(f.first); }
    size_t n = names.size();
    reach.assign(n, std::vector<bool>(n)); incl.assign(n, 0); err.assign(n, 0); state.assign(n, 0);
    for (size_t i = 0; i < n; ++i) Out(m[names[i]], i);
    for (size_t k = 0; k < n; ++k) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (reach[i][k] && reach[k][j]) reach[i][j] = true;
    for (size_t i = 0; i < n; ++i) Solve(i);
  }
  std::string Near(const std::string& what, uint64_t got, double v, double e) {
    double d = (double)got - v;
    if (d < 0) d = -d;
    return d <= e + v * 1e-6 + 1 ? "" : what + Str(": %lu with callees, should be %.0f", (unsigned long)got, v);
  }
  std::string Inlined(const T& a, const T& was) {
    for (auto& c : was.calls) {
      const T& g = a.calls.at(c.first);
      Incl i = inlined[&c.second];
      std::string s = Near("inlined " + c.first.second, g.incl, i.v, i.err);
      if (s.empty()) s = Inlined(g, c.second);
      if (!s.empty()) return s;
    }
    return "";
  }
};
const char* Name(int i) { static const char* v[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}; return v[i]; }
// As DumpForAnalysis prints it.
void Text(const T& t, int indent, std::string* s) {
  auto place = [&](const Off& o) { *s += Str("%*s%u", indent, "", o.line) + (o.disc ? Str(".%u: ", o.disc) : ": "); };
  for (auto& p : t.pos) {
    place(p.first);
    *s += Str("%lu", (unsigned long)p.second.count);
    std::vector<std::pair<uint64_t, std::string>> v;
    for (auto& x : p.second.targets) v.push_back({x.second, x.first});
    std::sort(v.rbegin(), v.rend());
    for (auto& x : v) *s += "  " + x.second + Str("::%lu", (unsigned long)x.first);
    *s += "\n";
  }
  for (auto& c : t.calls) {
    place(c.first.first);
    *s += c.first.second + Str(": total:%lu total_incl:%lu\n", (unsigned long)c.second.total, (unsigned long)c.second.incl);
    Text(c.second, indent + 2, s);
  }
}
}  // namespace

SIM_SCENARIO(map_inclusive, "P27", 3) {
  int n = 2 + Choose(9, "functions");
  bool many = Flip(1, 4, "large-counts");
  auto num = [&] { return many ? 1 + Choose(2000000000, "count") : 1 + Choose(40, "count"); };
  bool acyclic = Flip(1, 3, "acyclic");
  sim::SwarmHash(); sim::SwarmAlloc();
  ProcResult r = sim::Process("inclusive", [&]() -> std::string {
    SymbolMap m;
    for (int i = 0; i < n; ++i) {
      m.AddSymbol(Name(i));
      if (Flip(4, 5, "head")) m.AddSymbolEntryCount(Name(i), num());
      int k = Choose(5, "places");
      for (int p = 0; p < k; ++p) {
        SourceStack st;
        int depth = Flip(1, 3, "inlined") ? 1 + Choose(2, "depth") : 0;
        for (int d = depth; d >= 0; --d) st.push_back(SourceInfo(d ? Name(9 + Choose(3, "inlinee")) : Name(i), "", "", 0, Choose(6, "line"), Flip(1, 4, "disc") ? Choose(3, "disc") : 0));
        m.AddSourceCount(Name(i), st, num(), 1);
        if (acyclic && i == 0) continue;
        int t = Choose(4, "targets");
        for (int x = 0; x < t; ++x) m.AddIndirectCallTarget(Name(i), st, Flip(1, 8, "unknown") ? "unknown" : Name(acyclic ? Choose(i, "target") : Choose(n, "target")), num());
      }
    }
    Graph g; g.m = Snap(m);
    Map was = g.m;
    sim::State(sim::HashStr(Show(was)));
    g.Run();
    if (g.big) return "big";
    m.ComputeTotalCountIncl();
    if (Flip(1, 4, "again")) m.ComputeTotalCountIncl();
    Map now = Snap(m);
    if (Show(now) != Show(was)) return "counts changed: " + FirstDiff(Show(was), Show(now));
    for (size_t i = 0; i < g.names.size(); ++i) {
      std::string s = g.Near(g.names[i], now[g.names[i]].incl, g.incl[i], g.err[i]);
      if (s.empty()) s = g.Inlined(now[g.names[i]], g.m[g.names[i]]);
      if (!s.empty()) return s;
      if (g.incl[i] > 4294967295.0) sim::Count("reach.above_32_bits");
    }
    sim::Count("reach.inclusive");
    std::map<uint64_t, std::vector<std::string>> by;
    for (auto& f : now) if (f.second.total) by[~f.second.total].push_back(f.first);
    std::string t;
    for (auto& b : by) for (auto& f : b.second) {
      const T& y = now[f];
      t += f + Str(": total:%lu head:%lu total_incl:%lu total_incl_per_iter:%.2f\n", (unsigned long)y.total, (unsigned long)y.head, (unsigned long)y.incl, y.head ? static_cast<float>(y.incl) / y.head : 0);
      Text(y, 2, &t);
    }
    m.Dump(true);
    return "=" + t;
  });
  SIM_REQUIRE(r.Ok(), "failed", r.Describe());
  if (r.out == "big") sim::Skip("counts above 64 bits");
  SIM_REQUIRE(r.out[0] == '=', "wrong", r.out.substr(0, 600));
  SIM_REQUIRE(r.text == r.out.substr(1), "wrong-dump", FirstDiff(r.out.substr(1), r.text));
}

// P30: working sets recomputed from the counts.
SIM_SCENARIO(map_working_sets, "P30", 2) {
  Check("working sets", [&]() -> std::string {
    GenOptions o; o.working_sets = false; o.files = false; o.ctor_names = false; o.allow_big = Choose(2, "big");
    std::vector<Op> ops = Generate(o);
    static const uint32_t most[] = {1, 3, 100, 100000};
    uint32_t limit = most[Choose(4, "most-insts")];
    SymbolMap m; Model model;
    for (auto& op : ops) {
      if (op.kind == Op::kCount) op.num_inst = Choose(limit + 1, "insts");
      Apply(op, &m); Apply(op, &model);
    }
    unsigned __int128 sum = 0;
    std::function<void(const Node&)> add = [&](const Node& n) {
      for (auto& p : n.pos) sum += static_cast<unsigned __int128>(p.second.count) * p.second.insts;
      for (auto& c : n.calls) add(c.second);
    };
    for (auto& y : model.syms) add(y.second.body);
    if (sum >> 64) { sim::Count("reach.overflow"); return ""; }
    std::vector<const Node*> bodies;
    for (auto& y : model.syms) if (y.second.body.Total()) bodies.push_back(&y.second.body);
    m.ComputeWorkingSets();
    auto want = WorkingSets(bodies);
    const auto* got = m.GetWorkingSets();
    sim::State(sim::HashStr(Canon(model, false)));
    int set = 0;
    for (int i = 0; i < NUM_GCOV_WORKING_SETS; ++i) {
      if (static_cast<uint32_t>(want[i].num) != got[i].num_counters || want[i].min != got[i].min_counter)
        return Str("working set %d: %u instructions down to %lu, expected %lu down to %lu", i, got[i].num_counters, (unsigned long)got[i].min_counter, (unsigned long)want[i].num, (unsigned long)want[i].min);
      set += want[i].num > 0;
    }
    sim::Count(set ? "reach.working_sets" : "reach.no_working_sets");
    return "";
  });
}
