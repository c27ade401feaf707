// Is what Propeller wrote right?
#ifndef PROP_CHECK_H_
#define PROP_CHECK_H_
#include <math.h>

#include "prop_job.h"

namespace prop {
// Which function of the binary each written function is. Reported functions
// have one of its names; names may be shared, so the address order decides.
inline std::string SortedNames(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string s; for (auto& x : v) s += x + " "; return s; }

struct Got { std::vector<OutFn> fn; std::vector<int> which; };
// Functions: exactly the executed ones, under their names.
inline Got Match(const Job& j, const Result& r) {
  Got g;
  std::string bad = Parse(r.cc, j.version, &g.fn);
  SIM_REQUIRE(bad.empty(), "malformed", bad);
  std::map<std::string, std::vector<int>> want;  // per section, in order
  for (int f : j.p.hot) want[SectionOf(j.bin, f)].push_back(f);
  std::vector<int> order;
  for (auto& s : want) for (int f : s.second) order.push_back(f);
  std::string a, b;
  for (int f : order) a += SectionOf(j.bin, f) + ": " + SortedNames(j.bin.fn[f].names) + "\n";
  for (auto& f : g.fn) b += f.section + ": " + SortedNames(f.names) + "\n";
  SIM_REQUIRE(a == b, "wrong-functions", "executed functions:\n" + a + "listed:\n" + b);
  g.which = order;
  for (size_t i = 0; i < order.size(); ++i) {
    std::string m = ModuleOf(j, order[i]);
    SIM_REQUIRE(g.fn[i].module == m, "wrong-module", g.fn[i].names[0] + ": said to be of " + g.fn[i].module + ", should be " + m + " (-: none)");
    sim::Count("reach.modules", m != "-");
  }
  return g;
}
inline void CheckProfile(const Job& j, const Got& g) {
  for (size_t i = 0; i < g.fn.size(); ++i) {
    const OutFn& o = g.fn[i]; const Func& f = j.bin.fn[g.which[i]];
    SIM_REQUIRE(o.prof.size() == f.b.size(), "wrong-profile", o.names[0] + Str(": %zu of %zu blocks listed", o.prof.size(), f.b.size()));
    for (size_t k = 0; k < f.b.size(); ++k) {
      std::string at = o.names[0] + Str(" block %d", f.b[k].id);
      SIM_REQUIRE(o.prof[k].first == f.b[k].id, "wrong-profile", at + Str(": listed as %d", o.prof[k].first));
      std::set<uint64_t> ok = Freqs(j.p.g, {g.which[i], int(k)});
      uint64_t n = o.prof[k].second.first;
      SIM_REQUIRE(ok.empty() || ok.count(n), "wrong-frequency", at + Str(": %llu executions, should be %llu", (unsigned long long)n, (unsigned long long)*ok.begin()));
      if (k == 0) SIM_REQUIRE(o.entry == n, "wrong-frequency", at + ": entry frequency");
      std::multiset<std::pair<int, long long>> must, may;
      for (auto& e : j.p.g.e) {
        if (!(e.first.first == Node{g.which[i], int(k)}) || !e.second.count(kBranch)) continue;
        uint64_t w = 0; for (auto& q : e.second) w += q.second;
        (e.second.size() > 1 ? may : must).insert({j.bin.fn[e.first.second.f].b[e.first.second.b].id, (long long)w});
      }
      std::multiset<std::pair<int, long long>> got = o.prof[k].second.second;
      for (auto& e : must) {
        auto it = got.find(e);
        SIM_REQUIRE(it != got.end(), "lost-edge", at + Str(": no edge to %d with weight %lld", e.first, e.second));
        got.erase(it);
      }
      for (auto& e : got) SIM_REQUIRE(may.count(e), "wrong-edge", at + Str(": edge to %d with weight %lld", e.first, e.second));
    }
  }
}
inline void CheckClusters(const Job& j, const Got& g) {
  for (size_t i = 0; i < g.fn.size(); ++i) {
    const OutFn& o = g.fn[i]; const Func& f = j.bin.fn[g.which[i]];
    std::map<int, int> index; for (size_t k = 0; k < f.b.size(); ++k) index[f.b[k].id] = k;
    std::set<int> hot, pads, all;
    bool hot_pad = false;
    for (size_t k = 0; k < f.b.size(); ++k) {
      all.insert(k);
      std::set<uint64_t> q = Freqs(j.p.g, {g.which[i], int(k)});
      bool h = q.empty() || *q.begin() > 0;
      if (h) hot.insert(k);
      if (f.b[k].md & kPadMd) { pads.insert(k); hot_pad |= h; }
    }
    std::set<int> in; std::set<int> pad_clusters;
    std::string at = o.names[0];
    SIM_REQUIRE(!o.clusters.empty(), "no-cluster", at + ": no cluster");
    for (size_t c = 0; c < o.clusters.size(); ++c)
      for (size_t k = 0; k < o.clusters[c].size(); ++k) {
        int id = o.clusters[c][k];
        SIM_REQUIRE(index.count(id), "no-such-block", at + Str(": block %d", id));
        SIM_REQUIRE(in.insert(index[id]).second, "block-twice", at + Str(": block %d", id));
        if (index[id] == 0) SIM_REQUIRE(k == 0, "entry-inside", at + ": the entry does not begin its cluster");
        if (pads.count(index[id])) pad_clusters.insert(c);
        if (c && !k) SIM_REQUIRE(o.clusters[c - 1][0] < id, "cluster-order", at + ": clusters are not sorted");
      }
    std::set<int> want = hot;
    if (!j.inter) want.insert(0);
    if (hot_pad) want.insert(pads.begin(), pads.end());
    if (!j.split) want = all;
    for (int k : want) SIM_REQUIRE(in.count(k), "block-missing", at + Str(": block %d is in no cluster", f.b[k].id));
    if (pads.size() > 1 && hot_pad) want.insert(0);  // landing pads may be laid out with the entry
    for (int k : in) SIM_REQUIRE(want.count(k), "cold-block", at + Str(": block %d was not executed", f.b[k].id));
    if (!j.inter) SIM_REQUIRE(o.clusters.size() == 1, "split-function", at + Str(": %zu clusters", o.clusters.size()));
    SIM_REQUIRE(pad_clusters.size() <= 1, "pads-apart", at + ": landing pads in several clusters");
    if (j.reorder && !j.p.g.mixed && !j.chains.count(g.which[i])) {
      // Blocks that only ever follow each other are laid out so, but for one
      // step of a cycle.
      std::map<int, int> next, in_degree; std::set<int> several;
      for (auto& e : j.p.g.e) {
        if (e.first.first.f != g.which[i] || e.first.second.f != g.which[i] || !e.second.count(kBranch)) continue;
        int a = e.first.first.b, b = e.first.second.b;
        if (next.count(a)) several.insert(a);
        next[a] = b; ++in_degree[b];
      }
      for (int a : several) next.erase(a);
      for (auto it = next.begin(); it != next.end();) if (in_degree[it->second] > 1) it = next.erase(it); else ++it;
      std::map<int, int> follows;
      for (auto& c : o.clusters) for (size_t k = 1; k < c.size(); ++k) follows[index[c[k - 1]]] = index[c[k]];
      for (auto& e : next) {
        if (follows.count(e.first) && follows[e.first] == e.second) { sim::Count("reach.forced"); continue; }
        // Is it the one cut edge of a cycle?
        bool cycle = false; size_t cut = 1, steps = 0;
        for (int at = e.second; next.count(at) && steps <= next.size(); at = next[at], ++steps) {
          if (at == e.first) { cycle = true; break; }
          cut += !(follows.count(at) && follows[at] == next[at]);
        }
        SIM_REQUIRE(cycle && cut == 1, "path-broken", at + Str(": block %d does not follow block %d, its only successor", f.b[e.second].id, f.b[e.first].id));
      }
    }
    if (!j.reorder) for (auto& c : o.clusters) for (size_t k = 1; k < c.size(); ++k)
      SIM_REQUIRE(index[c[k - 1]] < index[c[k]], "reordered", at + ": blocks out of order");
    sim::Count("reach.clusters", o.clusters.size());
    sim::Count("reach.many_clusters", o.clusters.size() > 1);
    sim::Count("reach.hot_pads", hot_pad);
  }
}
// The symbol order lists every part of every function once, in one order per
// section. Returns that order, as (function, cluster), the cold parts left out.
inline std::vector<std::pair<int, int>> CheckOrder(const Job& j, const Got& g, const Result& r) {
  std::vector<std::string> lines = Lines(r.ld);
  size_t at = 0;
  std::vector<std::pair<int, int>> order;
  for (size_t lo = 0, hi; lo < g.fn.size(); lo = hi) {
    for (hi = lo; hi < g.fn.size() && g.fn[hi].section == g.fn[lo].section; ++hi) {}
    struct Part { int fn, cluster; std::vector<std::string> lines; };
    std::vector<Part> hot, cold;
    for (size_t i = lo; i < hi; ++i) {
      const Func& f = j.bin.fn[g.which[i]];
      bool entry = false; size_t n = 0;
      for (size_t c = 0; c < g.fn[i].clusters.size(); ++c) {
        bool e = g.fn[i].clusters[c][0] == f.b[0].id; entry |= e; n += g.fn[i].clusters[c].size();
        Part p{int(i), int(c), {}};
        for (auto& s : g.fn[i].names) p.lines.push_back(e ? s : s + Str(".__part.%zu", c));
        hot.push_back(p);
      }
      if (n == f.b.size()) continue;
      Part p{int(i), -1, {}};
      for (auto& s : g.fn[i].names) p.lines.push_back(entry ? s + ".cold" : s);
      cold.push_back(p);
    }
    std::vector<int> seen;
    auto take = [&](std::vector<Part>& from) -> bool {
      for (size_t k = 0; k < from.size(); ++k) {
        auto& l = from[k].lines;
        if (at + l.size() > lines.size() || !std::equal(l.begin(), l.end(), lines.begin() + at)) continue;
        at += l.size();
        if (&from == &hot) {
          order.push_back({from[k].fn, from[k].cluster});
          if (std::find(seen.begin(), seen.end(), from[k].fn) == seen.end()) seen.push_back(from[k].fn);
        } else {
          // Cold parts follow the order of the functions' first hot part.
          for (size_t q = 0; q < from.size(); ++q)
            if (q != k) SIM_REQUIRE(std::find(seen.begin(), seen.end(), from[k].fn) < std::find(seen.begin(), seen.end(), from[q].fn) || from[q].lines == l, "cold-order", "the cold part of " + lines[at - 1] + " comes too early");
        }
        from.erase(from.begin() + k);
        return true;
      }
      return false;
    };
    bool ambiguous = false;  // two functions of the same name: parts cannot be told apart
    for (auto& a : hot) for (auto& b : hot) ambiguous |= a.fn != b.fn && a.lines == b.lines;
    while (!hot.empty()) SIM_REQUIRE(take(hot), "symbol-order", at < lines.size() ? "unexpected symbol " + lines[at] : "the list ends before " + hot[0].lines[0]);
    while (!cold.empty()) SIM_REQUIRE(take(cold), "symbol-order", at < lines.size() ? "unexpected symbol " + lines[at] : "the list ends before " + cold[0].lines[0]);
    if (!j.clustering && !j.inter && !ambiguous) SIM_REQUIRE(std::is_sorted(seen.begin(), seen.end()), "function-order", "functions moved without call chain clustering");
  }
  SIM_REQUIRE(at == lines.size(), "symbol-order", "extra symbol " + lines[at]);
  return order;
}
inline double Score(const Job& j, Kind k, uint64_t w, int64_t d, uint64_t src_size) {
  if (k == kCall) d += src_size / 2;
  if (d == 0 && k == kBranch) return double(j.w_fall) * w;
  if (d > 0 && d < j.fwd) return double(j.w_fwd) * w * (1.0 - double(d) / j.fwd);
  if (d < 0 && -d < j.bwd) return double(j.w_bwd) * w * (1.0 - double(-d) / j.bwd);
  return 0;
}
inline void CheckScores(const Job& j, const Got& g, const std::vector<std::pair<int, int>>& order) {
  if (j.p.g.mixed) return;
  std::map<Node, int64_t> to;
  std::map<std::string, int> per_section; std::map<std::string, int64_t> pos;
  for (auto& f : g.fn) ++per_section[f.section];
  std::map<int, size_t> at; for (size_t i = 0; i < g.which.size(); ++i) at[g.which[i]] = i;
  for (auto& q : order) {
    const Func& f = j.bin.fn[g.which[q.first]];
    for (int id : g.fn[q.first].clusters[q.second]) for (size_t k = 0; k < f.b.size(); ++k) if (f.b[k].id == id) {
      to[{g.which[q.first], int(k)}] = pos[g.fn[q.first].section];
      pos[g.fn[q.first].section] += f.b[k].size;
    }
  }
  for (size_t i = 0; i < g.fn.size(); ++i) {
    double s[4] = {0, 0, 0, 0};
    for (auto& e : j.p.g.e) {
      Node a = e.first.first, b = e.first.second; Kind k = Kind(e.second.begin()->first); uint64_t w = e.second.begin()->second;
      if (a.f != g.which[i] || k == kRet) continue;
      bool inter = a.f != b.f;
      if (inter && (per_section[g.fn[i].section] < 2 || SectionOf(j.bin, a.f) != SectionOf(j.bin, b.f))) continue;
      int64_t size = j.bin.fn[a.f].b[a.b].size;
      s[inter * 2] += Score(j, k, w, int64_t(Addr(j.bin, b)) - int64_t(Addr(j.bin, a)) - size, size);
      s[inter * 2 + 1] += Score(j, k, w, to[b] - to[a] - size, size);
    }
    const OutFn& o = g.fn[i];
    double got[4] = {o.intra0, o.intra1, o.inter0, o.inter1};
    for (int k = 0; k < 4; ++k) SIM_REQUIRE(fabs(got[k] - s[k]) < 1e-4 + 1e-9 * fabs(s[k]), "wrong-score", o.names[0] + Str(": score %d is %f, should be %f", k, got[k], s[k]));
  }
  sim::Count("reach.scored");
}
inline void CheckDump(const Job& j, const Got& g, const Result& r) {
  if (!j.dump) { SIM_REQUIRE(r.dump.empty(), "dump", "a dump nobody asked for"); return; }
  auto idx = r.dump.find("/sim/dump/cfg-index.txt");
  SIM_REQUIRE(idx != r.dump.end(), "dump", "no cfg-index.txt");
  std::vector<std::string> lines = Lines(idx->second);
  SIM_REQUIRE(lines.size() == g.fn.size() + 1, "dump", Str("%zu functions in the index, %zu in the profile", lines.size() - 1, g.fn.size()));
  std::set<std::string> files;
  for (size_t i = 0; i < g.fn.size(); ++i) {
    const Func& f = j.bin.fn[g.which[i]];
    std::string addr = Str("0x%llx", (unsigned long long)f.addr);
    std::string want = g.fn[i].names[0] + " " + addr + Str(" %zu %zu ", f.b.size(), g.fn[i].clusters.size());
    SIM_REQUIRE(lines[i + 1].rfind(want, 0) == 0, "dump", "index says " + lines[i + 1] + ", should be " + want);
    files.insert("/sim/dump/" + addr + ".dot");
    auto dot = r.dump.find("/sim/dump/" + addr + ".dot");
    SIM_REQUIRE(dot != r.dump.end(), "dump", "no graph for " + g.fn[i].names[0]);
    SIM_REQUIRE(dot->second.rfind("digraph {\n", 0) == 0 && dot->second.size() > 2 && dot->second.substr(dot->second.size() - 2) == "}\n", "dump", "incomplete graph of " + g.fn[i].names[0]);
    size_t edges = 0; for (size_t p = 0; (p = dot->second.find(" -> ", p)) != std::string::npos; ++p) ++edges;
    size_t want_edges = 0;
    for (auto& e : j.p.g.e) want_edges += e.first.first.f == g.which[i] && e.first.second.f == g.which[i];
    SIM_REQUIRE(edges == want_edges, "dump", g.fn[i].names[0] + Str(": %zu edges in the graph, should be %zu", edges, want_edges));
    std::map<int, std::pair<size_t, size_t>> place;  // cluster, position
    for (size_t c = 0; c < g.fn[i].clusters.size(); ++c) for (size_t k = 0; k < g.fn[i].clusters[c].size(); ++k) place[g.fn[i].clusters[c][k]] = {c, k};
    auto has = [&](const std::string& l) { return dot->second.find("\n" + l) != std::string::npos; };
    for (size_t k = 0; k < f.b.size(); ++k) {
      bool some = false;  // the frequency shown is that of the label, whatever it counts
      for (auto& l : Lines(dot->second)) { int id, freq; long long size; int index; some |= sscanf(l.c_str(), "%d [xlabel=\"%d#%lld#%d\"", &id, &freq, &size, &index) == 4 && id == f.b[k].id && size == (long long)f.b[k].size && index == int(k); }
      SIM_REQUIRE(some, "dump", g.fn[i].names[0] + Str(": block %d is not in the graph with its size", f.b[k].id));
    }
    for (auto& e : j.p.g.e) {
      if (e.first.first.f != g.which[i] || e.first.second.f != g.which[i]) continue;
      int a = f.b[e.first.first.b].id, b = f.b[e.first.second.b].id; uint64_t w = 0; bool ok = false;
      for (auto& k : e.second) w += k.second;
      for (auto& k : e.second) {
        std::string l = Str("%d -> %d[ label=\"%c#%llu\"", a, b, "BCR"[k.first], (unsigned long long)w);
        if (!has(l)) continue;
        ok = true;
        if (!place.count(a) || !place.count(b) || place[a].first != place[b].first) continue;
        SIM_REQUIRE(has(l + ", color =\"" + (place[b].second == place[a].second + 1 ? "red" : "black") + "\""), "dump", g.fn[i].names[0] + ": " + l + (place[b].second == place[a].second + 1 ? " is" : " is not") + " laid out in a row");
      }
      SIM_REQUIRE(ok, "dump", g.fn[i].names[0] + Str(": no edge %d -> %d of weight %llu in the graph", a, b, (unsigned long long)w));
    }
  }
  SIM_REQUIRE(r.dump.size() == files.size() + 1, "dump", "stray files in the dump directory");
  sim::Count("reach.dumps");
}
inline bool Hopeless(const Job& j, const ProcResult& r) {
  if (!MustFail(j)) { SIM_REQUIRE(r.Ok(), "spurious-failure", "no fault injected: " + r.Describe()); return false; }
  SIM_REQUIRE(!r.Ok(), "accepted-unusable", j.bad ? "inputs of several or unsupported types" : j.usable ? "source drift not noticed: " + j.p.why : "no usable input, but exit status 0");
  SIM_REQUIRE(r.kind == ProcResult::kReturned || r.kind == ProcResult::kExited, "crash", r.Describe());
  sim::Count("reach.refused");
  return true;
}
inline void Kinds(const Job& j) {
  sim::Count("reach.mixed", j.p.g.mixed); sim::Count("reach.inter", j.inter); sim::Count("reach.clustering", j.clustering);
  sim::Count("reach.functions", j.p.hot.size()); sim::Count("reach.kernel", j.bin.kernel); sim::Count("reach.ko", j.bin.ko); sim::Count("reach.dwp", j.modules && !j.bin.dwp.empty()); sim::Count("reach.pie", j.bin.pie); sim::Count("reach.arm", j.bin.arm);
  sim::Count("reach.empty", j.p.hot.empty());
}
}  // namespace prop
#endif
