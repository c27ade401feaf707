// A naive account of Propeller's layout: greedy ext-TSP chain merging, every
// candidate scored from scratch, then call chain clustering.
#ifndef PROP_LAYOUT_H_
#define PROP_LAYOUT_H_
#include "prop_check.h"

namespace prop {
using Seq = std::vector<Node>;
struct Part { Node id; std::vector<Seq> bundles; int fn; };  // fn -1: several functions
struct Arc { Node a, b; uint64_t w; Kind k; bool far; };

class Layout {
 public:
  bool tied = false;  // rounding may decide: no answer
  int merges = 0, splits = 0, rebundled = 0, single = 0, multi = 0, orders[5] = {0, 0, 0, 0, 0};
  Layout(const Job& j, unsigned threshold, bool chain_split) : j_(j), threshold_(threshold), split_(chain_split) {
    exact_ = !(j.fwd & (j.fwd - 1)) && !(j.bwd & (j.bwd - 1));
    for (auto& e : j.p.g.e) {
      Node a = e.first.first, b = e.first.second;
      arcs_.push_back({a, b, e.second.begin()->second, Kind(e.second.begin()->first), SectionOf(j.bin, a.f) != SectionOf(j.bin, b.f)});
    }
    for (int f : j.p.hot) for (int b = 0; b < int(j.bin.fn[f].b.size()); ++b) { auto q = Freqs(j.p.g, {f, b}); freq_[{f, b}] = *q.begin(); }
  }
  // The blocks of one section in order, cut where a new cluster begins.
  std::vector<Seq> Section(const std::vector<int>& fns) {
    std::vector<Part> parts;
    if (j_.inter) parts = Build(fns, true);
    else for (int f : fns) for (auto& p : Build({f}, false)) parts.push_back(p);
    std::vector<Seq> r;
    for (auto& seq : Cluster(parts)) for (Node n : seq) {
      if (r.empty() || r.back()[0].f != n.f || n.b == 0) r.push_back({});
      r.back().push_back(n);
    }
    return r;
  }

 private:
  const Job& j_; unsigned threshold_; bool split_; std::vector<Arc> arcs_; std::map<Node, uint64_t> freq_;
  bool frac_ = false, exact_ = false;
  int Size(Node n) const { return j_.bin.fn[n.f].b[n.b].size; }
  bool Pad(Node n) const { return j_.bin.fn[n.f].b[n.b].md & kPadMd; }
  uint64_t Freq(Node n) { return freq_.count(n) ? freq_[n] : 0; }
  static Seq Flat(const std::vector<Seq>& v) { Seq r; for (auto& s : v) r.insert(r.end(), s.begin(), s.end()); return r; }
  bool HotPads(int f) { for (int b = 0; b < int(j_.bin.fn[f].b.size()); ++b) if (Pad({f, b}) && Freq({f, b})) return true; return false; }
  int Pads(int f) { int n = 0; for (auto& b : j_.bin.fn[f].b) n += (b.md & kPadMd) != 0; return n; }

  std::vector<Seq> Paths(int f) {
    std::map<Node, Node> next; std::map<Node, int> in; std::set<Node> several;
    for (auto& e : arcs_) {
      if (e.a.f != f || e.b.f != f || e.k != kBranch || !e.w) continue;
      if (!next.insert({e.a, e.b}).second) several.insert(e.a);
      ++in[e.b];
    }
    for (auto it = next.begin(); it != next.end();) if (several.count(it->first) || in[it->second] > 1) it = next.erase(it); else ++it;
    // Cut every cycle before its first block.
    std::vector<Node> cut;
    for (auto& s : next) {
      Node at = s.second, least = s.second; size_t n = 0;
      while (!(at == s.first) && next.count(at) && n++ < next.size()) { at = next[at]; if (at < least) least = at; }
      if (at == s.first && s.second == least) cut.push_back(s.first);
    }
    for (Node n : cut) next.erase(n);
    std::set<Node> start;
    for (auto& s : next) start.insert(s.first);
    for (auto& s : next) start.erase(s.second);
    std::vector<Seq> r;
    for (Node n : start) { Seq p = {n}; while (next.count(p.back())) p.push_back(next[p.back()]); r.push_back(p); }
    return r;
  }

  double EdgeScore(const Arc& e, int64_t d) { return Score(j_, e.k, e.w, d, Size(e.a)); }
  // The score of a chain, and the part of it from edges between two sets.
  double ScoreOf(const Seq& s, const std::vector<Arc>& arcs, const std::set<Node>* left, double* across) {
    std::map<Node, int64_t> at; int64_t p = 0;
    for (Node n : s) { at[n] = p; p += Size(n); }
    double r = 0;
    for (auto& e : arcs) {
      auto a = at.find(e.a), b = at.find(e.b);
      if (a == at.end() || b == at.end()) continue;
      double v = EdgeScore(e, b->second - a->second - Size(e.a));
      r += v; frac_ |= v != floor(v);
      if (left && left->count(e.a) != left->count(e.b)) *across += v;
    }
    return r;
  }

  struct Cand { double gain = 0; bool frac = false; Node s{}, u{}; int order = 0, pos = -1; std::vector<Seq> bundles; };
  static bool Less(const Cand& x, const Cand& y) {
    if (x.gain != y.gain) return x.gain < y.gain;
    if (!(x.s == y.s)) return y.s < x.s;
    if (!(x.u == y.u)) return y.u < x.u;
    if (x.order != y.order) return x.order < y.order;
    return x.pos < y.pos;
  }
  // Sums of other than binary fractions depend on their order.
  void Better(Cand& best, const Cand& c) {
    bool same = c.s == best.s && c.u == best.u && c.order == best.order && c.pos == best.pos;
    if (!exact_ && !same && c.gain == best.gain && (c.frac || best.frac)) tied = true;
    if (c.gain != best.gain && fabs(c.gain - best.gain) < 1e-9 * (1 + fabs(c.gain))) tied = true;
    if (best.gain <= 0 || Less(best, c)) best = c;
  }
  Cand Best(const Part& s, const Part& u, const std::vector<Arc>& arcs, bool entry_first) {
    Cand best; std::set<Node> left;
    for (Node n : Flat(s.bundles)) left.insert(n);
    frac_ = false; double before = ScoreOf(Flat(s.bundles), arcs, nullptr, nullptr) + ScoreOf(Flat(u.bundles), arcs, nullptr, nullptr);
    const bool frac = frac_;
    bool has_entry = s.bundles[0][0].b == 0 || u.bundles[0][0].b == 0;
    auto consider = [&](int order, int pos) {
      Cand c; c.s = s.id; c.u = u.id; c.order = order; c.pos = pos;
      auto& v = c.bundles;
      std::vector<Seq> s1(s.bundles.begin(), s.bundles.begin() + std::max(pos, 0)), s2(s.bundles.begin() + std::max(pos, 0), s.bundles.end());
      auto put = [&](const std::vector<Seq>& q) { v.insert(v.end(), q.begin(), q.end()); };
      switch (order) {
        case 0: put(s.bundles); put(u.bundles); break;
        case 1: put(s2); put(s1); put(u.bundles); break;
        case 2: put(s1); put(u.bundles); put(s2); break;
        case 3: put(u.bundles); put(s2); put(s1); break;
        case 4: put(s2); put(u.bundles); put(s1); break;
      }
      if (entry_first && has_entry && v[0][0].b != 0) return;
      double across = 0; frac_ = frac; double after = ScoreOf(Flat(v), arcs, &left, &across); c.frac = frac_;
      c.gain = across == 0 ? 0 : after - before;
      if ((c.gain != 0 || (!exact_ && c.frac && across != 0)) && fabs(c.gain) < 1e-9 * (1 + after)) { tied = true; return; }
      if (c.gain > 0) Better(best, c);
    };
    consider(0, -1);
    int n = s.bundles.size();
    if (split_ && n <= int(threshold_)) { for (int o = 1; o <= 4; ++o) for (int p = 1; p < n; ++p) consider(o, p); }
    else if (split_) {
      Node last = u.bundles.back().back(), first = u.bundles[0][0];
      for (auto& e : arcs) for (int p = 0; p < n; ++p) {
        if (e.a == last && p > 0 && s.bundles[p].front() == e.b) { consider(2, p); consider(3, p); }
        if (e.b == first && p + 1 < n && s.bundles[p].back() == e.a) { consider(2, p + 1); consider(1, p + 1); }
      }
    }
    return best;
  }
  std::vector<Part> Build(const std::vector<int>& fns, bool inter) {
    if (fns.size() == 1 && inter && Pads(fns[0]) > 1 && HotPads(fns[0])) inter = false;
    std::map<Node, Part> parts;
    auto add = [&](const Seq& v, bool together) {
      if (v.empty()) return;
      ++(v.size() == 1 ? single : multi);
      Part p; p.id = v[0]; p.fn = v[0].f;
      if (together) p.bundles = {v}; else for (Node n : v) p.bundles.push_back({n});
      parts[p.id] = p;
    };
    for (int f : fns) {
      if (!j_.p.hot.count(f)) continue;
      if (inter && fns.size() > 1 && Pads(f) > 1 && HotPads(f)) {
        for (auto& p : Build({f}, false)) add(Flat(p.bundles), true);
        continue;
      }
      Seq hot, cold;
      for (int b = 0; b < int(j_.bin.fn[f].b.size()); ++b) {
        Node n{f, b};
        (Freq(n) || (b == 0 && !inter) || (Pad(n) && HotPads(f)) ? hot : cold).push_back(n);
      }
      if (!j_.split) add(cold, true);
      if (!j_.reorder) { add(hot, true); continue; }
      std::set<Node> in;
      auto asked = j_.chains.find(f);
      if (asked != j_.chains.end()) for (auto& p : asked->second) { add(p, false); in.insert(p.begin(), p.end()); }
      else for (auto& p : Paths(f)) { add(p, true); in.insert(p.begin(), p.end()); }
      for (Node n : hot) if (!in.count(n)) add({n}, true);
    }
    std::map<Node, Node> of;  // which chain a block is in
    for (auto& p : parts) for (Node n : Flat(p.second.bundles)) of.insert({n, p.first});
    std::vector<Arc> arcs;
    for (auto& e : arcs_) {
      if (!e.w || e.k == kRet || !of.count(e.a) || !of.count(e.b)) continue;
      if ((inter && fns.size() > 1 && !e.far) || e.k != kCall) arcs.push_back(e);
    }
    std::map<std::pair<Node, Node>, Cand> best;
    std::set<Node> dirty; for (auto& p : parts) dirty.insert(p.first);
    while (true) {
      std::set<std::pair<Node, Node>> pairs;
      for (auto& e : arcs) { Node a = of[e.a], b = of[e.b]; if (!(a == b)) pairs.insert({a, b}), pairs.insert({b, a}); }
      for (auto it = best.begin(); it != best.end();) if (!pairs.count(it->first)) it = best.erase(it); else ++it;
      for (auto& p : pairs) if (dirty.count(p.first) || dirty.count(p.second) || !best.count(p)) {
        std::vector<Arc> near;
        for (auto& e : arcs) { Node a = of[e.a], b = of[e.b]; if ((a == p.first || a == p.second) && (b == p.first || b == p.second)) near.push_back(e); }
        best[p] = Best(parts[p.first], parts[p.second], near, !inter);
      }
      dirty.clear();
      Cand top;
      for (auto& c : best) if (c.second.gain > 0) Better(top, c.second);
      if (tied) return {};
      if (top.gain <= 0) break;
      Part& s = parts[top.s]; Part& u = parts[top.u];
      ++merges; ++orders[top.order]; splits += top.pos >= 0;
      bool again = (s.fn < 0 || s.fn != u.fn) && split_ && s.bundles.size() + u.bundles.size() > threshold_;
      std::vector<Seq> v;
      for (auto& b : top.bundles) {
        if (again && !v.empty() && v.back()[0].f == b[0].f) { v.back().insert(v.back().end(), b.begin(), b.end()); ++rebundled; }
        else v.push_back(b);
      }
      s.bundles = v;
      if (s.fn != u.fn) s.fn = -1;
      for (Node n : Flat(s.bundles)) of[n] = top.s;
      dirty.insert(top.s);
      parts.erase(top.u);
    }
    std::vector<Part> r;
    for (auto& p : parts) r.push_back(p.second);
    if (fns.size() > 1 || r.empty()) return r;
    // One function: one chain, the entry first, then by density.
    std::stable_sort(r.begin(), r.end(), [&](const Part& a, const Part& b) {
      if (b.bundles[0][0].b == 0) return false;
      if (a.bundles[0][0].b == 0) return true;
      double x = Density(Flat(a.bundles)), y = Density(Flat(b.bundles));
      return x != y ? x > y : a.id < b.id;
    });
    for (size_t i = 1; i < r.size(); ++i) ++orders[0], r[0].bundles.insert(r[0].bundles.end(), r[i].bundles.begin(), r[i].bundles.end());
    r.resize(1);
    return r;
  }
  int64_t SizeOf(const Seq& s) { int64_t n = 0; for (Node q : s) n += Size(q); return n; }
  int64_t FreqOf(const Seq& s) { int64_t n = 0; for (Node q : s) n += Freq(q); return n; }
  double Density(const Seq& s) { return double(FreqOf(s)) / std::max<int64_t>(SizeOf(s), 1); }

  // Call chain clustering.
  std::vector<Seq> Cluster(const std::vector<Part>& parts) {
    struct Group { Node id; Seq s; };
    std::map<Node, Group> groups; std::map<Node, Node> in; std::map<Node, Node> of;  // chain -> group; block -> chain
    for (auto& p : parts) {
      groups[p.id] = {p.id, Flat(p.bundles)}; in.insert({p.id, p.id});
      for (Node n : Flat(p.bundles)) of.insert({n, p.id});
    }
    std::vector<Seq> r;
    if (!j_.clustering) { for (auto& g : groups) r.push_back(g.second.s); return r; }
    std::map<Node, int64_t> to;
    for (auto& e : arcs_) if (e.w && e.k != kRet && !e.far && of.count(e.a) && of.count(e.b) && !(of[e.a] == of[e.b])) to[of[e.b]] += e.w;
    std::vector<Node> order;
    for (auto& t : to) order.push_back(t.first);
    std::stable_sort(order.begin(), order.end(), [&](Node a, Node b) { return to[a] != to[b] ? to[a] > to[b] : a < b; });
    std::map<Node, Seq> chain; for (auto& p : parts) chain[p.id] = Flat(p.bundles);
    for (Node c : order) {
      if (Density(chain[c]) < 0.005) continue;
      Group& g = groups[in[c]];
      if (SizeOf(g.s) > j_.merge_size) continue;
      std::map<Node, int64_t> from;
      for (auto& e : arcs_) {
        if (e.k == kRet || e.far || !e.w || !of.count(e.b) || !(of[e.b] == c) || !of.count(e.a)) continue;
        if (!j_.inter && !(e.b == chain[c][0])) continue;
        if (e.w * 10 < Freq(e.b) || of[e.a] == c) continue;
        Group& p = groups[in[of[e.a]]];
        if (p.id == g.id || SizeOf(p.s) > j_.merge_size) continue;
        if (8 * SizeOf(p.s) * (FreqOf(g.s) + FreqOf(p.s)) < FreqOf(p.s) * (SizeOf(g.s) + SizeOf(p.s))) continue;
        from[p.id] += e.w;
      }
      if (from.empty()) continue;
      auto top = from.begin();
      for (auto it = from.begin(); it != from.end(); ++it) if (it->second >= top->second) top = it;
      Group gone = g; Group& keep = groups[top->first];
      keep.s.insert(keep.s.end(), gone.s.begin(), gone.s.end());
      for (auto& q : in) if (q.second == gone.id) q.second = keep.id;
      groups.erase(gone.id);
      sim::Count("reach.clustered");
    }
    std::vector<Group> v;
    for (auto& g : groups) v.push_back(g.second);
    std::stable_sort(v.begin(), v.end(), [&](const Group& a, const Group& b) { double x = Density(a.s), y = Density(b.s); return x != y ? x > y : a.id < b.id; });
    for (auto& g : v) r.push_back(g.s);
    return r;
  }
};
// What a run says about itself.
inline std::string Say(const devtools_crosstool_autofdo::PropellerStats& s) {
  using E = devtools_crosstool_autofdo::CFGEdge; using M = devtools_crosstool_autofdo::ChainMergeOrder;
  auto n = [](auto v) { return Str(" %lld", (long long)v); };
  std::string r = "profile:" + n(s.profile_stats.binary_mmap_num) + n(s.profile_stats.perf_file_parsed) + n(s.profile_stats.br_counters_accumulated);
  r += "\nfunctions:" + n(s.bbaddrmap_stats.hot_functions) + n(s.bbaddrmap_stats.duplicate_symbols) + n(s.bbaddrmap_stats.bbaddrmap_function_does_not_have_symtab_entry);
  auto& c = s.cfg_stats;
  r += "\ngraphs:" + n(c.cfgs_created) + n(c.nodes_created) + n(c.total_edges_created()) + n(c.total_edge_weight_created());
  auto by = [&](auto& m, auto k) { auto it = m.find(k); return n(it == m.end() ? 0 : it->second); };
  r += "\nweights:"; for (auto k : {E::Kind::kBranchOrFallthough, E::Kind::kCall, E::Kind::kRet}) r += by(c.total_edge_weight_by_kind, k);
  r += "\nedges:"; for (auto k : {E::Kind::kBranchOrFallthough, E::Kind::kCall, E::Kind::kRet}) r += by(c.edges_created_by_kind, k);
  r += "\nhot:" + n(c.hot_basic_blocks) + n(c.hot_empty_basic_blocks) + n(c.cfgs_with_hot_landing_pads) + n(c.edges_with_same_src_sink_but_different_type);
  auto& l = s.code_layout_stats;
  r += "\nchains:" + n(l.n_single_node_chains) + n(l.n_multi_node_chains);
  for (auto k : {M::kSU, M::kS2S1U, M::kS1US2, M::kUS2S1, M::kS2US1}) r += by(l.n_assemblies_by_merge_order, k);
  auto& d = s.disassembly_stats;
  r += "\ncode:"; for (auto* q : {&d.may_affect_control_flow, &d.cant_affect_control_flow, &d.could_not_disassemble}) r += n(q->absolute) + n(q->weighted);
  r += Str("\nscores: %.9g %.9g %.9g %.9g", l.original_intra_score, l.optimized_intra_score, l.original_inter_score, l.optimized_inter_score);
  r += "\ncloned:" + n(s.cloning_stats.paths_cloned) + n(s.cloning_stats.bbs_cloned) + n(s.cloning_stats.bytes_cloned);
  // The text for people says the same.
  std::string text = s.DebugString();
  for (auto& q : {Str("Parsed %d profiles.", s.profile_stats.perf_file_parsed), Str("Total %d binary mmaps.", s.profile_stats.binary_mmap_num), Str("Total %llu br entries", (unsigned long long)s.profile_stats.br_counters_accumulated),
                  Str("%llu hot functions", (unsigned long long)s.bbaddrmap_stats.hot_functions), Str("%d hot basic blocks", c.hot_basic_blocks), Str("Created %llu cfgs.", (unsigned long long)c.cfgs_created), Str("Created %llu nodes.", (unsigned long long)c.nodes_created),
                  Str("%d cfgs have hot landing pads.", c.cfgs_with_hot_landing_pads), Str("%d hot blocks have zero size.", c.hot_empty_basic_blocks), Str("Created %lld edges", (long long)c.total_edges_created()), Str("Profiled %lld total edge weight", (long long)c.total_edge_weight_created()),
                  Str("single-node chains: [%d] multi-node chains: [%d]", l.n_single_node_chains, l.n_multi_node_chains), Str("May affect control flow: absolute: %lld / weighted: %lld", (long long)d.may_affect_control_flow.absolute, (long long)d.may_affect_control_flow.weighted)})
    if (text.find(q) == std::string::npos) r += "\nmissing in the text: " + q;
  return r + "\n";
}
inline void CheckStats(const Job& j, const Got& g, const std::string& said) {
  const std::string mark = "<" + j.bin.path + ">";
  SIM_REQUIRE(said.rfind(mark, 0) == 0, "reporters", "reported: " + said);
  size_t again = said.find("again");
  SIM_REQUIRE(again == said.size() - 5, "reporters", "reported: " + said);
  std::vector<std::string> lines = Lines(said.substr(mark.size(), again - mark.size()));
  std::map<std::string, std::string> got;
  for (auto& l : lines) { size_t c = l.find(':'); got[l.substr(0, c)] = l.substr(c + 1); }
  SIM_REQUIRE(!got.count("missing in the text"), "text", "no \"" + got["missing in the text"] + "\"");
  auto expect = [&](const std::string& what, const std::vector<uint64_t>& v) {
    std::string w; for (auto n : v) w += Str(" %llu", (unsigned long long)n);
    SIM_REQUIRE(got[what] == w, "wrong-statistics", what + ":" + got[what] + ", should be" + w);
  };
  uint64_t maps = 0, files = 0, branches = 0, nodes = 0, hot = 0, empty = 0, pads = 0, w[3] = {0, 0, 0}, e[3] = {0, 0, 0};
  std::map<uint64_t, uint64_t> at;  // branch instructions
  for (auto& f : j.perf) {
    if (!f.used) continue;
    ++files; maps += f.maps;
    for (auto& b : f.br) { branches += b.second; if (b.first.first != kInvalid) at[b.first.first] += b.second; }
  }
  expect("profile", {maps, files, branches});
  expect("functions", {j.p.sampled, j.p.twice, j.p.nameless});
  for (int f : j.p.selected) nodes += j.bin.fn[f].b.size();
  for (auto& q : j.p.g.e) for (auto& k : q.second) w[k.first] += k.second, ++e[k.first];
  expect("graphs", {j.p.selected.size(), nodes, j.p.g.e.size(), w[0] + w[1] + w[2]});
  expect("weights", {w[0], w[1], w[2]});
  expect("cloned", {0, 0, 0});
  double s[4] = {0, 0, 0, 0}, sum[4];
  for (auto& o : g.fn) { double v[4] = {o.intra0, o.intra1, o.inter0, o.inter1}; for (int k = 0; k < 4; ++k) s[k] += v[k]; }
  SIM_REQUIRE(sscanf(got["scores"].c_str(), "%lf %lf %lf %lf", &sum[0], &sum[1], &sum[2], &sum[3]) == 4, "wrong-statistics", "scores");
  for (int k = 0; k < 4; ++k) SIM_REQUIRE(fabs(sum[k] - s[k]) < 1e-3 + 1e-6 * fabs(s[k]), "wrong-statistics", Str("score %d is %f, but those of the functions sum up to %f", k, sum[k], s[k]));
  // What is at the source of each branch.
  if (!j.spe && !j.bin.ko) {
    uint64_t n[4] = {0, 0, 0, 0}, c[4] = {0, 0, 0, 0}; enum { kUnsure = 3 };
    for (auto& a : at) {
      bool in = false; for (auto& q : j.bin.secs) in |= a.first >= q.addr && a.first - q.addr < q.size;
      auto it = j.bin.insn.find(a.first);
      int k = !in ? 2 : it == j.bin.insn.end() ? (j.bin.arm ? kUnsure : 1) : it->second == kFlow ? 0 : it->second == kPlain ? 1 : it->second == kBad ? 2 : kUnsure;
      ++n[k]; c[k] += a.second;
    }
    if (!n[kUnsure]) { expect("code", {n[0], c[0], n[1], c[1], n[2], c[2]}); sim::Count("reach.code"); sim::Count("reach.not_a_branch", n[1]); sim::Count("reach.no_code", n[2]); }
    else {
      long long v[6], a = 0, b = 0;
      SIM_REQUIRE(sscanf(got["code"].c_str(), "%lld %lld %lld %lld %lld %lld", &v[0], &v[1], &v[2], &v[3], &v[4], &v[5]) == 6, "wrong-statistics", "code");
      for (int k = 0; k < 3; ++k) { a += v[2 * k]; b += v[2 * k + 1]; SIM_REQUIRE(v[2 * k] >= (long long)n[k] && v[2 * k + 1] >= (long long)c[k], "wrong-statistics", "code:" + got["code"]); }
      SIM_REQUIRE(a == (long long)at.size() && b == (long long)(c[0] + c[1] + c[2] + c[3]), "wrong-statistics", "code:" + got["code"]);
    }
  }
  if (j.spe) expect("code", {0, 0, 0, 0, 0, 0});
  if (j.p.g.mixed) return;
  for (int f : j.p.hot) {
    bool pad = false;
    for (int b = 0; b < int(j.bin.fn[f].b.size()); ++b) {
      if (!*Freqs(j.p.g, {f, b}).begin()) continue;
      ++hot; empty += !j.bin.fn[f].b[b].size; pad |= (j.bin.fn[f].b[b].md & kPadMd) != 0;
    }
    pads += pad;
  }
  expect("edges", {e[0], e[1], e[2]});
  expect("hot", {hot, empty, pads, 0});
  std::map<std::string, std::vector<int>> all;
  for (int f : j.p.hot) all[SectionOf(j.bin, f)].push_back(f);
  Layout l(j, j.threshold, j.chain_split);
  for (auto& sec : all) { l.Section(sec.second); if (l.tied) { sim::Count("reach.rounding"); return; } }
  expect("chains", {uint64_t(l.single), uint64_t(l.multi), uint64_t(l.orders[0]), uint64_t(l.orders[1]), uint64_t(l.orders[2]), uint64_t(l.orders[3]), uint64_t(l.orders[4])});
  sim::Count("reach.chain_statistics");
}
inline void CheckLayout(const Job& j, const Got& g, const std::vector<std::pair<int, int>>& order) {
  if (j.p.g.mixed) { sim::Count("reach.unclear"); return; }
  std::map<std::string, std::vector<int>> all;
  for (int f : j.p.hot) all[SectionOf(j.bin, f)].push_back(f);
  std::map<std::string, std::string> got;
  for (auto& q : order) {
    const OutFn& o = g.fn[q.first];
    std::string& s = got[o.section];
    s += Str("%d:", g.which[q.first]);
    for (int id : o.clusters[q.second]) s += Str(" %d", id);
    s += "\n";
  }
  Layout l(j, j.threshold, j.chain_split);
  for (auto& sec : all) {
    std::string want;
    for (auto& c : l.Section(sec.second)) {
      want += Str("%d:", c[0].f);
      for (Node n : c) want += Str(" %d", j.bin.fn[n.f].b[n.b].id);
      want += "\n";
    }
    if (l.tied) { sim::Count("reach.rounding"); return; }
    SIM_REQUIRE(want == got[sec.first], "another-layout", sec.first + ", expected (function: blocks)\n" + want + "got\n" + got[sec.first]);
  }
  sim::Count("reach.merges", l.merges); sim::Count("reach.chain_splits", l.splits); sim::Count("reach.rebundled", l.rebundled);
  sim::Count("reach.reference");
}
}  // namespace prop
#endif
