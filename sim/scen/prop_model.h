// What branch records say about a binary's control flow: the reference account.
#ifndef PROP_MODEL_H_
#define PROP_MODEL_H_
#include <regex>

#include "prop_gen.h"

namespace prop {
enum Kind { kBranch, kCall, kRet };
struct Node { int f, b; bool operator<(const Node& o) const { return f != o.f ? f < o.f : b < o.b; } bool operator==(const Node& o) const { return f == o.f && b == o.b; } };
using Counters = std::map<Branch, uint64_t>;
struct Edges {
  std::map<std::pair<Node, Node>, std::map<int, uint64_t>> e;
  std::map<Node, std::vector<std::pair<Node, Node>>> at;  // edges touching a node
  bool mixed = false;
  void Add(Node a, Node b, uint64_t w, Kind k) { e[{a, b}][k] += w; }
};
// The possible frequencies of a block: one value, unless an edge has two kinds.
inline std::set<uint64_t> Freqs(const Edges& g, Node n) {
  struct In { bool out; uint64_t w; std::vector<int> kinds; };
  std::vector<In> v;
  for (auto& x : g.e) {
    uint64_t w = 0; std::vector<int> kinds;
    for (auto& k : x.second) { w += k.second; kinds.push_back(k.first); }
    if (x.first.first == n) v.push_back({true, w, kinds});
    if (x.first.second == n) v.push_back({false, w, kinds});
  }
  std::set<uint64_t> r;
  size_t combos = 1;
  for (auto& x : v) combos *= x.kinds.size();
  if (combos > 4096) return r;
  for (size_t c = 0; c < combos; ++c) {
    uint64_t call = 0, ret = 0, in = 0, out = 0; size_t q = c;
    for (auto& x : v) {
      int k = x.kinds[q % x.kinds.size()]; q /= x.kinds.size();
      if (x.out) { if (k == kCall) call = std::max(call, x.w); else out += x.w; }
      else { if (k == kRet) ret = std::max(ret, x.w); else in += x.w; }
    }
    r.insert(std::max(std::max(call, ret), std::max(in, out)));
  }
  return r;
}

struct Program {
  bool failed = false; std::string why;
  std::vector<int> selected;  // functions, in address order
  size_t sampled = 0, nameless = 0, twice = 0;  // functions with samples; without a name; more of the same name
  Edges g;
  std::set<int> hot;          // functions with an executed block
};
inline uint64_t Addr(const Bin& x, Node n) { return x.fn[n.f].addr + x.fn[n.f].b[n.b].off; }
inline std::string SectionOf(const Bin& x, int f) {
  std::string s = x.secs[x.fn[f].sec].name;
  return s == ".text" || s.rfind(".text.", 0) == 0 ? ".text" : s;
}
inline bool CanFall(const Bin& x, Node a, Node b) {
  if (a.f != b.f || a.b > b.b) return false;
  for (int i = a.b; i < b.b; ++i) if (!(x.fn[a.f].b[i].md & kFallMd)) return false;
  return true;
}
inline std::vector<int> Select(const Bin& x, const std::set<uint64_t>& addrs, bool text_only, Program* p = nullptr) {
  std::set<int> s;
  for (uint64_t a : addrs) for (int f : x.entries) if (a >= x.fn[f].addr && a - x.fn[f].addr < x.fn[f].size) s.insert(f);
  if (p) { p->sampled = s.size(); for (int f : x.entries) p->nameless += x.fn[f].names.empty(); }
  for (int f : x.entries) if (s.count(f) && (x.fn[f].names.empty() || (text_only && SectionOf(x, f) != ".text"))) s.erase(f);
  std::map<std::string, std::vector<int>> by;
  for (int f : s) for (auto& n : x.fn[f].names) by[n].push_back(f);
  std::set<int> gone;
  for (auto& n : by) {
    if (n.second.size() < 2) continue;
    if (p) p->twice += n.second.size() - 1;
    bool same = n.first.find(".__uniq.") != std::string::npos;
    auto& first = x.fn[n.second[0]].b;
    for (int f : n.second) {
      if (x.fn[f].b.size() != first.size()) { same = false; break; }
      for (size_t i = 0; i < first.size(); ++i) same &= x.fn[f].b[i].off == first[i].off && x.fn[f].b[i].size == first[i].size;
    }
    for (size_t i = same; i < n.second.size(); ++i) gone.insert(n.second[i]);
  }
  std::vector<int> r;
  for (int f : s) if (!gone.count(f)) r.push_back(f);
  return r;
}
// The block an address belongs to. A branch to the address of empty blocks goes to the first of them.
inline bool Find(const Bin& x, const std::vector<int>& sel, uint64_t a, bool target, Node* n) {
  bool end = false;  // of a function, with empty blocks there: only if no other function starts here
  for (int f : sel) {
    for (int i = 0; i < int(x.fn[f].b.size()); ++i) {
      uint64_t s = Addr(x, {f, i}), z = x.fn[f].b[i].size;
      if (target && z == 0 && s == a) {
        if (a < x.fn[f].addr + x.fn[f].size) { *n = {f, i}; return true; }
        *n = {f, i}; end = true; break;
      }
      if (a >= s && a - s < z) { *n = {f, i}; return true; }
    }
  }
  return end;
}
inline Program Analyse(const Bin& x, const Counters& br, const Counters& ft, bool text_only, std::set<uint64_t> addrs = {}) {
  Program p;
  for (auto& b : br) addrs.insert(b.first.first), addrs.insert(b.first.second);
  for (auto& b : ft) addrs.insert(b.first.first), addrs.insert(b.first.second);
  p.selected = Select(x, addrs, text_only, &p);
  std::map<std::pair<Node, Node>, uint64_t> falls;
  uint64_t dubious = 0, total = 0;
  for (auto& q : br) {
    uint64_t from = q.first.first, to = q.first.second, w = q.second;
    Node a{-1, -1}, b;
    bool known = Find(x, p.selected, from, false, &a);
    if (!Find(x, p.selected, to, true, &b)) continue;
    bool ret = known && (x.fn[a.f].b[a.b].md & kRetMd);
    uint64_t start = x.fn[b.f].addr;
    if ((!known || ret || a.f != b.f) && to != start && to == Addr(x, b) && b.b > 0) {
      // Back from a call that was the last instruction of the block before.
      falls[{{b.f, b.b - 1}, b}] += w;
      --b.b;
    }
    if (!known) continue;
    if (!ret && Addr(x, b) != to) dubious += w;
    Kind k = to == start ? kCall : (to != Addr(x, b) || ret) ? kRet : kBranch;
    p.g.Add(a, b, w, k); total += w;
  }
  if (total && double(dubious) / total > 0.3) { p.failed = true; p.why = "too many jumps into blocks"; return p; }
  if (!br.empty() && double(p.g.e.size()) / br.size() < 0.0005) { p.failed = true; p.why = "few edges"; return p; }
  for (auto& q : ft) {
    Node a, b;
    if (Find(x, p.selected, q.first.first, true, &a) && Find(x, p.selected, q.first.second, false, &b)) falls[{a, b}] += q.second;
  }
  for (auto& q : falls) {
    Node a = q.first.first, b = q.first.second;
    if (a == b || !CanFall(x, a, b)) continue;
    for (int i = a.b; i < b.b; ++i) p.g.Add({a.f, i}, {a.f, i + 1}, q.second, kBranch);
  }
  for (auto& e : p.g.e) {
    if (e.second.size() > 1) p.g.mixed = true;
    p.hot.insert(e.first.first.f); p.hot.insert(e.first.second.f);
  }
  return p;
}

// ---- perf data ---------------------------------------------------------------
struct Opts { std::string match; };  // "": by build id; else by name
struct Perf {
  std::string bytes; bool used = false; size_t maps = 0; Counters br, ft; std::map<uint64_t, uint64_t> not_taken; quipper::PerfDataProto proto;
};
struct PMap { uint32_t pid; uint64_t start, len, pgoff; };
inline uint64_t ToBinary(const Bin& x, const std::vector<PMap>& maps, uint32_t pid, uint64_t a) {
  const PMap* m = nullptr;
  for (auto& p : maps) if (p.pid == pid && a >= p.start && a - p.start < p.len) m = &p;
  if (!m) return kInvalid;
  if (!x.kernel && !x.pie) return a;
  uint64_t fo = a - m->start + (x.kernel ? 0 : m->pgoff);
  bool first = true;
  for (auto& g : x.segs) {
    uint64_t off = x.kernel ? (first ? 0 : g.off - x.segs[0].off) : g.off;
    first = false;
    if (fo >= off && fo - off < g.size) return fo - off + g.vaddr;
  }
  return kInvalid;
}
constexpr uint32_t kKernelPid = ~0u;

// The mappings of one recording. Returns whether they are usable.
struct Maps { perfgen::Gen g; std::vector<PMap> sel; std::vector<uint32_t> pids; std::map<uint32_t, uint64_t> slide; bool usable = true; size_t Owners() const { std::set<uint32_t> p; for (auto& m : sel) p.insert(m.pid); return p.size(); } };
inline Maps MakeMaps(const Bin& x, const std::string& match) {
  Maps r;
  const std::string app = x.kernel ? x.map_name : match == "/sim/app" && !Flip(1, 10, "moved") ? "/sim/app" : "/usr/bin/app", other = "/usr/lib/other.so";
  std::vector<std::string> files = {app};
  const bool kallsyms = x.kernel && !x.ko;
  std::string id = x.build_id; id.resize(20, '\0');  // as perf has it
  if (!x.kernel && Flip(1, 6, "two-files")) files.push_back("/usr/bin/app-copy");
  if (!x.kernel && Flip(1, 8, "same-base")) files.push_back("/opt/old/app");
  if (!x.kernel && Flip(1, 10, "relative")) files.push_back(Choose(2, "which") ? "app" : "memfd");
  if (kallsyms && Flip(1, 8, "vmlinux")) files.push_back("/boot/vmlinux");
  std::set<std::string> want;
  bool has_id = !Flip(1, 12, "no-id");
  if (has_id) for (auto& f : files) if (f != "/opt/old/app" || Choose(2, "old-id")) {
    auto* b = r.g.proto.add_build_ids(); b->set_filename(f); b->set_build_id_hash(x.build_id.empty() ? std::string(20, 'q') : id);
    if (match.empty() && !x.build_id.empty()) want.insert(f);
  }
  if (Choose(2, "other-id")) { auto* b = r.g.proto.add_build_ids(); b->set_filename(other); b->set_build_id_hash(std::string(20, 'z')); }
  const bool anon = Flip(1, 6, "anon-id");
  if (anon) { auto* b = r.g.proto.add_build_ids(); b->set_filename("/anon_hugepage (deleted)"); b->set_build_id_hash(id); if (Choose(2, "anon-first")) r.g.proto.mutable_build_ids()->SwapElements(0, r.g.proto.build_ids_size() - 1); }
  auto selected = [&](const std::string& f) {
    if (!match.empty() && match[0] == '~') return std::regex_search(f, std::regex(match.substr(1)));
    for (auto& n : match.empty() ? want : std::set<std::string>{match}) {  // each name by its own kind
      if (f == n || (n == "[kernel.kallsyms]" && (f == n + "_text" || f == n + "_stext"))) return true;
      if (n[0] != '/' && n[0] != '[' && f.substr(f.rfind('/') + 1) == n) return true;
    }
    return false;
  };
  if (match.empty() && want.empty()) r.usable = false;
  int npid = x.kernel ? 1 : 1 + Choose(3, "pids");
  auto map = [&](uint32_t pid, const std::string& f, uint64_t start, uint64_t len, uint64_t pgoff) {
    r.g.Mmap(pid, f, start, len, pgoff);
    if (!selected(f)) return;
    for (auto& m : r.sel) if (m.pid == pid) {
      if (m.start == start && m.len == len && m.pgoff == pgoff) return;
      if (start < m.start + m.len && m.start < start + len) r.usable = false;  // two things at one place
    }
    r.sel.push_back({pid, start, len, pgoff});
  };
  for (int i = 0; i < npid; ++i) {
    uint32_t pid = x.kernel ? kKernelPid : 100 + i;
    r.pids.push_back(pid);
    uint64_t slide = x.ko ? 0xffffffffc0000000 + 0x4000 * Choose(4, "module") : x.pie ? 0x555500000000 + 0x10000000 * Choose(4, "slide") : x.kernel ? 0x1000000 * Choose(3, "kaslr") : 0;
    r.slide[pid] = slide;
    std::string f = files[Choose(files.size(), "file")];
    if (kallsyms && f == app) { static const char* also[] = {"", "_text", "_stext", "", "_data"}; f += also[Choose(5, "kernel-symbol")]; }
    if (x.kernel) { map(pid, f, x.segs[0].vaddr + slide, 0x2000000, Choose(2, "pgoff") ? x.segs[0].vaddr : 0); }
    else for (auto& g : x.segs) {
      if (Flip(1, 10, "not-mapped")) continue;
      uint64_t lo = g.vaddr & ~0xfffull, hi = (g.vaddr + g.size + 0xfff) & ~0xfffull, off = g.off & ~0xfffull;
      uint64_t cut = hi - lo > 0x1000 && Flip(1, 4, "split-map") ? 0x1000 : 0;
      const int half = cut ? Choose(5, "half") : 0;  // 3: only the first, 4: the second one first
      if (cut && half < 4) map(pid, f, lo + slide, cut, off);
      if (half == 3) continue;
      map(pid, f, lo + cut + slide, hi - lo - cut, off + cut);
      if (half == 4) map(pid, f, lo + slide, cut, off);
      if (anon && Flip(1, 3, "huge")) map(pid, "/anon_hugepage (deleted)", lo + slide, 0x200000, 0);
      if (Flip(1, 8, "again")) map(pid, f, lo + cut + slide, hi - lo - cut, off + cut);
      if (Flip(1, 30, "conflict")) map(pid, f, lo + slide + 0x1000 * Choose(2, "shift"), 0x2000, off);
    }
    if (Choose(2, "other-map")) map(pid, other, 0x7f0000000000, 0x4000, 0);
  }
  if (r.sel.empty()) r.usable = false;
  if (Flip(1, 40, "wraps-around")) { r.g.Mmap(950, other, ~0xfffull, 0x10000, 0); r.usable = false; }  // the recording makes no sense
  return r;
}
inline Perf MakeLbr(const Bin& x, const std::string& match, int max_samples, bool wild) {
  Perf r; Maps m = MakeMaps(x, match);
  auto run = [&](uint32_t pid, uint64_t b) { return b >= kOutside && b < kOutside + 0x1000 ? 0x7f0000000000 + (b - kOutside) * 16 : b + m.slide[pid]; };
  for (int n = 1 + Choose(max_samples, "samples"); n > 0; --n) {
    uint32_t pid = m.pids[Choose(m.pids.size(), "pid")];
    const bool deep = Flip(1, 16, "deep");
    std::vector<Branch> w = Walk(x, deep ? 80 : 4 + Choose(24, "steps"), Choose(x.fn.size(), "start"));
    size_t end = w.size() - (w.size() > 4 && Flip(1, 3, "stop-early") ? Choose(4, "early") : 0), len = std::min<size_t>(end, deep ? 24 + Choose(48, "depth") : 2 + Choose(14, "depth"));
    std::vector<Branch> st;  // newest first, run-time addresses
    for (size_t i = end - len; i < end; ++i) st.insert(st.begin(), {run(pid, w[i].first), run(pid, w[i].second)});
    if (!st.empty() && Flip(1, 16, "repeat-first")) st.insert(st.begin(), st[0]);
    if (wild && !st.empty() && Flip(1, 10, "wild")) {
      auto& q = st[Choose(st.size(), "which")];
      const perfgen::Map* at = nullptr;
      auto mine = m.g.maps.find(pid);
      if (mine != m.g.maps.end() && !mine->second.empty() && Choose(3, "map-edge") == 0) at = &mine->second[Choose(mine->second.size(), "which-map")];
      uint64_t a = at ? at->start + (Choose(2, "map-end") ? at->len : 0) - Choose(2, "before") : Choose(2, "wild-kind") ? Choose(1 << 22, "wild-addr") : run(pid, x.fn[Choose(x.fn.size(), "fn")].addr + Choose(64, "wild-off"));
      if (Choose(2, "wild-end")) q.first = a; else q.second = a;
    }
    auto* e = m.g.proto.add_events(); e->mutable_header()->set_type(quipper::PERF_RECORD_SAMPLE);
    auto* s = e->mutable_sample_event();
    uint32_t says = x.kernel ? 100 + Choose(5, "any-pid") : Flip(1, 20, "stranger") ? 999 : pid;
    if (!Flip(1, 40, "no-pid")) s->set_pid(says);
    s->set_ip(0x1000);
    for (auto& q : st) { auto* b = s->add_branch_stack(); b->set_from_ip(q.first); b->set_to_ip(q.second); }
    // What the record says.
    if (!x.kernel && (!s->has_pid() || std::none_of(m.sel.begin(), m.sel.end(), [&](const PMap& p) { return p.pid == says; }))) continue;
    uint32_t as = x.kernel ? kKernelPid : says;
    uint64_t last = kInvalid;
    for (size_t i = st.size(); i-- > 0;) {
      uint64_t f = ToBinary(x, m.sel, as, st[i].first), t = ToBinary(x, m.sel, as, st[i].second);
      ++r.br[{f, t}];
      if (last != kInvalid && last <= f) ++r.ft[{last, f}];
      last = t;
    }
  }
  r.used = m.usable; r.maps = m.Owners();
  if (!r.used) r.br.clear(), r.ft.clear();
  r.proto = m.g.proto;
  r.bytes = quipper::SerializePerfData(r.proto);
  return r;
}
// The same samples in another order.
inline std::string Reordered(const Perf& f) {
  quipper::PerfDataProto p = f.proto, q = f.proto;
  q.clear_events();
  std::vector<int> samples, other;
  for (int i = 0; i < p.events_size(); ++i) (p.events(i).has_mmap_event() ? other : samples).push_back(i);
  sim::Shuffle(samples, "sample-order");
  for (int i : other) *q.add_events() = p.events(i);
  for (int i : samples) *q.add_events() = p.events(i);
  return quipper::SerializePerfData(q);
}
}  // namespace prop
#endif
