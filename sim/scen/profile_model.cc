#include "profile_model.h"

#include <algorithm>
#include <set>

namespace model {
using devtools_crosstool_autofdo::Callsite;
using devtools_crosstool_autofdo::SourceInfo;
using devtools_crosstool_autofdo::SourceStack;
using devtools_crosstool_autofdo::Symbol;
using devtools_crosstool_autofdo::SymbolMap;
using sim::Choose;
using sim::Flip;
using sim::Skewed;
using sim::Str;

void AddNode(Node& a, const Node& b) {
  a.total += b.total;
  for (auto& p : b.pos) {
    a.pos[p.first].count += p.second.count;
    a.pos[p.first].insts += p.second.insts;
    for (auto& t : p.second.targets) a.pos[p.first].targets[t.first] += t.second;
  }
  for (auto& c : b.calls) AddNode(a.calls[c.first], c.second);
}
std::vector<WorkingSet> WorkingSets(const std::vector<const Node*>& functions) {
  std::map<uint64_t, uint64_t, std::greater<uint64_t>> all;
  uint64_t total = 0;
  std::function<void(const Node&)> walk = [&](const Node& n) {
    for (auto& p : n.pos) { all[p.second.count] += p.second.insts; total += p.second.count * p.second.insts; }
    for (auto& c : n.calls) walk(c.second);
  };
  for (auto* n : functions) walk(*n);
  std::vector<WorkingSet> r(NUM_GCOV_WORKING_SETS);
  for (int i = 0; i < NUM_GCOV_WORKING_SETS; ++i) {
    uint64_t left = total / (NUM_GCOV_WORKING_SETS + 1) * (i + 1), num = 0;
    for (auto& x : all) {
      if (x.first * x.second > left) { r[i].num = num + left / x.first; r[i].min = x.first; break; }
      left -= x.first * x.second; num += x.second;
    }
  }
  return r;
}
void Model::Add(const Model& o) {
  for (auto& s : o.syms) {
    Sym& d = syms[s.first];
    d.file = s.second.file;
    d.ts = s.second.ts;
    d.head += s.second.head;
    AddNode(d.body, s.second.body);
  }
  for (int i = 0; i < NUM_GCOV_WORKING_SETS; ++i) {
    ws_num[i] = ws_num[i] == 0 ? o.ws_num[i] : (ws_num[i] + o.ws_num[i]) / 2;
    ws_min[i] += o.ws_min[i];
  }
}
Model Model::Above(uint64_t threshold) const {
  Model r = *this;
  for (auto it = r.syms.begin(); it != r.syms.end();)
    if (it->second.body.Total() > threshold) ++it; else it = r.syms.erase(it);
  return r;
}

static Node* Walk(Model* m, const Op& op) {
  Node* n = &m->syms[op.sym].body;
  for (size_t i = 0; i + 1 < op.stack.size(); ++i) n = &n->calls[{op.stack[i].off, op.stack[i + 1].name}];
  return n;
}
void Apply(const Op& op, Model* m) {
  switch (op.kind) {
    case Op::kSymbol: { Sym& s = m->syms[op.sym]; s.file = op.file; s.ts = op.ts; break; }
    case Op::kHead: m->syms[op.sym].head += op.head; break;
    case Op::kCount: { Pos& p = Walk(m, op)->pos[op.stack.back().off]; p.count += op.count; p.insts += op.num_inst; break; }
    case Op::kTarget: Walk(m, op)->pos[op.stack.back().off].targets[op.target] += op.count; break;
    case Op::kWorkingSet: {
      uint32_t& n = m->ws_num[op.index];
      n = n == 0 ? op.num_inst : (n + op.num_inst) / 2;
      m->ws_min[op.index] += op.count;
      break;
    }
  }
}
static const char* Keep(const std::string& s) {
  static auto* pool = new std::set<std::string>;
  return pool->insert(s).first->c_str();
}
void Apply(const Op& op, SymbolMap* m) {
  SourceStack st;
  for (size_t i = op.stack.size(); i-- > 0;)
    st.push_back(SourceInfo(Keep(op.stack[i].name), "", op.with_files ? FileOf(op.stack[i].name) : "", 0, op.stack[i].off.line, op.stack[i].off.disc));
  switch (op.kind) {
    case Op::kSymbol:
      m->AddSymbol(op.sym);
      m->AddSymbolTimestamp(op.sym, op.ts);
      const_cast<Symbol*>(m->GetSymbolByName(op.sym))->info.file_name = op.file;
      break;
    case Op::kHead: m->AddSymbolEntryCount(op.sym, op.head); break;
    case Op::kCount: m->AddSourceCount(op.sym, st, op.count, op.num_inst); break;
    case Op::kTarget: {
      // One call per (location, target): the generator never repeats one.
      m->AddIndirectCallTarget(op.sym, st, op.target, op.count);
      break;
    }
    case Op::kWorkingSet: m->UpdateWorkingSet(op.index, op.num_inst, op.count); break;
  }
}

std::string FileOf(const std::string& n) {
  static const std::vector<std::string> files = {"", "a.c", "dir/b.cc", "c.h", std::string(200, 'p')};
  return files[sim::HashStr(WrittenName(n)) % files.size()];
}
std::vector<std::string>& NamePool() { static auto* v = new std::vector<std::string>; return *v; }
std::string NewName(bool ctor_names) {
  static int serial = 0;
  ++serial;
  uint64_t k = Choose(12, "name-kind");
  std::string n;
  switch (k) {
    case 0: case 1: case 2: n = Str("f%d", serial); break;
    case 3: n = Str("_ZN3foo3barIiEEvT_i%d", serial); break;
    case 4: n = Str("main.%d.isra", serial); break;
    case 5: n = ctor_names ? Str("_ZN1a%dC4Ev", serial % 3) : Str("_ZN1a%dC9Ev", serial); break;
    case 6: n = ctor_names ? Str("_ZN1a%dC2Ev", serial % 3) : Str("_ZN1a%dC8Ev", serial); break;
    case 7: n = ctor_names ? Str("_ZN1b%dC4EPKc", serial % 2) : Str(Choose(2, "pointer") ? "_ZN1b%dC7EPKc" : "_ZN1b%dC4EPKi", serial); break;
    case 8: n = ctor_names ? Str("_ZN1c%dD4Ev", serial % 2) : Str("_ZN1c%dD9Ev", serial); break;
    case 9: n = Str("x%d", serial) + std::string(Choose(300, "name-len"), 'q'); break;
    case 10: n = Str("operator \xc3\xa9 %d", serial); break;
    case 11: n = Str("y%d", serial) + std::string(Choose(4, "name-huge") == 3 ? 1 + Choose(Flip(1, 4, "name-giant") ? 70000 : 16000, "name-len") : 3, 'z'); break;
  }
  NamePool().push_back(n);
  return n;
}
static uint64_t Num(uint64_t max) {
  switch (Choose(6, "count-kind")) {
    case 0: return 1 + Choose(20, "count");
    case 1: return 11 + Choose(1000, "count");
    case 2: return Choose(3, "count");
    case 3: return 1 + Choose(max, "count");
    case 4: return std::min<uint64_t>(max, (1ull << 32) - 2 + Choose(5, "count"));
    default: return std::min<uint64_t>(max, 1ull << Choose(48, "count-bits"));
  }
}
static Off RandOff() {
  Off o;
  switch (Choose(5, "off-kind")) {
    case 0: o.line = Choose(30, "line"); break;
    case 1: o.line = Choose(30, "line"); o.disc = Choose(4, "disc"); break;
    case 2: o.line = Choose(65536, "line"); o.disc = Choose(65536, "disc"); break;
    case 3: o.line = 65535; o.disc = Choose(2, "disc") ? 65535 : 0; break;
    default: o.line = 1 + Choose(3, "line"); break;
  }
  return o;
}
std::vector<Op> Generate(const GenOptions& o) {
  std::vector<Op> ops;
  uint64_t big = o.allow_big ? Choose(24, "profile-size") : 0;
  uint64_t nsym = big == 23 ? 200 + Choose(400, "symbols") : 1 + Choose(8, "symbols");
  uint64_t maxc = o.max_count ? o.max_count : (Choose(3, "magnitude") == 2 ? 1ull << 44 : 100000);
  std::vector<std::string>& pool = NamePool();
  std::vector<std::string> chosen;
  for (uint64_t i = 0; i < nsym; ++i) {
    std::string n = (!pool.empty() && Choose(2, "reuse-name")) ? pool[Choose(pool.size(), "name")] : NewName(o.ctor_names);
    if (std::count(chosen.begin(), chosen.end(), n)) continue;
    chosen.push_back(n);
  }
  for (auto& s : chosen) {
    Op op; op.kind = Op::kSymbol; op.sym = s;
    op.file = o.files ? FileOf(s) : "";
    if (o.stable_meta) op.ts = sim::HashStr(WrittenName(s)) % 1000000;
    else op.ts = Choose(4, "ts") ? Choose(1ull << 40, "timestamp") : 0;
    ops.push_back(op);
    if (Choose(3, "head")) { Op h; h.kind = Op::kHead; h.sym = s; h.head = Num(maxc); ops.push_back(h); }
    uint64_t npos = Choose(8, "npos");
    size_t deepest = Choose(16, "deepest") == 15 ? 40 : 6;
    if (npos == 0 && (!o.empty_symbols || o.min_total_above_threshold)) npos = 1;
    std::vector<std::vector<Frame>> prefixes = {{}};
    std::set<std::string> used_targets;
    for (uint64_t k = 0; k < npos; ++k) {
      Op c; c.kind = Op::kCount; c.sym = s; c.with_files = o.files;
      std::vector<Frame> st = prefixes[Choose(prefixes.size(), "prefix")];
      if (st.empty()) st.push_back({s, RandOff()});
      while (st.size() < deepest && (deepest > 6 ? Choose(8, "inline-deep") != 0 : Choose(3, "inline") == 2)) {
        std::string callee = (!pool.empty() && Choose(2, "reuse-callee")) ? pool[Choose(pool.size(), "callee")] : NewName(o.ctor_names);
        st.push_back({callee, RandOff()});
      }
      { std::vector<Frame> p = st; prefixes.push_back(p); }
      st.back().off = RandOff();
      c.stack = st; c.count = Num(maxc); c.num_inst = 1 + Choose(3, "num-inst");
      if (o.min_total_above_threshold) c.count += 11;
      ops.push_back(c);
      uint64_t nt = Choose(4, "ntargets");
      if (nt == 3) nt = 1 + Choose(12, "ntargets"); else if (nt == 1) nt = 0;
      for (uint64_t t = 0; t < nt; ++t) {
        Op g = c; g.kind = Op::kTarget; g.target = Choose(2, "target-kind") ? NewName(o.ctor_names) : Str("tgt%lu", (unsigned long)Choose(6, "target"));
        std::string key = g.target;
        for (auto& f : st) key += Str("|%s:%u.%u", f.name.c_str(), f.off.line, f.off.disc);
        if (!used_targets.insert(key).second) continue;
        g.count = Num(maxc);
        ops.push_back(g);
      }
    }
  }
  if (o.working_sets && Choose(3, "working-sets"))
    for (int i = 0; i < NUM_GCOV_WORKING_SETS; ++i) {
      if (Choose(2, "ws")) continue;
      Op w; w.kind = Op::kWorkingSet; w.index = i; w.num_inst = 10 * Choose(1000, "ws-num"); w.count = Choose(1ull << 40, "ws-min");
      ops.push_back(w);
    }
  return ops;
}

static void CanonNode(const Node& n, int ind, std::string* s) {
  for (auto& p : n.pos) {
    *s += Str("%*s@%u.%u %lu", ind, "", p.first.line, p.first.disc, (unsigned long)p.second.count);
    for (auto& t : p.second.targets) *s += Str(" [%s:%lu]", t.first.c_str(), (unsigned long)t.second);
    *s += "\n";
  }
  for (auto& c : n.calls) {
    if (c.second.Empty()) continue;
    *s += Str("%*s>%u.%u %s total=%lu\n", ind, "", c.first.first.line, c.first.first.disc, c.first.second.c_str(), (unsigned long)c.second.Total());
    CanonNode(c.second, ind + 1, s);
  }
}
std::string Canon(const Model& m, bool ws) {
  std::string s;
  for (auto& y : m.syms) {
    s += Str("sym %s file=%s total=%lu head=%lu ts=%lu\n", y.first.c_str(), y.second.file.c_str(), (unsigned long)y.second.body.Total(), (unsigned long)y.second.head, (unsigned long)y.second.ts);
    CanonNode(y.second.body, 1, &s);
  }
  if (ws) for (int i = 0; i < NUM_GCOV_WORKING_SETS; ++i) if (m.ws_num[i] || m.ws_min[i]) s += Str("ws %d %u %lu\n", i, m.ws_num[i], (unsigned long)m.ws_min[i]);
  return s;
}
static bool RealEmpty(const Symbol* y) {
  if (!y->pos_counts.empty()) return false;
  for (auto& c : y->callsites) if (!RealEmpty(c.second)) return false;
  return true;
}
static void CanonReal(const Symbol* y, int ind, std::string* s) {
  for (auto& p : y->pos_counts) {
    *s += Str("%*s@%u.%u %lu", ind, "", (unsigned)(p.first >> 32), (unsigned)(p.first & 0xffffffff), (unsigned long)p.second.count);
    for (auto& t : p.second.target_map) *s += Str(" [%s:%lu]", t.first.c_str(), (unsigned long)t.second);
    *s += "\n";
  }
  std::map<std::pair<uint64_t, std::string>, const Symbol*> sorted;
  for (auto& c : y->callsites) sorted[{c.first.location, c.first.callee_name}] = c.second;
  for (auto& c : sorted) {
    if (RealEmpty(c.second)) continue;
    *s += Str("%*s>%u.%u %s total=%lu\n", ind, "", (unsigned)(c.first.first >> 32), (unsigned)(c.first.first & 0xffffffff), c.first.second.c_str(), (unsigned long)c.second->total_count);
    CanonReal(c.second, ind + 1, s);
  }
}
std::string Canon(const SymbolMap& m, bool ws) {
  std::string s;
  for (auto& y : m.map()) {
    s += Str("sym %s file=%s total=%lu head=%lu ts=%lu\n", y.first.c_str(), std::string(y.second->info.file_name).c_str(), (unsigned long)y.second->total_count, (unsigned long)y.second->head_count, (unsigned long)y.second->timestamp);
    CanonReal(y.second, 1, &s);
  }
  if (ws) {
    const auto* w = m.GetWorkingSets();
    for (int i = 0; i < NUM_GCOV_WORKING_SETS; ++i) if (w[i].num_counters || w[i].min_counter) s += Str("ws %d %u %lu\n", i, w[i].num_counters, (unsigned long)w[i].min_counter);
  }
  return s;
}
std::string FirstDiff(const std::string& want, const std::string& got) {
  size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  size_t b = want.rfind('\n', i ? i - 1 : 0); b = b == std::string::npos ? 0 : b + 1;
  auto line = [&](const std::string& s) { return b < s.size() ? s.substr(b, std::min<size_t>(s.find('\n', b) - b, 300)) : std::string("<end>"); };
  return "expected '" + line(want) + "', got '" + line(got) + "'";
}
std::string WrittenName(const std::string& n) {
  std::string c = n;
  size_t len = c.size();
  auto ends = [&](const char* x) { size_t k = strlen(x); return len >= k && !c.compare(len - k, k, x); };
  if (len > 5 && (ends("D4Ev") || ends("C4Ev"))) c[len - 3] = '2';
  else if (len > 7 && ends("C4EPKc")) c[len - 5] = '2';
  else if (len > 12 && ends("C4EPKcRKS2_")) c[len - 10] = '2';
  return c;
}
static void WNode(const Node& n, Node* r) {
  r->total += n.total;
  for (auto& p : n.pos) {
    Pos& q = r->pos[p.first];
    q.count += p.second.count;
    for (auto& t : p.second.targets) q.targets[WrittenName(t.first)] += t.second;
  }
  for (auto& c : n.calls) WNode(c.second, &r->calls[{c.first.first, WrittenName(c.first.second)}]);
}
Model AsWritten(const Model& m) {
  Model r;
  for (auto& s : m.syms) {
    Sym& d = r.syms[WrittenName(s.first)];
    d.file = s.second.file; d.ts = s.second.ts; d.head += s.second.head;
    WNode(s.second.body, &d.body);
  }
  for (int i = 0; i < NUM_GCOV_WORKING_SETS; ++i) { r.ws_num[i] = m.ws_num[i]; r.ws_min[i] = m.ws_min[i]; }
  return r;
}
}  // namespace model
