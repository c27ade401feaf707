// Model of profile creation: a binary with a recorded line table and samples,
// to a profile. For create_gcov, and with HAVE_LLVM for create_llvm_prof.
#ifndef CREATE_MODEL_H_
#define CREATE_MODEL_H_
#include "golden.h"
#include "perf_model.h"
#include "profile_model.h"
#include "samples_model.h"

using namespace model;
using samples::Samples;
using sim::Choose;
using sim::Disk;
using sim::ProcResult;
using sim::Str;

namespace {
const std::vector<std::string> kBins = {"gcc_d5", "gcc_d4_o0", "gcc_d4_sections", "clang_d4", "gcc_d5_pie", "gcc_lto", "gcc_d4", "gcc_d4_32", "gcc_d5_os", "gcc_d3_o3", "gcc_d2", "gcc_d5_noasloc", "clang_d3", "clang_d5", "clang_d5_sec", "arm_d4", "arm_d5", "clang_fs",
#ifdef HAVE_LLVM
                                       "ko_d4", "ko_d5",
#endif
};

struct Setup {
  std::string bin, image, file = "app";
  bool kernel = false;
  std::vector<golden::FuncSym> funcs;  // one per address, by address
  std::map<uint64_t, std::vector<std::string>> names;  // address -> names, symbol table order
  std::vector<std::pair<uint64_t, uint64_t>> segs;     // exec segments (offset, vaddr)
  uint64_t ToOffset(uint64_t v) const {
    uint64_t o = v - segs[0].second + segs[0].first;
    for (auto& s : segs) if (v >= s.second) o = v - s.second + s.first;
    return o;
  }
  uint64_t ToStatic(uint64_t o) const {
    uint64_t r = o + segs[0].second - segs[0].first;
    for (auto& g : segs) if (o >= g.first) r = o + g.second - g.first;
    return r;
  }
  const golden::FuncSym* Func(uint64_t a) const {
    const golden::FuncSym* r = nullptr;
    for (auto& f : funcs) if (a >= f.addr && a < f.addr + f.size) r = &f;
    return r;
  }
};
// Another symbol table: functions in parts, with the suffixes compilers give
// them, and with more than one name.
template <class Eh, class Sh, class Sy> void Resymbol(std::string* b) {
  Eh eh; memcpy(&eh, b->data(), sizeof eh);
  auto sec = [&](int i) { Sh h; memcpy(&h, b->data() + eh.e_shoff + i * sizeof h, sizeof h); return h; };
  int at = 0;
  for (int i = 0; i < eh.e_shnum; ++i) if (sec(i).sh_type == SHT_SYMTAB) at = i;
  if (!at) return;
  Sh tab = sec(at), str = sec(tab.sh_link);
  std::string names = b->substr(str.sh_offset, str.sh_size);
  std::vector<Sy> in(tab.sh_size / sizeof(Sy)), out;
  memcpy(in.data(), b->data() + tab.sh_offset, in.size() * sizeof(Sy));
  auto name = [&](const std::string& n) { size_t k = names.size(); names += n; names += '\0'; return k; };
  static const char* suffix[] = {".cold", ".llvm.8021", ".__part.0", ".isra.0", ".part.1.cold", ".llvm.8021.cold", ".__part.2", ".constprop.0.isra.1", ".llvm.8021.__uniq.5", ".cold.8", ".cold.llvm.3.part.9"};
  auto fresh = [&](const std::string& n) {  // one function per name
    std::string c;
    for (int k = 0;; ++k) { c = n + suffix[Choose(11, "suffix")]; if (k > 6) c += Str(".llvm.%d", k); if (names.find('\0' + c + '\0') == std::string::npos) return c; }
  };
  std::set<uint64_t> seen;
  std::vector<std::string> funcs;
  int rate = 2 + Choose(6, "rename-rate");
  for (Sy y : in) {
    if (!y.st_size || (y.st_info & 15) != STT_FUNC || !seen.insert(y.st_value).second) { out.push_back(y); continue; }
    std::string n = names.c_str() + y.st_name, base = n.substr(0, n.find('.'));
    if (Choose(rate, "keep-name") == 0) {
      if (!funcs.empty() && Choose(3, "part-of-another") == 0) base = funcs[Choose(funcs.size(), "which")];
      y.st_name = name(fresh(base));
    }
    if (Choose(rate, "whole") == 0 && y.st_size > 2) {
      Sy rest = y; auto cut = 1 + Choose(y.st_size - 1, "cut");
      rest.st_value += cut; rest.st_size -= cut; y.st_size = cut;
      std::string r = fresh(base);
      rest.st_name = name(r);
      bool part = (r.size() > 5 && r.substr(r.size() - 5) == ".cold") || (r.rfind(".__part.") != std::string::npos && r.rfind(".__part.") + 9 == r.size());
      if (part && Choose(2, "notype")) rest.st_info = STT_NOTYPE;
      if (seen.insert(rest.st_value).second) out.push_back(rest); else y.st_size += cut;
    }
    out.push_back(y);
    for (int k = 0; Choose(rate, "alias") == 0 && k < 3; ++k) { Sy a = y; a.st_name = name(base + Str("_also_%d_%zu", k, out.size())); out.push_back(a); }
    if (base.size() && base == n) funcs.push_back(base);
  }
  while (b->size() % 8) *b += '\0';
  tab.sh_offset = b->size(); tab.sh_size = out.size() * sizeof(Sy);
  b->append(reinterpret_cast<const char*>(out.data()), tab.sh_size);
  str.sh_offset = b->size(); str.sh_size = names.size();
  *b += names;
  memcpy(&(*b)[eh.e_shoff + at * sizeof tab], &tab, sizeof tab);
  memcpy(&(*b)[eh.e_shoff + tab.sh_link * sizeof str], &str, sizeof str);
  sim::Count("reach.other_symbols");
}
// Linkers make build ids of other sizes too (--build-id=md5, uuid, 0x...).
template <class Eh, class Sh> void ShortenId(std::string* b, int n) {
  Eh eh; memcpy(&eh, b->data(), sizeof eh);
  for (int i = 0; i < eh.e_shnum; ++i) {
    Sh h; char* at = &(*b)[eh.e_shoff + i * sizeof h]; memcpy(&h, at, sizeof h);
    if (h.sh_type != SHT_NOTE || memcmp(b->data() + h.sh_offset, "\4\0\0\0\x14\0\0\0\3\0\0\0GNU", 16)) continue;
    (*b)[h.sh_offset + 4] = n;
    h.sh_size = 16 + ((n + 3) & ~3);
    memcpy(at, &h, sizeof h);
    sim::Count("reach.short_build_id");
  }
}
// The binary, sometimes with its executable segment at other file offsets, or
// cut in two segments with unrelated offsets. Only the program headers change.
Setup MakeBinary(const std::vector<std::string>& bins = kBins, bool segments = true) {
  Setup s;
  s.bin = bins[Choose(bins.size(), "binary")];
  s.image = sim::Fixture(s.bin);
  if (s.bin[0] == 'k') { s.file = "app.ko"; segments = false; sim::Count("reach.module"); }
  bool is64 = s.image[EI_CLASS] == ELFCLASS64;
  if (Choose(2, "other-symbols")) is64 ? Resymbol<Elf64_Ehdr, Elf64_Shdr, Elf64_Sym>(&s.image) : Resymbol<Elf32_Ehdr, Elf32_Shdr, Elf32_Sym>(&s.image);
  if (int n = Choose(4, "build-id-bytes") ? 0 : 4 + Choose(16, "bytes")) is64 ? ShortenId<Elf64_Ehdr, Elf64_Shdr>(&s.image, n) : ShortenId<Elf32_Ehdr, Elf32_Shdr>(&s.image, n);
  std::map<uint64_t, golden::FuncSym> by;
  for (auto& f : golden::Functions(s.image)) { by.insert({f.addr, f}); s.names[f.addr].push_back(f.name); }
  for (auto& f : by) s.funcs.push_back(f.second);
  uint64_t lo = s.funcs.front().addr & ~0xfffull, mid = 0;
  int how = segments ? Choose(3, "segments") : 0;
  auto go = [&](auto eh, auto ph0) {
    memcpy(&eh, s.image.data(), sizeof eh);
    bool first = true;
    for (int i = 0; i < eh.e_phnum; ++i) {
      auto ph = ph0; size_t at = eh.e_phoff + i * sizeof ph;
      memcpy(&ph, s.image.data() + at, sizeof ph);
      if (ph.p_type == PT_LOAD && (ph.p_flags & PF_X) && first) {
        first = false; lo = ph.p_vaddr;
        if (how) ph.p_offset = 0x1000 * (1 + Choose(64, "segment-offset"));
        s.segs.push_back({ph.p_offset, ph.p_vaddr});
        if (how == 2) mid = s.funcs[s.funcs.size() / 2].addr;
      } else if (ph.p_type == PT_GNU_STACK && mid && !first) {
        ph.p_type = PT_LOAD; ph.p_flags = PF_R | PF_X;
        ph.p_vaddr = mid; ph.p_offset = s.segs[0].first + (mid - lo) + 0x1000 * Choose(64, "second-offset") + 8;
        s.segs.push_back({ph.p_offset, ph.p_vaddr});
        mid = 0;
      }
      memcpy(&s.image[at], &ph, sizeof ph);
    }
  };
  if (s.bin[0] == 'k') s.segs.push_back({golden::TextOffset(s.image), 0});
  else if (is64) go(Elf64_Ehdr{}, Elf64_Phdr{}); else go(Elf32_Ehdr{}, Elf32_Phdr{});
  return s;
}
uint64_t AnInsn(const Setup& s) {
  const auto& f = s.funcs[Choose(s.funcs.size(), "func")];
  uint64_t a = f.addr + Choose(f.size, "pc");
  const golden::Insn* i = golden::At(s.bin, a);
  return i && Choose(8, "mid-insn") ? i->addr : a;
}
uint64_t Cnt() {
  switch (Choose(5, "count-kind")) {
    case 4: return uint64_t{1} << Choose(36, "count");
    case 3: return Choose(3, "count");
    default: return 1 + Choose(500, "count");
  }
}
// In static addresses; the file has them as file offsets.
Samples GenSamples(const Setup& s, bool ranges, bool branches) {
  Samples v;
  if (ranges) for (int i = Choose(16, "ranges"); i > 0; --i) {
    uint64_t a = AnInsn(s), len = Choose(6, "range-kind") ? Choose(80, "len") : Choose(2000, "long-len");
    uint64_t hi = s.funcs.back().addr + s.funcs.back().size + 64;
    if (a + len > hi) len = hi - a;
    v.ranges[{a, a + len}] += Cnt();
  }
  for (int i = Choose(16, "addrs"); i > 0; --i) v.addrs[AnInsn(s)] += Cnt();
  if (branches) for (int i = Choose(12, "branches"); i > 0; --i) {
    uint64_t to = AnInsn(s);
    if (Choose(4, "callee")) to = s.funcs[Choose(s.funcs.size(), "callee-func")].addr;
    v.branches[{AnInsn(s), to}] += Cnt();
  }
  return v;
}
Samples AsOffsets(const Setup& s, const Samples& v) {
  Samples r;
  for (auto& x : v.ranges) r.ranges[{s.ToOffset(x.first.first), s.ToOffset(x.first.second)}] += x.second;
  for (auto& x : v.addrs) r.addrs[s.ToOffset(x.first)] += x.second;
  for (auto& x : v.branches) r.branches[{s.ToOffset(x.first.first), s.ToOffset(x.first.second)}] += x.second;
  return r;
}
std::string Elide(const std::string& n, int policy) {  // 0 selected, 1 all, 2 none
  if (policy == 2) return n;
  if (policy == 1) return n[0] == '.' ? n : n.substr(0, n.find('.'));
  std::string c = n;
  size_t k = c.rfind(".cold");
  if (k != std::string::npos) c.erase(k, 5);
  for (const char* suf : {".llvm.", ".__part."}) {
    k = c.rfind(suf);
    if (k == std::string::npos) continue;
    size_t e = c.find('.', k + strlen(suf));
    c.erase(k, e == std::string::npos ? std::string::npos : e - k);
  }
  return c;
}
#ifdef HAVE_LLVM
// LLVM encodes base discriminator, duplication factor and copy in one number.
uint32_t Unprefix(uint32_t u) { if (u & 1) return 0; u >>= 1; return u & 0x20 ? ((u >> 1) & 0xfe0) | (u & 0x1f) : u & 0x1f; }
// Flow-sensitive discriminators are eight bits of base and then the bits of each pass.
bool fs_disc = false, base_only = false, multiply = true;
uint32_t BaseDisc(uint32_t d) { return fs_disc ? base_only ? d & 0xff : d : Unprefix(d); }
uint64_t Dup(uint32_t d) { if (fs_disc || !multiply) return 1; d = d & 1 ? d >> 1 : d >> (d & 0x40 ? 14 : 7); d = Unprefix(d); return d ? d : 1; }
Off Stored(uint32_t line, uint32_t disc) { return {line & 0xffff, disc}; }
#else
uint32_t BaseDisc(uint32_t d) { return d; }
uint64_t Dup(uint32_t) { return 1; }
// What the profile stores of a source position: 16 bits of line and discriminator.
Off Stored(uint32_t line, uint32_t disc) {
  uint64_t off = (uint64_t{line} << 32) | disc;
  uint32_t c = static_cast<uint32_t>((off >> 16) | (off & 0xffff));
  return {c >> 16, c & 0xffff};
}
#endif
Off At(const golden::Frame& f) { return {f.line - f.start, BaseDisc(f.disc)}; }
// The source stack of the code at an address, empty if there is none.
const std::vector<golden::Frame>* StackOf(const std::string& bin, uint64_t a) {
  const golden::Insn* g = golden::At(bin, a);
  if (!g) return nullptr;
#ifdef HAVE_LLVM
  if (g->stack.empty()) return g->lineless.empty() || g->lineless[0].func == "?" ? nullptr : &g->lineless;
  if (g->stack[0].func == "?") return nullptr;  // no function
#endif
  return g->stack.empty() ? nullptr : &g->stack;
}
bool Bad(const golden::Frame& f) { return f.line == 0 || f.start == 0; }

struct Part { Sym sym; uint64_t total = 0; };
struct Options { int policy = 0; double frac = 0; bool use_lbr = true; std::map<uint64_t, uint64_t> times; };  // times by file offset
// The leaf node of an inline stack; adds `count` to the total.
Node* Leaf(Part* p, const std::vector<golden::Frame>& st, uint64_t count, bool stop_at_bad = true) {
  p->total += count;
  Node* n = &p->sym.body;
  n->total += count;
  for (size_t i = st.size() - 1; i > 0; --i) {
    if (stop_at_bad && Bad(st[i])) break;
    n = &n->calls[{At(st[i]), st[i - 1].func}];
    n->total += count;
  }
  return n;
}
void CompressNode(const Node& n, Node* r) {
  r->total += n.total;
  for (auto& p : n.pos) {
    Pos& q = r->pos[Stored(p.first.line, p.first.disc)];
    q.count += p.second.count;
    for (auto& t : p.second.targets) q.targets[t.first] += t.second;
  }
  for (auto& c : n.calls) CompressNode(c.second, &r->calls[{Stored(c.first.first.line, c.first.first.disc), c.first.second}]);
}
std::map<std::string, Part> all_parts;  // of the latest model, with those below the threshold
Model Finish(const Setup& s, const std::map<std::string, Part>& parts, uint64_t threshold, int policy, bool working_sets = false) {
  // Suffixed symbols merge into the plain one; every alias gets its own copy.
  std::map<std::string, Part> out;
  for (auto& p : parts) {
    Part& o = out[Elide(p.first, policy)];
    if (Elide(p.first, policy) == p.first) o.sym.ts = p.second.sym.ts;  // the hot part's
    o.total += p.second.total; o.sym.head += p.second.sym.head; AddNode(o.sym.body, p.second.sym.body);
  }
  std::vector<const Node*> bodies;
  for (auto& o : out) if (o.second.total) bodies.push_back(&o.second.sym.body);
  auto sets = WorkingSets(bodies);
  for (auto& n : s.names)
    for (size_t i = 1; i < n.second.size(); ++i)
      if (parts.count(n.second[0])) out[n.second[i]] = out[Elide(n.second[0], policy)];
  Model m;
  all_parts = out;
  for (auto& o : out) {
    if (o.second.total <= threshold) continue;
    Sym& y = m.syms[o.first];
    y.head = o.second.sym.head; y.ts = o.second.sym.ts;
    CompressNode(o.second.sym.body, &y.body);
  }
#ifdef HAVE_LLVM
  return m;
#else
  m = AsWritten(m);
  if (working_sets) for (size_t i = 0; i < sets.size(); ++i) { m.ws_num[i] = static_cast<uint32_t>(sets[i].num) / 10 * 10; m.ws_min[i] = sets[i].min; }
  return m;
#endif
}
uint64_t Threshold(const Samples& v, const Options& o) {
  uint64_t total = 0;
  if (!v.ranges.empty()) for (auto& r : v.ranges) total += r.second * (1 + r.first.second - r.first.first);
  else for (auto& a : v.addrs) total += a.second;
  int64_t t = static_cast<int64_t>(total) * o.frac;
  return t < 10 ? 10 : t;
}
Model ExpectCounts(const Setup& s, const Samples& v, const Samples& raw, const Options& o) {
  uint64_t threshold = Threshold(raw, o);
  struct In { const golden::FuncSym* f; Samples s; };
  std::map<std::string, In> in;
  for (auto& f : s.funcs) in[f.name].f = &f;
  for (auto& a : v.addrs) if (auto* f = s.Func(a.first)) in[f->name].s.addrs[a.first] += a.second;
  for (auto& r : v.ranges) if (auto* f = s.Func(r.first.first)) in[f->name].s.ranges[r.first] += r.second;
  for (auto& b : v.branches) if (auto* f = s.Func(b.first.first)) in[f->name].s.branches[b.first] += b.second;
  std::map<std::string, uint64_t> sums;
  for (auto& i : in) {
    uint64_t& t = sums[Elide(i.first, o.policy)];
    if (!i.second.s.ranges.empty()) for (auto& r : i.second.s.ranges) t += r.second * (1 + r.first.second - r.first.first);
    else for (auto& a : i.second.s.addrs) t += a.second;
  }
  std::map<std::string, Part> parts;
  for (auto& i : in) if (sums[Elide(i.first, o.policy)] > threshold) parts[i.first];
  for (auto& t : o.times) {  // by address: the lowest one counts
    auto* f = s.Func(s.ToStatic(t.first));
    if (f && parts.count(f->name) && !parts[f->name].sym.ts) parts[f->name].sym.ts = t.second;
  }
  for (auto& i : in) {
    if (!parts.count(i.first)) continue;
    Part& p = parts[i.first];
    const golden::FuncSym& f = *i.second.f;
    auto stack = [&](uint64_t a) { return StackOf(s.bin, a); };
    auto count = [&](uint64_t a, uint64_t n, int insts) {
      auto* st = stack(a);
      if (!st) return;
      n *= Dup((*st)[0].disc);
      Node* leaf = Leaf(&p, *st, n);
      if (Bad((*st)[0])) return;
      Pos& q = leaf->pos[At((*st)[0])];
      q.count = std::max(q.count, n);
      q.insts += insts;
    };
    for (uint64_t a = f.addr; a < f.addr + f.size; ++a) count(a, 0, 1);
    std::map<uint64_t, uint64_t> per;
    if (o.use_lbr) {
      if (i.second.s.ranges.empty()) continue;
      for (auto& r : i.second.s.ranges)
        for (uint64_t a = r.first.first; a <= r.first.second && a < f.addr + f.size; ++a) per[a] += r.second;
    } else per = i.second.s.addrs;
    for (auto& a : per) count(a.first, a.second, 0);
    for (auto& b : i.second.s.branches) {
      auto it = s.names.find(b.first.second);
      if (it == s.names.end() || !parts.count(it->second[0])) continue;
      parts[it->second[0]].sym.head += b.second;
      auto* st = stack(b.first.first);
      if (!st) continue;
      Node* leaf = Leaf(&p, *st, 0);
      if (Bad((*st)[0])) continue;
      leaf->pos[At((*st)[0])].targets[Elide(it->second[0], o.policy)] = b.second;
    }
  }
  return Finish(s, parts, threshold, o.policy, true);
}
Model ExpectMisses(const Setup& s, const Samples& v, const Samples& raw, const Options& o) {
  uint64_t threshold = Threshold(raw, o);
  std::map<std::string, Part> parts;
  for (auto& a : v.addrs) {
    auto* f = s.Func(a.first);
    if (!f) continue;
    auto* st = StackOf(s.bin, a.first);
    bool fresh = !parts.count(f->name);
    Part& p = parts[f->name];
    if (!st) continue;
    if (fresh) Leaf(&p, *st, threshold + 1, false);
    Leaf(&p, *st, 0, false)->pos[At((*st)[0])].targets["__llc_misses__"] += a.second;
  }
  return Finish(s, parts, threshold, o.policy);
}
struct Hint { uint64_t pc; int64_t delta; std::string type; };
Model ExpectHints(const Setup& s, const std::vector<Hint>& hints, int policy) {
  std::map<std::string, Part> parts;
  std::map<uint64_t, uint8_t> nth;
  for (auto& h : hints) {
    auto* f = s.Func(h.pc);
    if (!f) continue;
    int k = nth[h.pc]++;
    auto* st = StackOf(s.bin, h.pc);
    bool fresh = !parts.count(f->name);
    Part& p = parts[f->name];
    if (!st) continue;
    if (fresh) Leaf(&p, *st, 1, false);
    Leaf(&p, *st, 0, false)->pos[At((*st)[0])].targets["__prefetch_" + h.type + Str("_%d", k)] = h.delta;
  }
  return Finish(s, parts, 0, policy);
}
// The build id as perf records it: 20 bytes, in hex.
std::string PerfBuildId(const std::string& image) {
  std::string id;
  for (const char* p = image.data(), *e = p + image.size() - 36; p < e && id.empty(); ++p)
    if (!memcmp(p, "\4\0\0\0", 4) && !memcmp(p + 8, "\3\0\0\0GNU", 8)) for (unsigned i = 0; i < 20; ++i) id += Str("%02x", i < (unsigned char)p[4] ? (unsigned char)p[16 + i] : 0);
  return id;
}
std::string IdBytes(const std::string& hex) {
  std::string r;
  for (size_t i = 0; i < hex.size(); i += 2) r += static_cast<char>(strtoul(hex.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
// perf data of processes that map the binary, and others of the same name.
std::string PerfInput(const Setup& s, Samples* v, std::map<uint64_t, uint64_t>* times) {
  std::string id = PerfBuildId(s.image);
  perfgen::Gen g;
  static const char* plain[] = {"/usr/bin/app", "/usr/bin/app", "/usr/bin/app", "/opt/app", "/usr/bin/other", "/usr/bin/apple", "/usr/bin/app", "/opt/app", "/usr/bin/app"};
  static const char* module[] = {"/lib/app.ko", "/lib/app.ko", "/lib/app.ko", "/opt/app.ko", "/lib/app", "/usr/bin/other", "/lib/app.ko.2", "/lib/app.ko", "/opt/app.ko"};
  static const char* kern[] = {"[kernel.kallsyms]_stext", "[kernel.kallsyms]_text", "[kernel.kallsyms]", "/usr/bin/app", "/boot/vmlinux", "[kernel.kallsyms]_stext", "[kernel.kallsyms]_text", "[kernel.kallsyms]", "[kernel.kallsyms]_stext"};
  auto& name = s.kernel ? kern : s.file == "app" ? plain : module;
  if (!id.empty()) { auto* b = g.proto.add_build_ids(); b->set_filename(s.kernel ? Choose(2, "vmlinux") ? "/boot/vmlinux" : "[kernel.kallsyms]" : name[0]); b->set_build_id_hash(IdBytes(id)); }
  uint64_t lo = s.segs[0].first, hi = s.ToOffset(s.funcs.back().addr + s.funcs.back().size) + 64;
  g.pick = [&](const perfgen::Map& m) {
    uint64_t o = s.ToOffset(AnInsn(s));
    return o >= m.pgoff && o - m.pgoff < m.len ? m.start + o - m.pgoff : m.start + Choose(m.len, "elsewhere");
  };
  perfgen::Expect e;
  std::string data = perfgen::GenFile(id, ".*/" + s.file + "$", &e, g, [&](perfgen::Gen* g, uint32_t pid, int k) {
    uint64_t pg = lo & ~0xfffull;
    g->Mmap(pid, name[k], 0x10000000ull * (1 + Choose(4, "slot")), ((hi - pg) & ~0xfffull) + 0x1000, pg);
  });
  *v = e.s; *times = e.first_time;
  return data;
}
// Arm SPE data of processes that map the binary. False if it has no record of it.
bool SpeInput(const Setup& s, std::string* data, Samples* v) {
  static const char* dir[] = {"/usr/bin/", "/opt/x/", "/usr/bin/lib", "/lib/"};
  uint64_t lo = s.segs[0].first, hi = s.ToOffset(s.funcs.back().addr + s.funcs.back().size) + 64;
  std::vector<uint64_t> hot;  // branches that are taken again and again
  perfgen::SpeExpect e;
  *data = perfgen::GenSpe(&e, s.file, [&](perfgen::Gen* g, int i, int k) {
    uint64_t pg = lo & ~0xfffull;
    g->Mmap(100, dir[k] + s.file, 0x10000000ull * (1 + i), ((hi - pg) & ~0xfffull) + 0x1000, pg);
  }, [&](const perfgen::Map& m) {
    uint64_t o = !hot.empty() && Choose(3, "again") ? hot[Choose(hot.size(), "which")] : s.ToOffset(AnInsn(s));
    if (hot.size() < 12) hot.push_back(o);
    return m.start + o - m.pgoff;
  });
  *v = e.s;
  return e.ok;
}
Samples AsStatic(const Setup& s, const Samples& v) {
  auto at = [&](uint64_t o) { return s.ToStatic(o); };
  Samples r;
  for (auto& x : v.ranges) r.ranges[{at(x.first.first), at(x.first.second)}] += x.second;
  for (auto& x : v.addrs) r.addrs[at(x.first)] += x.second;
  for (auto& x : v.branches) r.branches[{at(x.first.first), at(x.first.second)}] += x.second;
  return r;
}
struct Input {
  Setup s; std::vector<std::string> args; std::string input; Model m;
  int policy = 0;
};
Input MakeInput(const char* tool, const char* out, bool perf, bool spe = false) {
  Input j;
  j.s = MakeBinary();
  Disk::Write("/sim/" + j.s.file, j.s.image);
  Options o;
  o.policy = Choose(3, "suffix-policy");
  static const double fr[] = {0, 0.01, 0.3};
  static const char* pol[] = {"selected", "all", "none"};
  j.args = {tool, "--binary=/sim/" + j.s.file, "--profile=/sim/in", out, Str("--suffix_elision_policy=%s", pol[o.policy])};
  j.policy = o.policy;
#ifdef HAVE_LLVM
  if (Choose(4, "fs") == 3) { fs_disc = true; j.args.push_back("--use_fs_discriminator"); }
  if (Choose(4, "base-only") == 3) { base_only = true; j.args.push_back("--use_base_only_in_fs_discriminator"); }
  if (Choose(6, "no-factor") == 5) { multiply = false; j.args.push_back("--use_discriminator_multiply_factor=false"); }
  fs_disc |= j.s.bin == "clang_fs";
  if (fs_disc) sim::Count(base_only ? "reach.fs_base" : "reach.fs");
#endif
  Model& m = j.m;
  int mode = perf ? 0 : spe ? Choose(4, "mode") : Choose(6, "mode");
  if (mode == 5) {
    std::vector<Hint> hints;
    for (int i = Choose(14, "hints"); i > 0; --i) {
      static const char* ty[] = {"NTA", "T0", "T1", "T2"};
      Hint h{AnInsn(j.s), static_cast<int64_t>(Choose(4096, "delta")) - 2048, ty[Choose(4, "type")]};
      if (!hints.empty() && Choose(3, "same-pc") == 2) h.pc = hints[Choose(hints.size(), "which")].pc;
      if (Choose(10, "outside") == 9) h.pc = Choose(4096, "wild");
      hints.push_back(h);
      j.input += Str("%lx,%ld,%s\n", h.pc, h.delta, h.type.c_str());
    }
    j.args.push_back("--profiler=prefetch");
    m = ExpectHints(j.s, hints, o.policy);
    sim::Count("reach.prefetch");
  } else {
    bool misses = mode == 4;
    o.use_lbr = mode != 3;
    o.frac = fr[Choose(3, "fraction")];
    Samples v, raw;
    if (spe) {
      if (!SpeInput(j.s, &j.input, &raw)) sim::Skip("no sample of the binary");
      v = AsStatic(j.s, raw);
      j.args.push_back("--profiler=perf_spe");
      sim::Count("reach.spe");
    } else if (!misses && (perf || Choose(3, "perf") == 2)) {
      if (j.s.file == "app" && !PerfBuildId(j.s.image).empty() && Choose(4, "kernel") == 3) {  // offsets in the kernel are from its first segment
        j.s.kernel = true;
        for (auto& g : j.s.segs) g.first -= j.s.segs[0].first == g.first ? 0 : j.s.segs[0].first;
        j.s.segs[0].first = 0;
        sim::Count("reach.kernel");
      }
      j.input = PerfInput(j.s, &raw, &o.times); v = AsStatic(j.s, raw);
      if (raw.addrs.empty() && raw.ranges.empty() && raw.branches.empty()) sim::Skip("no sample of the binary");
      j.args.push_back("--profiler=perf");
      sim::Count("reach.perf");
    } else {
      v = GenSamples(j.s, !misses && (mode != 3 || Choose(2, "with-ranges")), !misses);
      raw = AsOffsets(j.s, v);
      j.input = raw.Canon();
      j.args.push_back("--profiler=text");
    }
    j.args.push_back(Str("--sample_threshold_frac=%g", o.frac));
    if (!o.use_lbr) j.args.push_back("--use_lbr=false");
    if (misses) j.args.push_back("--llc_misses");
    m = misses ? ExpectMisses(j.s, v, raw, o) : ExpectCounts(j.s, v, raw, o);
    sim::Count(misses ? "reach.llc_misses" : o.use_lbr ? "reach.lbr" : "reach.no_lbr");
  }
  Disk::Write("/sim/in", j.input);
  return j;
}
void Announce(const Input& j, const std::string& want) {
  if (sim::Verbose()) { std::string a; for (auto& x : j.args) a += x + " "; sim::Show(a + "on " + j.s.bin + "\n" + j.input + "want:\n" + want); }
  sim::State(sim::HashStr(want));
  if (!j.m.syms.empty()) sim::Count("reach.functions", j.m.syms.size());
}
}  // namespace
#endif
