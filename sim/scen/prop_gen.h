// Random binaries with a basic-block address map, random executions of them as
// branch records, and an independent account of what the records say.
#ifndef PROP_GEN_H_
#define PROP_GEN_H_
#include <elf.h>
#include <string.h>

#include <algorithm>
#include <map>
#include <set>

#include "../core/sim.h"
#include "perf_gen.h"

namespace prop {
using sim::Choose;
using sim::Flip;
using sim::Str;
constexpr uint64_t kInvalid = ~0ull;
enum { kRetMd = 1, kTailMd = 2, kPadMd = 4, kFallMd = 8, kIndMd = 16 };
enum Term { kFall, kCond, kJmp, kRetT, kInd, kTail, kStop };
struct CallSite { uint64_t off, len; int callee; };  // callee -1: elsewhere
struct Blk {
  int id; uint64_t off, size; int md; Term term; std::vector<int> to; int tail = 0; std::vector<CallSite> calls;
  uint64_t last = 0;  // size of the last instruction
};
struct Func {
  std::vector<std::string> names, extra;  // symbols with the right size; symbols to be ignored
  uint64_t addr, size; int sec; std::vector<Blk> b; bool mapped = true;
};
struct Sect { std::string name; uint64_t addr, off, size; };
struct Seg { uint64_t off, vaddr, size; };
struct Cu { std::string name; uint64_t lo, hi; bool split; };  // a compile unit; split: named in the .dwp file
struct Bin {
  bool pie, arm, kernel, ko = false; std::string build_id, bytes, dwp;  // ko: a kernel module
  std::string path = "/sim/app", map_name = "[kernel.kallsyms]";
  std::vector<Cu> cus; bool debug_info = false;
  std::vector<Sect> secs; std::vector<Seg> segs; std::vector<Func> fn;  // by address
  std::vector<int> entries;  // functions in the address map, in order
  std::map<uint64_t, int> insn;  // what is at an address: kFlow, kPlain, kBad or kInside another one (plain if not listed)
};
enum { kPlain, kFlow, kBad, kInside };

template <typename T> void Put(std::string& s, const T& v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); }
inline void Uleb(std::string& s, uint64_t v) { do { uint8_t c = v & 127; v >>= 7; s.push_back(v ? c | 128 : c); } while (v); }

inline Func MakeFunc(const Bin& x, int nfn, bool zero_blocks, bool rich) {
  Func f;
  int n = rich ? 4 + Choose(16, "blocks") : 1 + Choose(Flip(1, 8, "big-fn") ? 14 : 6, "blocks");
  uint64_t unit = x.arm ? 4 : 1, off = 0;
  std::vector<int> ids(n);
  for (int i = 0; i < n; ++i) ids[i] = i;
  if (n > 2 && Flip(1, 5, "ids")) {
    for (int i = 1; i < n; ++i) ids[i] = i + (int)Choose(3, "id-gap") * n;
    int from = Flip(1, 3, "entry-id") ? 0 : 1;  // another block may have become the entry
    std::vector<int> t(ids.begin() + from, ids.end()); sim::Shuffle(t, "id-order"); std::copy(t.begin(), t.end(), ids.begin() + from);
  }
  for (int i = 0; i < n; ++i) {
    Blk b; b.id = ids[i]; b.md = 0;
    bool last = i == n - 1;
    static const Term terms[] = {kCond, kFall, kRetT, kJmp, kInd, kTail, kStop, kCond, kFall, kCond};
    b.term = last ? (Term[]){kRetT, kJmp, kTail, kStop, kInd, kRetT}[Choose(rich ? 3 : 6, "last-term")] : rich ? (Term[]){kCond, kJmp, kInd, kCond, kFall, kCond, kJmp, kTail}[Choose(8, "term")] : terms[Choose(10, "term")];
    b.size = unit * (1 + Choose(Flip(1, 8, "long") ? 300 : 16, "size"));
    if (!last && zero_blocks && Flip(1, 6, "empty")) { b.size = 0; b.term = kFall; }
    b.off = off;
    if (b.term == kFall || b.term == kCond) b.md |= kFallMd;
    if (b.term == kRetT) b.md |= kRetMd;
    if (b.term == kTail) b.md |= kTailMd;
    if (b.term == kInd) b.md |= kIndMd;
    if (i && Flip(1, 6, "pad")) b.md |= kPadMd;
    if (b.term == kCond || b.term == kJmp) b.to = {int(Choose(n, "target"))};
    if (b.term == kInd) for (int k = 1 + Choose(3, "targets"); k > 0; --k) b.to.push_back(Choose(n, "target"));
    if (b.term == kTail) b.tail = Choose(nfn, "tail");
    b.last = x.arm ? 4 : std::min<uint64_t>(b.size, 1 + Choose(6, "insn"));
    // Calls before the last instruction, or as the last instruction of a block that falls through.
    uint64_t room = b.size - ((b.term == kFall && b.size) ? 0 : b.last), at = 0;
    while (b.size && Flip(1, 3, "call")) {
      CallSite c; c.len = x.arm ? 4 : 1 + Choose(5, "call-len");
      c.off = at + unit * Choose(4, "call-at");
      if (b.term == kFall && Flip(1, 3, "call-last") && room >= at + c.len) c.off = room - c.len;
      if (c.off + c.len > room) break;
      c.callee = Flip(1, 5, "external") ? -1 : int(Choose(nfn, "callee"));
      at = c.off + c.len; b.calls.push_back(c);
    }
    off += b.size;
    f.b.push_back(b);
    if (!last && b.size && Flip(1, 8, "block-gap")) off += unit * (1 + Choose(3, "gap"));
  }
  f.size = f.b.back().off + f.b.back().size;
  return f;
}

struct GenOpts { bool zero_blocks = true, dup_names = true, other_sections = true; int max_fn = 8; bool high = true, arm = false, may_lack_id = false, rich = false, modules = false; };

// Compile units, for groups of neighbouring functions. `add` adds a section.
template <typename F> void AddUnits(Bin& x, const F& add) {
  if (!x.debug_info) return;
  for (size_t i = 0; i < x.fn.size();) {
    size_t n = std::min(x.fn.size() - i, size_t(1 + Choose(3, "unit-functions")));
    Cu c{Str("src/dir%d/unit%d.cc", int(Choose(3, "dir")), int(i)), x.fn[i].addr, x.fn[i + n - 1].addr + x.fn[i + n - 1].size, false};
    if (!Flip(1, 6, "no-unit")) x.cus.push_back(c);
    i += n;
  }
  if (x.cus.empty()) x.cus.push_back({"src/none.cc", 0x10, 0x10, false});
  const bool split = Choose(3, "split") == 2; const int ver = split || Choose(2, "dwarf") ? 5 : 4;
  std::string info, abbrev, str(1, '\0'), dwo, dwo_abbrev; std::vector<std::pair<uint64_t, std::pair<uint64_t, uint64_t>>> dwos;  // id, contribution
  auto attrs = [](std::string& a, int code, int tag, std::vector<int> v) { Uleb(a, code); Uleb(a, tag); a.push_back(0); for (int q : v) Uleb(a, q); a.append(2, '\0'); };
  attrs(abbrev, 1, 0x11, {0x03, 0x08, 0x11, 0x01, 0x12, 0x07});  // name, low pc, size
  attrs(abbrev, 2, 0x11, {0x11, 0x01, 0x12, 0x01, 0x03, 0x0e});  // low pc, end, name elsewhere
  attrs(abbrev, 3, 0x4a, {0x76, 0x08, 0x11, 0x01, 0x12, 0x07});  // skeleton
  attrs(abbrev, 4, 0x11, {0x03, 0x08});                          // no code
  abbrev.push_back(0);
  attrs(dwo_abbrev, 1, 0x11, {0x03, 0x08}); dwo_abbrev.push_back(0);
  auto unit = [&](std::string& s, int type, uint64_t id, const std::string& die) {
    std::string h; Put(h, uint16_t(ver));
    if (ver == 5) { h.push_back(type); h.push_back(8); Put(h, uint32_t(0)); if (type > 3) Put(h, id); } else { Put(h, uint32_t(0)); h.push_back(8); }
    Put(s, uint32_t(h.size() + die.size())); s += h + die;
  };
  for (auto& c : x.cus) {
    c.split = split && Choose(4, "skeleton"); uint64_t id = 0x1234500000000 + 7919 * dwos.size();
    std::string d; bool indirect = Choose(2, "strp");
    if (c.split) { Uleb(d, 3); d += Str("unit%zu.dwo", dwos.size()); d.push_back('\0'); Put(d, c.lo); Put(d, c.hi - c.lo); }
    else if (indirect) { Uleb(d, 2); Put(d, c.lo); Put(d, c.hi); Put(d, uint32_t(str.size())); str += c.name; str.push_back('\0'); }
    else { Uleb(d, 1); d += c.name; d.push_back('\0'); Put(d, c.lo); Put(d, c.hi - c.lo); }
    unit(info, c.split ? 4 : 1, id, d);
    if (Flip(1, 6, "data-unit")) { d.clear(); Uleb(d, 4); d += "src/data.cc"; d.push_back('\0'); unit(info, 1, 0, d); }
    if (!c.split) continue;
    d.clear(); Uleb(d, 1); d += c.name; d.push_back('\0');
    uint64_t at = dwo.size(); unit(dwo, 5, id, d); dwos.push_back({id, {at, dwo.size() - at}});
  }
  add(".debug_abbrev", abbrev); add(".debug_info", info); add(".debug_str", str);
  if (dwos.empty()) return;
  std::string idx; uint32_t slots = 2; while (slots < dwos.size() * 2) slots *= 2;
  Put(idx, uint16_t(5)); Put(idx, uint16_t(0)); Put(idx, uint32_t(2)); Put(idx, uint32_t(dwos.size())); Put(idx, slots);
  std::vector<uint64_t> sig(slots); std::vector<uint32_t> row(slots);
  for (size_t i = 0; i < dwos.size(); ++i) {
    uint64_t v = dwos[i].first, k = v & (slots - 1), step = ((v >> 32) & (slots - 1)) | 1;
    while (row[k]) k = (k + step) & (slots - 1);
    sig[k] = v; row[k] = i + 1;
  }
  for (auto v : sig) Put(idx, v);
  for (auto v : row) Put(idx, v);
  Put(idx, uint32_t(1)); Put(idx, uint32_t(3));  // info, abbrev
  for (auto& d : dwos) { Put(idx, uint32_t(d.second.first)); Put(idx, uint32_t(0)); }
  for (auto& d : dwos) { Put(idx, uint32_t(d.second.second)); Put(idx, uint32_t(dwo_abbrev.size())); }
  // The .dwp file.
  std::string& s = x.dwp; Elf64_Ehdr eh; memset(&eh, 0, sizeof eh); memcpy(eh.e_ident, ELFMAG, SELFMAG);
  eh.e_ident[EI_CLASS] = ELFCLASS64; eh.e_ident[EI_DATA] = ELFDATA2LSB; eh.e_ident[EI_VERSION] = 1; eh.e_machine = x.arm ? EM_AARCH64 : EM_X86_64; eh.e_version = 1; eh.e_ehsize = sizeof eh; eh.e_shentsize = sizeof(Elf64_Shdr);
  s.assign(sizeof eh, '\0');
  std::string tab(1, '\0'); std::vector<Elf64_Shdr> sh(1); memset(&sh[0], 0, sizeof sh[0]);
  auto sec = [&](const char* name, const std::string* d, int type) {
    Elf64_Shdr h; memset(&h, 0, sizeof h); h.sh_name = tab.size(); tab += name; tab.push_back('\0'); if (!d) d = &tab;
    h.sh_type = type; h.sh_offset = s.size(); h.sh_size = d->size(); h.sh_addralign = 1; s += *d; sh.push_back(h);
  };
  sec(".debug_info.dwo", &dwo, SHT_PROGBITS); sec(".debug_abbrev.dwo", &dwo_abbrev, SHT_PROGBITS); sec(".debug_cu_index", &idx, SHT_PROGBITS); sec(".shstrtab", nullptr, SHT_STRTAB);
  while (s.size() % 8) s.push_back('\0');
  eh.e_shoff = s.size(); eh.e_shnum = sh.size(); eh.e_shstrndx = sh.size() - 1;
  for (auto& h : sh) Put(s, h);
  memcpy(&s[0], &eh, sizeof eh);
}

inline Bin MakeBin(const GenOpts& o) {
  Bin x;
  x.pie = Choose(2, "pie"); x.arm = o.arm || Choose(4, "arm") == 3; x.kernel = !x.pie && Flip(1, 8, "kernel");
  if (x.kernel && o.modules && Choose(2, "ko")) { x.ko = true; x.path = "/sim/app.ko"; x.map_name = "[app]"; }
  int nfn = 1 + Choose(o.max_fn, "functions");
  bool zero = o.zero_blocks && Flip(1, 3, "zero-blocks");
  for (int i = 0; i < nfn; ++i) x.fn.push_back(MakeFunc(x, nfn, zero, o.rich));
  // Sections: functions in order, a new section now and then; a new segment now and then.
  static const char* names[] = {".text", ".text.hot.", ".text.unlikely.", ".init", "malloc_hook", ".textual"};
  uint64_t addr = x.ko ? 0 : x.kernel ? 0xffffffff81000000 : x.pie ? 0x1000 * (1 + Choose(4, "base")) : 0x401000;
  if (o.high && !x.kernel && Flip(1, 10, "high")) addr += x.pie ? 0x7ffff000ull : 0x140000000ull;
  uint64_t off = 0x1000 * (1 + (x.pie ? Choose(3, "first-offset") : 0));
  auto new_seg = [&](uint64_t skip) {
    uint64_t delta = 0x1000 * (1 + Choose(3, "segment-gap"));
    addr = (addr + 0xfff) & ~0xfffull; off = (off + 0xfff) & ~0xfffull;
    addr += skip ? delta : 0; if (skip && Choose(2, "offset-gap")) off += 0x1000;
    uint64_t d = x.kernel ? 0 : 0x40 * Choose(3, "segment-start");
    if (!x.kernel && Flip(1, 4, "across-pages")) d += 0xf00;
    addr += d; off += d;
    x.segs.push_back({off, addr, 0});
  };
  new_seg(0);
  for (int i = 0; i < nfn; ++i) {
    bool fresh = i == 0 || (o.other_sections && !x.ko && Flip(1, 4, "new-section"));
    if (i && fresh && !x.ko && Flip(1, x.kernel ? 2 : 3, "new-segment")) new_seg(1);
    if (!fresh || i) { uint64_t pad = (16 - addr % 16) % 16; if (Flip(1, 6, "tight")) pad = x.arm ? pad % 4 : 0;
      if (!fresh && zero && i && Flip(1, 3, "empty-end")) {  // an empty block at the end of the function before
        Func& g = x.fn[i - 1]; Blk b; b.id = 0; for (auto& o : g.b) b.id = std::max(b.id, o.id + 1);
        b.off = g.size; b.size = 0; b.md = 0; b.term = kStop; g.b.push_back(b); pad = 0;
      }
      addr += pad; off += pad; }
    if (fresh) x.secs.push_back({names[o.other_sections && !x.ko ? Choose(Flip(1, 3, "odd-section") ? 6 : 3, "section") : 0], addr, off, 0});
    Func& f = x.fn[i];
    int copy = o.dup_names && i && Flip(1, 10, "copy") ? Choose(i, "copy-of") : -1;
    if (copy >= 0) f.b = x.fn[copy].b, f.size = x.fn[copy].size;
    if (copy >= 0 && f.b.size() > 1 && Flip(1, 3, "near-copy")) {  // blocks of the same sizes elsewhere
      size_t k = 1 + Choose(f.b.size() - 1, "moved-from");
      for (; k < f.b.size(); ++k) f.b[k].off += x.arm ? 4 : 1;
      f.size += x.arm ? 4 : 1;
    }
    f.sec = x.secs.size() - 1; f.addr = addr; addr += f.size; off += f.size;
    x.secs.back().size = addr - x.secs.back().addr;
    x.segs.back().size = addr - x.segs.back().vaddr;
    f.names = {Str("f%d", i)};
    if (copy >= 0 && !x.fn[copy].names.empty() && Flip(2, 3, "copy-name")) {
      if (x.fn[copy].names[0].find("uniq") == std::string::npos) x.fn[copy].names[0] += ".__uniq.3";
      f.names = {x.fn[copy].names[0]};
    } else if (o.dup_names && i && Flip(1, 8, "same-name")) {
      const Func& like = x.fn[Choose(i, "like")];
      if (!like.names.empty()) f.names = {like.names[0]};
      if (Flip(1, 2, "uniq") && f.names[0].find("uniq") == std::string::npos) for (auto& g : x.fn) if (!g.names.empty() && g.names[0] == f.names[0]) g.names[0] += ".__uniq.7";
    }
    if (o.dup_names && Flip(1, 20, "nameless")) f.names.clear();
    for (int k = Flip(1, 4, "aliases") ? 1 + Choose(2, "more") : 0; k > 0 && !f.names.empty(); --k) f.names.push_back(Str("f%d_alias%d", i, k));
    if (o.dup_names && i && !f.names.empty() && Flip(1, 12, "alias-of-other")) {  // another function's name as a second one
      const Func& like = x.fn[Choose(i, "alias-like")];
      if (!like.names.empty() && std::find(f.names.begin(), f.names.end(), like.names.back()) == f.names.end()) f.names.push_back(like.names[Choose(like.names.size(), "alias-which")]);
      for (size_t k = 0; k + 1 < f.names.size(); ++k) if (f.names[k] == f.names.back()) { f.names.pop_back(); break; }
    }
    if (o.dup_names && Flip(1, 8, "odd-symbol")) f.extra.push_back(Str("g%d", i));
    f.mapped = !(nfn > 1 && Flip(1, 12, "unmapped"));
    if (f.mapped) x.entries.push_back(i);
  }
  if (x.entries.empty()) { x.fn[0].mapped = true; x.entries = {0}; }
  // Structural copies, so that uniq-named functions of the same shape exist.
  if (!o.may_lack_id || Choose(3, "has-id")) x.build_id = std::string(Flip(1, 4, "short-id") ? 1 + Choose(19, "id-bytes") : 20, char(0x31));
  x.debug_info = o.modules && Choose(3, "debug-info");
  // The file.
  std::string& s = x.bytes;
  Elf64_Ehdr eh; memset(&eh, 0, sizeof eh); memcpy(eh.e_ident, ELFMAG, SELFMAG);
  eh.e_ident[EI_CLASS] = ELFCLASS64; eh.e_ident[EI_DATA] = ELFDATA2LSB; eh.e_ident[EI_VERSION] = 1;
  eh.e_type = x.ko ? ET_REL : x.pie ? ET_DYN : ET_EXEC; eh.e_machine = x.arm ? EM_AARCH64 : EM_X86_64; eh.e_version = 1; eh.e_ehsize = sizeof eh;
  eh.e_phentsize = sizeof(Elf64_Phdr); eh.e_shentsize = sizeof(Elf64_Shdr);
  s.assign(sizeof eh, '\0');
  if (x.ko) eh.e_phentsize = 0; else eh.e_phoff = s.size();
  auto phdr = [&](uint32_t flags, const Seg& g) {
    Elf64_Phdr p; memset(&p, 0, sizeof p); p.p_type = PT_LOAD; p.p_flags = flags; p.p_offset = g.off; p.p_vaddr = p.p_paddr = g.vaddr;
    p.p_filesz = p.p_memsz = g.size; p.p_align = 0x1000; Put(s, p); eh.e_phnum++;
  };
  if (!x.ko) phdr(PF_R, {0, x.kernel ? 0xffffffff80000000 : x.pie ? 0ull : 0x400000ull, 0x200});
  if (!x.ko) for (auto& g : x.segs) phdr(PF_R | PF_X, g);
  if (!x.ko && Choose(2, "data-segment")) phdr(PF_R | PF_W, {off & ~0xfffull, (addr + 0x3000) & ~0xfffull, 0x100});
  for (auto& q : x.secs) {
    s.resize(q.off, '\0');
    s.append(q.size, '\x90');
  }
  struct Sh { std::string name; uint32_t type, link, info; uint64_t flags, addr, off, size, ent; };
  std::vector<Sh> sh = {{"", SHT_NULL, 0, 0, 0, 0, 0, 0, 0}};
  // Modules: code of other sections has the same addresses, but is not ours.
  const bool init = x.ko && Choose(2, "init-text"), init_first = init && Choose(2, "init-first");
  uint64_t init_off = s.size();
  const uint64_t init_size = 64 + Choose(64, "init-size");
  if (init) s.append(init_size, '\x90');
  auto add_init = [&] { sh.push_back({".init.text", SHT_PROGBITS, 0, 0, SHF_ALLOC | SHF_EXECINSTR, 0, init_off, init_size, 0}); };
  if (init_first) add_init();
  const int base = sh.size();
  for (auto& q : x.secs) sh.push_back({q.name, SHT_PROGBITS, 0, 0, SHF_ALLOC | SHF_EXECINSTR, q.addr, q.off, q.size, 0});
  auto add = [&](const char* name, uint32_t type, uint64_t flags, uint32_t link, uint32_t info, uint64_t ent, const std::string& d) {
    while (s.size() % 8) s.push_back('\0');
    sh.push_back({name, type, link, info, flags, 0, s.size(), d.size(), ent}); s += d;
  };
  if (init && !init_first) add_init();
  if (x.ko) {
    add(".modinfo", SHT_PROGBITS, SHF_ALLOC, 0, 0, 0, std::string("license=GPL\0\0name=app\0description=a module\0", 43));
    add(".gnu.linkonce.this_module", SHT_PROGBITS, SHF_ALLOC | SHF_WRITE, 0, 0, 0, std::string(64, '\0'));
  }
  std::string map, rela;
  int ver = Choose(3, "map-version") ? 2 : 1;
  bool seq = true;  // version 1 has no ids: blocks are numbered in order
  for (int e : x.entries) for (size_t i = 0; i < x.fn[e].b.size(); ++i) if (x.fn[e].b[i].id != int(i)) seq = false;
  if (!seq) ver = 2;
  auto rela_at = [&](uint64_t a) { Elf64_Rela r; r.r_offset = map.size(); r.r_info = 1; r.r_addend = a; Put(rela, r); };
  if (init) {  // its blocks are listed apart
    map.push_back(2); map.push_back(0); rela_at(0); Put(map, uint64_t(0)); Uleb(map, 1); Uleb(map, 0); Uleb(map, 0); Uleb(map, init_size); Uleb(map, kRetMd);
    add(".llvm_bb_addr_map", 0x6fff4c0a, SHF_LINK_ORDER, init_first ? 1 : base + x.secs.size(), 0, 0, map);
    add(".rela.llvm_bb_addr_map", SHT_RELA, 0, 0, sh.size() - 1, sizeof(Elf64_Rela), rela);
    map.clear(); rela.clear();
  }
  for (int e : x.entries) {
    Func& f = x.fn[e]; uint64_t end = 0;
    map.push_back(ver); map.push_back(0); rela_at(f.addr); Put(map, x.ko ? 0 : f.addr); Uleb(map, f.b.size());
    for (auto& b : f.b) { if (ver >= 2) Uleb(map, b.id); Uleb(map, b.off - end); Uleb(map, b.size); Uleb(map, b.md); end = b.off + b.size; }
  }
  add(".llvm_bb_addr_map", 0x6fff4c0a, SHF_LINK_ORDER, base, 0, 0, map);
  if (x.ko) add(".rela.llvm_bb_addr_map", SHT_RELA, 0, 0, sh.size() - 1, sizeof(Elf64_Rela), rela);
  // nop everywhere, and the branches and calls.
  auto code = [&](uint64_t a, const std::string& w, int kind) {
    for (auto& q : x.secs) if (a >= q.addr && a + w.size() <= q.addr + q.size) memcpy(&s[q.off + (a - q.addr)], w.data(), w.size());
    for (size_t i = 1; i < w.size(); ++i) x.insn.insert({a + i, kInside});
    x.insn[a] = kind;
  };
  auto word = [&](uint64_t a, uint32_t w, int kind = kFlow) { std::string b; Put(b, w); code(a, b, kind); };
  if (x.arm) for (auto& q : x.secs) for (uint64_t a = (q.addr + 3) & ~3ull; a + 4 <= q.addr + q.size; a += 4) word(a, 0xd503201f, kPlain);
  auto branch = [&](uint64_t a, uint64_t len, bool call, Term t) {
    const int odd = Flip(1, 24, "odd-code") ? 1 + Choose(2, "odd-kind") : 0;  // code that is not what was run
    if (odd == 1) { if (x.arm) word(a, 0xffffffff, kBad); else code(a, "\x06", kBad); return; }
    if (odd == 2) { if (x.arm) word(a, 0xd503201f, kPlain); else code(a, "\x90", kPlain); return; }
    static const uint32_t ends[] = {0, 0x54000040, 0x14000001, 0xd65f03c0, 0xd61f0000, 0x14000001, 0x14000000};
    static const char* calls[] = {"\xc3", "\xff\xd0", "\x41\xff\xd0", "\xff\x54\x24\x90", "\xe8\x90\x90\x90\x90"};
    static const char* jumps[] = {"\xc3", "\xeb\x90", "\xc2\x90\x90", "\xff\x64\x24\x90", "\xe9\x90\x90\x90\x90", "\x0f\x84\x90\x90\x90\x90"};
    if (x.arm) word(a, call ? 0x94000001 : ends[t]); else code(a, call ? calls[len - 1] : jumps[len - 1], kFlow);
  };
  for (auto& f : x.fn) for (auto& b : f.b) {
    for (auto& c : b.calls) branch(f.addr + b.off + c.off, c.len, true, kFall);
    if (b.size && b.term != kFall) branch(f.addr + b.off + b.size - b.last, b.last, false, b.term);
  }
  auto note = [](const std::string& owner, uint32_t type, const std::string& desc) {
    std::string n; Put(n, uint32_t(owner.size() + 1)); Put(n, uint32_t(desc.size())); Put(n, type);
    for (const std::string& q : {owner + '\0', desc}) { n += q; n.resize((n.size() + 3) & ~size_t(3)); }
    return n;
  };
  const bool notes = Flip(1, 5, "notes");  // of others before and after, as the kernel has
  auto others = [&] { std::string n; if (notes) for (int k = Choose(3, "other-notes"); k > 0; --k) { const int owner = Choose(3, "note-owner"); n += owner == 2 ? note("GNU", 1, std::string(16, 0)) : note(owner ? "Xen" : "Linux", Choose(4, "note-type"), std::string(Choose(9, "note-size"), 'n')); }; return n; };
  if (!x.build_id.empty()) {
    std::string n = others(); n += note("GNU", 3, x.build_id); n += others();
    if (notes && Choose(3, "second-id") == 2) n += note("GNU", 3, std::string(20, 'y'));  // the first one counts
    if (notes && Choose(2, "abi-note")) add(".note.ABI-tag", SHT_NOTE, SHF_ALLOC, 0, 0, 0, note("GNU", 1, std::string(16, 0)));
    add(x.kernel || (notes && Choose(3, "kernel-notes") == 2) ? ".notes" : ".note.gnu.build-id", SHT_NOTE, SHF_ALLOC, 0, 0, 0, n);
    if (notes && Choose(3, "second-notes") == 2) add(".notes", SHT_NOTE, SHF_ALLOC, 0, 0, 0, note("GNU", 3, std::string(20, 'w')));
  }
  std::string sym(sizeof(Elf64_Sym), '\0'), str(1, '\0');
  auto add_sym = [&](const std::string& n, const Func& f, uint64_t size, int type) {
    Elf64_Sym y; memset(&y, 0, sizeof y); y.st_name = str.size(); str += n; str.push_back('\0');
    y.st_value = f.addr; y.st_size = size; y.st_info = (Choose(2, "bind") << 4) | type; y.st_shndx = base + f.sec; Put(sym, y);
  };
  std::vector<int> order; for (size_t i = 0; i < x.fn.size(); ++i) order.push_back(i);
  sim::Shuffle(order, "symbol-order");
  auto add_stray = [&] {
    Func f; f.sec = (init_first ? 1 : base + x.secs.size()) - base; f.addr = 0;
    add_sym("init_module", f, Choose(2, "init-like") ? x.fn[0].size : init_size, STT_FUNC);
    f.addr = x.fn[Choose(x.fn.size(), "init-at")].addr;
    add_sym("init_helper", f, 8, STT_FUNC);
  };
  const bool stray_first = Choose(2, "init-symbols");
  if (init && stray_first) add_stray();
  for (int i : order) {
    Func& f = x.fn[i];
    for (size_t k = 0; k < f.names.size(); ++k) {
      add_sym(f.names[k], f, f.size, STT_FUNC);
      if (k == 0) for (auto& e : f.extra) switch (Choose(4, "odd-kind")) {
        case 0: add_sym(e, f, 0, STT_FUNC); break;            // no size
        case 1: add_sym(e, f, f.size, STT_NOTYPE); break;     // not a function
        case 2: add_sym(e, f, f.size, STT_OBJECT); break;
        default: add_sym(e, f, f.size + 3, STT_FUNC); break;  // another size
      }
    }
  }
  if (init && !stray_first) add_stray();
  AddUnits(x, [&](const char* name, const std::string& d) { add(name, SHT_PROGBITS, 0, 0, 0, 0, d); });
  add(".symtab", SHT_SYMTAB, 0, sh.size() + 1, 1, sizeof(Elf64_Sym), sym);
  add(".strtab", SHT_STRTAB, 0, 0, 0, 0, str);
  std::string tab(1, '\0'); std::vector<uint32_t> at;
  sh.push_back({".shstrtab", SHT_STRTAB, 0, 0, 0, 0, 0, 0, 0});
  for (auto& h : sh) { at.push_back(tab.size()); tab += h.name; tab.push_back('\0'); }
  sh.back().off = s.size(); sh.back().size = tab.size(); s += tab;
  while (s.size() % 8) s.push_back('\0');
  eh.e_shoff = s.size(); eh.e_shnum = sh.size(); eh.e_shstrndx = sh.size() - 1;
  for (size_t i = 0; i < sh.size(); ++i) {
    Elf64_Shdr h; memset(&h, 0, sizeof h); h.sh_name = at[i]; h.sh_type = sh[i].type; h.sh_flags = sh[i].flags; h.sh_addr = sh[i].addr; h.sh_offset = sh[i].off;
    h.sh_size = sh[i].size; h.sh_link = sh[i].link; h.sh_info = sh[i].info; h.sh_addralign = i && sh[i].type != SHT_PROGBITS ? (sh[i].type == SHT_NOTE ? 4 : 8) : 1; h.sh_entsize = sh[i].ent;
    Put(s, h);
  }
  memcpy(&s[0], &eh, sizeof eh);
  return x;
}

using Branch = std::pair<uint64_t, uint64_t>;  // binary addresses; >= kOutside: not in the binary
constexpr uint64_t kOutside = 0x7000000000000000ull;

// One execution: the taken branches in order. A second address of kInvalid: a conditional branch not taken.
inline std::vector<Branch> Walk(const Bin& x, int steps, int start_fn, bool not_taken = false) {
  std::vector<Branch> r;
  struct Frame { int f, b; uint64_t pos; };  // resume point: offset in the block
  std::vector<Frame> st;
  Frame c{start_fn, 0, 0};
  auto at = [&](int f, int b) { return x.fn[f].addr + x.fn[f].b[b].off; };
  for (int i = 0; i < steps && int(r.size()) < steps;  ++i) {
    const Func& f = x.fn[c.f]; const Blk& b = f.b[c.b];
    const CallSite* call = nullptr;
    for (auto& k : b.calls) if (k.off >= c.pos) { call = &k; break; }
    if (call) {
      uint64_t from = at(c.f, c.b) + call->off;
      Frame back{c.f, c.b, call->off + call->len};
      if (call->callee < 0) {
        uint64_t ext = kOutside + Choose(64, "external");
        r.push_back({from, ext});
        std::vector<int> pads; for (size_t k = 0; k < f.b.size(); ++k) if (f.b[k].md & kPadMd) pads.push_back(k);
        if (!pads.empty() && Flip(1, 4, "throw")) { c = {c.f, pads[Choose(pads.size(), "landing")], 0}; r.push_back({ext + 1, at(c.f, c.b)}); continue; }
        r.push_back({ext + 1, from + call->len});
      } else if (st.size() < 6) {
        st.push_back(back); c = {call->callee, 0, 0}; r.push_back({from, at(c.f, 0)}); continue;
      }
      c = back;
      if (c.pos >= b.size && b.calls.back().off + b.calls.back().len == b.size) { /* falls through below */ }
      else continue;
    }
    uint64_t from = at(c.f, c.b) + b.size - b.last;
    auto go = [&](int to) { r.push_back({from, at(c.f, to)}); c = {c.f, to, 0}; };
    switch (b.term) {
      case kFall: c = {c.f, c.b + 1, 0}; break;
      case kCond: if (Choose(2, "taken")) go(b.to[0]); else { if (not_taken) r.push_back({from, kInvalid}); c = {c.f, c.b + 1, 0}; } break;
      case kJmp: go(b.to[0]); break;
      case kInd: go(b.to[Choose(b.to.size(), "indirect")]); break;
      case kTail: r.push_back({from, at(b.tail, 0)}); c = {b.tail, 0, 0}; break;
      case kRetT:
        if (st.empty()) { r.push_back({from, kOutside + 200}); return r; }
        c = st.back(); st.pop_back();
        r.push_back({from, at(c.f, c.b) + c.pos});
        if (c.pos >= x.fn[c.f].b[c.b].size) c = {c.f, c.b + 1, 0};  // the call was the last instruction
        break;
      case kStop: return r;
    }
  }
  return r;
}
}  // namespace prop
#endif
