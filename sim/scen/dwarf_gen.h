// Random debug information, and what it says about each address.
//
// A program is drawn first: compile units, functions with one or several
// address ranges, the calls inlined into them, declarations and abstract
// instances, line tables. What an address stands for is read off that model;
// the encoder then writes the same program as DWARF 2 to 5, choosing freely
// among the forms a compiler may use.
#ifndef SIM_DWARF_GEN_H_
#define SIM_DWARF_GEN_H_
#include <algorithm>
#include <map>
#include <string>
#include <vector>

#include "elf_gen.h"
#include "golden.h"

namespace dwarfgen {
using sim::Choose;
using sim::Flip;
using sim::Str;

struct Buf {
  std::string s;
  void U(uint64_t v, int n) { for (int i = 0; i < n; ++i) s.push_back(char(v >> (8 * i))); }
  void U8(uint64_t v) { U(v, 1); }
  void Uleb(uint64_t v, int pad = 0) { do { uint8_t b = v & 127; v >>= 7; s.push_back(char(b | (v || pad ? 128 : 0))); } while (v); while (pad-- > 0) s.push_back(char(pad ? 128 : 0)); }
  void Sleb(int64_t v) { for (;;) { uint8_t b = v & 127; v >>= 7; bool done = (v == 0 && !(b & 64)) || (v == -1 && (b & 64)); s.push_back(char(b | (done ? 0 : 128))); if (done) return; } }
  void Z(const std::string& x) { s += x; s.push_back('\0'); }
  void Patch(size_t at, uint64_t v, int n) { for (int i = 0; i < n; ++i) s[at + i] = char(v >> (8 * i)); }
};

struct Range { uint64_t lo, hi; };
struct Row { uint64_t addr; int file; uint64_t line; unsigned disc; };
struct Seq { uint64_t lo, hi; std::vector<Row> rows; };
struct Def { int die; int cu; std::string name; unsigned start; };  // what a chain of DIEs says about a function
struct Inl { int def; std::vector<Range> r; int file = -1; unsigned line, disc; std::vector<Inl> kids; };
struct Fun { int def = -1; int cu; std::string name; unsigned start = 0; std::vector<Range> r; std::vector<Inl> kids; std::vector<int> nested; bool is_nested = false, dead = false; };
struct Cu {
  int version; bool has_comp = true; std::string comp; std::vector<std::string> dirs; std::vector<std::pair<int, std::string>> files;
  std::vector<Seq> seqs; std::vector<int> funs, defs; uint64_t base = 0; bool has_low = false, has_ranges = false; std::vector<Range> covered;
  bool partial = false;  // holds abstract instances only
  int abbrev = 0;
  // pools
  std::vector<std::string> strs; std::vector<uint64_t> addrs; std::vector<std::string> lists; std::vector<int> listx;
  bool use_strx, use_addrx, use_listx;
};
struct Piece { int fun, cu; uint64_t len, lo = 0; };
struct Query { uint64_t addr; std::vector<golden::Frame> want; };

enum {  // DWARF constants used below
  T_class = 0x02, T_lexical_block = 0x0b, T_formal_parameter = 0x05, T_compile_unit = 0x11, T_inlined = 0x1d, T_base_type = 0x24, T_subprogram = 0x2e, T_variable = 0x34,
  T_namespace = 0x39, T_partial_unit = 0x3c, T_type_unit = 0x41, T_call_site = 0x48,
  A_location = 0x02, A_name = 0x03, A_byte_size = 0x0b, A_stmt_list = 0x10, A_low_pc = 0x11, A_high_pc = 0x12, A_language = 0x13, A_comp_dir = 0x1b, A_const_value = 0x1c, A_inline = 0x20,
  A_producer = 0x25, A_abstract_origin = 0x31, A_accessibility = 0x32, A_decl_column = 0x39, A_decl_file = 0x3a, A_decl_line = 0x3b, A_declaration = 0x3c, A_encoding = 0x3e, A_external = 0x3f,
  A_frame_base = 0x40, A_specification = 0x47, A_type = 0x49, A_entry_pc = 0x52, A_ranges = 0x55, A_call_column = 0x57, A_call_file = 0x58, A_call_line = 0x59, A_linkage_name = 0x6e,
  A_str_offsets_base = 0x72, A_addr_base = 0x73, A_rnglists_base = 0x74, A_call_all_calls = 0x7a, A_MIPS_linkage_name = 0x2007, A_GNU_discriminator = 0x2136,
  F_addr = 0x01, F_block2 = 0x03, F_block4 = 0x04, F_data2 = 0x05, F_data4 = 0x06, F_data8 = 0x07, F_string = 0x08, F_block = 0x09, F_block1 = 0x0a, F_data1 = 0x0b, F_flag = 0x0c, F_sdata = 0x0d, F_strp = 0x0e,
  F_udata = 0x0f, F_ref_addr = 0x10, F_ref1 = 0x11, F_ref2 = 0x12, F_ref4 = 0x13, F_ref8 = 0x14, F_ref_udata = 0x15, F_sec_offset = 0x17, F_exprloc = 0x18, F_flag_present = 0x19, F_strx = 0x1a, F_addrx = 0x1b,
  F_data16 = 0x1e, F_line_strp = 0x1f, F_ref_sig8 = 0x20, F_implicit_const = 0x21, F_loclistx = 0x22, F_rnglistx = 0x23, F_strx1 = 0x25, F_addrx1 = 0x29,
};
struct Attr { int at, form; std::string bytes; int64_t implicit = 0; int fix = 0; int fix_id = 0; };  // fix: what to patch in later
enum Fix { kNone, kRef4, kRefAddr, kList, kStrBase, kAddrBase, kListBase };

class Generator {
 public:
  std::string image; std::vector<Query> queries; std::string features;

  Generator() { Draw(); }

 private:
  bool is64_, dwarf64_; int aw_, ow_;
  uint64_t vaddr_, text_, end_; bool exec_;
  std::vector<Cu> cus_; std::vector<Fun> funs_; std::vector<Def> defs_; std::vector<Piece> pieces_;
  int next_die_ = 0;
  Buf info_, line_, str_, line_str_, ranges_, rnglists_, str_offsets_, addr_;
  std::vector<std::map<std::string, int>> abbrev_; std::vector<Buf> abbrev_bytes_;
  struct Fixup { size_t pos; int kind, id, cu; };
  std::vector<Fixup> fixups_; std::map<int, uint64_t> die_at_; std::vector<size_t> cu_at_;
  struct DefDie { int def; int cu; int die; int tag_depth; bool decl; };

  static std::string Word(const char* tag) {
    static const char* w[] = {"a", "main", "foo", "bar", "baz_long_identifier", "x1", "tmp", "Vector"};
    return w[Choose(8, tag)];
  }
  unsigned Line(const char* tag) { switch (Choose(6, tag)) { default: return 1 + Choose(120, tag); case 4: return 200 + Choose(60000, tag); case 5: return 70000 + Choose(900000, tag); } }

  // ---- the model ----
  void MakeKids(const std::vector<Range>& r, int cu, int depth, std::vector<Inl>* out) {
    if (depth > 4 || Flip(2, 5, "no-inlines")) return;
    std::vector<int> pool;
    for (size_t i = 0; i < defs_.size(); ++i) if (defs_[i].cu == cu || (cus_[cu].has_comp && Choose(3, "cross-cu") == 2)) pool.push_back(i);
    if (pool.empty()) return;
    int n = 1 + Choose(3, "nkids");
    std::vector<Inl> kids(n);
    for (auto& x : r) {
      uint64_t at = x.lo;
      while (at < x.hi) {
        uint64_t left = x.hi - at, len = Choose(4, "whole") == 3 ? left : 1 + Choose(left, "segment");
        int k = Choose(n + 1, "owner");
        if (k < n) kids[k].r.push_back({at, at + len});
        at += len;
      }
    }
    for (auto& k : kids) {
      if (k.r.empty()) continue;
      k.def = pool[Choose(pool.size(), "origin")];
      int nf = cus_[cu].files.size();
      k.file = Choose(8, "no-call-file") == 7 ? -1 : int(Choose(nf, "call-file"));
      k.line = Line("call-line"); k.disc = Choose(3, "call-disc") == 2 ? 1 + Choose(70000, "disc") : 0;
      MakeKids(k.r, cu, depth + 1, &k.kids);
      out->push_back(k);
    }
  }

  void Draw() {
    is64_ = Choose(4, "elf32") != 3; aw_ = is64_ ? 8 : 4;
    dwarf64_ = Choose(6, "dwarf64") == 5; ow_ = dwarf64_ ? 8 : 4;
    exec_ = Choose(2, "exec");
    vaddr_ = exec_ ? 0x400000 : Choose(3, "prelinked") == 2 ? 0x10000 : 0;
    text_ = vaddr_ + 0x1000 + Choose(3, "text-offset") * 0x230;
    int ncu = 1 + Choose(4, "ncu");
    int same = Choose(3, "one-version") ? 2 + Choose(4, "version") : 0;
    for (int i = 0; i < ncu; ++i) {
      Cu c; c.version = same ? same : 2 + Choose(4, "version");
      if (dwarf64_ && c.version == 2) c.version = 3;
      c.has_comp = c.version == 5 || Choose(8, "no-comp-dir") != 7; c.comp = Str("/src/d%d", int(Choose(3, "comp")));
      int nd = Choose(4, "ndirs");
      if (c.version == 5) c.dirs.push_back(c.comp); else c.dirs.push_back("");
      for (int k = 0; k < nd; ++k) c.dirs.push_back(Choose(2, "absolute") ? Str("/usr/inc%d", k) : Choose(2, "dots") ? Str("../up%d", k) : Str("sub/x%d", k));
      int nf = 1 + Choose(Choose(8, "many-files") == 7 ? 200 : 5, "nfiles");
      for (int k = 0; k < nf; ++k) c.files.push_back({int(Choose(c.dirs.size(), "file-dir")), Str("%s%d.%s", Word("file").c_str(), k, Choose(2, "header") ? "cc" : "h")});
      c.use_strx = c.version == 5 && Choose(2, "strx"); c.use_addrx = c.version == 5 && Choose(2, "addrx"); c.use_listx = c.version == 5 && Choose(2, "rnglistx");
      cus_.push_back(c);
    }
    // Abstract instances that calls may be inlined from.
    int nd = Choose(8, "ndefs");
    for (int i = 0; i < nd; ++i) {
      Def d; d.cu = Choose(ncu, "def-cu"); d.die = -1; d.name = Str("_ZN1%c%d%sEv", char('a' + Choose(4, "ns")), i, Word("name").c_str()); d.start = Line("decl-line");
      cus_[d.cu].defs.push_back(i); defs_.push_back(d);
    }
    // Functions and their pieces of the text.
    int nfun = 1 + Choose(9, "nfuns");
    for (int i = 0; i < nfun; ++i) {
      Fun f; f.cu = Choose(ncu, "fun-cu");
      if (!cus_[f.cu].defs.empty() && Choose(3, "out-of-line") == 2) f.def = cus_[f.cu].defs[Choose(cus_[f.cu].defs.size(), "out-of-line-of")];
      f.name = f.def >= 0 ? defs_[f.def].name : Str("%s_%d", Word("name").c_str(), i);
      f.start = f.def >= 0 ? defs_[f.def].start : Choose(12, "artificial") == 11 ? 0 : Line("decl-line");
      f.dead = i && Choose(7, "dead") == 6;
      // A function inside another one: GNU C, Fortran and others.
      if (i && !f.dead && kNested && Choose(6, "nested") == 5) {
        std::vector<int> hosts; for (int k = 0; k < i; ++k) if (funs_[k].cu == f.cu && !funs_[k].dead && !funs_[k].is_nested) hosts.push_back(k);
        if (!hosts.empty()) { funs_[hosts[Choose(hosts.size(), "host")]].nested.push_back(i); f.is_nested = true; }
      }
      cus_[f.cu].funs.push_back(i); funs_.push_back(f);
      int np = Choose(4, "split") == 3 ? 2 + Choose(2, "npieces") : 1;
      for (int k = 0; k < np; ++k) {
        Piece p; p.fun = i; p.cu = f.cu; p.len = Choose(12, "long") == 11 ? 20000 + Choose(100000, "len") : 1 + Choose(60, "len");
        if (f.dead) { p.len = 1 + Choose(100, "len"); funs_[i].r.push_back({0, p.len}); if (k + 1 == np) break; continue; }
        pieces_.push_back(p);
      }
    }
    for (int k = Choose(3, "nasm"); k > 0; --k) { Piece p; p.fun = -1; p.cu = Choose(ncu, "asm-cu"); p.len = 1 + Choose(40, "len"); pieces_.push_back(p); }
    if (Choose(2, "by-unit")) std::stable_sort(pieces_.begin(), pieces_.end(), [](const Piece& a, const Piece& b) { return a.cu < b.cu; });
    else sim::Shuffle(pieces_, "layout");
    uint64_t at = text_;
    for (auto& p : pieces_) { if (Choose(3, "gap") == 2) at += 1 + Choose(40, "gap-len"); p.lo = at; at += p.len; if (p.fun >= 0) funs_[p.fun].r.push_back({p.lo, at}); }
    end_ = at;
    for (auto& f : funs_) {
      std::sort(f.r.begin(), f.r.end(), [](const Range& a, const Range& b) { return a.lo < b.lo; });
      MakeKids(f.r, f.cu, 0, &f.kids);
      if (f.dead) Count("dead");
    }
    // Sequences of the line tables.
    for (size_t i = 0; i < pieces_.size();) {
      size_t j = i + 1; Cu& c = cus_[pieces_[i].cu];
      while (j < pieces_.size() && pieces_[j].cu == pieces_[i].cu && Choose(3, "join") == 2) ++j;
      if (Choose(12, "no-lines") != 11) {
        Seq s; s.lo = pieces_[i].lo; s.hi = pieces_[j - 1].lo + pieces_[j - 1].len;
        for (size_t k = i; k < j; ++k) {
          uint64_t a = pieces_[k].lo, e = a + pieces_[k].len;
          int budget = 1 + Choose(12, "nrows");
          while (budget-- > 0 && a < e) {
            s.rows.push_back({a, int(Choose(c.files.size(), "row-file")), Choose(9, "line-0") == 8 ? 0 : Line("row-line"), unsigned(Choose(4, "row-disc") == 3 ? 1 + Choose(1u << 24, "disc") : 0)});
            a += Choose(5, "same-address") == 4 ? 0 : 1 + Choose(std::min<uint64_t>(e - a, Choose(4, "long-row") == 3 ? e - a : 20), "row-len");
          }
        }
        if (kEmptyTail && Choose(6, "empty-tail") == 5) s.rows.push_back({s.hi, int(Choose(c.files.size(), "row-file")), Line("row-line"), 0});
        c.seqs.push_back(s);
      }
      i = j;
    }
    for (auto& c : cus_) sim::Shuffle(c.seqs, "sequences");
    Queries();
    Encode();
  }
  void Count(const char* f) { features += Str("%s ", f); }

 public:
  static const bool kNested = true, kEmptyTail = true;

 private:
  std::string Path(const Cu& c, int file) const {
    if (file < 0) return "/";
    const std::string& d = c.dirs[c.files[file].first];
    std::string dir = !d.empty() && d[0] == '/' ? d : c.has_comp ? c.comp + "/" + d : d;
    return dir + "/" + c.files[file].second;
  }
  static bool In(const std::vector<Range>& r, uint64_t a) { for (auto& x : r) if (a >= x.lo && a < x.hi) return true; return false; }
  std::vector<golden::Frame> Answer(uint64_t a) {
    std::vector<golden::Frame> v;
    const Cu* c = nullptr; const Row* row = nullptr;
    for (auto& u : cus_) for (auto& s : u.seqs) if (a >= s.lo && a < s.hi) { c = &u; for (auto& r : s.rows) if (r.addr <= a) row = &r; }
    if (!row || row->line == 0) return v;
    golden::Frame top; top.file = Path(*c, row->file); top.line = row->line; top.disc = row->disc; top.start = 0; top.func = "?";
    const Fun* f = nullptr;
    for (auto& x : funs_) if (!x.dead && In(x.r, a)) f = &x;
    if (!f) { v.push_back(top); return v; }
    std::vector<const Inl*> chain;
    for (const std::vector<Inl>* k = &f->kids;;) {
      const Inl* hit = nullptr;
      for (auto& i : *k) if (In(i.r, a)) hit = &i;
      if (!hit) break;
      chain.push_back(hit); k = &hit->kids;
    }
    auto who = [&](int depth, golden::Frame* fr) {
      if (depth < 0) { fr->func = f->name; fr->start = f->start; }
      else { fr->func = defs_[chain[depth]->def].name; fr->start = defs_[chain[depth]->def].start; }
    };
    who(int(chain.size()) - 1, &top); v.push_back(top);
    for (int d = int(chain.size()) - 1; d >= 0; --d) {
      golden::Frame fr; fr.file = Path(cus_[f->cu], chain[d]->file); fr.line = chain[d]->line; fr.disc = chain[d]->disc;
      who(d - 1, &fr);
      if (fr.start == 0) fr.start = fr.line;  // a caller whose own line is not known
      v.push_back(fr);
    }
    return v;
  }
  void Queries() {
    int n = 5 + Choose(40, "nqueries");
    for (int i = 0; i < n; ++i) {
      uint64_t a;
      switch (Choose(5, "query")) {
        case 0: a = text_ + Choose(end_ - text_, "address"); break;
        case 1: { auto& p = pieces_[Choose(pieces_.size(), "piece")]; a = Choose(2, "last") ? p.lo + p.len - 1 : p.lo; break; }
        case 2: { auto& p = pieces_[Choose(pieces_.size(), "piece")]; a = p.lo + Choose(std::min<uint64_t>(p.len, 64), "near"); break; }
        case 3: { auto& p = pieces_[Choose(pieces_.size(), "piece")]; a = p.lo + Choose(p.len, "inside"); break; }
        default: a = Choose(2, "beyond") ? end_ + Choose(100000, "far") : text_ - 1 - Choose(16, "below"); break;
      }
      queries.push_back({a, Answer(a)});
    }
  }

  // ---- the encoding ----
  uint64_t StrAt(Buf* b, const std::string& s) {
    if (Choose(2, "share-string")) { size_t k = b->s.find(s + std::string(1, '\0')); if (k != std::string::npos) return k; }
    uint64_t k = b->s.size(); b->Z(s); return k;
  }
  uint64_t StrIndex(Cu& c, const std::string& s) {
    for (size_t i = 0; i < c.strs.size(); ++i) if (c.strs[i] == s) return i;
    c.strs.push_back(s); return c.strs.size() - 1;
  }
  Attr StrAttr(Cu& c, int at, const std::string& s) {
    Attr a{at}; Buf b;
    int k = Choose(c.version == 5 ? (c.use_strx ? 8 : 3) : 2, "string-form");
    if (k == 0) { a.form = F_string; b.Z(s); }
    else if (k == 1) { a.form = F_strp; b.U(StrAt(&str_, s), ow_); }
    else if (k == 2) { a.form = F_line_strp; b.U(StrAt(&line_str_, s), ow_); }
    else {
      uint64_t idx = StrIndex(c, s);
      if (k == 3 || idx > 255) { a.form = F_strx; b.Uleb(idx); } else { a.form = F_strx1 + (k - 4); b.U(idx, k - 3); }
    }
    a.bytes = b.s; return a;
  }
  uint64_t AddrIndex(Cu& c, uint64_t v) { for (size_t i = 0; i < c.addrs.size(); ++i) if (c.addrs[i] == v) return i; c.addrs.push_back(v); return c.addrs.size() - 1; }
  Attr AddrAttr(Cu& c, int at, uint64_t v) {
    Attr a{at}; Buf b;
    int k = c.use_addrx ? Choose(6, "address-form") : 0;
    if (k == 0) { a.form = F_addr; b.U(v, aw_); }
    else { uint64_t i = AddrIndex(c, v); if (k == 1 || i > 255) { a.form = F_addrx; b.Uleb(i); } else { a.form = F_addrx1 + (k - 2); b.U(i, k - 1); } }
    a.bytes = b.s; return a;
  }
  Attr Const(Cu& c, int at, uint64_t v, bool udata) {
    Attr a{at}; Buf b;
    int fit = v < 256 ? 0 : v < 65536 ? 1 : 2;
    int k = fit + Choose(3 - fit, "const-form");
    if (c.version == 5 && Choose(4, "implicit-const") == 3) { a.form = F_implicit_const; a.implicit = v; }
    else if (udata && Choose(4, "udata") == 3) { a.form = F_udata; b.Uleb(v, Choose(6, "padded-leb") == 5); }
    else if (k == 0) { a.form = F_data1; b.U(v, 1); } else if (k == 1) { a.form = F_data2; b.U(v, 2); } else { a.form = F_data4; b.U(v, 4); }
    a.bytes = b.s; return a;
  }
  Attr Offset(Cu& c, int at, uint64_t v) {
    Attr a{at}; Buf b; b.U(v, ow_); a.form = c.version >= 4 ? F_sec_offset : dwarf64_ ? F_data8 : F_data4; a.bytes = b.s; return a;
  }
  Attr Ref(Cu& c, int ci, int at, int die, int die_cu) {
    Attr a{at}; bool far = die_cu != ci || Choose(4, "ref-addr") == 3;
    a.form = far ? F_ref_addr : F_ref4; a.fix = far ? kRefAddr : kRef4; a.fix_id = die;
    a.bytes.assign(far ? (c.version == 2 ? aw_ : ow_) : 4, '\0');
    // A reference to what is already there may take any other form.
    if (!far && die_at_.count(die) && Choose(4, "ref-form") == 3) {
      uint64_t off = die_at_[die] - cu_at_[ci]; Buf b; a.fix = kNone;
      switch (off < 256 ? Choose(3, "ref-form") : off < 65536 ? 1 + Choose(2, "ref-form") : 2) {
        case 0: a.form = F_ref1; b.U(off, 1); break;
        case 1: a.form = F_ref2; b.U(off, 2); break;
        default: if (Choose(2, "ref8")) { a.form = F_ref8; b.U(off, 8); } else { a.form = F_ref_udata; b.Uleb(off, Choose(3, "padded-leb")); }
      }
      a.bytes = b.s;
    }
    return a;
  }
  Attr RangesAttr(Cu& c, const std::vector<Range>& in) {
    std::vector<Range> r = in;
    if (r.size() > 1 && Choose(3, "unordered") == 2) sim::Shuffle(r, "range-order");
    if (c.version < 5) {
      uint64_t at = ranges_.s.size(), base = c.base, ones = is64_ ? ~0ull : 0xffffffffull;
      for (auto& x : r) {
        if (x.lo < base || Choose(6, "base-selection") == 5) { base = x.lo < base ? x.lo - Choose(std::min<uint64_t>(x.lo, 100) + 1, "below") : x.lo - Choose(x.lo - base + 1, "base"); ranges_.U(ones, aw_); ranges_.U(base, aw_); }
        if (x.lo - base == ones) base = 0;
        ranges_.U(x.lo - base, aw_); ranges_.U(x.hi - base, aw_);
      }
      ranges_.U(0, aw_); ranges_.U(0, aw_);
      return Offset(c, A_ranges, at);
    }
    Buf b; uint64_t base = c.base;
    for (auto& x : r) {
      if (Choose(5, "base-entry") == 4) {
        base = x.lo - Choose(std::min<uint64_t>(x.lo, 300) + 1, "base");
        if (c.use_addrx && Choose(2, "base-addressx")) { b.U8(1); b.Uleb(AddrIndex(c, base)); } else { b.U8(5); b.U(base, aw_); }
      }
      int k = Choose(c.use_addrx ? 5 : 3, "range-kind");
      if (k == 0 && x.lo < base) k = 1;
      switch (k) {
        case 0: b.U8(4); b.Uleb(x.lo - base); b.Uleb(x.hi - base); break;
        case 1: b.U8(6); b.U(x.lo, aw_); b.U(x.hi, aw_); break;
        case 2: b.U8(7); b.U(x.lo, aw_); b.Uleb(x.hi - x.lo); break;
        case 3: b.U8(2); b.Uleb(AddrIndex(c, x.lo)); b.Uleb(AddrIndex(c, x.hi)); break;
        case 4: b.U8(3); b.Uleb(AddrIndex(c, x.lo)); b.Uleb(x.hi - x.lo); break;
      }
    }
    b.U8(0);
    int id = c.lists.size(); c.lists.push_back(b.s);
    Attr a{A_ranges};
    if (c.use_listx) { Buf ix; ix.Uleb(c.listx.size()); c.listx.push_back(id); a.form = F_rnglistx; a.bytes = ix.s; }
    else { a.form = F_sec_offset; a.bytes.assign(ow_, '\0'); a.fix = kList; a.fix_id = id; }
    return a;
  }
  // Attributes nobody needs, to be skipped over.
  void Noise(Cu& c, std::vector<Attr>* v) {
    for (int n = Choose(4, "noise"); n > 0; --n) {
      Buf b; Attr a{0};
      switch (Choose(c.version >= 4 ? 8 : 5, "noise-kind")) {
        case 0: a.at = A_external; a.form = F_flag; b.U8(1); break;
        case 1: a.at = A_frame_base; a.form = F_block1; b.U8(2); b.U(0x9c9c, 2); break;
        case 2: a = Const(c, A_decl_column, 1 + Choose(90, "column"), true); v->push_back(a); continue;
        case 3: a.at = A_type; a.form = F_ref4; b.U(11, 4); break;
        case 4: a.at = A_accessibility; a.form = F_sdata; b.Sleb(-int64_t(Choose(300, "sdata"))); break;
        case 5: a.at = A_call_all_calls; a.form = F_flag_present; break;
        case 6: { a.at = A_frame_base; a.form = F_exprloc; int k = Choose(200, "exprloc"); b.Uleb(k); b.s.append(k, '\x11'); break; }
        case 7: a.at = A_type; a.form = F_ref_sig8; b.U(0x1122334455667788ull, 8); break;
      }
      for (auto& x : *v) if (x.at == a.at) a.at = 0;
      if (!a.at) continue;
      a.bytes = b.s; v->push_back(a);
    }
  }
  int Die(Cu& c, int ci, int tag, bool kids, const std::vector<Attr>& attrs, int id = -1) {
    std::string sig; Buf ab; ab.Uleb(tag); ab.U8(kids);
    for (auto& a : attrs) { ab.Uleb(a.at); ab.Uleb(a.form); if (a.form == F_implicit_const) ab.Sleb(a.implicit); }
    ab.U8(0); ab.U8(0); sig = ab.s;
    auto& m = abbrev_[c.abbrev];
    auto it = m.find(sig);
    if (it == m.end()) { it = m.insert({sig, int(m.size()) + 1}).first; abbrev_bytes_[c.abbrev].Uleb(it->second); abbrev_bytes_[c.abbrev].s += sig; }
    if (id >= 0) die_at_[id] = info_.s.size();
    info_.Uleb(it->second);
    for (auto& a : attrs) { if (a.fix) fixups_.push_back({info_.s.size(), a.fix, a.fix_id, ci}); info_.s += a.bytes; }
    return id;
  }
  void End() { info_.U8(0); }
  void Junk(Cu& c, int ci, int depth = 0) {  // entries of no interest
    for (int n = Choose(3, "junk"); n > 0; --n) {
      std::vector<Attr> v; Buf b;
      switch (Choose(5, "junk-kind")) {
        case 0: v.push_back(StrAttr(c, A_name, Word("junk"))); v.push_back(Const(c, A_byte_size, 4, true)); Die(c, ci, T_base_type, false, v); break;
        case 1: v.push_back(StrAttr(c, A_name, Word("junk"))); v.push_back(Const(c, A_decl_line, Line("junk"), true)); { Attr a{A_const_value, F_block}; b.Uleb(3); b.U(1, 3); a.bytes = b.s; v.push_back(a); } Die(c, ci, T_variable, false, v); break;
        case 2: if (c.version == 5) { Attr a{A_location, F_loclistx}; b.Uleb(300); a.bytes = b.s; v.push_back(a); Attr d{A_const_value, F_data16}; d.bytes.assign(16, '\x7f'); v.push_back(d); } Die(c, ci, T_formal_parameter, false, v); break;
        case 3: if (depth < 2) { Die(c, ci, T_lexical_block, true, {AddrAttr(c, A_low_pc, text_)}); Junk(c, ci, depth + 1); End(); } break;
        case 4: { Attr a{A_const_value, F_block2}; b.U(5, 2); b.U(9, 5); a.bytes = b.s; v.push_back(a); Attr q{A_location, F_block4}; Buf d; d.U(300, 4); d.s.append(300, '\1'); q.bytes = d.s; v.push_back(q); Die(c, ci, T_call_site, false, v); break; }
      }
    }
  }
  std::vector<Attr> Mixed(std::vector<Attr> v) { sim::Shuffle(v, "attribute-order"); return v; }
  // The address attributes of a function or an inlined call.
  void Where(Cu& c, int ci, const std::vector<Range>& r, std::vector<Attr>* v) {
    if (r.size() == 1 && Choose(5, "ranges-of-one") != 4) {
      Attr hi{A_high_pc};
      Attr lo = AddrAttr(c, A_low_pc, r[0].lo);
      if (c.version < 4 || Choose(3, "high-pc-address") == 2) { Buf b; b.U(r[0].hi, aw_); hi.form = F_addr; hi.bytes = b.s; }
      else { uint64_t n = r[0].hi - r[0].lo; Buf b; int fit = n < 256 ? 0 : n < 65536 ? 1 : 2, k = fit + Choose(4 - fit, "high-pc-form"); static const int f[] = {F_data1, F_data2, F_data4, F_data8}; hi.form = f[k]; b.U(n, 1 << k); if (Choose(5, "udata") == 4) { hi.form = F_udata; b.s.clear(); b.Uleb(n); } hi.bytes = b.s; }
      v->push_back(lo); v->push_back(hi);
    } else v->push_back(RangesAttr(c, r));
  }
  std::vector<Attr> Names(Cu& c, const std::string& name, bool line, unsigned start) {
    std::vector<Attr> v;
    if (name[0] == '_') {
      v.push_back(StrAttr(c, A_name, Word("plain")));
      v.push_back(StrAttr(c, c.version >= 4 ? A_linkage_name : A_MIPS_linkage_name, name));
    } else v.push_back(StrAttr(c, A_name, name));
    if (line && start) { v.push_back(Const(c, A_decl_line, start, true)); if (Choose(2, "decl-file")) v.push_back(Const(c, A_decl_file, 1, true)); }
    Noise(c, &v);
    return v;
  }
  void Kids(Cu& c, int ci, const std::vector<Inl>& kids) {
    for (auto& k : kids) {
      int blocks = Choose(5, "block") == 4 ? 1 + Choose(2, "blocks") : 0;
      for (int i = 0; i < blocks; ++i) { std::vector<Attr> b; Where(c, ci, k.r, &b); Die(c, ci, T_lexical_block, true, b); Junk(c, ci); }
      std::vector<Attr> v{Ref(c, ci, A_abstract_origin, defs_[k.def].die, defs_[k.def].cu)};
      if (k.file >= 0) v.push_back(Const(c, A_call_file, c.version == 5 ? k.file : k.file + 1, true));
      else if (c.version < 5 && Choose(2, "file-0")) v.push_back(Const(c, A_call_file, 0, true));
      { Attr a = Const(c, A_call_line, k.line, true); v.push_back(a); }
      if (k.disc) { int ver = c.version; c.version = 4; Attr a = Const(c, A_GNU_discriminator, k.disc, true); c.version = ver; v.push_back(a); }
      if (Choose(3, "call-column") == 2) v.push_back(Const(c, A_call_column, 3, true));
      if (Choose(4, "entry-pc") == 3) v.push_back(AddrAttr(c, A_entry_pc, k.r[0].lo));
      v = Mixed(v);
      Where(c, ci, k.r, &v);
      bool inner = !k.kids.empty() || Choose(3, "empty-children") == 2;
      Die(c, ci, T_inlined, inner, v);
      if (inner) { Junk(c, ci); Kids(c, ci, k.kids); End(); }
      for (int i = 0; i < blocks; ++i) End();
    }
  }
  void Function(Cu& c, int ci, int fi) {
    Fun& f = funs_[fi];
    std::vector<Attr> v;
    int decl = -1;
    if (f.def >= 0) { v.push_back(Ref(c, ci, A_abstract_origin, defs_[f.def].die, defs_[f.def].cu)); Noise(c, &v); }
    else if (!f.is_nested && f.start && Choose(3, "declared-apart") == 2) {
      decl = next_die_++;
      bool own_line = Choose(2, "own-line");
      v.push_back(Ref(c, ci, A_specification, decl, ci));
      if (own_line) v.push_back(Const(c, A_decl_line, f.start, true));
      Noise(c, &v);
      Declare(c, ci, decl, f.name, own_line ? Line("declared-line") : f.start);
    } else v = Names(c, f.name, true, f.start);
    v = Mixed(v);
    Where(c, ci, f.r, &v);
    Die(c, ci, T_subprogram, true, v);
    Junk(c, ci);
    size_t after = Choose(2, "nested-first");
    if (!after) for (int k : f.nested) Function(c, ci, k);
    Kids(c, ci, f.kids);
    if (after) for (int k : f.nested) Function(c, ci, k);
    End();
  }
  void Declare(Cu& c, int ci, int die, const std::string& name, unsigned line) {
    int depth = Choose(3, "scope");
    for (int i = 0; i < depth; ++i) Die(c, ci, i ? T_class : T_namespace, true, {StrAttr(c, A_name, Word("scope"))});
    std::vector<Attr> v = Names(c, name, true, line);
    { Attr a{A_declaration, F_flag}; a.bytes.assign(1, '\1'); v.push_back(a); }
    bool kids = Choose(2, "parameters");
    Die(c, ci, T_subprogram, kids, Mixed(v), die);
    if (kids) { Junk(c, ci); End(); }
    for (int i = 0; i < depth; ++i) End();
  }
  void Abstract(Cu& c, int ci, Def& d) {
    std::vector<Attr> v;
    if (Choose(3, "declared-apart") == 2) {
      int decl = next_die_++; bool own = Choose(2, "own-line");
      Declare(c, ci, decl, d.name, own ? Line("declared-line") : d.start);
      v.push_back(Ref(c, ci, A_specification, decl, ci));
      if (own) v.push_back(Const(c, A_decl_line, d.start, true));
    } else v = Names(c, d.name, true, d.start);
    v.push_back(Const(c, A_inline, 3, false));
    bool kids = Choose(2, "parameters");
    Die(c, ci, T_subprogram, kids, Mixed(v), d.die);
    if (kids) { Junk(c, ci); End(); }
  }
  void InitialLength(Buf* b, size_t* at) { if (dwarf64_) { b->U(0xffffffff, 4); } *at = b->s.size(); b->U(0, ow_); }
  void CloseLength(Buf* b, size_t at) { b->Patch(at, b->s.size() - at - ow_, ow_); }
  void Encode() {
    int ntab = 1 + Choose(cus_.size(), "abbrev-tables");
    abbrev_.resize(ntab); abbrev_bytes_.resize(ntab);
    str_.Z(""); line_str_.Z("");
    for (auto& d : defs_) d.die = next_die_++;
    std::vector<size_t> abbrev_at;
    for (size_t ci = 0; ci < cus_.size(); ++ci) {
      Cu& c = cus_[ci];
      c.abbrev = Choose(ntab, "abbrev-table");
      uint64_t lo = ~0ull;
      for (int f : c.funs) for (auto& r : funs_[f].r) if (!funs_[f].dead) { lo = std::min(lo, r.lo); c.covered.push_back(r); }
      bool dead_only = lo == ~0ull;
      c.has_low = !dead_only && Choose(3, "unit-low-pc") != 2;
      c.has_ranges = c.covered.size() > 1 ? Choose(2, "unit-ranges") : false;
      if (c.has_low) c.base = c.has_ranges && Choose(2, "zero-base") ? 0 : lo;
      c.partial = c.funs.empty() && c.seqs.empty() && Choose(2, "partial-unit");
      if (c.partial) c.use_strx = c.use_addrx = c.use_listx = false;
      LineProgram(c, ci);
      if (c.version == 5 && Choose(5, "type-unit") == 4) TypeUnit(c, ci);
      size_t len; cu_at_.push_back(info_.s.size());
      InitialLength(&info_, &len);
      info_.U(c.version, 2);
      if (c.version == 5) { info_.U8(c.partial ? 3 : 1); info_.U8(aw_); abbrev_at.push_back(info_.s.size()); info_.U(0, ow_); }
      else { abbrev_at.push_back(info_.s.size()); info_.U(0, ow_); info_.U8(aw_); }
      std::vector<Attr> v{StrAttr(c, A_name, c.files[0].second), StrAttr(c, A_producer, "a compiler"), Const(c, A_language, 4, true)};
      if (c.has_comp) v.push_back(StrAttr(c, A_comp_dir, c.comp));
      v.push_back(Offset(c, A_stmt_list, line_at_.back()));
      if (c.has_ranges) v.push_back(RangesAttr(c, c.covered));
      if (c.has_low) v.push_back(AddrAttr(c, A_low_pc, c.base));
      if (c.has_low && !c.has_ranges) { Attr hi{A_high_pc, F_addr}; Buf b; b.U(end_, aw_); hi.bytes = b.s; v.push_back(hi); }
      auto basea = [&](int at, int fix) { Attr a{at, F_sec_offset}; a.bytes.assign(ow_, '\0'); a.fix = fix; a.fix_id = ci; return a; };
      v = Mixed(v);
      // Any of the bases may come after what needs it, except that of the range lists.
      if (c.use_strx) v.insert(v.begin() + Choose(v.size() + 1, "base-position"), basea(A_str_offsets_base, kStrBase));
      if (c.use_addrx) v.insert(v.begin() + Choose(v.size() + 1, "base-position"), basea(A_addr_base, kAddrBase));
      if (c.use_listx) v.push_back(basea(A_rnglists_base, kListBase));
      Die(c, ci, c.partial ? T_partial_unit : T_compile_unit, true, v);
      // Entries in any order.
      std::vector<std::pair<int, int>> order;
      for (int d : c.defs) order.push_back({0, d});
      for (int f : c.funs) if (!funs_[f].is_nested) order.push_back({1, f});
      sim::Shuffle(order, "entries");
      for (auto& o : order) {
        Junk(c, ci);
        bool ns = Choose(6, "in-namespace") == 5;
        if (ns) Die(c, ci, T_namespace, true, {StrAttr(c, A_name, "ns")});
        if (o.first == 0) Abstract(c, ci, defs_[o.second]); else Function(c, ci, o.second);
        if (ns) End();
      }
      End();
      for (int k = Choose(4, "padding") == 3 ? 3 : 0; k > 0; --k) info_.U8(0);
      CloseLength(&info_, len);
    }
    std::vector<uint64_t> tab_at; Buf abbrev;
    for (auto& b : abbrev_bytes_) { if (Choose(3, "hole") == 2) abbrev.U8(0); tab_at.push_back(abbrev.s.size()); abbrev.s += b.s; abbrev.U8(0); }
    for (auto& t : type_abbrev_at_) info_.Patch(t.first, tab_at[t.second], ow_);
    for (size_t ci = 0; ci < cus_.size(); ++ci) info_.Patch(abbrev_at[ci], tab_at[cus_[ci].abbrev], ow_);
    // The tables of version 5.
    std::vector<uint64_t> str_base(cus_.size()), addr_base(cus_.size()), list_base(cus_.size()); std::vector<std::vector<uint64_t>> list_at(cus_.size());
    std::vector<size_t> order; for (size_t i = 0; i < cus_.size(); ++i) order.push_back(i);
    sim::Shuffle(order, "tables");
    for (size_t ci : order) {
      Cu& c = cus_[ci]; size_t len;
      if (c.use_strx) {
        InitialLength(&str_offsets_, &len); str_offsets_.U(5, 2); str_offsets_.U(0, 2); str_base[ci] = str_offsets_.s.size();
        for (auto& s : c.strs) str_offsets_.U(StrAt(&str_, s), ow_);
        CloseLength(&str_offsets_, len);
      }
      if (!c.lists.empty() || c.use_listx) {
        InitialLength(&rnglists_, &len); rnglists_.U(5, 2); rnglists_.U8(aw_); rnglists_.U8(0); rnglists_.U(c.listx.size(), 4); list_base[ci] = rnglists_.s.size();
        uint64_t off = c.listx.size() * ow_; std::vector<uint64_t> rel;
        for (auto& l : c.lists) { rel.push_back(off); list_at[ci].push_back(list_base[ci] + off); off += l.size(); }
        for (int x : c.listx) rnglists_.U(rel[x], ow_);
        for (auto& l : c.lists) rnglists_.s += l;
        if (c.lists.empty()) rnglists_.U8(0);
        CloseLength(&rnglists_, len);
      }
      if (c.use_addrx) {
        InitialLength(&addr_, &len); addr_.U(5, 2); addr_.U8(aw_); addr_.U8(0); addr_base[ci] = addr_.s.size();
        for (auto a : c.addrs) addr_.U(a, aw_);
        CloseLength(&addr_, len);
      }
    }
    for (auto& f : fixups_) {
      switch (f.kind) {
        case kRef4: info_.Patch(f.pos, die_at_.at(f.id) - cu_at_[f.cu], 4); break;
        case kRefAddr: info_.Patch(f.pos, die_at_.at(f.id), cus_[f.cu].version == 2 ? aw_ : ow_); break;
        case kList: info_.Patch(f.pos, list_at[f.cu][f.id], ow_); break;
        case kStrBase: info_.Patch(f.pos, str_base[f.id], ow_); break;
        case kAddrBase: info_.Patch(f.pos, addr_base[f.id], ow_); break;
        case kListBase: info_.Patch(f.pos, list_base[f.id], ow_); break;
      }
    }
    elfgen::Image im; im.is64 = is64_; im.dwp = false; im.etype = exec_ ? ET_EXEC : ET_DYN; im.machine = is64_ ? EM_X86_64 : EM_386;
    auto add = [&](const char* name, const std::string& d, uint64_t flags, uint64_t addr, uint64_t align) { elfgen::Section s; s.name = name; s.type = SHT_PROGBITS; s.flags = flags; s.addr = addr; s.align = align; s.data = d; im.sections.push_back(s); };
    add(".text", std::string(64, '\x90'), SHF_ALLOC | SHF_EXECINSTR, text_, 16);
    add(".debug_info", info_.s, 0, 0, 1); add(".debug_abbrev", abbrev.s, 0, 0, 1); add(".debug_line", line_.s, 0, 0, 1); add(".debug_str", str_.s, 0, 0, 1); add(".debug_line_str", line_str_.s, 0, 0, 1);
    if (!ranges_.s.empty()) add(".debug_ranges", ranges_.s, 0, 0, 1);
    if (!rnglists_.s.empty()) add(".debug_rnglists", rnglists_.s, 0, 0, 1);
    if (!str_offsets_.s.empty()) add(".debug_str_offsets", str_offsets_.s, 0, 0, 1);
    if (!addr_.s.empty()) add(".debug_addr", addr_.s, 0, 0, 1);
    elfgen::Seg note{PT_NOTE, PF_R, 0, 8, 8, 8, 8, 4};
    if (Choose(3, "note-first") == 2) im.segs.push_back(note);
    im.segs.push_back({PT_LOAD, PF_R, 0, vaddr_, vaddr_, 0x1000, 0x1000, 0x1000});
    im.segs.push_back({PT_LOAD, PF_R | PF_X, 0x1000, text_ & ~0xfffull, text_ & ~0xfffull, end_ - text_, end_ - text_, 0x1000});
    if (is64_) elfgen::Layout<Elf64_Ehdr, Elf64_Shdr, Elf64_Phdr, Elf64_Sym>(im); else elfgen::Layout<Elf32_Ehdr, Elf32_Shdr, Elf32_Phdr, Elf32_Sym>(im);
    image = im.bytes;
  }

  // A type unit, whose entries describe no code, among the others.
  std::vector<std::pair<size_t, int>> type_abbrev_at_;
  void TypeUnit(Cu& c, int ci) {
    size_t len, at = info_.s.size(); InitialLength(&info_, &len); info_.U(5, 2); info_.U8(2); info_.U8(aw_); type_abbrev_at_.push_back({info_.s.size(), c.abbrev}); info_.U(0, ow_);
    info_.U(0x123456789abcdef0ull + at, 8); size_t off = info_.s.size(); info_.U(0, ow_);
    Cu t = c; t.use_strx = false;  // no contribution of its own
    auto attrs = std::vector<Attr>{StrAttr(t, A_name, "type unit")};
    if (Choose(2, "type-unit-lines")) attrs.push_back(Offset(t, A_stmt_list, line_at_.back()));
    Die(t, ci, T_type_unit, true, attrs);
    info_.Patch(off, info_.s.size() - at, ow_);
    Die(t, ci, T_class, true, {StrAttr(t, A_name, "T")});
    Die(t, ci, T_subprogram, false, Names(t, "method", true, 12));
    End(); End();
    CloseLength(&info_, len);
  }
  std::vector<uint64_t> line_at_;
  void LineProgram(Cu& c, int ci) {
    if (Choose(4, "line-hole") == 3) line_.U(0, 1 + Choose(7, "hole"));
    line_at_.push_back(line_.s.size());
    size_t len, hlen; Buf& b = line_;
    InitialLength(&b, &len); b.U(c.version, 2);
    if (c.version == 5) { b.U8(aw_); b.U8(0); }
    hlen = b.s.size(); b.U(0, ow_);
    int min_inst = Choose(4, "min-inst") == 3 ? 1 + Choose(4, "min-inst-length") : 1;
    for (auto& s : c.seqs) { for (auto& r : s.rows) if ((r.addr - s.lo) % min_inst) min_inst = 1; if ((s.hi - s.lo) % min_inst) min_inst = 1; }
    static const int bases[] = {-5, -3, -1, -10, 0, 1};
    int line_base = bases[Choose(6, "line-base")], line_range = 1 + Choose(16, "line-range"), opcode_base = Choose(3, "opcode-base") ? 13 : 10 + 8 * Choose(2, "long-opcode-base");
    bool is_stmt = Choose(2, "default-is-stmt");
    b.U8(min_inst); if (c.version >= 4) b.U8(1); b.U8(is_stmt); b.U8(line_base); b.U8(line_range); b.U8(opcode_base);
    static const int lens[] = {0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1, 2, 0, 3, 1};
    for (int i = 1; i < opcode_base; ++i) b.U8(lens[i - 1]);
    int late = 0;  // files defined by the program itself
    if (c.version < 5) {
      for (size_t i = 1; i < c.dirs.size(); ++i) b.Z(c.dirs[i]);
      b.U8(0);
      late = Choose(6, "define-file") == 5 && c.files.size() > 1 && c.seqs.size() ? 1 + Choose(c.files.size() - 1, "late-files") : 0;
      for (size_t i = 0; i + late < c.files.size(); ++i) { b.Z(c.files[i].second); b.Uleb(c.files[i].first); b.Uleb(Choose(1000, "mtime")); b.Uleb(Choose(100000, "length")); }
      b.U8(0);
    } else {
      static const int sforms[] = {F_string, F_line_strp, F_strp, F_strx, F_strx1, F_strx1 + 1, F_strx1 + 2, F_strx1 + 3};
      auto str = [&](int form, const std::string& s) {
        if (form == F_string) b.Z(s);
        else if (form == F_strp || form == F_line_strp) b.U(StrAt(form == F_strp ? &str_ : &line_str_, s), ow_);
        else if (form == F_strx) b.Uleb(StrIndex(c, s));
        else b.U(StrIndex(c, s), form - F_strx1 + 1);
      };
      int nforms = c.use_strx && c.strs.size() < 200 && Choose(3, "line-strx") == 2 ? 8 : 3;
      if (nforms == 8) Count("line-strx");
      int f = sforms[Choose(nforms, "dir-form")];
      b.U8(1); b.Uleb(1); b.Uleb(f); b.Uleb(c.dirs.size());
      for (auto& d : c.dirs) str(f, d);
      f = sforms[Choose(nforms, "file-form")];
      static const int dforms[] = {F_udata, F_data1, F_data2};
      int df = dforms[Choose(3, "dir-index-form")]; bool md5 = Choose(2, "md5"), dir_first = Choose(4, "dir-first") == 3;
      b.U8(2 + md5);
      if (dir_first) { b.Uleb(2); b.Uleb(df); b.Uleb(1); b.Uleb(f); } else { b.Uleb(1); b.Uleb(f); b.Uleb(2); b.Uleb(df); }
      if (md5) { b.Uleb(5); b.Uleb(F_data16); }
      b.Uleb(c.files.size());
      auto dir = [&](int d) { if (df == F_udata) b.Uleb(d); else b.U(d, df == F_data1 ? 1 : 2); };
      for (auto& x : c.files) { if (dir_first) { dir(x.first); str(f, x.second); } else { str(f, x.second); dir(x.first); } if (md5) b.s.append(16, '\x5a'); }
    }
    b.Patch(hlen, b.s.size() - hlen - ow_, ow_);
    auto ext = [&](int op, const std::string& d) { b.U8(0); b.Uleb(d.size() + 1); b.U8(op); b.s += d; };
    if (late) for (size_t i = c.files.size() - late; i < c.files.size(); ++i) { Buf d; d.Z(c.files[i].second); d.Uleb(c.files[i].first); d.Uleb(0); d.Uleb(0); ext(3, d.s); }
    int bias = c.version == 5 ? 0 : 1;
    std::vector<const Seq*> seqs; for (auto& s : c.seqs) seqs.push_back(&s);
    Seq dead;  // of a function that the linker dropped
    if (Choose(4, "dead-sequence") == 3) { dead.lo = 0; dead.hi = 60; dead.rows = {{0, 0, 7, 0}, {20, 0, 9, 1}}; if (min_inst == 1 || 20 % min_inst == 0) seqs.insert(seqs.begin() + Choose(seqs.size() + 1, "dead-position"), &dead); }
    if (60 % min_inst) for (size_t i = 0; i < seqs.size(); ++i) if (seqs[i] == &dead) { seqs.erase(seqs.begin() + i); break; }
    for (const Seq* s : seqs) {
      uint64_t addr = 0; int64_t line = 1; uint64_t file = 1; 
      auto noise = [&] {
        switch (Choose(12, "line-noise")) {
          case 7: b.U8(5); b.Uleb(Choose(200, "column")); break;
          case 8: b.U8(6); break;
          case 9: b.U8(7); break;
          case 10: if (opcode_base > 10) { b.U8(10 + Choose(2, "prologue")); } break;
          case 11: if (opcode_base > 16) { b.U8(16); b.Uleb(3); b.Uleb(500); b.Uleb(7); } else { ext(0x80 + Choose(20, "vendor"), elfgen::Blob(Choose(20, "vendor-len"))); } break;
          default: break;
        }
      };
      auto move = [&](uint64_t to, bool first) {
        if (first || Choose(9, "set-address") == 8) { Buf d; d.U(to, aw_); ext(2, d.s); addr = to; return; }
        while (addr < to) {
          uint64_t left = to - addr, cap = uint64_t(255 - opcode_base) / line_range * min_inst;
          int k = Choose(4, "advance");
          if (k == 0 && cap && cap <= left) { b.U8(8); addr += cap; }
          else if (k == 1 && left < 65536) { b.U8(9); b.U(left, 2); addr = to; }
          else if (k == 2 && left > uint64_t(min_inst)) { uint64_t n = 1 + Choose(left / min_inst, "part"); b.U8(2); b.Uleb(n); addr += n * min_inst; }
          else { b.U8(2); b.Uleb(left / min_inst); addr = to; }
        }
      };
      bool first = true;
      for (auto& r : s->rows) {
        noise();
        uint64_t to = r.addr; int64_t want = r.line;
        if (uint64_t(r.file + bias) != file) { file = r.file + bias; b.U8(4); b.Uleb(file); }
        if (r.disc) { Buf d; d.Uleb(r.disc); ext(4, d.s); }
        // A special opcode, when one reaches both.
        uint64_t da = to - addr; int64_t dl = want - line;
        if (first) { move(to, true); da = 0; first = false; }
        if (Choose(4, "no-special") != 3) {
          bool near = dl >= line_base && dl < line_base + line_range;
          if (!near) { int64_t d = dl - line_base - int64_t(Choose(line_range, "advance-line")); b.U8(3); b.Sleb(d); line += d; dl = want - line; }
          if (da % min_inst == 0) {
            int64_t op = (dl - line_base) + int64_t(line_range) * int64_t(da / min_inst) + opcode_base;
            if (op < 0 || op > 255) { move(to, false); da = 0; op = (dl - line_base) + opcode_base; }
            if (op <= 255) { b.U8(op); addr = to; line = want; continue; }
          }
        }
        move(to, false);
        if (line != want) { b.U8(3); b.Sleb(want - line); line = want; }
        b.U8(1);
      }
      noise();
      move(s->hi, false);
      ext(1, "");
    }
    CloseLength(&b, len);
  }
};
}  // namespace dwarfgen
#endif
