// P18: what the ELF and debug-info readers say about a binary.
#include <memory>
#include <set>
#include <sstream>

#include "addr2line.h"
#include "dwarf_gen.h"
#include "dwp_gen.h"
#include "elf_gen.h"
#include "golden.h"
#include "symbolize/elf_reader.h"
#include "symbolize/nonoverlapping_range_map.h"

using namespace devtools_crosstool_autofdo;
using sim::Choose;
using sim::Disk;
using sim::ProcResult;
using sim::Str;

namespace {
const std::vector<std::string>& Binaries() {
  static const std::vector<std::string> v = {"gcc_d5", "gcc_d4", "gcc_d5_pie", "gcc_d5_noasloc", "gcc_lto", "gcc_d4_sections", "clang_d4", "gcc_d4_32",
                                             "gcc_d5_os", "gcc_d3_o3", "gcc_d2", "gcc_d4_o0", "clang_d3", "clang_lines", "clang_d5", "clang_d5_sec", "arm_d4", "arm_d5", "clang_fs"};
  return v;
}
using golden::Frame; using golden::Insn;
const std::vector<Insn>& Golden(const std::string& name) { return golden::Load(name); }
std::string NormPath(std::string p) {
  size_t k;
  while ((k = p.find("/./")) != std::string::npos) p.erase(k, 2);
  while ((k = p.find("//")) != std::string::npos) p.erase(k, 1);
  return p;
}
// Constructor and destructor variants are one function in the source.
std::string NormName(std::string n) {
  for (size_t i = 0; i + 2 < n.size(); ++i)
    if ((n[i] == 'C' || n[i] == 'D') && n[i + 1] >= '0' && n[i + 1] <= '5' && n[i + 2] == 'E') n[i + 1] = '#';
  return n;
}
std::string Describe(const std::vector<Frame>& v) {
  std::string s;
  for (auto& f : v) {
    bool nofile = f.file == "??" || f.file == "/" || f.file.empty();
    std::string file = nofile ? "-" : NormPath(f.file);
    if (f.func == "?") file = file.substr(file.rfind('/') + 1);  // the tool has no compilation directory then
    s += Str("[%s %s %u:%u.%u]", NormName(f.func).c_str(), file.c_str(), f.start, f.line, f.disc);
  }
  return s;
}
std::vector<Frame> Query(const Addr2line& a, uint64_t addr) {
  SourceStack st; a.GetInlineStack(addr, &st);
  std::vector<Frame> v;
  for (auto& f : st) v.push_back({f.func_name ? f.func_name : "?", f.dir_name + "/" + f.file_name, f.start_line, f.line, f.discriminator});
  return v;
}
struct Q { uint64_t addr; std::string want; };
std::vector<Q> Queries(const std::string& bin, int n) {
  const auto& g = Golden(bin);
  uint64_t lo = g.front().addr, hi = g.back().addr + g.back().len;
  std::vector<Q> q;
  for (int i = 0; i < n; ++i) {
    switch (Choose(6, "query")) {
      case 4: if (!q.empty()) { q.push_back(q[Choose(q.size(), "repeat")]); break; } [[fallthrough]];
      default: { const Insn& x = g[Choose(g.size(), "insn")]; q.push_back({x.addr + (Choose(3, "mid") == 2 ? Choose(x.len, "inside") : 0), Describe(x.stack)}); break; }
      case 5: { uint64_t a = Choose(2, "below") ? lo - 1 - Choose(lo < 4096 ? lo / 2 : 4096, "how-far") : hi + 4096 + Choose(1 << 30, "how-far"); q.push_back({a, ""}); break; }
    }
  }
  return q;
}
std::string Answer(const std::string& path, const std::vector<Q>& q) {
  std::unique_ptr<Addr2line> a(Addr2line::Create(path));
  if (!a) return "refused";
  for (auto& x : q) {
    std::string got = Describe(Query(*a, x.addr));
    if (got != x.want) return Str("address 0x%lx: expected %s got %s", (unsigned long)x.addr, x.want.c_str(), got.c_str());
  }
  return "ok";
}
const std::vector<sim::FaultKind> kFaults = {sim::kOpenFail, sim::kReadEio, sim::kShortRead, sim::kMmapFail, sim::kStatFail, sim::kVanish, sim::kSlowIo};
// What a random sequence of ElfReader calls should say, and whether it did.
struct Sink : ElfReader::SymbolSink {
  std::string got;
  void AddSymbol(const char* name, uint64_t a, uint64_t s, int b, int t, int sec) override { got += Str("%s %lx %lx %d %d %d\n", name, (unsigned long)a, (unsigned long)s, b, t, sec); }
};
std::string Symbols(const elfgen::Image& im, int bind, int type, bool raw, uint64_t min_size) {
  std::string s;
  for (int k = 0; k < 2; ++k) {
    if (!(k ? im.has_dynsym : im.has_symtab)) continue;
    for (auto& x : k ? im.dynsym : im.symtab) {
      if (x.name.empty() || x.size < min_size || (bind >= 0 && x.bind != bind) || (type >= 0 && x.type != type)) continue;
      uint64_t v = x.value;
      if (!raw && im.machine == EM_ARM && x.type == STT_FUNC) v &= ~1ull;
      s += Str("%s %lx %lx %d %d %d\n", x.name.c_str(), (unsigned long)v, (unsigned long)x.size, x.bind, x.type, x.shndx);
    }
  }
  return s;
}
bool Matches(const std::string& want, const std::string& have) {
  if (want.rfind(".debug_", 0) == 0 && have.rfind(".zdebug_", 0) == 0) return want.substr(7) == have.substr(8);
  return want == have;
}
std::string ElfCalls(const elfgen::Image& im, const std::string& path, int calls) {
  ElfReader r(path);
  for (int i = 0; i < calls; ++i) {
    std::string what, want, got;
    int nsec = im.sections.size();
    switch (Choose(10, "elf-call")) {
      case 0: {
        Sink s; int b = Choose(3, "any-bind") ? -1 : Choose(3, "bind"), t = Choose(3, "any-type") ? -1 : Choose(5, "type");
        bool raw = Choose(2, "raw"); uint64_t min = Choose(2, "filter") ? Choose(300, "min-size") : 0;
        if (min) s.filter = [min](const char*, uint64_t, uint64_t size, int, int, int) { return size >= min; };
        r.VisitSymbols(&s, b, t, raw);
        what = "symbols"; want = Symbols(im, b, t, raw, min); got = s.got; break;
      }
      case 1: {
        uint64_t v = 0;
        if (im.etype != ET_REL) for (auto& s : im.segs) if (s.type == PT_LOAD) { v = s.vaddr; break; }
        what = "first load segment"; want = Str("%lx", (unsigned long)v); got = Str("%lx", (unsigned long)r.VaddrOfFirstLoadSegment()); break;
      }
      case 2: {
        uint32_t type = Choose(2, "note") ? SHT_NOTE : SHT_PROGBITS; int start = Choose(nsec, "start"), k = -1;
        for (int j = start; j < nsec; ++j) if (im.sections[j].type == type) { k = j; break; }
        what = "section by type"; want = Str("%d", k); got = Str("%d", r.GetSectionIndexByType(type, start)); break;
      }
      case 3: { int k = Choose(nsec, "index"); const char* n = r.GetSectionName(k); what = "section name"; want = im.sections[k].name; got = n ? n : "(null)"; break; }
      case 4: {
        if (nsec < 2) break;
        int k = 1 + Choose(nsec - 1, "index"); size_t n = 0; const char* p = r.GetSectionByIndex(k, &n);
        what = "section data";
        want = Str("%zu", im.sections[k].data.size()) + (im.sections[k].type == SHT_NOBITS ? "" : im.sections[k].data);
        got = Str("%zu", n) + (im.sections[k].type == SHT_NOBITS || !p ? "" : std::string(p, n)); break;
      }
      case 5: case 6: {
        std::string name = Choose(4, "absent") ? im.sections[Choose(nsec, "index")].name : ".nothing";
        if (name.rfind(".zdebug_", 0) == 0 && Choose(2, "plain-name")) name = "." + name.substr(2);
        if (name.empty()) break;
        int k = -1;
        for (int j = 0; j < nsec; ++j) { int x = im.dwp ? nsec - 1 - j : j; if (Matches(name, im.sections[x].name)) { k = x; break; } }
        size_t n = 0; ElfReader::SectionInfo info; const char* p;
        bool wantinfo = Choose(2, "info");
        p = wantinfo ? r.GetSectionInfoByName(name, &info) : r.GetSectionByName(name, &n);
        what = "section " + name;
        if (k < 0) { want = "null"; got = p ? "data" : "null"; break; }
        const elfgen::Section& s = im.sections[k];
        if (!p) { want = "data"; got = "null"; break; }
        if (wantinfo) {
          want = Str("%u %lx %lx %lx %lx %u %u %lx %lx", s.type, (unsigned long)s.flags, (unsigned long)s.addr, (unsigned long)s.offset, (unsigned long)s.data.size(), s.link, s.info, (unsigned long)s.align, (unsigned long)s.entsize);
          got = Str("%u %lx %lx %lx %lx %u %u %lx %lx", (unsigned)info.type, (unsigned long)info.flags, (unsigned long)info.addr, (unsigned long)info.offset, (unsigned long)info.size, (unsigned)info.link, (unsigned)info.info, (unsigned long)info.addralign, (unsigned long)info.entsize);
          n = s.data.size();
        } else { want = Str("%zu", s.data.size()); got = Str("%zu", n); }
        if (s.type != SHT_NOBITS && got == want) { want += s.data; got += std::string(p, n); }
        break;
      }
      case 7: {
        what = "segments";
        for (auto& s : im.segs) want += Str("%u %u %lx %lx %lx %lx %lx %lx\n", s.type, s.flags, (unsigned long)s.offset, (unsigned long)s.vaddr, (unsigned long)s.paddr, (unsigned long)s.filesz, (unsigned long)s.memsz, (unsigned long)s.align);
        for (auto& s : r.GetSegmentInfo()) got += Str("%u %u %lx %lx %lx %lx %lx %lx\n", s.type, s.flags, (unsigned long)s.offset, (unsigned long)s.vaddr, (unsigned long)s.paddr, (unsigned long)s.filesz, (unsigned long)s.memsz, (unsigned long)s.align);
        break;
      }
      case 8: what = "build id"; want = im.build_ids.size() == 1 ? im.build_ids[0] : ""; got = r.GetBuildId(); break;
      case 9: {
        bool dbg = false; for (auto& s : im.sections) dbg |= s.name.rfind(".debug", 0) == 0;
        what = "kind";
        want = Str("%d%d%d%d%d", im.is64, !im.is64, im.etype == ET_DYN, im.has_symtab, dbg);
        got = Str("%d%d%d%d%d", r.IsElf64File(), r.IsElf32File(), r.IsDynamicSharedObject(), ElfReader::IsNonStrippedELFBinary(path), ElfReader::IsNonDebugStrippedELFBinary(path));
        break;
      }
    }
    if (got != want) return what + ": expected '" + want.substr(0, 300) + "' got '" + got.substr(0, 300) + "'";
    sim::State(sim::HashStr(got));
  }
  return "ok";
}
}  // namespace

SIM_SCENARIO(addr2line_golden, "P18", 4) {
  std::string bin = sim::Pick(Binaries(), "binary");
  const std::string& b = sim::Fixture(bin);
  std::string path = Choose(4, "kernel-module") == 3 ? "/sim/mod.ko" : "/sim/bin";
  Disk::WriteConst(path, b.data(), b.size());
  sim::SwarmHash(); sim::SwarmAlloc();
  if (Choose(3, "short-reads") == 2) sim::SetFault(sim::kShortRead, 1 + Choose(4, "rate"));
  if (Choose(4, "interrupts") == 3) sim::SetFault(sim::kInterrupt, 2 + Choose(4, "interrupt-rate"));
  std::vector<Q> q = Queries(bin, 1 + Choose(60, "nqueries"));
  ProcResult r = sim::Process("symbolize", [&] { return Answer(path, q); });
  SIM_REQUIRE(r.Ok() && r.out == "ok", "wrong-answer", bin + ": " + r.Describe() + " " + r.out.substr(0, 500));
  sim::Count("reach.queries", q.size()); sim::Count("reach." + bin);
}
// Debug information of a program drawn at random.
SIM_SCENARIO(addr2line_generated, "P18", 6) {
  dwarfgen::Generator g;
  Disk::Write("/sim/bin", g.image);
  sim::SwarmHash(); sim::SwarmAlloc();
  if (Choose(4, "short-reads") == 3) sim::SetFault(sim::kShortRead, 1 + Choose(4, "rate"));
  if (Choose(4, "interrupts") == 3) sim::SetFault(sim::kInterrupt, 2 + Choose(4, "interrupt-rate"));
  std::vector<Q> q;
  size_t inlined = 0, deep = 0;
  for (auto& x : g.queries) { q.push_back({x.addr, Describe(x.want)}); inlined += x.want.size() > 1; deep += x.want.size() > 3; }
  ProcResult r = sim::Process("symbolize", [&] { return Answer("/sim/bin", q); });
  SIM_REQUIRE(r.Ok() && r.out == "ok", "wrong-answer", r.Describe() + " " + r.out.substr(0, 500));
  sim::Count("reach.generated", q.size()); sim::Count("reach.inlined", inlined); sim::Count("reach.deep", deep);
}
// Debug information outside of the binary: in .dwo files, or all in one .dwp file.
SIM_SCENARIO(addr2line_split, "P18", 2) {
  static const std::vector<std::string> bins = {"split_gcc_d4", "split_gcc_o3", "split_clang_d4", "split_gcc_d5", "split_clang_d5"};
  std::string bin = sim::Pick(bins, "binary"), path = Choose(2, "name") ? "/sim/bin" : "/sim/" + bin;
  Disk::WriteConst(path, sim::Fixture(bin).data(), sim::Fixture(bin).size());
  bool packed = bin.find("d5") == std::string::npos && Choose(2, "packed");
  bool both = Choose(3, "both") == 2;
  std::string what = packed ? " (packed): " : ": ";
  if (packed && Choose(4, "repack")) {
    dwpgen::Result p = dwpgen::Repack(sim::Fixture(bin + ".dwp"), both && Choose(2, "partial"));
    Disk::Write(path + ".dwp", p.bytes);
    what = Str(" (repacked v%d, %zu units, %zu left out, %zu collisions): ", p.version, p.units, p.dropped, p.collisions);
    sim::Count("reach.dwp_units", p.units); sim::Count("reach.dwp_left_out", p.dropped); sim::Count("reach.dwp_collisions", p.collisions); sim::Count(Str("reach.dwp_v%d", p.version));
  } else if (packed) Disk::Write(path + ".dwp", sim::Fixture(bin + ".dwp"));
  if (!packed || both) for (const char* f : {"a", "b", "stub"}) Disk::Write("/sim/" + bin + "/" + f + ".dwo", sim::Fixture(bin + "." + f + ".dwo"));
  sim::SwarmHash(); sim::SwarmAlloc();
  if (Choose(3, "short-reads") == 2) sim::SetFault(sim::kShortRead, 1 + Choose(4, "rate"));
  if (Choose(4, "interrupts") == 3) sim::SetFault(sim::kInterrupt, 2 + Choose(4, "interrupt-rate"));
  std::vector<Q> q = Queries(bin, 1 + Choose(60, "nqueries"));
  ProcResult r = sim::Process("symbolize", [&] { return Answer(path, q); });
  SIM_REQUIRE(r.Ok() && r.out == "ok", "wrong-answer", bin + what + r.Describe() + " " + r.out.substr(0, 500));
  sim::Count("reach.split", q.size());
}
// Two readers, of one or two binaries, asked in turn.
SIM_SCENARIO(addr2line_interleaved, "P18", 1) {
  std::string bin[2] = {sim::Pick(Binaries(), "binary"), sim::Pick(Binaries(), "binary")};
  for (int k = 0; k < 2; ++k) Disk::WriteConst(Str("/sim/b%d", k), sim::Fixture(bin[k]).data(), sim::Fixture(bin[k]).size());
  sim::SwarmHash(); sim::SwarmAlloc();
  std::vector<Q> q[2] = {Queries(bin[0], 30), Queries(bin[1], 30)};
  ProcResult r = sim::Process("symbolize two", [&]() -> std::string {
    std::unique_ptr<Addr2line> a[2];
    for (int i = 0; i < 60; ++i) {
      int k = Choose(2, "which");
      if (!a[k]) a[k].reset(Addr2line::Create(Str("/sim/b%d", k)));
      if (!a[k]) return "refused";
      const Q& x = q[k][i / 2];
      std::string got = Describe(Query(*a[k], x.addr));
      if (got != x.want) return Str("%s 0x%lx: expected %s got %s", bin[k].c_str(), (unsigned long)x.addr, x.want.c_str(), got.c_str());
      if (Choose(12, "drop") == 11) a[k].reset();
    }
    return "ok";
  });
  SIM_REQUIRE(r.Ok() && r.out == "ok", "wrong-answer", r.Describe() + " " + r.out.substr(0, 500));
}
SIM_SCENARIO(addr2line_faults, "P18", 3) {
  std::string bin = sim::Pick(Binaries(), "binary");
  const std::string& b = sim::Fixture(bin);
  bool cut = Choose(3, "truncated") == 2;
  size_t n = cut ? (Choose(3, "cut-kind") == 2 ? b.size() - 1 - Choose(3000, "cut-tail") : Choose(b.size(), "cut")) : b.size();
  Disk::WriteConst("/sim/bin", b.data(), n);
  sim::SwarmHash();
  sim::SwarmFaults(kFaults, "/sim/bin");
  if (Choose(2, "one-fault")) sim::SetMaxFaults(1 + Choose(3, "max-faults"));
  std::vector<Q> q = Queries(bin, 1 + Choose(40, "nqueries"));
  ProcResult r = sim::Process("symbolize", [&] { return Answer("/sim/bin", q); });
  sim::ClearFaults();
  bool refused = r.kind == ProcResult::kDied || r.out == "refused" || r.kind == ProcResult::kSignal;
  if (r.Ok() && r.out == "ok") { SIM_REQUIRE(!cut, "truncated-accepted", Str("%zu of %zu bytes were answered for", n, b.size())); sim::Count("reach.answered"); }
  else if (refused) { SIM_REQUIRE(cut || sim::HardFaults() > 0, "spurious-failure", bin + ": " + r.Describe()); sim::Count("reach.refused"); }
  else sim::Fail("wrong-answer", bin + ": " + r.Describe() + " " + r.out.substr(0, 500));
}
// Without .debug_info only the line table is left.
SIM_SCENARIO(addr2line_lines_only, "P18", 1) {
  static const std::vector<std::string> bins = {"gcc_d4", "gcc_d4_sections", "clang_d4", "gcc_d4_32", "gcc_d3_o3", "clang_d3"};
  std::string bin = sim::Pick(bins, "binary"), b = sim::Fixture(bin);
  size_t k = b.rfind(".debug_info");
  b[k + 1] = 'x';
  Disk::Write("/sim/bin", b);
  sim::SwarmHash(); sim::SwarmAlloc();
  const auto& g = Golden(bin);
  ProcResult r = sim::Process("symbolize", [&]() -> std::string {
    std::unique_ptr<Addr2line> a(Addr2line::Create("/sim/bin"));
    if (!a) return "refused";
    for (int i = 0; i < 40; ++i) {
      const Insn& x = g[Choose(g.size(), "insn")];
      std::vector<Frame> f = Query(*a, x.addr), w = x.stack;
      if (w.empty() != f.empty() || f.size() > 1) return Str("0x%lx: %zu frames", (unsigned long)x.addr, f.size());
      if (f.empty()) continue;
      auto base = [](const std::string& p) { return p.substr(p.rfind('/') + 1); };
      if (base(f[0].file) != base(w[0].file) || f[0].line != w[0].line || f[0].disc != w[0].disc || f[0].func != "?")
        return Str("0x%lx: expected %s got %s", (unsigned long)x.addr, Describe(w).c_str(), Describe(f).c_str());
    }
    return "ok";
  });
  SIM_REQUIRE(r.Ok() && r.out == "ok", "wrong-answer", bin + ": " + r.Describe() + " " + r.out.substr(0, 500));
}
SIM_SCENARIO(elf_calls, "P18", 4) {
  elfgen::Image im = elfgen::Generate();
  std::string path = im.dwp ? "/sim/a.dwp" : "/sim/a";
  Disk::Write(path, im.bytes);
  sim::SwarmHash(); sim::SwarmAlloc();
  if (Choose(3, "short-reads") == 2) sim::SetFault(sim::kShortRead, 1 + Choose(4, "rate"));
  if (Choose(4, "interrupts") == 3) sim::SetFault(sim::kInterrupt, 2 + Choose(4, "interrupt-rate"));
  ProcResult r = sim::Process("elf", [&] { return ElfCalls(im, path, 1 + Choose(25, "ncalls")); });
  SIM_REQUIRE(r.Ok() && r.out == "ok", "wrong-answer", r.Describe() + " " + r.out.substr(0, 700));
  sim::Count("reach.images");
}
SIM_SCENARIO(elf_faults, "P18", 2) {
  elfgen::Image im = elfgen::Generate();
  std::string path = im.dwp ? "/sim/a.dwp" : "/sim/a";
  bool cut = Choose(3, "truncated") == 2;
  Disk::Write(path, cut ? im.bytes.substr(0, 20 + Choose(im.bytes.size() - 20, "cut")) : im.bytes);
  sim::SwarmHash();
  sim::SwarmFaults({sim::kReadEio, sim::kShortRead, sim::kMmapFail, sim::kSlowIo}, "/sim/a");
  if (Choose(2, "one-fault")) sim::SetMaxFaults(1 + Choose(3, "max-faults"));
  ProcResult r = sim::Process("elf", [&] { return ElfCalls(im, path, 1 + Choose(25, "ncalls")); });
  sim::ClearFaults();
  if (r.kind == ProcResult::kDied || r.kind == ProcResult::kSignal) {
    SIM_REQUIRE(cut || sim::HardFaults() > 0, "spurious-failure", r.Describe()); sim::Count("reach.elf_refused");
  } else if (cut) { sim::Count("reach.elf_cut");  // what survives the cut may suffice for these calls
  } else SIM_REQUIRE(r.out == "ok", "wrong-answer", r.Describe() + " " + r.out.substr(0, 700));
}

// P18: the map from addresses to (nested) functions after any history of insertions.
SIM_SCENARIO(range_map, "P18", 1) {
  sim::SwarmAlloc();
  const int kSpan = 48;
  std::vector<int> owner(kSpan, 0);                 // of each address
  std::vector<std::pair<int, int>> pieces;          // that the map keeps apart
  uint64_t base = Choose(3, "base") == 2 ? ~0ull - kSpan : Choose(2, "low") ? 0 : 0x400000;
  ProcResult r = sim::Process("ranges", [&]() -> std::string {
    NonOverlappingRangeMap<int> m;
    int n = 2 + Choose(24, "insertions");
    for (int v = 1; v <= n; ++v) {
      int lo = Choose(kSpan, "low"), hi = lo + Choose(kSpan - lo + 1, "size");
      if (!pieces.empty() && Choose(2, "inside")) { auto p = pieces[Choose(pieces.size(), "piece")]; lo = p.first + Choose(p.second - p.first, "from"); hi = lo + Choose(p.second - lo + 1, "to"); }
      bool legal = true; const std::pair<int, int>* outer = nullptr;
      for (auto& p : pieces) {
        if (p.second <= lo || p.first >= hi) continue;
        if (p.first <= lo && p.second >= hi) { if (p.first != lo || p.second != hi) outer = &p; continue; }
        if (!(lo <= p.first && hi >= p.second)) legal = false;
      }
      if (!legal) continue;
      if (lo < hi) {
        std::vector<std::pair<int, int>> next;
        if (outer) {
          auto o = *outer;
          for (auto& p : pieces) if (p != o) next.push_back(p);
          if (o.first < lo) next.push_back({o.first, lo});
          next.push_back({lo, hi});
          if (hi < o.second) next.push_back({hi, o.second});
          for (int a = lo; a < hi; ++a) owner[a] = v;
          sim::Count("reach.ranges_split");
        } else {  // the gaps
          next = pieces;
          for (int a = lo; a < hi;) {
            if (owner[a]) { ++a; continue; }
            int b = a; while (b < hi && !owner[b]) owner[b++] = v;
            next.push_back({a, b}); a = b;
          }
          sim::Count("reach.ranges_filled");
        }
        pieces = next;
      }
      if (Choose(3, "as-list")) m.InsertRange(base + lo, base + hi, v);
      else m.InsertRangeList({{base + lo, base + hi}}, v);
      for (int a = -1; a <= kSpan; ++a) {
        if (base + a + 1 == 0 || (a < 0 && base == 0)) continue;
        auto it = m.Find(base + a);
        int got = it == m.End() ? 0 : it->second, want = a < 0 || a >= kSpan ? 0 : owner[a];
        if (!(got == want)) return std::string(Str("after %d insertions, address %d belongs to %d, not %d", v, a, got, want));
      }
    }
    auto sorted = pieces; std::sort(sorted.begin(), sorted.end()); size_t i = 0;
    if (!(m.Empty() == sorted.empty())) return std::string("the map is (not) empty");
    for (auto it = m.Begin(); it != m.End(); ++it, ++i)
      if (!(i < sorted.size() && it->first.first == base + sorted[i].first && it->first.second == base + sorted[i].second && it->second == owner[sorted[i].first])) return std::string(Str("range %zu is another", i));
    if (!(i == sorted.size())) return std::string("ranges are missing");
    return "";
  });
  SIM_REQUIRE(r.Ok() && r.out.empty(), "wrong-range", r.Ok() ? r.out : "died: " + r.Describe());
}
