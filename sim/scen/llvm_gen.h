// Generated LLVM sample profiles, in every input format.
#ifndef LLVM_GEN_H_
#define LLVM_GEN_H_
#include "llvm_model.h"
namespace lm {
using sim::Choose;

const char* const kStrip[] = {"__strip_all_special_$erqweriwe2313541__", "_ZNK16GWSLogEntryProto18_InternalSerializeEPhPN6proto22io19EpsCopyOutputStreamE"};
const char* const kSole[] = {"__keep_sole_special_$sdlfa3293481293__"};
const char* const kCold[] = {"__cxx_global_var_init", "_GLOBAL__sub_I_", "__keep_cold_special_$203128ksjldfaskf__"};
inline bool Starts(const std::string& s, const char* p) { return !s.compare(0, strlen(p), p); }
template <size_t N> bool Any(const std::string& s, const char* const (&v)[N]) { for (auto p : v) if (Starts(s, p)) return true; return false; }

inline std::string Name() {
  int k = Choose(10, "name-kind");
  static const char* base[] = {"main", "foo", "bar", "_ZN3abcC4Ev", "_ZNSt6vectorIiE4pushEv", "a_rather_long_function_name", "g", "zed", "qux", "inl"};
  if (k == 8) {
    const char* s[] = {kStrip[0], kStrip[1], kSole[0], kSole[0], kCold[0], kCold[1], kCold[2]};
    std::string r = s[Choose(7, "special")];
    return Choose(2, "special-suffix") ? r + (Choose(2, "which") ? "_x" : ".17") : r;
  }
  if (k == 9) return Str("n%lu", (unsigned long)Choose(200, "n"));
  return base[Choose(10, "base")];
}
inline uint64_t Cnt() {
  switch (Choose(5, "count-kind")) {
    case 4: return uint64_t{1} << Choose(40, "count");
    case 3: return Choose(3, "count");
    default: return 1 + Choose(400, "count");
  }
}
inline Off AnOff() {
  Off o; o.line = Choose(4, "line-kind") ? 1 + Choose(12, "line") : Choose(65536, "big-line");
  if (Choose(3, "with-disc") == 2) o.disc = Choose(5, "disc-kind") ? Choose(8, "disc") : Choose(1u << 31, "big-disc");
  return o;
}
// A function nests up to 4 levels, or (narrow) in one long chain.
inline Fn GenFn(int depth, int chain = 0) {
  Fn f;
  for (int i = Choose(5, "positions"); i > 0; --i) {
    Pos& p = f.pos[AnOff()];
    p.count = Cnt();
    if (Choose(3, "targets") == 2) for (int k = 1 + Choose(5, "ntargets"); k > 0; --k) p.targets[Name()] = Choose(4, "tie") ? Cnt() : 7;
  }
  if (depth < 4) for (int i = Choose(depth == 1 ? 5 : 3, "inlined"); i > 0; --i) {
    Off o = AnOff(); if (Choose(3, "same-loc") && !f.calls.empty()) o = f.calls.begin()->first.first;
    Fn& c = f.calls[{o, Name()}];
    c = GenFn(depth + 1, chain);
  }
  else if (depth < chain) f.calls[{AnOff(), Name()}] = GenFn(depth + 1, chain);
  f.total = f.Sum();
  if (depth == 1) f.head = Choose(3, "head") ? Cnt() : 0;
  switch (Choose(6, "total-kind")) { case 4: f.total += Cnt(); break; case 5: f.total = f.total / 2; break; }
  return f;
}
inline Profile GenProfile() {
  Profile p;
  for (int i = Choose(7, "functions"); i >= 0; --i) {
    std::string n = Name();
    Fn f = Choose(12, "long-chain") == 11 ? GenFn(1, 5 + Choose(30, "levels")) : GenFn(1);
    if (Choose(8, "header-only") == 7) { f.pos.clear(); f.calls.clear(); f.total = Cnt(); }
    p.fns[n] = f;
  }
  return p;
}
// The text format has no symbol list and no flags.
inline std::string Encode(Profile* p) {
  int k = Choose(4, "input-format");
  if (k < 2) return Text(*p);
  if (k == 2) return Binary(*p, llvm::sampleprof::SPF_Binary, false);
  p->fs = Choose(4, "fs") == 3;
  if (Choose(2, "list")) { p->has_list = true; for (int i = 1 + Choose(6, "listed"); i > 0; --i) p->symbols.insert(Name()); }
  return Binary(*p, llvm::sampleprof::SPF_Ext_Binary, Choose(3, "compress") == 2);
}

}  // namespace lm
#endif
