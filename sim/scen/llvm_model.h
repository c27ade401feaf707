// Reference model of an LLVM sample profile: plain maps, its own text writer,
// and a decoder based on LLVM's own reader (not the repository's).
#ifndef LLVM_MODEL_H_
#define LLVM_MODEL_H_
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "../core/sim.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/ProfileData/SampleProf.h"
#include "llvm/ProfileData/SampleProfReader.h"
#include "llvm/ProfileData/SampleProfWriter.h"
#include "llvm/Support/MD5.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/VirtualFileSystem.h"
#include "llvm/Support/raw_ostream.h"

namespace lm {
using sim::Str;
struct Off {
  uint32_t line = 0, disc = 0;
  bool operator<(const Off& o) const { return line != o.line ? line < o.line : disc < o.disc; }
};
struct Pos { uint64_t count = 0; std::map<std::string, uint64_t> targets; };
struct Fn {
  uint64_t total = 0, head = 0;
  std::map<Off, Pos> pos;
  std::map<std::pair<Off, std::string>, Fn> calls;
  bool Empty() const {
    if (!pos.empty()) return false;
    for (auto& c : calls) if (!c.second.Empty()) return false;
    return true;
  }
  uint64_t Sum() const {
    uint64_t t = 0;
    for (auto& p : pos) t += p.second.count;
    for (auto& c : calls) t += c.second.Sum();
    return t;
  }
};
struct Profile {
  std::map<std::string, Fn> fns;
  std::set<std::string> symbols;  // the symbol list
  bool has_list = false, fs = false, partial = false;
};
inline void CanonFn(const Fn& f, int ind, std::string* s) {
  for (auto& p : f.pos) {
    *s += Str("%*s@%u.%u %lu", ind, "", p.first.line, p.first.disc, (unsigned long)p.second.count);
    for (auto& t : p.second.targets) *s += Str(" [%s:%lu]", t.first.c_str(), (unsigned long)t.second);
    *s += "\n";
  }
  for (auto& c : f.calls) {
    *s += Str("%*s>%u.%u %s total=%lu\n", ind, "", c.first.first.line, c.first.first.disc, c.first.second.c_str(), (unsigned long)c.second.total);
    CanonFn(c.second, ind + 1, s);
  }
}
inline std::string Canon(const Profile& p) {
  std::string s;
  for (auto& f : p.fns) {
    s += Str("fn %s total=%lu head=%lu\n", f.first.c_str(), (unsigned long)f.second.total, (unsigned long)f.second.head);
    CanonFn(f.second, 1, &s);
  }
  for (auto& n : p.symbols) s += "listed " + n + "\n";
  s += Str("list=%d fs=%d partial=%d\n", p.has_list, p.fs, p.partial);
  return s;
}
inline void TextFn(const Fn& f, int ind, std::string* s) {
  auto loc = [](const Off& o) { return o.disc ? Str("%u.%u", o.line, o.disc) : Str("%u", o.line); };
  for (auto& p : f.pos) {
    *s += std::string(ind, ' ') + loc(p.first) + Str(": %lu", (unsigned long)p.second.count);
    for (auto& t : p.second.targets) *s += Str(" %s:%lu", t.first.c_str(), (unsigned long)t.second);
    *s += "\n";
  }
  for (auto& c : f.calls) {
    *s += std::string(ind, ' ') + loc(c.first.first) + ": " + c.first.second + Str(":%lu\n", (unsigned long)c.second.total);
    TextFn(c.second, ind + 1, s);
  }
}
inline std::string Text(const Profile& p) {
  std::string s;
  for (auto& f : p.fns) {
    s += f.first + Str(":%lu:%lu\n", (unsigned long)f.second.total, (unsigned long)f.second.head);
    TextFn(f.second, 1, &s);
  }
  return s;
}
using llvm::sampleprof::FunctionId;
using llvm::sampleprof::FunctionSamples;
inline void ToLlvm(const std::string& name, const Fn& f, FunctionSamples* o, bool top) {
  o->setFunction(FunctionId(llvm::StringRef(name)));
  o->addTotalSamples(f.total);
  if (top) o->addHeadSamples(f.head);
  for (auto& p : f.pos) {
    o->addBodySamples(p.first.line, p.first.disc, p.second.count);
    for (auto& t : p.second.targets) o->addCalledTargetSamples(p.first.line, p.first.disc, FunctionId(llvm::StringRef(t.first)), t.second);
  }
  for (auto& c : f.calls)
    ToLlvm(c.first.second, c.second, &o->functionSamplesAt(llvm::sampleprof::LineLocation(c.first.first.line, c.first.first.disc))[FunctionId(llvm::StringRef(c.first.second))], false);
}
// The profile's bytes in a binary format, as LLVM's own writer makes them.
inline std::string Binary(const Profile& p, llvm::sampleprof::SampleProfileFormat fmt, bool compress) {
  llvm::sampleprof::SampleProfileMap m;
  for (auto& f : p.fns) ToLlvm(f.first, f.second, &m[FunctionId(llvm::StringRef(f.first))], true);
  const std::string tmp = "/sim/.encode";  // the writer needs a real descriptor
  {
    FunctionSamples::ProfileIsFS = p.fs;
    auto w = llvm::sampleprof::SampleProfileWriter::create(tmp, fmt);
    if (!w) sim::Fail("harness", "no writer");
    llvm::sampleprof::ProfileSymbolList list;
    for (auto& n : p.symbols) list.add(n);
    if (p.has_list) (*w)->setProfileSymbolList(&list);
    if (compress) (*w)->setToCompressAllSections();
    if ((*w)->write(m)) sim::Fail("harness", "write failed");
    FunctionSamples::ProfileIsFS = false;
  }
  std::string data = sim::Disk::Read(tmp);
  sim::Disk::Remove(tmp);
  return data;
}
inline std::string NameOf(const FunctionId& id) { return id.isStringRef() ? id.stringRef().str() : Str("%lu", (unsigned long)id.getHashCode()); }
inline void FromLlvm(const FunctionSamples& s, Fn* f) {
  f->total = s.getTotalSamples(); f->head = s.getHeadSamples();
  for (auto& b : s.getBodySamples()) {
    Pos& p = f->pos[{b.first.LineOffset, b.first.Discriminator}];
    p.count += b.second.getSamples();
    for (auto& t : b.second.getCallTargets()) p.targets[NameOf(t.first)] += t.second;
  }
  for (auto& l : s.getCallsiteSamples()) for (auto& c : l.second) { Fn& n = f->calls[{{l.first.LineOffset, l.first.Discriminator}, NameOf(c.first)}]; FromLlvm(c.second, &n); n.head = 0; }
}
// False when LLVM does not accept the bytes. A text profile must have the text format.
inline bool Decode(const std::string& data, Profile* p, llvm::sampleprof::SampleProfileFormat* fmt = nullptr) {
  llvm::LLVMContext c;
  auto b = llvm::MemoryBuffer::getMemBufferCopy(data, "profile");
  FunctionSamples::ProfileIsFS = false;
  auto r = llvm::sampleprof::SampleProfileReader::create(b, c, *llvm::vfs::getRealFileSystem(), llvm::sampleprof::FSDiscriminatorPass::PassLast);
  if (!r) return false;
  if ((*r)->read()) return false;
  for (auto& f : (*r)->getProfiles()) FromLlvm(f.second, &p->fns[NameOf(f.second.getFunction())]);
  p->fs = FunctionSamples::ProfileIsFS;
  p->partial = (*r)->getFormat() == llvm::sampleprof::SPF_Text ? false : (*r)->getSummary().isPartialProfile();
  if (auto l = (*r)->getProfileSymbolList()) {
    p->has_list = l->size() > 0;
    std::string d; llvm::raw_string_ostream os(d); l->dump(os); os.flush();
    // One name per line after the heading.
    size_t i = 0;
    while (i < d.size()) { size_t e = d.find('\n', i); std::string n = d.substr(i, e - i); if (!n.empty() && n.find("===") == std::string::npos) p->symbols.insert(n); i = e + 1; }
  }
  if (fmt) *fmt = (*r)->getFormat();
  return true;
}
inline Fn Hashed(const Fn& f) {
  auto h = [](const std::string& n) { return Str("%lu", (unsigned long)llvm::MD5Hash(n)); };
  Fn r; r.total = f.total; r.head = f.head;
  for (auto& p : f.pos) { Pos& q = r.pos[p.first]; q.count = p.second.count; for (auto& t : p.second.targets) q.targets[h(t.first)] += t.second; }
  for (auto& c : f.calls) r.calls[{c.first.first, h(c.first.second)}] = Hashed(c.second);
  return r;
}
}  // namespace lm
#endif
