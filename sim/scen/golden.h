// The recorded line tables of the fixture binaries.
#ifndef GOLDEN_H_
#define GOLDEN_H_
#include <algorithm>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <elf.h>
#include <cstring>
#include "../core/sim.h"
namespace golden {
struct Frame { std::string func, file; unsigned start, line, disc; };
struct Insn { uint64_t addr; unsigned len; std::vector<Frame> stack, lineless; };  // lineless: enclosing functions of code without a line
inline const std::vector<Insn>& Load(const std::string& name) {
  static std::map<std::string, std::vector<Insn>> all;
  auto it = all.find(name);
  if (it != all.end()) return it->second;
  std::vector<Insn>& v = all[name];
  std::istringstream in(sim::Fixture(name + ".golden"));
  std::string l;
  while (std::getline(in, l)) {
    std::istringstream s(l); Insn i; std::string bar; s >> std::hex >> i.addr >> std::dec >> i.len;
    while (s >> bar) { Frame f; s >> f.func >> f.file >> f.start >> f.line >> f.disc; (bar == "~" ? i.lineless : i.stack).push_back(f); }
    v.push_back(i);
  }
  return v;
}
inline const Insn* At(const std::string& name, uint64_t a) {
  const auto& v = Load(name);
  auto it = std::upper_bound(v.begin(), v.end(), a, [](uint64_t x, const Insn& i) { return x < i.addr; });
  if (it == v.begin()) return nullptr;
  --it;
  return a < it->addr + it->len ? &*it : nullptr;
}
struct FuncSym { std::string name; uint64_t addr, size; };
// Symbols of executable code, in symbol table order, straight from the bytes.
inline std::vector<FuncSym> Functions(const std::string& b) {
  std::vector<FuncSym> r;
  auto go = [&](auto eh, auto sh0, auto sym0) {
    memcpy(&eh, b.data(), sizeof eh);
    std::vector<decltype(sh0)> sh(eh.e_shnum);
    for (int i = 0; i < eh.e_shnum; ++i) memcpy(&sh[i], b.data() + eh.e_shoff + i * sizeof sh0, sizeof sh0);
    int text = -1;  // a kernel module: only this section's
    if (eh.e_type == ET_REL) for (int i = 0; i < eh.e_shnum; ++i) if (!strcmp(b.data() + sh[eh.e_shstrndx].sh_offset + sh[i].sh_name, ".text")) text = i;
    for (auto& s : sh) if (s.sh_type == SHT_SYMTAB)
      for (size_t k = 0; k < s.sh_size / sizeof sym0; ++k) {
        decltype(sym0) y; memcpy(&y, b.data() + s.sh_offset + k * sizeof y, sizeof y);
        std::string n = b.data() + sh[s.sh_link].sh_offset + y.st_name;
        bool cold = n.size() > 5 && n.substr(n.size() - 5) == ".cold";
        size_t part = n.rfind(".__part.");
        if (part != std::string::npos && part + 8 < n.size() && n.find_first_not_of("0123456789", part + 8) == std::string::npos) cold = true;
        if (y.st_size && (text < 0 || y.st_shndx == text) && ((y.st_info & 15) == STT_FUNC || cold)) r.push_back({n, y.st_value, y.st_size});
      }
  };
  if (b[EI_CLASS] == ELFCLASS64) go(Elf64_Ehdr{}, Elf64_Shdr{}, Elf64_Sym{}); else go(Elf32_Ehdr{}, Elf32_Shdr{}, Elf32_Sym{});
  return r;
}
inline uint64_t TextOffset(const std::string& b) {  // of a 64-bit image
  Elf64_Ehdr eh; memcpy(&eh, b.data(), sizeof eh);
  auto at = [&](int i) { Elf64_Shdr h; memcpy(&h, b.data() + eh.e_shoff + i * sizeof h, sizeof h); return h; };
  for (int i = 0; i < eh.e_shnum; ++i) if (!strcmp(b.data() + at(eh.e_shstrndx).sh_offset + at(i).sh_name, ".text")) return at(i).sh_offset;
  return 0;
}
}  // namespace golden
#endif
