// Repacks a .dwp file: same units, another layout of the file and of its index, and units nobody asks for.
#ifndef SIM_DWP_GEN_H_
#define SIM_DWP_GEN_H_
#include <elf.h>
#include <string.h>

#include <map>
#include <string>
#include <utility>
#include <vector>

#include "../core/sim.h"

namespace dwpgen {
inline uint32_t U32(const std::string& s, size_t o) { uint32_t v; memcpy(&v, s.data() + o, 4); return v; }
inline uint64_t U64(const std::string& s, size_t o) { uint64_t v; memcpy(&v, s.data() + o, 8); return v; }
template <typename T> void Put(std::string& s, T v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); }
typedef std::vector<std::pair<std::string, std::string>> Sections;
inline Sections Read(const std::string& b) {
  Elf64_Ehdr eh; memcpy(&eh, b.data(), sizeof eh);
  std::vector<Elf64_Shdr> sh(eh.e_shnum); memcpy(sh.data(), b.data() + eh.e_shoff, eh.e_shnum * sizeof(Elf64_Shdr));
  Sections v;
  for (auto& s : sh) if (s.sh_type != SHT_NULL) v.push_back({b.data() + sh[eh.e_shstrndx].sh_offset + s.sh_name, b.substr(s.sh_offset, s.sh_size)});
  return v;
}
inline std::string Write(const Sections& v, int machine) {
  Elf64_Ehdr eh; memset(&eh, 0, sizeof eh); memcpy(eh.e_ident, ELFMAG, SELFMAG);
  eh.e_ident[EI_CLASS] = ELFCLASS64; eh.e_ident[EI_DATA] = ELFDATA2LSB; eh.e_ident[EI_VERSION] = 1;
  eh.e_type = ET_REL; eh.e_machine = machine; eh.e_version = 1; eh.e_ehsize = sizeof eh; eh.e_shentsize = sizeof(Elf64_Shdr);
  eh.e_shnum = v.size() + 2; eh.e_shstrndx = v.size() + 1;
  std::string b(sizeof eh, '\0'), names(1, '\0'), heads(sizeof(Elf64_Shdr), '\0');
  auto add = [&](const std::string& name, const std::string& data, uint32_t type, uint32_t nameoff) {
    while (b.size() % 8) b.push_back('\0');
    Elf64_Shdr s; memset(&s, 0, sizeof s);
    s.sh_name = nameoff; s.sh_type = type; s.sh_offset = b.size(); s.sh_size = data.size(); s.sh_addralign = 1;
    b += data; Put(heads, s);
  };
  for (auto& [name, data] : v) { uint32_t o = names.size(); names += name; names.push_back('\0'); add(name, data, SHT_PROGBITS, o); }
  uint32_t o = names.size(); names += ".shstrtab"; names.push_back('\0'); add(".shstrtab", names, SHT_STRTAB, o);
  while (b.size() % 8) b.push_back('\0');
  eh.e_shoff = b.size(); b += heads; memcpy(&b[0], &eh, sizeof eh);
  return b;
}
enum { kInfo = 1, kAbbrev = 3, kStrOffsets = 6 };
struct Unit { uint64_t id; std::map<uint32_t, std::string> part; bool real = true; };
struct Result { std::string bytes; int version = 2; size_t units = 0, dropped = 0, collisions = 0; };

// `drop`: leave out some units (they are found elsewhere).
inline Result Repack(const std::string& image, bool drop) {
  using sim::Choose;
  Elf64_Ehdr eh; memcpy(&eh, image.data(), sizeof eh);
  std::map<std::string, std::string> sec;
  for (auto& [n, d] : Read(image)) sec[n] = d;
  static const std::map<uint32_t, const char*> kName = {{kInfo, ".debug_info.dwo"}, {kAbbrev, ".debug_abbrev.dwo"}, {kStrOffsets, ".debug_str_offsets.dwo"}};
  const std::string& ix = sec[".debug_cu_index"];
  uint32_t cols = U32(ix, 4), units = U32(ix, 8), slots = U32(ix, 12);
  size_t rows = 16 + slots * 12, offs = rows + cols * 4, sizes = offs + cols * 4 * units;
  std::vector<Unit> u;
  Result res;
  for (uint32_t s = 0; s < slots; ++s) {
    uint32_t row = U32(ix, 16 + slots * 8 + s * 4);
    if (!row) continue;
    if (drop && Choose(2, "drop-unit")) { ++res.dropped; continue; }
    Unit x; x.id = U64(ix, 16 + s * 8);
    for (uint32_t c = 0; c < cols; ++c) {
      auto it = kName.find(U32(ix, rows + c * 4));
      if (it != kName.end()) x.part[it->first] = sec[it->second].substr(U32(ix, offs + ((row - 1) * cols + c) * 4), U32(ix, sizes + ((row - 1) * cols + c) * 4));
    }
    u.push_back(x);
  }
  // Other units, some with signatures that meet the real ones in the table.
  size_t nreal = u.size();
  for (size_t i = 0, n = Choose(3, "few") ? Choose(12, "others") : Choose(60, "others"); i < n; ++i) {
    Unit x; x.real = false;
    x.id = sim::Choose(UINT64_MAX, "signature");
    if (nreal && Choose(3, "collide")) { uint64_t r = u[Choose(nreal, "with")].id; x.id = Choose(3, "both-hashes") ? (x.id << 32 | uint32_t(r)) : ((r & 0x00ffffff00ffffffull) | (x.id & 0xff000000ff000000ull)); }
    for (auto& k : kName) { std::string& p = x.part[k.first]; for (size_t j = 0, m = Choose(40, "part-size"); j < m; ++j) p.push_back(char(Choose(256, "byte"))); }
    bool taken = x.id == 0;
    for (auto& y : u) taken |= y.id == x.id;
    if (!taken) u.push_back(x);
  }
  // Signatures of dropped units must stay absent.
  if (drop) for (uint32_t s = 0; s < slots; ++s) for (size_t j = nreal; j < u.size();) if (u[j].id == U64(ix, 16 + s * 8)) u.erase(u.begin() + j); else ++j;
  sim::Shuffle(u, "unit-order");
  res.units = u.size();
  res.version = Choose(3, "v1") == 2 ? 1 : 2;
  uint32_t nslots = 0;
  if (!u.empty()) { nslots = 1; while (nslots <= u.size() * 3 / 2) nslots *= 2; nslots <<= Choose(3, "sparse"); }
  std::vector<uint64_t> hash(nslots); std::vector<int> at(nslots, -1);
  std::vector<size_t> order; for (size_t i = 0; i < u.size(); ++i) order.push_back(i);
  sim::Shuffle(order, "insertion-order");
  for (size_t i : order) {
    uint64_t id = u[i].id; uint32_t h = uint32_t(id) & (nslots - 1), step = (uint32_t(id >> 32) & (nslots - 1)) | 1;
    while (at[h] >= 0) { h = (h + step) & (nslots - 1); res.collisions += u[i].real; }
    at[h] = int(i); hash[h] = id;
  }
  Sections out;
  std::string index; Put<uint32_t>(index, res.version);
  auto extra = [&] { if (Choose(4, "extra-section") == 3) out.push_back({sim::Pick(std::vector<std::string>{".debug_line.dwo", ".debug_loc.dwo", ".debug_macro.dwo"}, "extra"), std::string(Choose(50, "extra-size"), '\x5a')}); };
  if (res.version == 1) {
    // Every unit has sections of its own; a pool lists their numbers.
    extra();
    std::string pool; std::vector<uint32_t> start(u.size());
    if (Choose(2, "pool-hole")) Put<uint32_t>(pool, 0);
    for (size_t i = 0; i < u.size(); ++i) {
      std::vector<uint32_t> idx;
      std::vector<std::pair<uint32_t, std::string>> parts(u[i].part.begin(), u[i].part.end());
      sim::Shuffle(parts, "part-order");
      for (auto& [k, d] : parts) { out.push_back({kName.at(k), d}); idx.push_back(out.size()); }
      if (Choose(3, "loc") == 2) { out.push_back({".debug_loc.dwo", "xyz"}); idx.push_back(out.size()); sim::Shuffle(idx, "index-order"); }
      start[i] = pool.size() / 4;
      for (uint32_t k : idx) Put(pool, k);
      Put<uint32_t>(pool, 0);
    }
    Put<uint32_t>(index, 0); Put<uint32_t>(index, u.size()); Put<uint32_t>(index, nslots);
    for (uint64_t h : hash) Put(index, h);
    for (int a : at) Put<uint32_t>(index, a < 0 ? 0 : start[a]);
    index += pool;
    out.push_back({".debug_str.dwo", sec[".debug_str.dwo"]}); extra();
    out.push_back({".debug_cu_index", index});
  } else {
    std::vector<uint32_t> col; for (auto& k : kName) col.push_back(k.first);
    for (uint32_t k : {2u, 4u, 5u, 7u, 8u}) if (Choose(3, "other-column") == 2) col.push_back(k);
    sim::Shuffle(col, "column-order");
    std::map<uint32_t, std::string> data; std::vector<std::map<uint32_t, uint32_t>> off(u.size());
    for (auto& k : kName) {
      sim::Shuffle(order, "contribution-order");
      for (size_t i : order) { if (Choose(5, "gap") == 4) data[k.first] += std::string(8, '\xee'); off[i][k.first] = data[k.first].size(); data[k.first] += u[i].part[k.first]; }
    }
    Put<uint32_t>(index, col.size()); Put<uint32_t>(index, u.size()); Put<uint32_t>(index, nslots);
    for (uint64_t h : hash) Put(index, h);
    for (int a : at) Put<uint32_t>(index, a + 1);
    for (uint32_t c : col) Put(index, c);
    for (size_t i = 0; i < u.size(); ++i) for (uint32_t c : col) Put<uint32_t>(index, off[i].count(c) ? off[i][c] : Choose(100000, "other-offset"));
    for (size_t i = 0; i < u.size(); ++i) for (uint32_t c : col) Put<uint32_t>(index, u[i].part.count(c) ? u[i].part[c].size() : Choose(100000, "other-size"));
    for (auto& k : kName) out.push_back({k.second, data[k.first]});
    out.push_back({".debug_str.dwo", sec[".debug_str.dwo"]}); out.push_back({".debug_cu_index", index}); extra();
    sim::Shuffle(out, "section-order");
  }
  res.bytes = Write(out, eh.e_machine);
  return res;
}
}  // namespace dwpgen
#endif
