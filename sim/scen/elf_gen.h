// Random ELF images and what they contain.
#ifndef SIM_ELF_GEN_H_
#define SIM_ELF_GEN_H_
#include <elf.h>
#include <string.h>

#include <string>
#include <vector>

#include "../core/sim.h"

namespace elfgen {
struct Section { std::string name, data; uint32_t type, link = 0, info = 0; uint64_t flags, addr, align, entsize = 0, offset = 0; };
struct Sym { std::string name; uint64_t value, size; int bind, type, shndx; };
struct Seg { uint32_t type, flags; uint64_t offset, vaddr, paddr, filesz, memsz, align; };
struct Image {
  bool is64, dwp; int etype, machine; std::vector<Section> sections;  // [0] is the null section
  std::vector<Sym> symtab, dynsym; bool has_symtab = false, has_dynsym = false;
  std::vector<Seg> segs; std::vector<std::string> build_ids; std::string bytes;
};
template <typename T> void Put(std::string& s, const T& v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); }
inline uint64_t Word(bool is64, const char* tag) { uint64_t v = sim::Choose(3, tag) ? sim::Choose(1 << 20, tag) : sim::Choose(UINT64_MAX, tag); return is64 ? v : uint32_t(v); }

template <typename Ehdr, typename Shdr, typename Phdr, typename SymT> void Layout(Image& im) {
  using sim::Choose;
  std::string& b = im.bytes;
  auto syms = [&](const std::vector<Sym>& v, std::string* data, std::string* str) {
    str->assign(1, '\0'); data->assign(sizeof(SymT), '\0');
    for (auto& s : v) {
      SymT t; memset(&t, 0, sizeof t);
      if (!s.name.empty()) { t.st_name = str->size(); *str += s.name; str->push_back('\0'); }
      t.st_value = s.value; t.st_size = s.size; t.st_info = (s.bind << 4) | s.type; t.st_shndx = s.shndx;
      Put(*data, t);
    }
  };
  // Section list: caller's sections, symbol tables and the name table, shuffled.
  std::vector<Section> v(im.sections.begin(), im.sections.end());
  auto add_syms = [&](const std::vector<Sym>& list, uint32_t type, const char* name, const char* strname) {
    Section s, t; s.name = name; s.type = type; s.flags = 0; s.addr = 0; s.align = 8; s.entsize = sizeof(SymT); s.info = 1;
    t.name = strname; t.type = SHT_STRTAB; t.flags = 0; t.addr = 0; t.align = 1;
    syms(list, &s.data, &t.data); v.push_back(s); v.push_back(t);
  };
  if (im.has_symtab) add_syms(im.symtab, SHT_SYMTAB, ".symtab", ".strtab");
  if (im.has_dynsym) add_syms(im.dynsym, SHT_DYNSYM, ".dynsym", ".dynstr");
  Section names; names.name = ".shstrtab"; names.type = SHT_STRTAB; names.flags = 0; names.addr = 0; names.align = 1;
  v.push_back(names);
  sim::Shuffle(v, "section-order");
  Section null; null.type = SHT_NULL; null.flags = null.addr = null.align = 0;
  v.insert(v.begin(), null);
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i].type != SHT_SYMTAB && v[i].type != SHT_DYNSYM) continue;
    for (size_t j = 0; j < v.size(); ++j)
      if (v[j].name == (v[i].type == SHT_SYMTAB ? ".strtab" : ".dynstr")) v[i].link = j;
  }
  int shstr = 0;
  std::string tab(1, '\0');
  std::vector<uint32_t> nameoff(v.size());
  for (size_t i = 0; i < v.size(); ++i) { if (v[i].name.empty()) continue; nameoff[i] = tab.size(); tab += v[i].name; tab.push_back('\0'); }
  for (size_t i = 0; i < v.size(); ++i) if (v[i].name == ".shstrtab") { v[i].data = tab; shstr = i; }
  Ehdr eh; memset(&eh, 0, sizeof eh);
  memcpy(eh.e_ident, ELFMAG, SELFMAG);
  eh.e_ident[EI_CLASS] = im.is64 ? ELFCLASS64 : ELFCLASS32; eh.e_ident[EI_DATA] = ELFDATA2LSB; eh.e_ident[EI_VERSION] = 1;
  eh.e_type = im.etype; eh.e_machine = im.machine; eh.e_version = 1; eh.e_ehsize = sizeof eh;
  eh.e_phentsize = sizeof(Phdr); eh.e_shentsize = sizeof(Shdr);
  bool extended = Choose(4, "extended-numbering") == 3;
  if (extended) {
    eh.e_shnum = 0; v[0].info = 0;
    bool bigstr = Choose(2, "extended-shstrndx"), bigph = Choose(2, "extended-phnum") && !im.segs.empty();
    eh.e_shstrndx = bigstr ? 0xffff : shstr; if (bigstr) v[0].link = shstr;
    eh.e_phnum = bigph ? 0xffff : im.segs.size(); if (bigph) v[0].info = im.segs.size();
  } else {
    eh.e_shnum = v.size(); eh.e_shstrndx = shstr; eh.e_phnum = im.segs.size();
  }
  b.assign(sizeof eh, '\0');
  bool headers_first = Choose(3, "headers-first") == 2;
  auto pad = [&](size_t a) { while (b.size() % a) b.push_back('\xcc'); };
  auto program_headers = [&] {
    pad(8); eh.e_phoff = im.segs.empty() ? 0 : b.size();
    for (auto& s : im.segs) {
      Phdr p; memset(&p, 0, sizeof p);
      p.p_type = s.type; p.p_flags = s.flags; p.p_offset = s.offset; p.p_vaddr = s.vaddr; p.p_paddr = s.paddr; p.p_filesz = s.filesz; p.p_memsz = s.memsz; p.p_align = s.align;
      Put(b, p);
    }
  };
  size_t hole = 0;
  if (headers_first) { program_headers(); pad(8); hole = b.size(); b.append(v.size() * sizeof(Shdr), '\0'); }
  for (size_t i = 1; i < v.size(); ++i) {
    size_t a = v[i].type == SHT_PROGBITS && Choose(3, "pad-page") == 2 ? 4096 : v[i].align ? v[i].align : 1;
    pad(a); if (Choose(4, "gap") == 3) b.append(v[i].align * (1 + Choose(40, "gap-len")), '\xdd');
    v[i].offset = b.size();
    if (v[i].type != SHT_NOBITS) b += v[i].data;
  }
  if (!headers_first) program_headers();
  pad(8);
  eh.e_shoff = headers_first ? hole : b.size();
  std::string sh;
  for (size_t i = 0; i < v.size(); ++i) {
    Shdr s; memset(&s, 0, sizeof s);
    s.sh_name = nameoff[i]; s.sh_type = v[i].type; s.sh_flags = v[i].flags; s.sh_addr = v[i].addr; s.sh_offset = v[i].offset;
    s.sh_size = i == 0 ? (extended ? v.size() : 0) : v[i].data.size(); s.sh_link = v[i].link; s.sh_info = v[i].info; s.sh_addralign = v[i].align; s.sh_entsize = v[i].entsize;
    Put(sh, s);
  }
  if (headers_first) b.replace(hole, sh.size(), sh); else b += sh;
  memcpy(&b[0], &eh, sizeof eh);
  im.sections = v;
}

inline std::string Blob(size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s.push_back(char(sim::Choose(256, "blob"))); return s; }

inline Image Generate(const std::string& path_hint = "") {
  using sim::Choose;
  Image im;
  im.is64 = !Choose(3, "elf32"); im.dwp = Choose(4, "dwp") == 3;
  static const int types[] = {ET_EXEC, ET_DYN, ET_REL};
  im.etype = types[Choose(3, "e_type")];
  im.machine = Choose(4, "arm") == 3 ? EM_ARM : im.is64 ? (Choose(2, "aarch64") ? EM_AARCH64 : EM_X86_64) : (Choose(2, "ppc") ? EM_PPC : EM_386);
  static const char* names[] = {".text", ".data", ".debug_info", ".zdebug_abbrev", ".debug_line", ".debug_", ".rodata.cst16", ".text.unlikely", "", ".debug_str.dwo", ".zdebug_line"};
  int n = Choose(10, "nsections");
  for (int i = 0; i < n; ++i) {
    Section s; s.name = names[Choose(11, "section-name")];
    s.type = Choose(5, "bits") == 4 ? SHT_NOBITS : SHT_PROGBITS; s.flags = Choose(8, "flags"); s.addr = Word(im.is64, "addr");
    s.align = 1 << Choose(5, "align"); s.data = Blob(1 + Choose(Choose(6, "big") == 5 ? 6000 : 40, "size"));
    s.entsize = Choose(9, "entsize");
    im.sections.push_back(s);
  }
  int notes = Choose(4, "note-sections");
  for (int k = 0; k < notes; ++k) {
    Section s; s.name = k ? ".note.ABI-tag" : ".note.gnu.build-id"; s.type = SHT_NOTE; s.flags = 2; s.addr = 0; s.align = 4;
    int m = 1 + Choose(3, "notes");
    for (int i = 0; i < m; ++i) {
      static const char* owners[] = {"GNU", "GNU", "Go", "stapsdt", "Linux"};
      std::string owner = owners[Choose(5, "owner")]; owner.push_back('\0');
      uint32_t type = Choose(3, "note-type") == 0 ? 3 : Choose(5, "other-type");
      std::string desc = Blob(Choose(3, "desc-kind") == 0 ? 20 : Choose(2, "desc-8") ? 8 : 1 + Choose(24, "desc-len"));
      Put(s.data, uint32_t(owner.size())); Put(s.data, uint32_t(desc.size())); Put(s.data, type);
      s.data += owner; while (s.data.size() % 4) s.data.push_back('\0');
      s.data += desc; while (s.data.size() % 4) s.data.push_back('\0');
      if (type == 3 && owner == std::string("GNU\0", 4) && desc.size() <= 20) {
        std::string hex; for (unsigned char c : desc) hex += sim::Str("%02x", c);
        im.build_ids.push_back(hex);
      }
    }
    im.sections.push_back(s);
  }
  auto gen_syms = [&](std::vector<Sym>& v) {
    int c = Choose(Choose(8, "many") == 7 ? 300 : 12, "nsyms");
    for (int i = 0; i < c; ++i) {
      Sym s; s.name = Choose(8, "unnamed") == 7 ? "" : sim::Str("sym%lu", (unsigned long)Choose(50, "sym-name"));
      s.value = Word(im.is64, "value"); s.size = Choose(500, "symsize"); s.bind = Choose(3, "bind"); s.type = Choose(5, "symtype"); s.shndx = Choose(6, "shndx");
      v.push_back(s);
    }
  };
  im.has_symtab = Choose(5, "no-symtab") != 4; if (im.has_symtab) gen_syms(im.symtab);
  im.has_dynsym = Choose(2, "dynsym"); if (im.has_dynsym) gen_syms(im.dynsym);
  int segs = Choose(5, "segments");
  for (int i = 0; i < segs; ++i) {
    static const uint32_t pt[] = {PT_LOAD, PT_NOTE, PT_PHDR, PT_GNU_STACK, PT_LOAD};
    Seg s{pt[Choose(5, "p_type")], uint32_t(Choose(8, "p_flags")), Word(im.is64, "off"), Word(im.is64, "vaddr"), Word(im.is64, "paddr"), Word(im.is64, "filesz"), Word(im.is64, "memsz"), Word(im.is64, "p_align")};
    im.segs.push_back(s);
  }
  if (im.is64) Layout<Elf64_Ehdr, Elf64_Shdr, Elf64_Phdr, Elf64_Sym>(im); else Layout<Elf32_Ehdr, Elf32_Shdr, Elf32_Phdr, Elf32_Sym>(im);
  // Build ids appear in the order of the shuffled sections; only their number and the single value matter.
  return im;
}
}  // namespace elfgen
#endif
