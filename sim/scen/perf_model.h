// A random perf.data file and the samples it contributes.
#ifndef PERF_MODEL_H_
#define PERF_MODEL_H_
#include <functional>
#include <regex>
#include <set>
#include "perf_gen.h"
#include "samples_model.h"
namespace perfgen {
inline const char* kFiles[] = {"/usr/bin/app", "/usr/bin/other", "/lib/app", "/usr/bin/app.so", "[kernel.kallsyms]_stext", "[kernel.kallsyms]", "[kernel.kallsyms]_text", "/boot/vmlinux", "/tmp/xapp"};
// Build ids are 20 bytes, 40 hex digits.
inline std::string IdBytes(int k) { return std::string(20, static_cast<char>(0x10 + k)); }
inline std::string IdHex(int k) { std::string h; for (int i = 0; i < 20; ++i) h += sim::Str("%02x", 0x10 + k); return h; }

struct Expect { samples::Samples s; std::map<uint64_t, uint64_t> first_time; bool kernel = false; };

// One perf.data file and what it contributes.
// add_map, if set, makes a mapping of file k for a process.
inline std::string GenFile(const std::string& build_id, const std::string& re, Expect* e, Gen g = Gen(),
                           const std::function<void(Gen*, uint32_t, int)>& make_map = nullptr) {
  int npid = 1 + sim::Choose(3, "pids");
  std::vector<uint32_t> pids;
  for (int i = 0; i < npid; ++i) pids.push_back(100 + i);
  auto add_map = [&] {
    uint32_t pid = pids[sim::Choose(pids.size(), "pid")];
    if (make_map) { make_map(&g, pid, sim::Choose(9, "file")); return; }
    uint64_t start = 0x1000000 * (1 + sim::Choose(6, "slot"));
    g.Mmap(pid, kFiles[sim::Choose(9, "file")], start, 0x1000 << sim::Choose(13, "len"), 0x1000 * sim::Choose(3, "pgoff"));
  };
  for (int i = 1 + sim::Choose(4, "maps"); i > 0; --i) add_map();
  // Which file names carry which build id.
  std::map<std::string, int> ids;
  std::set<std::string> own;  // files that carry the wanted id by construction
  if (make_map) for (auto& b : g.proto.build_ids()) own.insert(b.filename());
  else for (int i = 0; i < 9; ++i) if (sim::Choose(3, "has-id") == 0) {
    auto* b = g.proto.add_build_ids(); int k = sim::Choose(3, "id");
    b->set_filename(kFiles[i]); b->set_build_id_hash(IdBytes(k)); ids[kFiles[i]] = k;
  }
  // The focus: by build id, else by name.
  std::set<std::string> focus; bool kernel = false;
  if (!build_id.empty()) {
    for (auto& x : ids) if (IdHex(x.second) == build_id) {
      const std::string& n = x.first;
      if (n == "[kernel.kallsyms]" || (n.size() >= 7 && n.substr(n.size() - 7) == "vmlinux")) {
        kernel = true;
        focus.insert({"[kernel.kallsyms]", "[kernel.kallsyms]_stext", "[kernel.kallsyms]_text"});
      } else focus.insert(n);
    }
  }
  std::regex rx(re);
  auto match = [&](const Where& w) {
    if (!build_id.empty()) return w.known && focus.count(w.file) > 0;
    return std::regex_search(w.file, rx);
  };
  if (!build_id.empty()) for (auto& n : own) {
    if (n == "[kernel.kallsyms]" || n == "/boot/vmlinux") focus.insert({"[kernel.kallsyms]", "[kernel.kallsyms]_stext", "[kernel.kallsyms]_text"});
    else focus.insert(n);
  }
  bool nothing = !build_id.empty() && focus.empty();
  if (!nothing && kernel) e->kernel = true;
  for (int i = sim::Choose(20, "samples"); i > 0; --i) {
    if (sim::Choose(10, "late-map") == 9) add_map();
    uint32_t pid = pids[sim::Choose(pids.size(), "pid")];
    auto* ev = g.proto.add_events();
    ev->mutable_header()->set_type(quipper::PERF_RECORD_SAMPLE);
    ev->set_timestamp(g.clock);
    auto* s = ev->mutable_sample_event();
    s->set_pid(pid); s->set_tid(pid); s->set_ip(g.AnyAddr(pid)); s->set_sample_time_ns(g.clock);
    uint64_t now = g.clock++;
    int nb = sim::Choose(8, "branches");
    for (int k = 0; k < nb; ++k) {
      auto* b = s->add_branch_stack();
      if (k && sim::Choose(6, "dup") == 5) { *b = s->branch_stack(k - 1); continue; }
      b->set_from_ip(g.AnyAddr(pid)); b->set_to_ip(g.AnyAddr(pid));
      // Often a consistent fallthrough: target just before the next branch.
      static const uint64_t edge[] = {1u << 20, (1u << 20) + 1, (1u << 20) - 1, 0x1000, 0x1001};
      uint64_t len = sim::Choose(8, "edge-len") ? sim::Choose(24, "near-len") : edge[sim::Choose(5, "which-edge")];
      if (k ? sim::Choose(4, "near") : len > 0xfff) b->set_to_ip((k ? s->branch_stack(k - 1).from_ip() : b->from_ip()) - len);
      if (sim::Choose(6, "spec") == 5) b->set_spec(1 + sim::Choose(3, "spec-kind"));
    }
    if (nothing) continue;
    // Reference semantics.
    Where ip = g.Resolve(pid, s->ip());
    if (match(ip)) { e->s.addrs[ip.off]++; e->first_time.insert({ip.off, now}); }
    int st = 0;
    while (st < nb && s->branch_stack(st).spec() == 1) ++st;
    for (int k = st; k < nb; ++k) {
      auto from = g.Resolve(pid, s->branch_stack(k).from_ip()), to = g.Resolve(pid, s->branch_stack(k).to_ip());
      if (k == st) { if (match(from) && match(to)) e->s.branches[{from.off, to.off}]++; continue; }
      if (s->branch_stack(k).spec() == 1 || !match(to)) continue;
      auto prev = g.Resolve(pid, s->branch_stack(k - 1).from_ip());
      if (k == 1) {
        auto f0 = g.Resolve(pid, s->branch_stack(0).from_ip()), t0 = g.Resolve(pid, s->branch_stack(0).to_ip());
        if (f0.off == from.off && t0.off == to.off && f0.off - t0.off > 0x1000) continue;
      }
      if (!match(prev)) continue;  // offsets of different files make no range
      if (prev.off < to.off || prev.off - to.off > (1u << 20)) continue;
      e->s.ranges[{to.off, prev.off}]++;
      if (match(from)) e->s.branches[{from.off, to.off}]++;
    }
  }
  return quipper::SerializePerfData(g.proto);
}
// ---- Arm SPE (simple reader)
using Rec = quipper::ArmSpeDecoder::Record;
struct SpeExpect { samples::Samples s; bool ok = false; };
// `add` maps the k-th of the four names, `pick` gives an address in a mapping.
using sim::Choose;
inline std::string GenSpe(SpeExpect* e, const std::string& bin = "app", std::function<void(Gen*, int i, int k)> add = {}, std::function<uint64_t(const Map&)> pick = {}) {
  Gen g;
  const char* names[] = {"/usr/bin/app", "/usr/bin/other", "/lib/libapp.so", "/opt/x/app"};
  int nm = add ? 1 + Choose(3, "maps") : Choose(4, "maps");
  for (int i = 0; i < nm; ++i) { int k = Choose(4, "file"); if (add) add(&g, i, k); else g.Mmap(100, names[k], 0x1000000 * (1 + i), 0x1000 << Choose(4, "len"), 0x1000 * Choose(3, "pgoff")); }
  const Map* m = nullptr;
  if (nm) for (auto& x : g.maps[100]) { std::string b = x.file.substr(x.file.rfind('/') + 1); if (b == bin) { m = &x; break; } }
  int na = add ? 1 + Choose(3, "auxtraces") : Choose(4, "auxtraces"); bool any = false; uint64_t n = 0;
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> taken; std::map<uint64_t, uint64_t> nottaken;
  for (int a = 0; a < na; ++a) {
    std::string t;
    for (int i = Choose(16, "records"); i > 0; --i) {
      Rec r; uint64_t base = m ? m->start : 0x1000000;
      auto addr = [&]() -> uint64_t { return Choose(10, "wild") == 9 ? 4 * Choose(1 << 20, "wild-addr") : m && pick ? pick(*m) : base + 4 * Choose(40, "insn"); };
      r.ip.addr = Choose(12, "zero-ip") == 11 ? 0 : addr(); r.tgt_br_ip.addr = Choose(8, "zero-target") == 7 ? 0 : addr();
      r.event.retired = Choose(8, "retired") != 7; r.op.is_br_eret = Choose(8, "branch") != 7;
      r.op.br_eret.br_cond = Choose(2, "cond"); r.event.cond_not_taken = Choose(3, "not-taken") == 2;
      r.context.el1 = true; r.context.id = 100;
      t += quipper::ArmSpeDecoder::Encode(r);
      if (!r.event.retired || !r.op.is_br_eret) continue;
      auto off = [&](uint64_t v) -> uint64_t { return m && v >= m->start && v < m->start + m->len ? v - m->start + m->pgoff : 0; };
      uint64_t f = r.ip.addr ? off(r.ip.addr) : 0;
      if (!f) continue;
      if (r.op.br_eret.br_cond && r.event.cond_not_taken) { nottaken[f]++; ++n; continue; }
      uint64_t to = r.tgt_br_ip.addr ? off(r.tgt_br_ip.addr) : 0;
      if (to) { taken[{f, to}]++; ++n; }
    }
    auto* ev = g.proto.add_events(); ev->mutable_header()->set_type(quipper::PERF_RECORD_AUXTRACE);
    ev->mutable_auxtrace_event()->set_trace_data(t); any = true;
  }
  e->ok = m && any && n > 0;
  if (e->ok) {
    e->s.branches = taken; e->s.addrs = nottaken;
    // Fallthrough: from every branch target up to each branch in turn, with the
    // weight of arriving there, until the next target or 4 KiB without one.
    std::map<uint64_t, uint64_t> in; std::set<uint64_t> br;
    for (auto& x : taken) { in[x.first.second] += x.second; br.insert(x.first.first); }
    for (auto& x : nottaken) br.insert(x.first);
    for (auto it = in.begin(); it != in.end(); ++it) {
      uint64_t limit = std::next(it) == in.end() ? it->first + 0x1000 : std::next(it)->first, at = it->first, w = it->second;
      for (uint64_t b : br) {
        if (b < at || b >= limit || !w) continue;
        e->s.ranges[{at, b}] += w;
        w = nottaken.count(b) ? nottaken[b] : 0; at = b + 4;
      }
      if (w && at < limit && limit - 4 >= at) e->s.ranges[{at, limit - 4}] += w;
    }
  }
  return quipper::SerializePerfData(g.proto);
}
}  // namespace perfgen
#endif
