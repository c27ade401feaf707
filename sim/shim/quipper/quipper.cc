#include <fcntl.h>
#include <unistd.h>
#include <cstdio>
#include <cstring>
#include "quipper/arm_spe_decoder.h"
#include "quipper/perf_parser.h"
#include "quipper/perf_reader.h"
namespace quipper {
static const char kMagic[] = "SIMPERF2";
std::string SerializePerfData(const PerfDataProto& p) {
  std::string b; p.SerializeToString(&b);
  uint64_t n = b.size();
  return std::string(kMagic, 8) + std::string(reinterpret_cast<char*>(&n), 8) + b;
}
bool PerfReader::ReadFile(const std::string& filename) {
  FILE* f = fopen(filename.c_str(), "rb");
  if (!f) return false;
  std::string s; char buf[4096]; size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
  bool bad = ferror(f);
  fclose(f);
  return !bad && ReadFromPointer(s.data(), s.size());
}
bool PerfReader::ReadFromPointer(const char* d, size_t n) {
  proto_.Clear();
  uint64_t len;
  if (n < 16 || memcmp(d, kMagic, 8)) return false;
  memcpy(&len, d + 8, 8);
  if (len != n - 16) return false;
  PerfDataProto all;
  if (!all.ParseFromArray(d + 16, len)) return false;
  *proto_.mutable_build_ids() = all.build_ids();
  for (auto& e : *all.mutable_events()) {
    if (cb_ && e.has_sample_event()) cb_(e.sample_event());
    if (skip_.count(e.header().type())) continue;
    proto_.add_events()->Swap(&e);
  }
  return true;
}
void PerfReader::GetFilenamesToBuildIDs(std::map<std::string, std::string>* m) const {
  m->clear();
  for (auto& b : proto_.build_ids()) {
    std::string h; char t[3];
    for (unsigned char c : b.build_id_hash()) { snprintf(t, 3, "%02x", c); h += t; }
    (*m)[b.filename()] = h;
  }
}
bool PerfParser::ParseRawEvents() {
  events_.clear();
  struct M { uint64_t start, len, pgoff; const DSOInfo* d; };
  std::map<uint32_t, std::vector<M>> maps;
  std::map<std::string, std::string> ids;
  reader_->GetFilenamesToBuildIDs(&ids);
  auto resolve = [&](uint32_t pid, uint64_t a) {
    ParsedEvent::DSOAndOffset r;
    auto& v = maps[pid];
    for (size_t i = v.size(); i-- > 0;)
      if (a >= v[i].start && a - v[i].start < v[i].len) { r.dso_info_ = v[i].d; r.offset_ = a - v[i].start + v[i].pgoff; break; }
    return r;
  };
  for (auto& e : *reader_->mutable_events()) {
    ParsedEvent pe; pe.event_ptr = &e;
    if (e.has_mmap_event()) {
      auto& m = e.mmap_event();
      if (m.start() + m.len() < m.start()) return false;  // no such range
      auto& d = dsos_[m.filename()];
      if (!d) { d = std::make_unique<DSOInfo>(); d->name = m.filename(); d->build_id = ids.count(d->name) ? ids[d->name] : ""; }
      maps[m.pid()].push_back({m.start(), m.len(), m.pgoff(), d.get()});
    } else if (e.has_sample_event()) {
      auto& s = e.sample_event();
      pe.dso_and_offset = resolve(s.pid(), s.ip());
      for (auto& b : s.branch_stack()) {
        ParsedEvent::BranchEntry be; be.spec = b.spec(); be.predicted = !b.mispredicted();
        be.from = resolve(s.pid(), b.from_ip()); be.to = resolve(s.pid(), b.to_ip());
        pe.branch_stack.push_back(be);
      }
    }
    events_.push_back(std::move(pe));
  }
  return true;
}
struct Enc { uint8_t flags; uint8_t ctx; uint32_t id; uint64_t ip, tgt, ts; };
std::string ArmSpeDecoder::Encode(const Record& r) {
  Enc e{}; e.flags = r.event.retired | r.event.cond_not_taken << 1 | r.op.is_br_eret << 2 | r.op.br_eret.br_cond << 3 | r.event.mispredicted << 4;
  e.ctx = r.context.el1 | r.context.el2 << 1; e.id = r.context.id; e.ip = r.ip.addr; e.tgt = r.tgt_br_ip.addr; e.ts = r.timestamp;
  char buf[sizeof(Enc)]; memset(buf, 0, sizeof buf);
  buf[0] = e.flags; buf[1] = e.ctx; memcpy(buf + 4, &e.id, 4); memcpy(buf + 8, &e.ip, 8); memcpy(buf + 16, &e.tgt, 8); memcpy(buf + 24, &e.ts, 8);
  return std::string(buf, 32);
}
bool ArmSpeDecoder::NextRecord(Record* r) {
  if (pos_ + 32 > data_.size()) return false;
  const char* b = data_.data() + pos_; pos_ += 32;
  *r = Record();
  uint8_t f = b[0];
  r->event.retired = f & 1; r->event.cond_not_taken = f >> 1 & 1; r->op.is_br_eret = f >> 2 & 1; r->op.br_eret.br_cond = f >> 3 & 1; r->event.mispredicted = f >> 4 & 1;
  r->context.el1 = b[1] & 1; r->context.el2 = b[1] >> 1 & 1;
  memcpy(&r->context.id, b + 4, 4); memcpy(&r->ip.addr, b + 8, 8); memcpy(&r->tgt_br_ip.addr, b + 16, 8); memcpy(&r->timestamp, b + 24, 8);
  return true;
}
}  // namespace quipper
