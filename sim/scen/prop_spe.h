// Statistical profiling records (Arm SPE): recordings, and what they say.
#ifndef PROP_SPE_H_
#define PROP_SPE_H_
#include "prop_model.h"

namespace prop {
// Who runs a thread is known from dated events; the last one before a record counts.
struct Owners {
  std::map<uint32_t, std::map<uint64_t, int>> at; std::set<int> pids;
  void See(int pid, int tid, uint64_t t) { if (pid > 0 && tid > 0) at[tid].insert({t, pid}), pids.insert(pid); }
  int Pid(uint32_t tid, uint64_t t) const {
    int pid = tid;
    auto it = at.find(tid);
    if (it != at.end()) for (auto& e : it->second) if (e.first <= t) pid = e.second;
    return pid;
  }
};
inline Owners OwnersOf(const quipper::PerfDataProto& p) {
  Owners o;
  auto info = [&](const quipper::PerfDataProto::SampleInfo& i) { if (i.sample_time_ns()) o.See(i.pid(), i.tid(), i.sample_time_ns()); };
  for (auto& e : p.events()) {
    if (e.has_fork_event()) { o.See(e.fork_event().pid(), e.fork_event().tid(), e.fork_event().fork_time_ns()); info(e.fork_event().sample_info()); }
    if (e.has_comm_event()) info(e.comm_event().sample_info());
    if (e.has_mmap_event()) info(e.mmap_event().sample_info());
    if (e.has_sample_event() && e.sample_event().sample_time_ns()) o.See(e.sample_event().pid(), e.sample_event().tid(), e.sample_event().sample_time_ns());
  }
  return o;
}
inline Perf MakeSpe(const Bin& x, const std::string& match, int max_walks) {
  using Record = quipper::ArmSpeDecoder::Record;
  Perf r; Maps m = MakeMaps(x, match);
  auto run = [&](uint32_t pid, uint64_t b) { return b >= kOutside && b < kOutside + 0x1000 ? 0x7f0000000000 + (b - kOutside) * 16 : b + m.slide[pid]; };
  // Time: slots of the cycle counter, converted to nanoseconds.
  uint64_t shift = Choose(16, "shift"), mult = std::max<uint64_t>(1, ((1ull << shift) * (1 + Choose(8, "mult"))) >> 2), zero = 100000 + Choose(1 << 20, "zero");
  bool shrt = Choose(2, "short-counter");
  uint64_t mask = shrt ? (1ull << (20 + Choose(20, "mask"))) - 1 : ~0ull, start = 1 + (uint64_t(Choose(1 << 20, "cycles")) << Choose(24, "cycles-shift"));
  uint64_t ref = start > 1000 ? start - Choose(1000, "ref") : start;
  uint64_t slot = 0;
  auto cycles = [&](uint64_t s) { return start + 64 * s; };
  auto ns = [&](uint64_t s) { return zero + uint64_t((unsigned __int128)cycles(s) * mult >> shift); };
  quipper::PerfDataProto other;  // in time order, but see below
  auto event = [&](int type) { auto* e = other.add_events(); e->mutable_header()->set_type(type); return e; };
  {
    auto* t = event(quipper::PERF_RECORD_TIME_CONV)->mutable_time_conv_event();
    t->set_time_shift(shift); t->set_time_mult(mult); t->set_time_zero(zero);
    if (shrt) t->set_cap_user_time_short(true), t->set_time_cycles(ref), t->set_time_mask(mask);
  }
  // Threads, each owned by one process after the other.
  struct Span { uint32_t tid, pid; uint64_t from, to; };
  std::vector<Span> spans;
  std::vector<uint32_t> procs;
  for (uint32_t p : m.pids) { uint32_t q = p == kKernelPid ? 100 : p; procs.push_back(p); spans.push_back({q, p, 0, 400}); }
  if (Choose(3, "other-process") == 2) procs.push_back(900);
  auto sample = [&](uint32_t tid, uint32_t pid, uint64_t s, bool timed) {
    auto* e = event(quipper::PERF_RECORD_SAMPLE)->mutable_sample_event();
    e->set_ip(0x1000); e->set_pid(pid == kKernelPid ? 100 : pid); e->set_tid(tid);
    if (timed) e->set_sample_time_ns(ns(s));
  };
  for (int k = Choose(5, "threads"); k > 0; --k) {
    uint64_t at = 0;
    for (int n = 1 + Choose(3, "owners"); n > 0; --n) {
      Span s; s.tid = 200 + k; s.pid = procs[Choose(procs.size(), "owner")]; s.from = at + 1 + Choose(20, "from"); s.to = s.from + 8 + Choose(60, "for"); at = s.to;
      uint32_t shown = s.pid == kKernelPid ? 100 : s.pid;
      switch (Choose(4, "evidence")) {
        case 0: case 1: {
          auto* f = event(quipper::PERF_RECORD_FORK)->mutable_fork_event();
          f->set_pid(shown); f->set_ppid(Choose(3, "thread") ? shown : 100 + Choose(3, "parent")); f->set_tid(s.tid); f->set_ptid(shown); f->set_fork_time_ns(ns(s.from));
          if (Choose(2, "fork-info")) { auto* i = f->mutable_sample_info(); i->set_pid(shown); i->set_tid(shown); i->set_sample_time_ns(ns(s.from)); }
          break;
        }
        case 2: {
          auto* c = event(quipper::PERF_RECORD_COMM)->mutable_comm_event();
          c->set_pid(shown); c->set_tid(s.tid); c->set_comm("worker");
          auto* i = c->mutable_sample_info(); i->set_pid(shown); i->set_tid(s.tid); i->set_sample_time_ns(ns(s.from + Choose(4, "later")));
          break;
        }
        default: break;
      }
      for (int q = Choose(3, "seen"); q > 0; --q) sample(s.tid, s.pid, s.from + 4 + Choose(s.to - s.from - 5, "when"), !Flip(1, 8, "no-time"));
      if (s.pid == 900 || m.slide.count(s.pid)) spans.push_back(s);
    }
  }
  if (Flip(1, 6, "idle")) sample(0, 0, 3, true);
  std::vector<Record> recs; std::string data;
  auto flush = [&] { if (data.empty()) return; auto* a = event(quipper::PERF_RECORD_AUXTRACE)->mutable_auxtrace_event(); a->set_size(data.size()); a->set_trace_data(data); data.clear(); };
  std::map<uint64_t, Term> kinds;
  for (auto& f : x.fn) for (auto& b : f.b) if (b.size) kinds[f.addr + b.off + b.size - b.last] = b.term;
  bool contexts = !Flip(1, 5, "no-contexts");
  for (int n = 1 + Choose(max_walks, "walks"); n > 0; --n) {
    const Span& s = spans[Choose(spans.size(), "thread")];
    uint32_t pid = m.slide.count(s.pid) ? s.pid : m.pids[0];
    std::vector<Branch> w = Walk(x, 4 + Choose(40, "steps"), Choose(x.fn.size(), "start"), true);
    int rate = 1 + (Choose(2, "sparse") ? Choose(4, "rate") : 0);
    slot = s.from + Choose(s.to - s.from, "slot");
    for (auto& q : w) {
      if (Choose(rate, "sampled")) continue;
      Record e; bool nt = q.second == kInvalid;
      auto k = kinds.find(q.first);
      e.event.retired = !Flip(1, 16, "squashed"); e.op.is_br_eret = !Flip(1, 24, "no-branch");
      e.op.br_eret.br_cond = k != kinds.end() && k->second == kCond;
      e.event.cond_not_taken = nt || (!e.op.br_eret.br_cond && Flip(1, 8, "bogus"));
      e.ip.addr = run(pid, q.first); e.tgt_br_ip.addr = nt ? Choose(2, "no-target") ? 0 : run(pid, q.first) : run(pid, q.second);
      if (contexts && !Flip(1, 20, "no-context")) { (Choose(2, "el") ? e.context.el1 : e.context.el2) = true; e.context.id = s.tid; }
      else e.context.id = Choose(2, "stale-id") ? 0 : 200;
      e.timestamp = shrt && Choose(2, "wrapped") ? cycles(slot) & mask : cycles(slot);
      if (slot + 1 < s.to && Choose(2, "next-slot")) ++slot;
      recs.push_back(e); data += quipper::ArmSpeDecoder::Encode(e);
      if (Flip(1, 12, "flush")) flush();
    }
    if (Flip(1, 3, "flush")) flush();
  }
  flush();
  // Events come from several buffers: their order in the file is not that of time.
  std::vector<int> order; for (int i = 0; i < other.events_size(); ++i) order.push_back(i);
  if (Choose(3, "event-order")) sim::Shuffle(order, "event-order");
  for (int i : order) *m.g.proto.add_events() = other.events(i);
  // What the records say.
  Owners own = OwnersOf(m.g.proto);
  for (auto& e : recs) {
    int pid;
    if (e.context.el1 || e.context.el2) {
      uint64_t c = shrt ? ref + ((e.timestamp - ref) & mask) : e.timestamp;
      pid = own.Pid(e.context.id, zero + uint64_t((unsigned __int128)c * mult >> shift));
      sim::Count("reach.threads", pid != int(e.context.id));
    } else {
      if (own.pids.size() != 1) continue;
      pid = *own.pids.begin(); sim::Count("reach.no_context");
    }
    uint32_t as = x.kernel ? kKernelPid : pid;
    if (std::none_of(m.sel.begin(), m.sel.end(), [&](const PMap& p) { return p.pid == as; })) continue;
    if (!e.event.retired || !e.op.is_br_eret) continue;
    uint64_t from = ToBinary(x, m.sel, as, e.ip.addr);
    if (e.op.br_eret.br_cond && e.event.cond_not_taken) ++r.not_taken[from];
    else ++r.br[{from, ToBinary(x, m.sel, as, e.tgt_br_ip.addr)}];
  }
  r.used = m.usable; r.maps = m.Owners();
  if (!r.used) r.br.clear(), r.not_taken.clear();
  r.proto = m.g.proto;
  r.bytes = quipper::SerializePerfData(r.proto);
  return r;
}
struct SpeCounts {
  std::map<Branch, uint64_t> branches, ranges; uint64_t total = 0;
  std::string Show() const {
    std::string s;
    for (auto& b : branches) s += Str("%llx->%llx:%llu\n", (unsigned long long)b.first.first, (unsigned long long)b.first.second, (unsigned long long)b.second);
    for (auto& b : ranges) s += Str("%llx-%llx:%llu\n", (unsigned long long)b.first.first, (unsigned long long)b.first.second, (unsigned long long)b.second);
    return s + Str("total %llu\n", (unsigned long long)total);
  }
};
inline uint64_t SpeOffset(const Bin& x, uint64_t a) {
  const Seg* s = &x.segs[0];
  for (auto& g : x.segs) if (g.vaddr <= a) s = &g;
  return s->off - (x.kernel ? x.segs[0].off : 0) + (a - s->vaddr);
}
// Every instruction from a branch target on is executed as often as its
// predecessor and the branches to it say, up to the next branch; after that,
// as often as that branch was not taken.
inline SpeCounts SpeModel(const Bin& x, const Perf& p, bool disassemble) {
  SpeCounts r;
  std::map<int64_t, int64_t> in; std::set<uint64_t> control;
  for (auto& b : p.br) {
    if (!disassemble) control.insert(b.first.first);
    if (b.first.second == kInvalid) continue;
    in[b.first.second] += b.second;
    if (b.first.first != kInvalid) r.branches[{SpeOffset(x, b.first.first), SpeOffset(x, b.first.second)}] += b.second;
  }
  if (!disassemble) for (auto& n : p.not_taken) control.insert(n.first);
  else for (auto& i : x.insn) if (i.second == kFlow || i.second == kBad) control.insert(i.first);
  auto branch = [&](uint64_t a) {
    if (control.count(a)) return true;
    if (!disassemble) return false;
    for (auto& s : x.secs) if (a >= s.addr && a - s.addr < s.size) return false;
    return true;  // unknown
  };
  int64_t n = 0;
  for (auto it = in.begin(); it != in.end(); ++it) {
    int64_t from = it->first, end = std::next(it) == in.end() ? from + 0x1000 : std::next(it)->first;
    n += it->second;
    for (int64_t a = from; a < end && n > 0; a += 4) {
      bool b = branch(a);
      if (!b && a + 4 < end) continue;
      r.ranges[{SpeOffset(x, from), SpeOffset(x, a)}] += n;
      r.total += uint64_t(n) * (1 + SpeOffset(x, a) - SpeOffset(x, from));
      from = a + 4;
      if (b) { auto k = p.not_taken.find(a); n = k == p.not_taken.end() ? 0 : k->second; }
    }
  }
  return r;
}
// Executions of one block after another, from the difference of what enters and leaves a block.
inline Counters Inferred(const Bin& x, const std::vector<int>& sel, const Counters& br, const std::map<uint64_t, uint64_t>& not_taken) {
  struct W { int64_t in = 0, out = 0, known = -1; };
  std::map<Node, W> w;
  if (x.arm) {
    auto last = [&](uint64_t a, int64_t n) {
      Node k;
      if (Find(x, sel, a, false, &k) && a == Addr(x, k) + x.fn[k.f].b[k.b].size - 4) w[k].known = n;
    };
    for (auto& b : br) last(b.first.first, 0);
    for (auto& b : not_taken) last(b.first, b.second);
  }
  for (auto& b : br) {
    Node k;
    if (Find(x, sel, b.first.first, false, &k)) w[k].out += b.second;
    if (Find(x, sel, b.first.second, true, &k)) w[k].in += b.second;
  }
  Counters r;
  bool pending = false; Node from{0, 0}; int64_t weight = 0;
  auto end = [&](const Node* to) {
    if (!pending) return;
    pending = false;
    Node next{from.f, from.b + 1};
    bool has_next = next.b < int(x.fn[from.f].b.size()) && CanFall(x, from, next);
    const Node* stop = to && CanFall(x, from, *to) ? to : has_next ? &next : nullptr;
    if (stop) r[{Addr(x, from), Addr(x, *stop)}] += weight;
  };
  for (auto& q : w) {
    if (pending && CanFall(x, from, q.first)) q.second.in += weight;
    end(&q.first);
    int64_t n = q.second.known >= 0 ? q.second.known : q.second.in - q.second.out;
    if (n > 0) pending = true, from = q.first, weight = n;
  }
  end(nullptr);
  sim::Count("reach.inferred", r.size());
  return r;
}
}  // namespace prop
#endif
