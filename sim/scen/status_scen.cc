// P17: what a status page shows while Propeller runs.
#include "prop_job.h"

#include "status_consumer_registry.h"
#include "status_provider.h"

namespace prop {
namespace {
using devtools_crosstool_autofdo::DefaultStatusProvider;
using devtools_crosstool_autofdo::MultiStatusProvider;
using devtools_crosstool_autofdo::StatusConsumer;
using devtools_crosstool_autofdo::StatusConsumerRegistry;
using devtools_crosstool_autofdo::StatusProvider;

struct Watch {
  StatusProvider* provider = nullptr;
  int id, starts = 0, stops = 0, last = 0; bool done = false;
};
std::vector<Watch*>& Watches() { static std::vector<Watch*> w; return w; }
// What the run writes when nothing goes wrong; whether it can succeed, and must.
Result g_want; bool g_ok = false, g_faults = false;

void Look(Watch& w) {
  int p = w.provider->GetProgress();
  bool done = w.provider->IsDone();
  std::string job = w.provider->GetJob();
  SIM_REQUIRE(p >= 0 && p <= 100, "progress-range", Str("%d%%", p));
  SIM_REQUIRE(p >= w.last, "progress-back", Str("%d%% after %d%%", p, w.last));
  SIM_REQUIRE(done == (p == 100), "progress-done", Str("%d%% and %sdone", p, done ? "" : "not "));
  SIM_REQUIRE(job.rfind("generate propeller profiles", 0) == 0, "job", job);
  SIM_REQUIRE(done == (job == "generate propeller profiles"), "job", job + Str(" at %d%%", p));
  if (done) {
    SIM_REQUIRE(g_ok, "done-without-result", "100%, but the run fails");
    SIM_REQUIRE(Collect() == g_want, "done-before-written", "100%, but the files are incomplete");
  }
  if (p != w.last) sim::Count("reach.progress");
  w.last = p;
}
void LookAll() { for (Watch* w : Watches()) if (w->provider) { sim::Count("reach.looks"); Look(*w); } }

class Consumer : public StatusConsumer {
 public:
  explicit Consumer(Watch* w) : w_(w) {}
  void Start(StatusProvider& p) override {
    SIM_REQUIRE(w_->starts == w_->stops, "started-twice", Str("consumer %d", w_->id));
    ++w_->starts; w_->provider = &p; w_->last = 0;
    Look(*w_);
    SIM_REQUIRE(w_->last == 0, "progress-at-start", Str("%d%% before any work", w_->last));
  }
  void Stop() override {
    SIM_REQUIRE(w_->starts == w_->stops + 1, "stopped-twice", Str("consumer %d", w_->id));
    Look(*w_);
    ++w_->stops;
    w_->done = w_->provider->IsDone();
    SIM_REQUIRE(w_->done == g_ok || g_faults, "stop", Str("%d%% at the end of a run that %s", w_->last, g_ok ? "succeeds" : "fails"));
    w_->provider = nullptr;
  }
 private:
  Watch* w_;
};
}  // namespace

SIM_SCENARIO(prop_status, "P17", 4) {
  sim::SetHashMode(sim::kInsertion, 0);
  Job j = MakeJob(true, Choose(4, "quiet") != 3, false, false, 0);
  WriteInputs(j); Describe(j);
  ProcResult p = sim::RunMain(create_llvm_prof_main, Args(j, j.inputs));
  SIM_REQUIRE(p.Ok() == !MustFail(j), "wrong-status", p.Describe());
  g_ok = p.Ok(); g_want = Collect();
  Clean();
  bool http = Choose(8, "no-http") != 7;
  std::vector<std::string> args = Args(j, j.inputs);
  if (http) args.push_back("--http");
  int consumers = 1 + Choose(3, "consumers");
  uint64_t gap = 1ull << (1 + Choose(10, "gap"));
  if (Choose(3, "input-gone") == 2) {  // a run that fails somewhere in the middle
    Disk::Remove(Choose(2, "which") ? j.inputs.back() : j.bin.path);
    g_ok = false;
  }
  g_faults = g_ok && Choose(3, "faults") == 2;
  if (g_faults) {
    sim::SwarmFaults({sim::kOpenFail, sim::kReadEio, sim::kWriteEnospc, sim::kWriteEio, sim::kShortWrite, sim::kCloseEio, sim::kCrash, sim::kSlowIo, sim::kVanish}, "/sim/");
    if (Choose(3, "few") != 2) sim::SetMaxFaults(1 + Choose(2, "max-faults"));
  }
  ProcResult q = sim::Process("create_llvm_prof with status consumers", [&] {
    for (int i = 0; i < consumers; ++i) {
      Watch* w = new Watch; w->id = i; Watches().push_back(w);
      StatusConsumerRegistry::GetInstance().Register(std::make_unique<Consumer>(w));
    }
    std::vector<std::string> copy = args; std::vector<char*> av;
    for (auto& a : copy) av.push_back(&a[0]);
    av.push_back(nullptr);
    sim::SetPoller(LookAll, gap);
    int rc = create_llvm_prof_main(int(copy.size()), av.data());
    sim::SetPoller(nullptr, 1);
    for (Watch* w : Watches()) {
      SIM_REQUIRE(w->starts == (http ? 1 : 0) || (rc != 0 && !w->starts), "starts", Str("consumer %d started %d times", w->id, w->starts));
      SIM_REQUIRE(w->stops == w->starts, "not-stopped", Str("consumer %d", w->id));
      if (w->starts) SIM_REQUIRE(w->done == (rc == 0), "stop", Str("%d%% at the end, but the tool returns %d", w->last, rc));
    }
    return Str("%d", rc);
  });
  sim::ClearFaults();
  if (g_faults && (!q.Ok() || q.out != "0")) { SIM_REQUIRE(sim::FaultsFired() > 0, "wrong-status", q.Describe()); sim::Count("reach.faulted"); return; }
  SIM_REQUIRE(q.Ok() && (q.out == "0") == g_ok, "wrong-status", "with consumers: " + q.Describe() + " " + q.out);
  if (g_ok) SIM_REQUIRE(Collect() == g_want, "another-profile", "the status page changed the profile");
  sim::Count(g_ok ? "reach.compared" : "reach.refused");
  sim::Count(http ? "reach.http" : "reach.no_http");
}

// A tree of jobs of any shape: progress follows the work done.
namespace {
struct JobNode { int weight = 1; bool leaf = true; int progress = 0; std::string name; DefaultStatusProvider* real = nullptr; std::vector<JobNode*> kids; };
bool Done(const JobNode& n) { if (n.leaf) return n.progress >= 100; for (auto* k : n.kids) if (!Done(*k)) return false; return true; }
double Progress(const JobNode& n) {
  if (n.leaf) return n.progress;
  double total = 0, done = 0; bool working = false;
  for (auto* k : n.kids) { total += k->weight; if (working) continue; if (Done(*k)) done += k->weight; else { working = true; done += k->weight * Progress(*k) / 100; } }
  return total == 0 || !working ? 100 : done * 100 / total;
}
std::string Name(const JobNode& n) { if (!n.leaf) for (auto* k : n.kids) if (!Done(*k)) return n.name + " - " + Name(*k); return n.name; }
std::unique_ptr<StatusProvider> Build(JobNode* n, int depth, std::vector<JobNode*>* leaves) {
  static int serial; n->name = Str("job %d", depth == 0 ? (serial = 0) : ++serial);
  n->weight = Flip(1, 8, "no-weight") ? 0 : 1 + Choose(100, "weight");
  n->leaf = depth && (depth > 2 || Choose(3, "leaf") != 2);
  if (n->leaf) { auto p = std::make_unique<DefaultStatusProvider>(n->name); n->real = p.get(); leaves->push_back(n); return p; }
  auto p = std::make_unique<MultiStatusProvider>(n->name);
  for (int k = 1 + Choose(4, "jobs"); k > 0; --k) { n->kids.push_back(new JobNode); auto q = Build(n->kids.back(), depth + 1, leaves); p->AddStatusProvider(n->kids.back()->weight, std::move(q)); }
  return p;
}
}  // namespace
SIM_SCENARIO(status_tree, "P17", 1) {
  JobNode root; std::vector<JobNode*> leaves;
  auto p = Build(&root, 0, &leaves);
  std::function<bool(const JobNode&)> zero = [&](const JobNode& n) { for (auto* k : n.kids) if (!k->weight || zero(*k)) return true; return false; };
  const bool weightless = zero(root);  // what weighs nothing does not show in the progress
  double tolerance = 3;  // one per level: the percentages are truncated
  auto check = [&](int last) {
    int got = p->GetProgress(); double want = Progress(root);
    SIM_REQUIRE(got >= 0 && got <= 100 && got >= last, "progress-back", Str("%d%% after %d%%", got, last));
    SIM_REQUIRE(got <= want + 1e-3 && got > want - tolerance, "wrong-progress", Str("%d%%, should be %f%%", got, want));
    SIM_REQUIRE(p->IsDone() == Done(root), "wrong-done", Str("%d%%", got));
    SIM_REQUIRE(Done(root) ? got == 100 : got < 100 || weightless, "wrong-done", Str("%d%%", got));
    SIM_REQUIRE(p->GetJob() == Name(root), "wrong-job", p->GetJob() + ", should be " + Name(root));
    return got;
  };
  int last = check(0);
  // One job after the other, as a program works through them; some finish early.
  for (JobNode* n : leaves) {
    while (n->progress < 100) {
      if (Flip(1, 40, "all-done")) { for (auto* l : leaves) l->progress = 100; p->SetDone(); last = check(last); break; }
      if (Choose(4, "other") == 3) { JobNode* o = leaves[Choose(leaves.size(), "leaf")]; o->progress = 100; o->real->SetDone(); }
      else if (Choose(3, "finish") == 2) { n->progress = 100; n->real->SetDone(); }
      else { n->progress += 1 + Choose(100 - n->progress, "by"); n->real->SetProgress(n->progress); }
      last = check(last);
    }
  }
  SIM_REQUIRE(last == 100 && p->IsDone(), "not-done", Str("%d%% when all jobs are done", last));
  auto q = std::make_unique<MultiStatusProvider>("again");
  sim::Count("reach.trees"); sim::Count("reach.leaves", leaves.size());
}
}  // namespace prop
