#include "sim.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>
#include <unordered_set>

#include "internal.h"

namespace sim {

const char* const kFaultNames[kNumFaults] = {
    "open_fail", "read_eio", "short_read", "write_enospc", "write_eio", "short_write", "close_eio", "mmap_fail",
    "stat_fail", "crash", "vanish", "disk_full", "slow_io", "seek_fail", "alloc_fail", "interrupt"};

Shared* sh = nullptr;
static bool g_thorough = false;
static bool g_verbose = false;
static int g_depth = 0;  // 0 = worker, 1 = run, 2 = simulated process

bool Thorough() { return g_thorough; }
bool Verbose() { return g_verbose; }

uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t z = a + 0x9e3779b97f4a7c15ull * (b + 1);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return Mix(h, s.size());
}
static uint64_t NextRand() {
  uint64_t z = (sh->rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
[[noreturn]] void RealExit(int code) { syscall(SYS_exit_group, code); __builtin_unreachable(); }

static void LogRaw(const char* s, size_t n) {
  if (!g_verbose || sh->log_len + n + 1 >= kLogCap) return;
  memcpy(sh->log + sh->log_len, s, n);
  sh->log_len += n;
}
void HashBytes(const void* p, size_t n) {
  uint64_t h = sh->hash;
  const unsigned char* c = static_cast<const unsigned char*>(p);
  while (n >= 8) { uint64_t w; memcpy(&w, c, 8); h = (h ^ w) * 0x9fb21c651e98df25ull; h ^= h >> 32; c += 8; n -= 8; }
  while (n--) h = (h ^ *c++) * 1099511628211ull;
  sh->hash = h;
}
std::string Str(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  char* s = nullptr; int n = vasprintf(&s, fmt, ap); va_end(ap);
  std::string r(s ? s : "", n < 0 ? 0 : n); free(s);
  return r;
}
// A run that does not end is stopped after a number of steps, so that it is the
// same each time; one that takes none, by the CPU limit.
[[noreturn]] static void Hung(int code, const char* why) {
  if (g_depth == 2) { sh->proc_kind = ProcResult::kHung; sh->proc_code = code; sh->proc_done = 1; sh->proc_out_len = 0; RealExit(0); }
  sh->outcome = kViolation; strcpy(sh->cls, "hang"); strcpy(sh->msg, why); RealExit(0);
}
void ArenaFull() { if (g_depth == 2) Hung(0, "no end of what it writes"); Skip("simulated disk arena exhausted"); }
static void Step() { if (++sh->steps > kStepCap) Hung(0, "no end within the limit of steps"); }
void Show(const std::string& s) { if (g_verbose) { LogRaw(s.data(), s.size()); LogRaw("\n", 1); } }
void Note(const char* fmt, ...) {
  char buf[1024];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n >= static_cast<int>(sizeof buf)) n = sizeof buf - 1;
  HashBytes(buf, n);
  sh->events++; Step();
  if (g_verbose) { LogRaw(buf, n); LogRaw("\n", 1); }
}
uint64_t Choose(uint64_t n, const char* tag) {
  if (n <= 1) return 0;
  uint64_t v;
  if (sh->replay) {
    v = sh->tape_pos < sh->tape_in_len ? sh->tape_in[sh->tape_pos] % n : 0;
    sh->tape_pos++;
  } else {
    v = NextRand() % n;
  }
  if (sh->tape_len >= kTapeCap) Hung(0, "no end within the limit of decisions");
  sh->tape[sh->tape_len++] = v;
  HashBytes(&v, 8); Step();
  if (g_verbose && (v != 0)) {
    char b[128]; int k = snprintf(b, sizeof b, "  [%lu] %s = %lu/%lu\n", (unsigned long)(sh->tape_len - 1), tag, (unsigned long)v, (unsigned long)n);
    LogRaw(b, k);
  }
  return v;
}
bool Flip(uint64_t num, uint64_t den, const char* tag) {
  if (num == 0 || den == 0) return false;
  if (num >= den) return true;
  return Choose(den, tag) >= den - num;
}
int64_t Range(int64_t lo, int64_t hi, const char* tag) { return lo + static_cast<int64_t>(Choose(hi - lo + 1, tag)); }
uint64_t Skewed(uint64_t max, const char* tag) {
  if (max <= 1) return max;
  uint64_t bits = 1; while ((1ull << bits) < max) ++bits;
  uint64_t b = Choose(bits + 1, tag);
  uint64_t hi = std::min<uint64_t>(max, 1ull << b);
  return 1 + Choose(hi, tag);
}
void Count(const std::string& name, uint64_t n) {
  for (int i = 0; i < kCounters; ++i) {
    Counter& c = sh->counters[i];
    if (c.name[0] == 0) { strncpy(c.name, name.c_str(), sizeof c.name - 1); c.n = n; return; }
    if (!strncmp(c.name, name.c_str(), sizeof c.name - 1)) { c.n += n; return; }
  }
}
void State(uint64_t h) { if (sh->n_states < kStates) sh->states[sh->n_states++] = h; }
[[noreturn]] static void EndRun(int outcome, const std::string& cls, const std::string& msg) {
  if (!sh->outcome) {
    sh->outcome = outcome;
    strncpy(sh->cls, cls.c_str(), sizeof sh->cls - 1);
    strncpy(sh->msg, msg.c_str(), sizeof sh->msg - 1);
    HashBytes(cls.data(), cls.size());
    HashBytes(sh->msg, strlen(sh->msg));
  }
  RealExit(0);
}
void Fail(const std::string& cls, const std::string& msg) { EndRun(kViolation, cls, msg); }
void Skip(const std::string& why) { EndRun(kSkip, "skip", why); }

uint64_t NowNs() { return sh->now_ns; }
void AdvanceNs(uint64_t ns) { sh->now_ns += ns; }
uint64_t IoSteps() { return sh->io_steps; }

void LogLine(int severity, const char* file, int line, const std::string& msg) {
  const char* b = strrchr(file, '/');
  Note("LOG%d %s: %s", severity, b ? b + 1 : file, msg.substr(0, 300).c_str());
}

// ---- simulated processes ---------------------------------------------------
std::string ProcResult::Describe() const {
  switch (kind) {
    case kReturned: return "returned";
    case kExited: return Str("exit(%d)", code);
    case kDied: return "died: " + why;
    case kCrashed: return "crashed (injected)";
    case kSignal: return Str("signal %d", code);
    case kHung: return "hung";
  }
  return "?";
}
[[noreturn]] static void FinishProc(int kind, int code, const std::string& why, const std::string& out) {
  if (kind == ProcResult::kExited || kind == ProcResult::kReturned) CloseLeftOpen();
  sh->proc_kind = kind;
  sh->proc_code = code;
  strncpy(sh->proc_why, why.c_str(), sizeof sh->proc_why - 1);
  sh->proc_why[sizeof sh->proc_why - 1] = 0;
  sh->proc_out = ArenaAlloc(out.size());
  sh->proc_out_len = out.size();
  if (!out.empty()) memcpy(sh->proc_out, out.data(), out.size());
  sh->proc_done = 1;
  RealExit(0);
}
void Die(const std::string& why) {
  if (g_depth == 2) FinishProc(ProcResult::kDied, 134, why, "");
  EndRun(kViolation, "unexpected-death", why);
}
[[noreturn]] void CrashNow() {
  if (g_depth == 2) FinishProc(ProcResult::kCrashed, 0, "injected crash", "");
  EndRun(kError, "harness", "crash injected outside a simulated process");
}
[[noreturn]] void SimExit(int code) {
  fflush(nullptr);
  if (g_depth == 2) FinishProc(ProcResult::kExited, code, "", "");
  if (g_depth == 1) EndRun(kViolation, "unexpected-exit", Str("exit(%d)", code));
  RealExit(code);
}
static char g_altstack[65536];
static void OnSignal(int s) {
  // Enough to classify; the disk is shared memory already.
  if (s == SIGXFSZ) Hung(s, "no end of its output");
  if (s == SIGVTALRM || s == SIGALRM) {
    Hung(s, "no progress within the CPU limit");
  }
  if (g_depth == 2) { sh->proc_kind = ProcResult::kSignal; sh->proc_code = s; sh->proc_done = 1; sh->proc_out_len = 0; RealExit(0); }
  if (!sh->outcome) { sh->outcome = kViolation; snprintf(sh->cls, sizeof sh->cls, "signal-%d", s); strcpy(sh->msg, "the program under test crashed"); }
  RealExit(0);
}
static void InstallHandlers() {
  stack_t st{}; st.ss_sp = g_altstack; st.ss_size = sizeof g_altstack; sigaltstack(&st, nullptr);
  struct sigaction sa{}; sa.sa_handler = OnSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGALRM, SIGXFSZ}) sigaction(s, &sa, nullptr);
  itimerval it{}; it.it_value.tv_sec = 10; setitimer(ITIMER_VIRTUAL, &it, nullptr);
  alarm(300);
  rlimit lim{3ul << 30, 3ul << 30}; setrlimit(RLIMIT_DATA, &lim);
  rlimit out{256ul << 20, 256ul << 20}; setrlimit(RLIMIT_FSIZE, &out);  // of what it prints
}
ProcResult Process(const std::string& name, const std::function<std::string()>& body) {
  Note("process %s", name.c_str());
  sh->steps = 0; sh->proc_done = 0; sh->proc_why[0] = 0; sh->proc_out_len = 0; sh->proc_kind = 0; sh->proc_code = 0;
  if (g_depth != 1) EndRun(kError, "harness", "nested Process");
  fflush(stdout);
  int mfd = syscall(SYS_memfd_create, "stdout", 1u);
  pid_t p = fork();
  if (p < 0) EndRun(kError, "harness", "fork failed");
  if (p == 0) {
    g_depth = 2;
    syscall(SYS_dup3, mfd, 1, 0);
    InstallHandlers();
    std::string out;
    try {
      out = body();
    } catch (const std::exception& e) {
      FinishProc(ProcResult::kDied, 134, std::string("uncaught exception: ") + e.what(), "");
    } catch (...) {
      FinishProc(ProcResult::kDied, 134, "uncaught exception", "");
    }
    fflush(nullptr);
    FinishProc(ProcResult::kReturned, 0, "", out);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (sh->outcome) RealExit(0);
  sh->steps = 0;
  ProcResult r;
  if (!sh->proc_done) {
    r.kind = ProcResult::kSignal; r.code = WIFSIGNALED(st) ? WTERMSIG(st) : -1;
  } else {
    r.kind = static_cast<ProcResult::Kind>(sh->proc_kind); r.code = sh->proc_code; r.why = sh->proc_why;
    r.out.assign(sh->proc_out, sh->proc_out_len);
  }
  if (mfd >= 0) {
    off_t len = syscall(SYS_lseek, mfd, 0, SEEK_END);
    if (len > 0) { r.text.resize(len); len = syscall(SYS_pread64, mfd, &r.text[0], r.text.size(), 0); r.text.resize(len > 0 ? len : 0); HashBytes(r.text.data(), r.text.size()); }
    syscall(SYS_close, mfd);
  }
  Note("process %s: %s", name.c_str(), r.Describe().c_str());
  // Not even a fault or a damaged file is an excuse for that.
  if (r.kind == ProcResult::kHung) EndRun(kViolation, "hang", name.substr(0, 300) + " does not end");
  Count(std::string("proc.") + (r.kind == ProcResult::kReturned ? "returned" : r.kind == ProcResult::kExited ? "exited" :
        r.kind == ProcResult::kDied ? "died" : r.kind == ProcResult::kCrashed ? "crashed" : r.kind == ProcResult::kSignal ? "signal" : "hung"));
  return r;
}

ProcResult RunMain(int (*fn)(int, char**), const std::vector<std::string>& args) {
  std::string n; for (auto& a : args) n += (n.empty() ? "" : " ") + a;
  return Process(n.substr(0, 400), [&] {
    std::vector<std::string> copy = args;
    std::vector<char*> av; for (auto& a : copy) av.push_back(&a[0]);
    av.push_back(nullptr);
    int rc = fn(static_cast<int>(args.size()), av.data());
    SimExit(rc & 255);
    return std::string();
  });
}

// ---- faults ----------------------------------------------------------------
void ClearFaults() { memset(&sh->plan, 0, sizeof sh->plan); sh->plan.disk_capacity = UINT64_MAX; sh->plan.max_faults = UINT32_MAX; }
void SetFaultFilter(const std::string& p) { strncpy(sh->plan.filter, p.c_str(), sizeof sh->plan.filter - 1); }
void SetFault(FaultKind k, uint32_t den) { sh->plan.den[k] = den; if (!sh->plan.filter[0]) strcpy(sh->plan.filter, "/sim/"); }
void SetDiskCapacity(uint64_t b) { sh->plan.disk_capacity = b; }
void SetMaxFaults(uint32_t n) { sh->plan.max_faults = n; }
void SwarmFaults(const std::vector<FaultKind>& kinds, const std::string& prefix) {
  strncpy(sh->plan.filter, prefix.c_str(), sizeof sh->plan.filter - 1);
  static const uint32_t dens[] = {0, 0, 1, 2, 4, 8, 16, 64, 256, 1024};
  for (FaultKind k : kinds) {
    uint32_t d = dens[Choose(10, "fault-rate")];
    sh->plan.den[k] = d;
    if (d) Note("fault %s enabled 1/%u on %s", kFaultNames[k], d, prefix.c_str());
  }
}
uint64_t FaultsFired() { uint64_t n = 0; for (int i = 0; i < kNumFaults; ++i) n += sh->fired[i]; return n; }
uint64_t FaultsFired(FaultKind k) { return sh->fired[k]; }
uint64_t HardFaults() { return FaultsFired() - sh->fired[kShortRead] - sh->fired[kShortWrite] - sh->fired[kSlowIo] - sh->fired[kInterrupt]; }

// ---- order seams -----------------------------------------------------------
static HashMode g_hash_mode = kInsertion;
static uint64_t g_hash_seed = 0, g_hash_inst = 0;
void SetHashMode(HashMode m, uint64_t seed) { g_hash_mode = m; g_hash_seed = seed; g_hash_inst = 0; }
void SwarmHash() {
  uint64_t m = Choose(4, "hash-mode");
  if (m == 0) SetHashMode(kInsertion, 0);
  else if (m == 1) SetHashMode(kReverse, 0);
  else SetHashMode(kShuffled, Choose(1ull << 32, "hash-seed"));
  Count(m == 0 ? "order.hash_insertion" : m == 1 ? "order.hash_reverse" : "order.hash_shuffled");
}
uint64_t HashInstance() { return ++g_hash_inst; }
uint64_t HashRank(uint64_t inst, uint64_t n) {
  switch (g_hash_mode) {
    case kInsertion: return 0;
    case kReverse: return UINT64_MAX - n;
    case kShuffled: return Mix(g_hash_seed ^ (inst << 20), n);
  }
  return 0;
}

int g_alloc_mode = 0;
uint64_t g_alloc_seed = 0;
void SetAllocMode(int mode, uint64_t seed) { g_alloc_seed = seed; g_alloc_mode = mode; }
void SwarmAlloc() {
  uint64_t m = Choose(3, "alloc-mode");
  if (m == 0) SetAllocMode(0, 0); else SetAllocMode(1, Choose(1ull << 32, "alloc-seed"));
  Count(m == 0 ? "order.alloc_default" : "order.alloc_seeded");
}

// ---- registry --------------------------------------------------------------
std::vector<Scenario*>& Scenarios() { static auto* v = new std::vector<Scenario*>; return *v; }
Scenario::Scenario(const char* n, const char* p, void (*r)(), int w) : name(n), property(p), run(r), weight(w) { Scenarios().push_back(this); }

const std::string& HostFile(const std::string& path) {
  static auto* cache = new std::map<std::string, std::string>;
  auto it = cache->find(path);
  if (it != cache->end()) return it->second;
  int fd = syscall(SYS_open, path.c_str(), O_RDONLY);
  std::string s;
  if (fd < 0) { fprintf(stderr, "cannot read %s\n", path.c_str()); RealExit(3); }
  char buf[65536]; ssize_t n;
  while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) s.append(buf, n);
  syscall(SYS_close, fd);
  return (*cache)[path] = s;
}

const std::string& TestData(const std::string& name) {
  const char* d = getenv("SIM_DATA");
  return HostFile((d && *d ? std::string(d) : std::string("/repo/testdata")) + "/" + name);
}
const std::string& Fixture(const std::string& name) {
  const char* d = getenv("SIM_FIXTURES");
  return HostFile((d && *d ? std::string(d) : std::string("/verif/sim/fixtures")) + "/" + name);
}

// ---- runner ----------------------------------------------------------------
void ArenaReset();
static void PrepareRun(uint64_t seed) {
  memset(static_cast<void*>(sh), 0, offsetof(Shared, tape));
  sh->rng = seed;
  sh->hash = 0x12345;
  sh->now_ns = 1700000000ull * 1000000000ull;
  ArenaReset();
  ClearFaults();
}
static void RunChild(Scenario* s) {
  // In a forked child. Never returns.
  g_depth = 1;
  InstallHandlers();
  SetHashMode(kInsertion, 0);
  s->run();
  if (!sh->outcome) sh->outcome = kOk;
  RealExit(0);
}
static void Execute(Scenario* s) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) RunChild(s);
  if (p < 0) { fprintf(stderr, "fork failed\n"); RealExit(3); }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!sh->outcome) {
    sh->outcome = kViolation;
    snprintf(sh->cls, sizeof sh->cls, "signal-%d", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
    strcpy(sh->msg, "the run ended without a verdict");
  }
  Count("io.steps", sh->io_steps);
  for (int i = 0; i < kNumFaults; ++i) if (sh->fired[i]) Count(std::string("fault.") + kFaultNames[i], sh->fired[i]);
}
static Scenario* Find(const std::string& n) {
  for (auto* s : Scenarios()) if (n == s->name) return s;
  fprintf(stderr, "no scenario %s\n", n.c_str());
  RealExit(3);
}
static std::string Json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) r += Str("\\u%04x", c);
    else r += c;
  }
  return r + "\"";
}
static double Wall() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void WriteFile(const std::string& path, const std::string& data) {
  int fd = syscall(SYS_open, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  size_t o = 0;
  while (o < data.size()) { ssize_t n = syscall(SYS_write, fd, data.data() + o, data.size() - o); if (n <= 0) break; o += n; }
  syscall(SYS_close, fd);
}

struct Args { std::map<std::string, std::string> m;
  std::string get(const std::string& k, const std::string& d = "") { return m.count(k) ? m[k] : d; } };

static uint64_t RunSeed(uint64_t base, const std::string& scen, uint64_t i) { return Mix(Mix(base, HashStr(scen)), i); }

static int Explore(Args& a) {
  uint64_t seed = strtoull(a.get("seed", "1").c_str(), nullptr, 10);
  uint64_t runs = strtoull(a.get("runs", "100").c_str(), nullptr, 10);
  double maxs = atof(a.get("max-seconds", "60").c_str());
  int jobs = atoi(a.get("jobs", "8").c_str());
  int audit = atoi(a.get("audit", "16").c_str());
  std::string out = a.get("out");
  // Violation classes listed as known findings are counted but do not end the search.
  std::set<std::string> known;
  { std::stringstream ss(a.get("known")); std::string n; while (std::getline(ss, n, ',')) if (!n.empty()) known.insert(n); }
  std::vector<Scenario*> scen;
  { std::stringstream ss(a.get("scenarios")); std::string n; while (std::getline(ss, n, ',')) if (!n.empty()) { Scenario* s = Find(n); for (int i = 0; i < s->weight; ++i) scen.push_back(s); } }
  double t0 = Wall();
  std::vector<pid_t> kids;
  for (int w = 0; w < jobs; ++w) {
    pid_t p = fork();
    if (p) { kids.push_back(p); continue; }
    MapShared();
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> states, hashes;
    std::string viol, samples; int nviol = 0, nsamp = 0;
    uint64_t done = 0, skipped = 0, audited = 0, mismatches = 0, errors = 0, events = 0, decisions = 0; double simt = 0;
    std::map<std::string, uint64_t> per;
    std::map<std::string, int> per_class;
    for (uint64_t i = w; i < runs; i += jobs) {
      if (Wall() - t0 > maxs) break;
      Scenario* s = scen[i % scen.size()];
      uint64_t rs = RunSeed(seed, s->name, i);
      PrepareRun(rs);
      Execute(s);
      ++done; per[s->name]++;
      if (sh->outcome == kSkip) ++skipped;
      if (sh->outcome == kError) { ++errors; viol += Str("%s{\"error\":true,\"scenario\":%s,\"seed\":%lu,\"cls\":%s,\"msg\":%s}", viol.empty() ? "" : ",", Json(s->name).c_str(), rs, Json(sh->cls).c_str(), Json(sh->msg).c_str()); }
      for (int c = 0; c < kCounters && sh->counters[c].name[0]; ++c) counters[sh->counters[c].name] += sh->counters[c].n;
      for (uint64_t k = 0; k < sh->n_states; ++k) if (states.size() < 2000000) states.insert(sh->states[k]);
      if (hashes.size() < 4000000 && sh->outcome != kSkip) hashes.insert(sh->hash);
      events += sh->events; decisions += sh->tape_len; simt += (sh->now_ns - 1700000000ull * 1000000000ull) * 1e-9;
      uint64_t h = sh->hash; int oc = sh->outcome;
      bool is_known = oc == kViolation && known.count(sh->cls);
      if (oc == kViolation && !is_known) ++nviol;
      if (oc == kViolation) counters[Str("violation.%s", sh->cls)]++;
      if (oc == kViolation && ++per_class[std::string(s->name) + " " + sh->cls] <= 2) {
        viol += Str("%s{\"scenario\":%s,\"seed\":%lu,\"cls\":%s,\"msg\":%s,\"hash\":\"%016lx\"}", viol.empty() ? "" : ",",
                    Json(s->name).c_str(), rs, Json(sh->cls).c_str(), Json(sh->msg).c_str(), h);
      }
      if (nsamp < 1 && oc == kOk && i >= (uint64_t)jobs) { ++nsamp; samples += Str("%s{\"scenario\":%s,\"seed\":%lu,\"hash\":\"%016lx\",\"decisions\":%lu,\"events\":%lu}", samples.empty() ? "" : ",", Json(s->name).c_str(), rs, h, (unsigned long)sh->tape_len, (unsigned long)sh->events); }
      if (audit && (done % audit) == 1) {
        PrepareRun(rs); Execute(s); ++audited;
        if (sh->hash != h || sh->outcome != oc) { ++mismatches; samples += Str("%s{\"mismatch\":%s,\"seed\":%lu}", samples.empty() ? "" : ",", Json(s->name).c_str(), rs); }
      }
      if (nviol >= 6) break;
    }
    std::string j = Str("{\"runs\":%lu,\"skipped\":%lu,\"audited\":%lu,\"mismatches\":%lu,\"errors\":%lu,\"events\":%lu,\"decisions\":%lu,\"sim_seconds\":%.9f,",
                        done, skipped, audited, mismatches, errors, events, decisions, simt);
    j += "\"counters\":{"; bool f = true; for (auto& kv : counters) { j += (f ? "" : ",") + Json(kv.first) + ":" + std::to_string(kv.second); f = false; }
    j += "},\"per_scenario\":{"; f = true; for (auto& kv : per) { j += (f ? "" : ",") + Json(kv.first) + ":" + std::to_string(kv.second); f = false; }
    j += "},\"violations\":[" + viol + "],\"samples\":[" + samples + "]}";
    WriteFile(out + "." + std::to_string(w) + ".json", j);
    std::string b; b.reserve((states.size() + hashes.size()) * 8 + 16);
    uint64_t n = states.size(); b.append((char*)&n, 8); for (uint64_t x : states) b.append((char*)&x, 8);
    for (uint64_t x : hashes) b.append((char*)&x, 8);
    WriteFile(out + "." + std::to_string(w) + ".bin", b);
    RealExit(0);
  }
  int bad = 0;
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (st) bad = 1; }
  // Distinct counts over all workers.
  std::unordered_set<uint64_t> states, hashes;
  for (int w = 0; w < jobs; ++w) {
    std::ifstream f(out + "." + std::to_string(w) + ".bin", std::ios::binary);
    std::string b((std::istreambuf_iterator<char>(f)), {});
    if (b.size() < 8) continue;
    uint64_t n; memcpy(&n, b.data(), 8);
    for (uint64_t k = 0; k + 1 < b.size() / 8; ++k) { uint64_t x; memcpy(&x, b.data() + 8 + 8 * k, 8); (k < n ? states : hashes).insert(x); }
  }
  WriteFile(out + ".total.json", Str("{\"distinct_states\":%lu,\"distinct_runs\":%lu,\"wall\":%.3f}", (unsigned long)states.size(), (unsigned long)hashes.size(), Wall() - t0));
  return bad;
}

static std::vector<uint64_t> ReadTape(const std::string& path) {
  std::ifstream f(path); std::vector<uint64_t> t; uint64_t v; while (f >> v) t.push_back(v); return t;
}
static void LoadTape(const std::vector<uint64_t>& t) {
  size_t n = std::min<size_t>(t.size(), kTapeCap);
  memcpy(sh->tape_in, t.data(), n * 8);
  sh->tape_in_len = n; sh->tape_pos = 0; sh->replay = 1;
}
static int One(Args& a) {
  Scenario* s = Find(a.get("scenario"));
  uint64_t seed = strtoull(a.get("runseed", "1").c_str(), nullptr, 10);
  g_verbose = a.get("verbose", "1") == "1";
  MapShared();
  PrepareRun(seed);
  if (a.m.count("tape")) LoadTape(ReadTape(a.get("tape")));
  Execute(s);
  std::string j = Str("{\"outcome\":%d,\"cls\":%s,\"msg\":%s,\"hash\":\"%016lx\",\"events\":%lu,\"io_steps\":%lu,\"tape\":[", sh->outcome, Json(sh->cls).c_str(), Json(sh->msg).c_str(), sh->hash, (unsigned long)sh->events, (unsigned long)sh->io_steps);
  size_t n = sh->tape_len; while (n && sh->tape[n - 1] == 0) --n;
  for (size_t i = 0; i < n; ++i) j += (i ? "," : "") + std::to_string(sh->tape[i]);
  j += "],\"trace\":" + Json(std::string(sh->log, sh->log_len)) + "}";
  if (a.m.count("out")) WriteFile(a.get("out"), j); else { printf("%s\n", j.c_str()); fflush(stdout); }
  return 0;
}
static int Minimise(Args& a) {
  Scenario* s = Find(a.get("scenario"));
  std::string cls = a.get("cls");
  std::vector<uint64_t> t = ReadTape(a.get("tape"));
  double limit = atof(a.get("max-seconds", "20").c_str()), t0 = Wall();
  MapShared();
  uint64_t tries = 0;
  auto trim = [](std::vector<uint64_t>& v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
  auto test = [&](std::vector<uint64_t>& c) {
    if (Wall() - t0 > limit) return false;
    ++tries;
    PrepareRun(1); LoadTape(c); Execute(s);
    if (sh->outcome == kViolation && cls == sh->cls) {
      // Keep what was actually consumed (normalised values).
      std::vector<uint64_t> got(sh->tape, sh->tape + sh->tape_len); trim(got);
      if (got.size() <= c.size()) c = got;
      return true;
    }
    return false;
  };
  auto cost = [](const std::vector<uint64_t>& v) { uint64_t nz = 0; for (uint64_t x : v) nz += x != 0; return std::make_pair<uint64_t, uint64_t>(v.size(), std::move(nz)); };
  { std::vector<uint64_t> c = t; if (test(c)) t = c; else { fprintf(stderr, "tape does not reproduce\n"); return 4; } }
  for (int round = 0; round < 8; ++round) {
    auto before = t;
    // truncate
    for (size_t cut = t.size() / 2; cut >= 1; cut /= 2)
      while (t.size() > cut) { auto c = t; c.resize(c.size() - cut); trim(c); auto c0 = c; if (test(c)) { t = std::min(cost(c), cost(c0)) == cost(c) ? c : c0; } else break; }
    // delete chunks
    for (size_t len = std::max<size_t>(1, t.size() / 4); len >= 1; len /= 2)
      for (size_t i = 0; i + len <= t.size();) { auto c = t; c.erase(c.begin() + i, c.begin() + i + len); trim(c); if (test(c) && cost(c) < cost(t)) t = c; else i += len; if (Wall() - t0 > limit) break; }
    // zero chunks
    for (size_t len = std::max<size_t>(1, t.size() / 4); len >= 1; len /= 2)
      for (size_t i = 0; i + len <= t.size(); i += len) { auto c = t; bool any = false; for (size_t k = i; k < i + len; ++k) { any |= c[k] != 0; c[k] = 0; } if (!any) continue; trim(c); if (test(c)) t = c; if (Wall() - t0 > limit) break; }
    // reduce values
    for (size_t i = 0; i < t.size(); ++i) while (i < t.size() && t[i] > 1) { auto c = t; c[i] /= 2; if (test(c)) t = c; else { c = t; c[i] -= 1; if (test(c)) t = c; else break; } if (Wall() - t0 > limit) break; }
    if (t == before || Wall() - t0 > limit) break;
  }
  std::string o; for (uint64_t v : t) o += std::to_string(v) + " ";
  WriteFile(a.get("out"), o);
  printf("{\"tries\":%lu,\"len\":%zu}\n", tries, t.size());
  fflush(stdout);
  return 0;
}
static int List() {
  for (auto* s : Scenarios()) printf("%s %s\n", s->name, s->property);
  fflush(stdout);
  return 0;
}
}  // namespace sim

extern "C" void sim_init_allocator();
int main(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("SIM_NO_REEXEC", "1", 1);
      // A fixed environment, so that stack addresses do not depend on it.
      const char* v = getenv("SIM_DATA");
      std::string d = std::string("SIM_DATA=") + (v ? v : "");
      const char* fx = getenv("SIM_FIXTURES");
      std::string ff = std::string("SIM_FIXTURES=") + (fx ? fx : "");
      const char* t = getenv("VERIF_TIER");
      std::string tt = std::string("VERIF_TIER=") + (t ? t : "quick");
      char* envv[] = {const_cast<char*>("SIM_NO_REEXEC=1"), const_cast<char*>("PATH=/usr/bin:/bin"), const_cast<char*>("LC_ALL=C"), d.data(), ff.data(), tt.data(), nullptr};
      execve("/proc/self/exe", argv, envv);
    }
  }
  sim_init_allocator();
  const char* tier = getenv("VERIF_TIER");
  sim::g_thorough = tier && !strcmp(tier, "thorough");
  signal(SIGPIPE, SIG_IGN);
  sim::Args a; std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) a.m[argv[i] + 2] = argv[i + 1];
  int rc = 2;
  if (mode == "explore") rc = sim::Explore(a);
  else if (mode == "one") rc = sim::One(a);
  else if (mode == "minimise") rc = sim::Minimise(a);
  else if (mode == "list") rc = sim::List();
  fflush(stdout);
  sim::RealExit(rc);
}
