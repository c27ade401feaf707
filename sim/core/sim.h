// Deterministic simulator core: one seed (or one decision tape) = one exactly
// repeatable execution of the real code.
#ifndef SIM_CORE_SIM_H_
#define SIM_CORE_SIM_H_
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---- decisions -------------------------------------------------------------
// Every nondeterministic decision goes through Choose: drawn from the seeded
// generator and recorded on the tape, or taken from the tape when replaying.
// 0 is always the simplest outcome (no fault, insertion order, smallest load).
uint64_t Choose(uint64_t n, const char* tag);
// true with probability num/den; false is value 0.
bool Flip(uint64_t num, uint64_t den, const char* tag);
int64_t Range(int64_t lo, int64_t hi, const char* tag);  // inclusive
// Small numbers preferred: 1..max, geometric-ish.
uint64_t Skewed(uint64_t max, const char* tag);
template <typename T> const T& Pick(const std::vector<T>& v, const char* tag) { return v[Choose(v.size(), tag)]; }
template <typename T> void Shuffle(std::vector<T>& v, const char* tag) {
  // Tape 0 = identity permutation.
  for (size_t i = 0; i + 1 < v.size(); ++i) std::swap(v[i], v[i + Choose(v.size() - i, tag)]);
}

// ---- trace, counters, verdicts --------------------------------------------
void Note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void HashBytes(const void* p, size_t n);
void Count(const std::string& name, uint64_t n = 1);
void State(uint64_t h);  // distinct states / interleavings reached
[[noreturn]] void Fail(const std::string& cls, const std::string& msg);  // violation
[[noreturn]] void Skip(const std::string& why);  // run not applicable (counted)
bool Verbose();
void Show(const std::string& s);  // in the printed trace only: not part of its hash
#define SIM_REQUIRE(cond, cls, msg) do { if (!(cond)) ::sim::Fail(cls, msg); } while (0)
std::string Str(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t Mix(uint64_t a, uint64_t b);
uint64_t HashStr(const std::string& s);

// ---- simulated processes ---------------------------------------------------
struct ProcResult {
  enum Kind { kReturned, kExited, kDied, kCrashed, kSignal, kHung } kind = kReturned;
  int code = 0;          // exit code / signal
  std::string why;       // death message
  std::string out;       // what the body returned
  std::string text;      // what it printed on standard output
  bool Ok() const { return kind == kReturned || (kind == kExited && code == 0); }
  std::string Describe() const;
};
// Runs body in its own process; only the simulated disk survives.
ProcResult Process(const std::string& name, const std::function<std::string()>& body);
// Runs a tool's main() (compiled under another name) in its own process.
ProcResult RunMain(int (*fn)(int, char**), const std::vector<std::string>& args);

// ---- simulated storage -----------------------------------------------------
struct Disk {
  static bool Exists(const std::string& path);
  static std::string Read(const std::string& path);
  static void Write(const std::string& path, const std::string& data);
  static void WriteConst(const std::string& path, const char* p, size_t n);  // zero-copy, must outlive the run
  static void Remove(const std::string& path);
  static void Mkdir(const std::string& path);
  static std::vector<std::string> List();
};
// Loads a host file (once per harness process), e.g. test data.
const std::string& HostFile(const std::string& path);
const std::string& TestData(const std::string& name);  // a file of /repo/testdata
const std::string& Fixture(const std::string& name);   // a file of sim/fixtures

// ---- faults ----------------------------------------------------------------
enum FaultKind {
  kOpenFail, kReadEio, kShortRead, kWriteEnospc, kWriteEio, kShortWrite, kCloseEio, kMmapFail,
  kStatFail, kCrash, kVanish, kDiskFull, kSlowIo, kSeekFail, kAllocFail, kInterrupt, kNumFaults
};
extern const char* const kFaultNames[kNumFaults];
struct FaultPlan {
  uint32_t den[kNumFaults];   // inject with probability 1/den; 0 = never
  uint64_t disk_capacity;     // bytes; UINT64_MAX = unlimited
  uint32_t max_faults;        // stop injecting after this many
  char filter[128];           // only paths starting with this
};
void ClearFaults();
// Enables a random subset of `kinds` at random rates (swarm).
void SwarmFaults(const std::vector<FaultKind>& kinds, const std::string& path_prefix = "/sim/");
void SetFault(FaultKind k, uint32_t den);
void SetFaultFilter(const std::string& path_prefix);
void SetDiskCapacity(uint64_t bytes);
void SetMaxFaults(uint32_t n);
uint64_t FaultsFired();           // faults injected so far in this run
uint64_t FaultsFired(FaultKind k);
uint64_t DiskUsed();
// Hard faults so far: every kind except short reads/writes, which POSIX allows, and delays.
uint64_t HardFaults();
// Marks the start of a section; HardFaults since.
uint64_t IoSteps();

// ---- order seams -----------------------------------------------------------
enum HashMode { kInsertion, kReverse, kShuffled };
void SetHashMode(HashMode m, uint64_t seed);
void SwarmHash();    // choose a hash order for the rest of the run
void SetAllocMode(int mode, uint64_t seed);  // 0 malloc, 1 seeded address order
void SwarmAlloc();

// ---- scenario registry -----------------------------------------------------
struct Scenario {
  const char* name; const char* property; void (*run)(); int weight;
  Scenario(const char* n, const char* p, void (*r)(), int w = 1);
};
std::vector<Scenario*>& Scenarios();
#define SIM_SCENARIO(fn, prop, weight) \
  static void fn(); static ::sim::Scenario scenario_##fn(#fn, prop, fn, weight); static void fn()

// ---- preemption -------------------------------------------------------------
// Stands for another thread that looks at shared state: fn runs at I/O steps and
// allocations of the current process, at points chosen by the seed (every 1 to
// max_gap points). null stops it.
void SetPoller(void (*fn)(), uint64_t max_gap);

uint64_t NowNs();
void AdvanceNs(uint64_t ns);
bool Thorough();
// Raised whenever the program under test would die; by default ends the
// simulated process.
[[noreturn]] void Die(const std::string& why);
// Log lines of the current simulated process (ERROR and above).
void LogLine(int severity, const char* file, int line, const std::string& msg);
}  // namespace sim
#endif
