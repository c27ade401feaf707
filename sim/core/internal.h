#ifndef SIM_CORE_INTERNAL_H_
#define SIM_CORE_INTERNAL_H_
#include <cstddef>
#include <cstdint>
#include "sim.h"
namespace sim {
enum Outcome { kNone = 0, kOk = 1, kViolation = 2, kSkip = 3, kError = 4 };
constexpr size_t kTapeCap = 1 << 21, kStepCap = 8000000, kLogCap = 8 << 20, kArenaCap = size_t(1) << 30;
constexpr int kCounters = 200, kFiles = 256;
constexpr uint64_t kStates = 1 << 16;
struct Counter { char name[56]; uint64_t n; };
struct SimFile { bool used, dir; char name[200]; char* data; uint64_t size, cap; bool ro; uint32_t gen; };
struct Shared {
  uint64_t rng, hash, now_ns, events, io_steps, tape_len, tape_pos, tape_in_len, n_states, log_len, steps;
  int outcome, replay;
  char cls[256], msg[4096];
  int proc_done, proc_kind, proc_code; char proc_why[2048]; char* proc_out; uint64_t proc_out_len;
  FaultPlan plan;
  uint64_t fired[kNumFaults];
  uint64_t arena_pos;
  Counter counters[kCounters];
  SimFile files[kFiles];
  // not cleared between runs:
  uint64_t tape[kTapeCap], tape_in[kTapeCap], states[kStates];
  char log[kLogCap];
};
extern Shared* sh;
void MapShared();
char* ArenaAlloc(size_t n);
void ArenaFull();
void CloseLeftOpen();
[[noreturn]] void RealExit(int code);
[[noreturn]] void CrashNow();
[[noreturn]] void SimExit(int code);
extern int g_alloc_mode;
extern uint64_t g_alloc_seed;
}  // namespace sim
#endif
