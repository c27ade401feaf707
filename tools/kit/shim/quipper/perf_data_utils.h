#ifndef SIM_QUIPPER_PERF_DATA_UTILS_H_
#define SIM_QUIPPER_PERF_DATA_UTILS_H_
#include "quipper/perf_reader.h"
namespace quipper {
inline const PerfDataProto::SampleInfo* GetSampleInfoForEvent(const PerfDataProto::PerfEvent& e) {
  if (e.has_mmap_event() && e.mmap_event().has_sample_info()) return &e.mmap_event().sample_info();
  if (e.has_comm_event() && e.comm_event().has_sample_info()) return &e.comm_event().sample_info();
  if (e.has_fork_event() && e.fork_event().has_sample_info()) return &e.fork_event().sample_info();
  return nullptr;
}
}  // namespace quipper
#endif
