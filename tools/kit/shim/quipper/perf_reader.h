// The simulator's stand-in for quipper's PerfReader (third-party, not part of
// autofdo): parses serialised PerfDataProto files; anything that does not carry
// the magic, or whose length does not match, is unreadable, as in quipper.
#ifndef SIM_QUIPPER_PERF_READER_H_
#define SIM_QUIPPER_PERF_READER_H_
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <type_traits>
#include <vector>
#include "perf_data.pb.h"
namespace quipper {
using PerfDataProto_PerfEvent = PerfDataProto::PerfEvent;
enum { PERF_RECORD_MMAP = 1, PERF_RECORD_LOST = 2, PERF_RECORD_COMM = 3, PERF_RECORD_EXIT = 4,
       PERF_RECORD_FORK = 7, PERF_RECORD_SAMPLE = 9, PERF_RECORD_MMAP2 = 10, PERF_RECORD_AUXTRACE = 71,
       PERF_RECORD_TIME_CONV = 79 };
std::string SerializePerfData(const PerfDataProto& p);
class PerfReader {
 public:
  bool ReadFile(const std::string& filename);
  bool ReadFromPointer(const char* data, size_t size);
  bool ReadFromString(const std::string& s) { return ReadFromPointer(s.data(), s.size()); }
  const google::protobuf::RepeatedPtrField<PerfDataProto::PerfEvent>& events() const { return proto_.events(); }
  google::protobuf::RepeatedPtrField<PerfDataProto::PerfEvent>* mutable_events() { return proto_.mutable_events(); }
  const google::protobuf::RepeatedPtrField<PerfDataProto::PerfBuildID>& build_ids() const { return proto_.build_ids(); }
  void SetEventTypesToSkipWhenSerializing(const std::set<uint32_t>& s) { skip_ = s; }
  // Any callable; like upstream's std::function<void(const SampleEvent&)>.
  template <typename F> void SetSampleCallback(F f) { cb_ = [f](const PerfDataProto::SampleEvent& e) { f(e); }; }
  void GetFilenamesAsSet(std::set<std::string>* s) const {
    s->clear(); for (auto& e : proto_.events()) if (e.has_mmap_event()) s->insert(e.mmap_event().filename());
  }
  void GetFilenamesToBuildIDs(std::map<std::string, std::string>* m) const;
 private:
  PerfDataProto proto_;
  std::set<uint32_t> skip_;
  std::function<void(const PerfDataProto::SampleEvent&)> cb_;
};
}  // namespace quipper
#endif
