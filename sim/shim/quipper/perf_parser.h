#ifndef SIM_QUIPPER_PERF_PARSER_H_
#define SIM_QUIPPER_PERF_PARSER_H_
#include <memory>
#include <string>
#include <vector>
#include "quipper/perf_reader.h"
namespace quipper {
enum { PERF_BR_SPEC_NA = 0, PERF_BR_SPEC_WRONG_PATH = 1, PERF_BR_NON_SPEC_CORRECT_PATH = 2, PERF_BR_SPEC_CORRECT_PATH = 3 };
struct DSOInfo { std::string name; std::string build_id; };
struct ParsedEvent {
  PerfDataProto::PerfEvent* event_ptr = nullptr;
  struct DSOAndOffset {
    const DSOInfo* dso_info_ = nullptr;
    uint64_t offset_ = 0;
    uint64_t offset() const { return offset_; }
    const std::string dso_name() const { return dso_info_ ? dso_info_->name : std::string(); }
    const std::string build_id() const { return dso_info_ ? dso_info_->build_id : std::string(); }
  } dso_and_offset;
  struct BranchEntry { bool predicted = true; int spec = 0; DSOAndOffset from, to; };
  std::vector<BranchEntry> branch_stack;
};
struct PerfParserOptions {};
class PerfParser {
 public:
  explicit PerfParser(PerfReader* r) : reader_(r) {}
  PerfParser(PerfReader* r, const PerfParserOptions&) : reader_(r) {}
  bool ParseRawEvents();
  const std::vector<ParsedEvent>& parsed_events() const { return events_; }
 private:
  PerfReader* reader_;
  std::vector<ParsedEvent> events_;
  std::map<std::string, std::unique_ptr<DSOInfo>> dsos_;
};
}  // namespace quipper
#endif
