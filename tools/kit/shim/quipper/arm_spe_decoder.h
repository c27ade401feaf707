#ifndef SIM_QUIPPER_ARM_SPE_DECODER_H_
#define SIM_QUIPPER_ARM_SPE_DECODER_H_
#include <cstdint>
#include <string>
namespace quipper {
// The simulator's SPE trace: a sequence of fixed-size records.
class ArmSpeDecoder {
 public:
  struct Record {
    struct { bool retired = false; bool cond_not_taken = false; bool mispredicted = false; } event;
    struct { bool is_br_eret = false; bool is_ld_st = false;
             struct { bool br_cond = false; bool br_indirect = false; } br_eret; } op;
    struct { uint64_t addr = 0; uint8_t el = 0; bool ns = false; } ip, tgt_br_ip;
    struct { uint32_t id = 0; bool el1 = false; bool el2 = false; } context;
    uint64_t timestamp = 0;
  };
  ArmSpeDecoder(const std::string& data, bool is_cross_endian) : data_(data) {}
  bool NextRecord(Record* r);
  static std::string Encode(const Record& r);
 private:
  const std::string& data_;
  size_t pos_ = 0;
};
}  // namespace quipper
#endif
