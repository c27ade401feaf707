// Reference model of an AutoFDO function profile: plain maps, no code shared
// with /repo. Operations are applied to the model and, through the public
// API, to the real SymbolMap.
#ifndef PROFILE_MODEL_H_
#define PROFILE_MODEL_H_
#include <deque>
#include <map>
#include <string>
#include <vector>

#include "../core/sim.h"
#include "symbol_map.h"

namespace model {
struct Off {
  uint32_t line = 0, disc = 0;
  bool operator<(const Off& o) const { return line != o.line ? line < o.line : disc < o.disc; }
  bool operator==(const Off& o) const { return line == o.line && disc == o.disc; }
};
struct Pos { uint64_t count = 0, insts = 0; std::map<std::string, uint64_t> targets; };
struct Node {
  std::map<Off, Pos> pos;
  std::map<std::pair<Off, std::string>, Node> calls;
  uint64_t total = 0;  // of the instructions, in creation only
  uint64_t Total() const {
    uint64_t t = 0;
    for (auto& p : pos) t += p.second.count;
    for (auto& c : calls) t += c.second.Total();
    return t;
  }
  bool Empty() const {
    if (!pos.empty()) return false;
    for (auto& c : calls) if (!c.second.Empty()) return false;
    return true;
  }
};
// Instructions, hottest first, that carry (i+1)/129 of the counts, and the count of the next one.
struct WorkingSet { uint64_t num = 0, min = 0; };
std::vector<WorkingSet> WorkingSets(const std::vector<const Node*>& functions);
struct Sym { std::string file; uint64_t head = 0, ts = 0; Node body; };
struct Frame { std::string name; Off off; };  // off: position inside this function
struct Model {
  std::map<std::string, Sym> syms;
  uint32_t ws_num[NUM_GCOV_WORKING_SETS] = {0};
  uint64_t ws_min[NUM_GCOV_WORKING_SETS] = {0};
  void Add(const Model& o);             // sums; file and timestamp from o
  Model Above(uint64_t threshold) const;  // symbols whose total exceeds it
};
void AddNode(Node& a, const Node& b);

struct Op {
  enum Kind { kSymbol, kCount, kTarget, kHead, kWorkingSet } kind = kCount;
  std::string sym;
  std::string file;
  uint64_t head = 0, ts = 0, count = 0;
  uint32_t num_inst = 1;
  std::vector<Frame> stack;  // outermost first
  std::string target;
  int index = 0;
  bool with_files = false;
};
void Apply(const Op& op, Model* m);
// Keeps the C strings alive for the process.
void Apply(const Op& op, devtools_crosstool_autofdo::SymbolMap* m);

struct GenOptions {
  bool min_total_above_threshold = false;  // every symbol keeps total > 10
  bool working_sets = true;
  bool stable_meta = false;   // file, timestamp a function of the name
  bool allow_big = true;
  bool ctor_names = true;
  bool empty_symbols = true;
  bool files = true;
  uint64_t max_count = 0;     // 0: chosen per profile
};
std::vector<Op> Generate(const GenOptions& o);
std::string FileOf(const std::string& n);  // the source file, a function of the name
std::string NewName(bool ctor_names);
std::vector<std::string>& NamePool();

std::string Canon(const Model& m, bool working_sets = true);
std::string Canon(const devtools_crosstool_autofdo::SymbolMap& m, bool working_sets = true);
std::string FirstDiff(const std::string& want, const std::string& got);
// The writer replaces C4/D4 constructor names by their C2/D2 twins.
std::string WrittenName(const std::string& n);
Model AsWritten(const Model& m);
}  // namespace model
#endif
