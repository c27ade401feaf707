#ifndef SIM_node_HASH_SET_H_
#define SIM_node_HASH_SET_H_
#include "absl/container/sim_hash.h"
#include "absl/hash/hash.h"
#include "absl/algorithm/container.h"
namespace absl {
template <typename K, typename H = absl::container_internal::hash_default_hash<K>,
          typename E = absl::container_internal::hash_default_eq<K>, typename A = void>
class node_hash_set : public ::sim::HashSet<K, H, E> {
  using B = ::sim::HashSet<K, H, E>;
 public:
  using B::B;
  node_hash_set() = default;
  node_hash_set(std::initializer_list<K> l) : B(l) {}
};
template <typename K, typename H, typename E, typename A, typename P>
size_t erase_if(node_hash_set<K, H, E, A>& c, P p) {
  size_t n = 0;
  for (auto i = c.begin(); i != c.end();) { auto nx = std::next(i); if (p(*i)) { c.erase(i); ++n; } i = nx; }
  return n;
}
}
#endif
