#ifndef SIM_flat_HASH_MAP_H_
#define SIM_flat_HASH_MAP_H_
#include "absl/container/sim_hash.h"
#include "absl/hash/hash.h"
#include "absl/algorithm/container.h"
namespace absl {
template <typename K, typename V, typename H = absl::container_internal::hash_default_hash<K>,
          typename E = absl::container_internal::hash_default_eq<K>, typename A = void>
class flat_hash_map : public ::sim::HashMap<K, V, H, E> {
  using B = ::sim::HashMap<K, V, H, E>;
 public:
  using B::B;
  flat_hash_map() = default;
  flat_hash_map(std::initializer_list<std::pair<const K, V>> l) : B(l) {}
};
template <typename K, typename V, typename H, typename E, typename A, typename P>
size_t erase_if(flat_hash_map<K, V, H, E, A>& c, P p) {
  size_t n = 0;
  for (auto i = c.begin(); i != c.end();) { auto nx = std::next(i); if (p(*i)) { c.erase(i); ++n; } i = nx; }
  return n;
}
}
#endif
