// Hash containers whose iteration order is decided by the simulator.
//
// absl's flat/node hash containers promise nothing about iteration order and
// randomise it per process. Here every element receives, when inserted, a rank
// drawn from sim::HashRank(); iteration visits elements by rank. Depending on
// the run's mode that is insertion order, reverse insertion order, or a
// seeded pseudo-random permutation. Lookup goes through a private index whose
// order is never visible.
#ifndef SIM_HASH_H_
#define SIM_HASH_H_
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <map>
#include <memory>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include "absl/container/internal/hash_function_defaults.h"
namespace sim {
// Rank of the n-th insertion into the container instance `inst`.
uint64_t HashRank(uint64_t inst, uint64_t n);
uint64_t HashInstance();

template <typename V, typename K, typename KeyOf, typename Hash, typename Eq>
class HashTable {
 public:
  using Items = std::map<std::pair<uint64_t, uint64_t>, V>;
  using Index = std::unordered_multimap<size_t, typename Items::iterator>;
  template <typename It, typename Val>
  class Iter {
   public:
    using iterator_category = std::forward_iterator_tag;
    using value_type = std::remove_const_t<Val>;
    using difference_type = std::ptrdiff_t;
    using pointer = Val*;
    using reference = Val&;
    Iter() {}
    explicit Iter(It it) : it_(it) {}
    template <typename It2, typename Val2,
              typename = std::enable_if_t<std::is_convertible_v<It2, It> && std::is_convertible_v<Val2*, Val*>>>
    Iter(const Iter<It2, Val2>& o) : it_(o.base()) {}
    reference operator*() const { return it_->second; }
    pointer operator->() const { return &it_->second; }
    Iter& operator++() { ++it_; return *this; }
    Iter operator++(int) { Iter r = *this; ++it_; return r; }
    friend bool operator==(const Iter& a, const Iter& b) { return a.it_ == b.it_; }
    friend bool operator!=(const Iter& a, const Iter& b) { return a.it_ != b.it_; }
    It base() const { return it_; }
   private:
    It it_;
  };
  using key_type = K;
  using value_type = V;
  using hasher = Hash;
  using key_equal = Eq;
  using size_type = size_t;
  using difference_type = std::ptrdiff_t;
  using reference = V&;
  using const_reference = const V&;
  using pointer = V*;
  using const_pointer = const V*;
  static constexpr bool kSet = std::is_same_v<K, V>;
  using iterator = Iter<typename Items::iterator, std::conditional_t<kSet, const V, V>>;
  using const_iterator = Iter<typename Items::const_iterator, const V>;

  HashTable() : inst_(HashInstance()) {}
  explicit HashTable(size_t) : HashTable() {}
  HashTable(std::initializer_list<V> l) : HashTable() { for (auto& v : l) insert(v); }
  template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
  HashTable(It b, It e) : HashTable() { insert(b, e); }
  template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
  HashTable(It b, It e, size_t) : HashTable() { insert(b, e); }
  HashTable(const HashTable& o) : HashTable() { for (auto& kv : o.items_) insert(kv.second); }
  HashTable(HashTable&& o) noexcept : HashTable() { swap(o); }
  HashTable& operator=(const HashTable& o) { if (this != &o) { HashTable t(o); swap(t); } return *this; }
  HashTable& operator=(HashTable&& o) noexcept { if (this != &o) { HashTable t(std::move(o)); swap(t); } return *this; }
  HashTable& operator=(std::initializer_list<V> l) { clear(); for (auto& v : l) insert(v); return *this; }

  iterator begin() { return iterator(items_.begin()); }
  iterator end() { return iterator(items_.end()); }
  const_iterator begin() const { return const_iterator(items_.begin()); }
  const_iterator end() const { return const_iterator(items_.end()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  bool empty() const { return items_.empty(); }
  size_t size() const { return items_.size(); }
  size_t max_size() const { return size_t(1) << 40; }
  size_t bucket_count() const { return size() * 2 + 1; }
  size_t capacity() const { return size() * 2 + 1; }
  float load_factor() const { return 0.5f; }
  float max_load_factor() const { return 1.0f; }
  void max_load_factor(float) {}
  void reserve(size_t) {}
  void rehash(size_t) {}
  void clear() { items_.clear(); index_.clear(); }
  void swap(HashTable& o) noexcept {
    items_.swap(o.items_); index_.swap(o.index_); std::swap(inst_, o.inst_); std::swap(n_, o.n_);
  }
  friend void swap(HashTable& a, HashTable& b) noexcept { a.swap(b); }

  template <typename Q> iterator FindQ(const Q& k) {
    auto r = index_.equal_range(Hash{}(k));
    for (auto i = r.first; i != r.second; ++i)
      if (Eq{}(KeyOf{}(i->second->second), k)) return iterator(i->second);
    return end();
  }
  template <typename Q> const_iterator FindQ(const Q& k) const { return const_cast<HashTable*>(this)->FindQ(k); }
  iterator find(const K& k) { return FindQ(k); }
  const_iterator find(const K& k) const { return FindQ(k); }
  template <typename Q, typename H = Hash, typename = typename H::is_transparent> iterator find(const Q& k) { return FindQ(k); }
  template <typename Q, typename H = Hash, typename = typename H::is_transparent> const_iterator find(const Q& k) const { return FindQ(k); }
  bool contains(const K& k) const { return FindQ(k) != end(); }
  template <typename Q, typename H = Hash, typename = typename H::is_transparent> bool contains(const Q& k) const { return FindQ(k) != end(); }
  size_t count(const K& k) const { return contains(k); }
  template <typename Q, typename H = Hash, typename = typename H::is_transparent> size_t count(const Q& k) const { return contains(k); }
  std::pair<iterator, iterator> equal_range(const K& k) {
    auto i = FindQ(k); auto j = i; if (i != end()) ++j; return {i, j};
  }
  std::pair<const_iterator, const_iterator> equal_range(const K& k) const {
    auto i = FindQ(k); auto j = i; if (i != end()) ++j; return {i, j};
  }

  template <typename... A> iterator DoEmplace(size_t h, A&&... a) {
    ++n_;
    auto it = items_.emplace(std::piecewise_construct,
                             std::forward_as_tuple(HashRank(inst_, n_), n_),
                             std::forward_as_tuple(std::forward<A>(a)...)).first;
    index_.emplace(h, it);
    return iterator(it);
  }
  std::pair<iterator, bool> insert(const V& v) {
    auto i = FindQ(KeyOf{}(v));
    if (i != end()) return {i, false};
    return {DoEmplace(Hash{}(KeyOf{}(v)), v), true};
  }
  std::pair<iterator, bool> insert(V&& v) {
    auto i = FindQ(KeyOf{}(v));
    if (i != end()) return {i, false};
    size_t h = Hash{}(KeyOf{}(v));
    return {DoEmplace(h, std::move(v)), true};
  }
  template <typename T, typename = std::enable_if_t<std::is_constructible_v<V, T&&> && !std::is_same_v<std::decay_t<T>, V>>>
  std::pair<iterator, bool> insert(T&& t) { return insert(V(std::forward<T>(t))); }
  iterator insert(const_iterator, const V& v) { return insert(v).first; }
  iterator insert(const_iterator, V&& v) { return insert(std::move(v)).first; }
  template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
  void insert(It b, It e) { for (; b != e; ++b) insert(*b); }
  void insert(std::initializer_list<V> l) { for (auto& v : l) insert(v); }
  template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(V(std::forward<A>(a)...)); }
  template <typename... A> iterator emplace_hint(const_iterator, A&&... a) { return emplace(std::forward<A>(a)...).first; }

  void EraseIt(typename Items::iterator it) {
    auto r = index_.equal_range(Hash{}(KeyOf{}(it->second)));
    for (auto i = r.first; i != r.second; ++i)
      if (i->second == it) { index_.erase(i); break; }
    items_.erase(it);
  }
  void erase(iterator i) { EraseIt(i.base()); }
  template <typename X = const_iterator, typename = std::enable_if_t<!std::is_same_v<X, iterator>>>
  void erase(const_iterator i) { EraseIt(items_.erase(i.base(), i.base())); }
  iterator erase(const_iterator b, const_iterator e) {
    auto i = items_.erase(b.base(), b.base());
    while (const_iterator(i) != e) { auto nx = std::next(i); EraseIt(i); i = nx; }
    return iterator(i);
  }
  size_t erase(const K& k) { auto i = FindQ(k); if (i == end()) return 0; EraseIt(i.base()); return 1; }
  template <typename Q, typename H = Hash, typename = typename H::is_transparent,
            typename = std::enable_if_t<!std::is_convertible_v<Q, iterator> && !std::is_convertible_v<Q, const_iterator>>>
  size_t erase(const Q& k) { auto i = FindQ(k); if (i == end()) return 0; EraseIt(i.base()); return 1; }
  template <typename H2, typename E2>
  void merge(HashTable<V, K, KeyOf, H2, E2>& o) {
    for (auto i = o.begin(); i != o.end();) {
      auto nx = std::next(i);
      if (!contains(KeyOf{}(*i))) { DoEmplace(Hash{}(KeyOf{}(*i)), std::move(const_cast<V&>(*i))); o.EraseIt(i.base()); }
      i = nx;
    }
  }
  template <typename O> void merge(O&& o) { merge(static_cast<HashTable&>(o)); }
  hasher hash_function() const { return Hash{}; }
  key_equal key_eq() const { return Eq{}; }
  const Items& items() const { return items_; }
  Items& items() { return items_; }

 protected:
  uint64_t inst_;
  uint64_t n_ = 0;
  Items items_;
  Index index_;
};

struct First { template <typename P> const auto& operator()(const P& p) const { return p.first; } };
struct Ident { template <typename P> const P& operator()(const P& p) const { return p; } };

template <typename K, typename M, typename Hash, typename Eq>
class HashMap : public HashTable<std::pair<const K, M>, K, First, Hash, Eq> {
  using B = HashTable<std::pair<const K, M>, K, First, Hash, Eq>;
 public:
  using mapped_type = M;
  using typename B::iterator;
  using typename B::const_iterator;
  using B::B;
  HashMap() = default;
  HashMap(std::initializer_list<std::pair<const K, M>> l) : B(l) {}
  template <typename A> M& operator[](A&& k) { return try_emplace(std::forward<A>(k)).first->second; }
  M& operator[](const K& k) { return try_emplace(k).first->second; }
  M& operator[](K&& k) { return try_emplace(std::move(k)).first->second; }
  template <typename Q> M& at(const Q& k) { auto i = this->FindQ(k); if (i == this->end()) throw std::out_of_range("hash_map::at"); return i->second; }
  template <typename Q> const M& at(const Q& k) const { auto i = this->FindQ(k); if (i == this->end()) throw std::out_of_range("hash_map::at"); return i->second; }
  M& at(const K& k) { return at<K>(k); }
  const M& at(const K& k) const { return at<K>(k); }
  template <typename Q, typename... A> std::pair<iterator, bool> try_emplace(Q&& k, A&&... a) {
    auto i = this->FindQ(k);
    if (i != this->end()) return {i, false};
    size_t h = Hash{}(k);
    return {this->DoEmplace(h, std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)),
                            std::forward_as_tuple(std::forward<A>(a)...)), true};
  }
  template <typename... A> std::pair<iterator, bool> try_emplace(const K& k, A&&... a) { return this->template try_emplace<const K&>(k, std::forward<A>(a)...); }
  template <typename Q, typename V2> std::pair<iterator, bool> insert_or_assign(Q&& k, V2&& v) {
    auto r = try_emplace(std::forward<Q>(k), std::forward<V2>(v));
    if (!r.second) r.first->second = std::forward<V2>(v);
    return r;
  }
  template <typename V2> std::pair<iterator, bool> insert_or_assign(const K& k, V2&& v) {
    return this->template insert_or_assign<const K&, V2>(k, std::forward<V2>(v));
  }
  friend bool operator==(const HashMap& a, const HashMap& b) {
    if (a.size() != b.size()) return false;
    for (auto& kv : a) { auto i = b.FindQ(kv.first); if (i == b.end() || !(i->second == kv.second)) return false; }
    return true;
  }
  friend bool operator!=(const HashMap& a, const HashMap& b) { return !(a == b); }
};
template <typename K, typename Hash, typename Eq>
class HashSet : public HashTable<K, K, Ident, Hash, Eq> {
  using B = HashTable<K, K, Ident, Hash, Eq>;
 public:
  using B::B;
  HashSet() = default;
  HashSet(std::initializer_list<K> l) : B(l) {}
  friend bool operator==(const HashSet& a, const HashSet& b) {
    if (a.size() != b.size()) return false;
    for (auto& k : a) if (b.FindQ(k) == b.end()) return false;
    return true;
  }
  friend bool operator!=(const HashSet& a, const HashSet& b) { return !(a == b); }
};
// AbslHashValue for containers is not needed by this code base.
}  // namespace sim
#endif
