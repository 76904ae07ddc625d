#pragma once
#include <unordered_map>
#include "absl/hash/hash.h"
namespace absl {
template <typename K, typename V, typename H = Hash<K>, typename E = std::equal_to<K>, typename A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public std::unordered_map<K, V, H, E, A> {
 public:
  using Base = std::unordered_map<K, V, H, E, A>;
  using Base::Base;
  template <typename Q> bool contains(const Q& k) const { return this->find(k) != this->end(); }
};
template <typename K, typename V> using node_hash_map = flat_hash_map<K, V>;
}
