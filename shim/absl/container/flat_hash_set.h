#pragma once
#include <unordered_set>
#include "absl/hash/hash.h"
namespace absl {
template <typename K, typename H = Hash<K>, typename E = std::equal_to<K>, typename A = std::allocator<K>>
class flat_hash_set : public std::unordered_set<K, H, E, A> {
 public:
  using Base = std::unordered_set<K, H, E, A>;
  using Base::Base;
  template <typename Q> bool contains(const Q& k) const { return this->find(k) != this->end(); }
};
template <typename K> using node_hash_set = flat_hash_set<K>;
}
