#pragma once
#include <initializer_list>
#include "absl/hash/hash.h"
namespace absl {
template <class C> bool VerifyTypeImplementsAbslHashCorrectly(const C& vals) {
  for (auto& a : vals) for (auto& b : vals)
    if (a == b && absl::HashOf(a) != absl::HashOf(b)) return false;
  return true;
}
template <class T> bool VerifyTypeImplementsAbslHashCorrectly(std::initializer_list<T> vals) {
  for (auto& a : vals) for (auto& b : vals)
    if (a == b && absl::HashOf(a) != absl::HashOf(b)) return false;
  return true;
}
}
