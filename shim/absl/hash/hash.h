#pragma once
// Stand-in for absl::Hash: same customisation point (AbslHashValue), but
// deterministic, with the seed under the harness's control.
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <array>
#include "absl/types/span.h"
namespace shim { inline uint64_t hash_seed = 0x9E3779B97F4A7C15ull; }
namespace absl {
class HashState {
 public:
  uint64_t h = ::shim::hash_seed;
  void Mix(uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; }
  template <typename T> static HashState One(HashState s, const T& v);
  static HashState combine(HashState s) { return s; }
  template <typename T, typename... R> static HashState combine(HashState s, const T& v, const R&... r) {
    return combine(One(std::move(s), v), r...);
  }
  template <typename T> static HashState combine_contiguous(HashState s, const T* p, size_t n) {
    for (size_t i = 0; i < n; ++i) s = One(std::move(s), p[i]);
    return s;
  }
};
namespace shim_hash {
template <typename T, typename = void> struct HasAbsl : std::false_type {};
template <typename T> struct HasAbsl<T, std::void_t<decltype(AbslHashValue(std::declval<HashState>(), std::declval<const T&>()))>> : std::true_type {};
template <typename T, typename = void> struct IsRange : std::false_type {};
template <typename T> struct IsRange<T, std::void_t<decltype(std::declval<const T&>().begin()), decltype(std::declval<const T&>().end())>> : std::true_type {};
template <typename T> struct IsTuple : std::false_type {};
template <typename... A> struct IsTuple<std::tuple<A...>> : std::true_type {};
template <typename A, typename B> struct IsTuple<std::pair<A, B>> : std::true_type {};
template <typename T> struct IsOpt : std::false_type {};
template <typename T> struct IsOpt<std::optional<T>> : std::true_type {};
template <typename T> struct IsVar : std::false_type {};
template <typename... T> struct IsVar<std::variant<T...>> : std::true_type {};
template <typename T> struct IsPtr : std::is_pointer<T> {};
template <typename T> struct IsPtr<std::unique_ptr<T>> : std::true_type {};
template <typename T> struct IsPtr<std::shared_ptr<T>> : std::true_type {};
}
template <typename T> HashState HashState::One(HashState s, const T& v) {
  using namespace shim_hash;
  if constexpr (std::is_enum_v<T>) { s.Mix((uint64_t)v); }
  else if constexpr (std::is_floating_point_v<T>) {
    if (v == 0) s.Mix(0); else { double d = v; uint64_t b; std::memcpy(&b, &d, 8); s.Mix(b); } }
  else if constexpr (std::is_integral_v<T>) { s.Mix((uint64_t)v); }
  else if constexpr (IsPtr<T>::value) { s.Mix((uint64_t)(uintptr_t)std::to_address(v)); }
  else if constexpr (HasAbsl<T>::value) { return AbslHashValue(std::move(s), v); }
  else if constexpr (IsTuple<T>::value) { std::apply([&](const auto&... x) { s = HashState::combine(std::move(s), x...); }, v); }
  else if constexpr (IsOpt<T>::value) { if (v.has_value()) s = One(std::move(s), *v); s.Mix(v.has_value()); }
  else if constexpr (IsVar<T>::value) { std::visit([&](const auto& x) { s = One(std::move(s), x); }, v); s.Mix(v.index()); }
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) { std::string_view w(v); for (char c : w) s.Mix((unsigned char)c); s.Mix(w.size()); }
  else if constexpr (IsRange<T>::value) { size_t n = 0; for (const auto& x : v) { s = One(std::move(s), x); ++n; } s.Mix(n); }
  else { static_assert(sizeof(T) == 0, "unhashable type"); }
  return s;
}
template <typename T> struct Hash { size_t operator()(const T& v) const { return HashState::combine(HashState{}, v).h; } };
template <typename... T> size_t HashOf(const T&... v) { return HashState::combine(HashState{}, v...).h; }
}
