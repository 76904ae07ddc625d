#pragma once
#include <utility>
namespace absl {
template <typename... T> struct Overload final : T... {
  explicit Overload(T... ts) : T(std::move(ts))... {}
  using T::operator()...;
};
template <typename... T> Overload(T...) -> Overload<T...>;
}
