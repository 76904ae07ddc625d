#pragma once
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
namespace absl {
template <typename T> class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : st_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  StatusOr(const Status& s) : st_(s) { ABSL_CHECK(!s.ok()) << "StatusOr from OK status"; }
  StatusOr(Status&& s) : st_(std::move(s)) { ABSL_CHECK(!st_.ok()) << "StatusOr from OK status"; }
  template <typename U = T, std::enable_if_t<std::is_constructible_v<T, U&&> && std::is_convertible_v<U&&, T> &&
            !std::is_same_v<std::decay_t<U>, StatusOr> && !std::is_same_v<std::decay_t<U>, Status> &&
            !std::is_same_v<std::decay_t<U>, std::in_place_t>, int> = 0>
  StatusOr(U&& u) : v_(std::forward<U>(u)) {}
  template <typename U = T, std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_convertible_v<U&&, T> &&
            !std::is_same_v<std::decay_t<U>, StatusOr> && !std::is_same_v<std::decay_t<U>, Status> &&
            !std::is_same_v<std::decay_t<U>, std::in_place_t>, int> = 0, int = 0>
  explicit StatusOr(U&& u) : v_(std::forward<U>(u)) {}
  template <typename U, std::enable_if_t<!std::is_same_v<T, U> && std::is_constructible_v<T, const U&>, int> = 0>
  StatusOr(const StatusOr<U>& o) : st_(o.status()) { if (o.ok()) v_.emplace(*o); }
  template <typename U, std::enable_if_t<!std::is_same_v<T, U> && std::is_constructible_v<T, U&&>, int> = 0>
  StatusOr(StatusOr<U>&& o) : st_(o.status()) { if (o.ok()) v_.emplace(*std::move(o)); }
  template <typename... A> explicit StatusOr(std::in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...) {}
  bool ok() const { return st_.ok(); }
  const Status& status() const& { return st_; }
  Status status() && { return st_; }
  const T& value() const& { Need(); return *v_; }
  T& value() & { Need(); return *v_; }
  T&& value() && { Need(); return std::move(*v_); }
  const T& operator*() const& { Need(); return *v_; }
  T& operator*() & { Need(); return *v_; }
  T&& operator*() && { Need(); return std::move(*v_); }
  const T* operator->() const { Need(); return &*v_; }
  T* operator->() { Need(); return &*v_; }
  template <typename U> T value_or(U&& u) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(u)); }
  template <typename U> T value_or(U&& u) && { return ok() ? std::move(*v_) : static_cast<T>(std::forward<U>(u)); }
  void IgnoreError() const {}
  template <typename... A> T& emplace(A&&... a) { st_ = Status(); return v_.emplace(std::forward<A>(a)...); }
  friend bool operator==(const StatusOr& a, const StatusOr& b) { return a.ok() && b.ok() ? *a.v_ == *b.v_ : a.st_ == b.st_; }
 private:
  void Need() const { ABSL_CHECK(st_.ok()) << "StatusOr has no value: " << st_; }
  Status st_;
  std::optional<T> v_;
};
}
