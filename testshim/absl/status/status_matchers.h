#pragma once
#include "absl/status/statusor.h"
#include "gmock/gmock.h"
namespace absl_testing {
namespace in {
inline const absl::Status& S(const absl::Status& s) { return s; }
template <class T> const absl::Status& S(const absl::StatusOr<T>& s) { return s.status(); }
}
MATCHER(IsOk, "") { return arg.ok(); }
MATCHER_P(StatusIs, code, "") { return in::S(arg).code() == code; }
MATCHER_P2(StatusIs, code, msg, "") { return in::S(arg).code() == code && ::testing::Matches(::testing::SafeMatcherCast<std::string>(msg))(std::string(in::S(arg).message())); }
MATCHER_P(IsOkAndHolds, m, "") { return arg.ok() && ::testing::Matches(::testing::SafeMatcherCast<decltype(*arg)>(m))(*arg); }
}
