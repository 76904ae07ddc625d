#pragma once
#include <ostream>
#include <string>
#include <string_view>
#include "absl/log/absl_check.h"
#include "absl/strings/string_view.h"
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5,
  kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11,
  kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16 };
inline std::string StatusCodeToString(StatusCode c) {
  static const char* n[] = {"OK","CANCELLED","UNKNOWN","INVALID_ARGUMENT","DEADLINE_EXCEEDED","NOT_FOUND","ALREADY_EXISTS",
   "PERMISSION_DENIED","RESOURCE_EXHAUSTED","FAILED_PRECONDITION","ABORTED","OUT_OF_RANGE","UNIMPLEMENTED","INTERNAL",
   "UNAVAILABLE","DATA_LOSS","UNAUTHENTICATED"};
  return n[(int)c];
}
inline std::ostream& operator<<(std::ostream& o, StatusCode c) { return o << StatusCodeToString(c); }
class [[nodiscard]] Status final {
 public:
  Status() = default;
  Status(StatusCode c, std::string_view m) : code_(c), msg_(c == StatusCode::kOk ? "" : m) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return (int)code_; }
  std::string_view message() const { return msg_; }
  std::string ToString() const { return ok() ? "OK" : StatusCodeToString(code_) + ": " + msg_; }
  void IgnoreError() const {}
  void Update(const Status& s) { if (ok()) *this = s; }
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_ && a.msg_ == b.msg_; }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  friend std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.ToString(); }
  template <typename S> friend void AbslStringify(S& sink, const Status& s) { sink.Append(s.ToString()); }
 private:
  StatusCode code_ = StatusCode::kOk;
  std::string msg_;
};
inline Status OkStatus() { return Status(); }
#define SHIM_ST(N) inline Status N##Error(std::string_view m) { return Status(StatusCode::k##N, m); } \
  inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
SHIM_ST(Cancelled) SHIM_ST(Unknown) SHIM_ST(InvalidArgument) SHIM_ST(DeadlineExceeded) SHIM_ST(NotFound) SHIM_ST(AlreadyExists)
SHIM_ST(PermissionDenied) SHIM_ST(ResourceExhausted) SHIM_ST(FailedPrecondition) SHIM_ST(Aborted) SHIM_ST(OutOfRange)
SHIM_ST(Unimplemented) SHIM_ST(Internal) SHIM_ST(Unavailable) SHIM_ST(DataLoss) SHIM_ST(Unauthenticated)
#undef SHIM_ST
}
