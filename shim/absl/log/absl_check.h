#pragma once
// Stand-in for Abseil's CHECK/DCHECK/LOG: a failed check throws
// shim::CheckFailure, so that an explorer can observe "the process would have
// died here" as one more outcome of an execution and go on.
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <ostream>
#include <sstream>
#include <string>
#include <utility>
#include "absl/strings/internal/shim_format.h"
namespace shim {
struct CheckFailure : std::exception {
  std::string msg; bool debug_only;
  CheckFailure(std::string m, bool d) : msg(std::move(m)), debug_only(d) {
#ifdef SHIM_CHECK_ABORTS
    std::fprintf(stderr, "%s\n", msg.c_str());
    std::abort();
#endif
  }
  const char* what() const noexcept override { return msg.c_str(); }
};
inline thread_local long soft_log_count = 0;
class FatalStream {
 public:
  FatalStream(const char* file, int line, const char* what, bool debug) : debug_(debug) {
    os_ << file << ":" << line << " " << what << " ";
  }
  template <typename T> FatalStream& operator<<(const T& t) { os_ << ::shim::Stringify(t); return *this; }
  FatalStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  [[noreturn]] ~FatalStream() noexcept(false) { throw CheckFailure(os_.str(), debug_); }
 private:
  std::ostringstream os_; bool debug_;
};
class SoftStream {
 public:
  SoftStream() { ++soft_log_count; }
  template <typename T> SoftStream& operator<<(const T&) { return *this; }
};
struct Voidify { template <typename T> void operator&&(T&&) const {} };
template <typename S> inline const S& AsStatusForCheck(const S& s) { return s; }
template <typename S> auto CheckOk(const S& s, std::string* out) -> bool {
  if (s.ok()) return true;
  *out = StatusText(s);
  return false;
}
}  // namespace shim
#define SHIM_FATAL(what, dbg) ::shim::Voidify() && ::shim::FatalStream(__FILE__, __LINE__, what, dbg)
#define ABSL_CHECK(c) (static_cast<bool>(c)) ? (void)0 : SHIM_FATAL("CHECK failed: " #c, false)
#define SHIM_CMP(a, op, b, dbg) ((a) op (b)) ? (void)0 : SHIM_FATAL("CHECK failed: " #a " " #op " " #b, dbg)
#define ABSL_CHECK_EQ(a, b) SHIM_CMP(a, ==, b, false)
#define ABSL_CHECK_NE(a, b) SHIM_CMP(a, !=, b, false)
#define ABSL_CHECK_LT(a, b) SHIM_CMP(a, <, b, false)
#define ABSL_CHECK_LE(a, b) SHIM_CMP(a, <=, b, false)
#define ABSL_CHECK_GT(a, b) SHIM_CMP(a, >, b, false)
#define ABSL_CHECK_GE(a, b) SHIM_CMP(a, >=, b, false)
#define ABSL_CHECK_OK(s) ((s).ok()) ? (void)0 : SHIM_FATAL("CHECK_OK failed: " #s, false)
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#ifdef SHIM_NDEBUG
#define ABSL_DCHECK(c) (true || static_cast<bool>(c)) ? (void)0 : SHIM_FATAL("", true)
#define SHIM_DCMP(a, op, b) (true || ((a) op (b))) ? (void)0 : SHIM_FATAL("", true)
#define ABSL_DCHECK_OK(s) (true || (s).ok()) ? (void)0 : SHIM_FATAL("", true)
#else
#define ABSL_DCHECK(c) (static_cast<bool>(c)) ? (void)0 : SHIM_FATAL("DCHECK failed: " #c, true)
#define SHIM_DCMP(a, op, b) SHIM_CMP(a, op, b, true)
#define ABSL_DCHECK_OK(s) ((s).ok()) ? (void)0 : SHIM_FATAL("DCHECK_OK failed: " #s, true)
#endif
#define ABSL_DCHECK_EQ(a, b) SHIM_DCMP(a, ==, b)
#define ABSL_DCHECK_NE(a, b) SHIM_DCMP(a, !=, b)
#define ABSL_DCHECK_LT(a, b) SHIM_DCMP(a, <, b)
#define ABSL_DCHECK_LE(a, b) SHIM_DCMP(a, <=, b)
#define ABSL_DCHECK_GT(a, b) SHIM_DCMP(a, >, b)
#define ABSL_DCHECK_GE(a, b) SHIM_DCMP(a, >=, b)
#define SHIM_LOG_INFO ::shim::SoftStream()
#define SHIM_LOG_WARNING ::shim::SoftStream()
#define SHIM_LOG_ERROR ::shim::SoftStream()
#define SHIM_LOG_FATAL ::shim::FatalStream(__FILE__, __LINE__, "LOG(FATAL)", false)
#define SHIM_LOG_QFATAL SHIM_LOG_FATAL
#ifdef SHIM_NDEBUG
#define SHIM_LOG_DFATAL ::shim::SoftStream()
#else
// Not declared noreturn at the use site: code must still return afterwards.
namespace shim {
class DFatalStream {
 public:
  DFatalStream(const char* f, int l) { os_ << f << ":" << l << " LOG(DFATAL) "; }
  template <typename T> DFatalStream& operator<<(const T& t) { os_ << ::shim::Stringify(t); return *this; }
  ~DFatalStream() noexcept(false) { throw CheckFailure(os_.str(), true); }
 private:
  std::ostringstream os_;
};
}
#define SHIM_LOG_DFATAL ::shim::DFatalStream(__FILE__, __LINE__)
#endif
#define ABSL_LOG(sev) SHIM_LOG_##sev
#define ABSL_DLOG(sev) ::shim::SoftStream()
#define ABSL_LOG_IF(sev, cond) if (!(cond)) {} else SHIM_LOG_##sev
#define ABSL_LOG_FIRST_N(sev, n) SHIM_LOG_##sev
#define ABSL_LOG_EVERY_N(sev, n) SHIM_LOG_##sev
// Umbrella: current Abseil reaches these transitively from most headers.
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
