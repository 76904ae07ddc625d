#pragma once
#include <string>
#include <string_view>
#include <vector>
#include "absl/strings/internal/shim_format.h"
namespace absl {
template <typename... A> std::string StrFormat(std::string_view f, const A&... a) {
  return ::shim::FormatV(f, std::vector<::shim::Arg>{::shim::ToArg(a)...});
}
template <typename... A> std::string& StrAppendFormat(std::string* d, std::string_view f, const A&... a) {
  d->append(StrFormat(f, a...)); return *d;
}
template <typename S, typename... A> bool Format(S* sink, std::string_view f, const A&... a) {
  sink->Append(StrFormat(f, a...)); return true;
}
}
