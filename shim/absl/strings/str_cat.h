#pragma once
#include <string>
#include <string_view>
#include "absl/strings/internal/shim_format.h"
#include "absl/strings/string_view.h"
namespace absl {
template <typename... A> std::string StrCat(const A&... a) {
  std::string s; (s.append(::shim::CatStringify(a)), ...); return s;
}
template <typename... A> void StrAppend(std::string* d, const A&... a) {
  (d->append(::shim::CatStringify(a)), ...);
}
}
