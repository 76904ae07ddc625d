#pragma once
#include <string>
#include <string_view>
#include <vector>
#include "absl/strings/internal/shim_format.h"
namespace absl {
template <typename... A> std::string Substitute(std::string_view f, const A&... a) {
  std::vector<std::string> v{::shim::Stringify(a)...};
  std::string out;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '$' && i + 1 < f.size()) {
      char c = f[++i];
      if (c == '$') out.push_back('$');
      else if (c >= '0' && c <= '9' && size_t(c - '0') < v.size()) out += v[c - '0'];
    } else out.push_back(f[i]);
  }
  return out;
}
template <typename... A> void SubstituteAndAppend(std::string* d, std::string_view f, const A&... a) { *d += Substitute(f, a...); }
}
