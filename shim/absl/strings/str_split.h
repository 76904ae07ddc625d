#pragma once
#include <string>
#include <string_view>
#include <vector>
namespace absl {
inline std::vector<std::string> StrSplit(std::string_view s, std::string_view d) {
  std::vector<std::string> r; size_t p = 0;
  for (;;) { size_t q = s.find(d, p); if (q == std::string_view::npos) { r.emplace_back(s.substr(p)); return r; }
    r.emplace_back(s.substr(p, q - p)); p = q + d.size(); }
}
inline std::vector<std::string> StrSplit(std::string_view s, char d) { return StrSplit(s, std::string_view(&d, 1)); }
}
