#pragma once
#include <string_view>
namespace absl {
inline bool StartsWith(std::string_view t, std::string_view p) noexcept { return t.substr(0, p.size()) == p; }
inline bool EndsWith(std::string_view t, std::string_view p) noexcept { return t.size() >= p.size() && t.substr(t.size() - p.size()) == p; }
inline bool StrContains(std::string_view t, std::string_view p) noexcept { return t.find(p) != std::string_view::npos; }
inline bool StrContains(std::string_view t, char p) noexcept { return t.find(p) != std::string_view::npos; }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) noexcept {
  auto lc = [](char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; };
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (lc(a[i]) != lc(b[i])) return false;
  return true;
}
inline bool StartsWithIgnoreCase(std::string_view t, std::string_view p) noexcept { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p); }
inline bool EndsWithIgnoreCase(std::string_view t, std::string_view p) noexcept { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p); }
}
