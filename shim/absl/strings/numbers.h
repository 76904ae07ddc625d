#pragma once
#include <charconv>
#include <limits>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/strings/ascii.h"
namespace absl {
// As Abseil: optional surrounding whitespace, optional sign, decimal digits,
// whole string consumed, saturating (and false) on overflow.
template <typename I> bool SimpleAtoi(std::string_view s, I* out) {
  static_assert(std::is_integral_v<I>);
  *out = 0;
  s = StripAsciiWhitespace(s);
  if (s.empty()) return false;
  bool neg = false;
  if (s[0] == '-' || s[0] == '+') { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty()) return false;
  if (neg && std::is_unsigned_v<I>) return false;
  __int128 v = 0; bool over = false;
  for (char c : s) {
    if (!ascii_isdigit(c)) { *out = over ? *out : (I)(neg ? -v : v); return false; }
    if (over) continue;
    v = v * 10 + (c - '0');
    __int128 x = neg ? -v : v;
    if (x > (__int128)std::numeric_limits<I>::max()) { *out = std::numeric_limits<I>::max(); over = true; }
    if (x < (__int128)std::numeric_limits<I>::min()) { *out = std::numeric_limits<I>::min(); over = true; }
  }
  if (over) return false;
  *out = (I)(neg ? -v : v);
  return true;
}
inline bool SimpleAtof(std::string_view s, float* o) { std::string t(s); char* e; *o = std::strtof(t.c_str(), &e); return !t.empty() && *e == 0; }
inline bool SimpleAtod(std::string_view s, double* o) { std::string t(s); char* e; *o = std::strtod(t.c_str(), &e); return !t.empty() && *e == 0; }
}
