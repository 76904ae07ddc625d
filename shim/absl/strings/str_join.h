#pragma once
#include <initializer_list>
#include <iterator>
#include <string>
#include <string_view>
#include "absl/strings/internal/shim_format.h"
namespace absl {
template <typename It> std::string StrJoin(It b, It e, std::string_view sep) {
  std::string s; bool first = true;
  for (; b != e; ++b) { if (!first) s.append(sep); first = false; s.append(::shim::CatStringify(*b)); }
  return s;
}
template <typename R> std::string StrJoin(const R& r, std::string_view sep) { return StrJoin(std::begin(r), std::end(r), sep); }
template <typename T> std::string StrJoin(std::initializer_list<T> r, std::string_view sep) { return StrJoin(r.begin(), r.end(), sep); }
template <typename It, typename F> std::string StrJoin(It b, It e, std::string_view sep, F&& f) {
  std::string s; bool first = true;
  for (; b != e; ++b) { if (!first) s.append(sep); first = false; f(&s, *b); }
  return s;
}
template <typename R, typename F, typename = decltype(std::begin(std::declval<const R&>()))>
std::string StrJoin(const R& r, std::string_view sep, F&& f) { return StrJoin(std::begin(r), std::end(r), sep, f); }
}
