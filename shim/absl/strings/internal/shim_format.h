#pragma once
// Text conversion shared by the StrCat / StrFormat / Substitute / StrJoin and
// logging stand-ins: understands AbslStringify, as current Abseil does.
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <optional>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace shim {
class StringSink {
 public:
  void Append(size_t n, char c) { s.append(n, c); }
  void Append(std::string_view v) { s.append(v); }
  bool PutPaddedString(std::string_view v, int, int) { s.append(v); return true; }
  friend void AbslFormatFlush(StringSink* sink, std::string_view v) { sink->Append(v); }
  std::string s;
};
template <typename T, typename = void> struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<StringSink&>(), std::declval<const T&>()))>>
    : std::true_type {};
template <typename T, typename = void> struct IsStreamable : std::false_type {};
template <typename T>
struct IsStreamable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>>
    : std::true_type {};
inline std::string SixDigits(double d) {
  char b[64];
  std::snprintf(b, sizeof b, "%g", d);
  return b;
}
enum class Kind { kInt, kUint, kDouble, kString, kChar, kBool };
struct Arg {
  Kind kind = Kind::kString;
  long long i = 0; unsigned long long u = 0; double d = 0; std::string s;
};
template <typename T> Arg ToArg(const T& t) {
  using D = std::decay_t<T>;
  Arg a;
  if constexpr (HasStringify<D>::value) {
    StringSink sink; AbslStringify(sink, t); a.kind = Kind::kString; a.s = std::move(sink.s);
  } else if constexpr (std::is_same_v<D, bool>) { a.kind = Kind::kBool; a.i = t; }
  else if constexpr (std::is_same_v<D, char>) { a.kind = Kind::kChar; a.i = t; a.s = std::string(1, t); }
  else if constexpr (std::is_enum_v<D>) { return ToArg(static_cast<std::underlying_type_t<D>>(t)); }
  else if constexpr (std::is_same_v<D, signed char> ) { a.kind = Kind::kInt; a.i = t; }
  else if constexpr (std::is_same_v<D, unsigned char>) { a.kind = Kind::kUint; a.u = t; }
  else if constexpr (std::is_integral_v<D> && std::is_signed_v<D>) { a.kind = Kind::kInt; a.i = t; }
  else if constexpr (std::is_integral_v<D>) { a.kind = Kind::kUint; a.u = t; }
  else if constexpr (std::is_floating_point_v<D>) { a.kind = Kind::kDouble; a.d = t; }
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) { a.s = std::string(std::string_view(t)); }
  else if constexpr (std::is_convertible_v<const T&, long long>) { a.kind = Kind::kInt; a.i = t; }
  else if constexpr (std::is_pointer_v<D>) { std::ostringstream o; o << (const void*)t; a.s = o.str(); }
  else if constexpr (IsStreamable<D>::value) { std::ostringstream o; o << t; a.s = o.str(); }
  else { a.s = "<unprintable>"; }
  return a;
}
inline std::string Render(const Arg& a) {
  switch (a.kind) {
    case Kind::kInt: return std::to_string(a.i);
    case Kind::kUint: return std::to_string(a.u);
    case Kind::kDouble: return SixDigits(a.d);
    case Kind::kChar: return a.s;
    case Kind::kBool: return a.i ? "true" : "false";
    case Kind::kString: return a.s;
  }
  return a.s;
}
template <typename T> std::string Stringify(const T& t) { return Render(ToArg(t)); }
template <typename T> std::string CatStringify(const T& t) {
  Arg a = ToArg(t);
  if (a.kind == Kind::kBool) return a.i ? "1" : "0";
  return Render(a);
}
template <typename S> std::string StatusText(const S& s) { return Stringify(s); }
std::string FormatV(std::string_view f, const std::vector<Arg>& args);
inline std::string FormatV(std::string_view f, const std::vector<Arg>& args) {
  std::string out; size_t n = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { out.push_back(f[i]); continue; }
    if (i + 1 < f.size() && f[i + 1] == '%') { out.push_back('%'); ++i; continue; }
    std::string spec = "%"; ++i;
    while (i < f.size() && std::strchr("-+ #0123456789.", f[i])) spec.push_back(f[i++]);
    while (i < f.size() && std::strchr("hlLqjzt", f[i])) ++i;
    char c = i < f.size() ? f[i] : 'v';
    const Arg a = n < args.size() ? args[n] : Arg{}; ++n;
    char buf[512];
    auto as_d = [&] { return a.kind == Kind::kDouble ? a.d : a.kind == Kind::kUint ? (double)a.u : (double)a.i; };
    auto as_i = [&] { return a.kind == Kind::kUint ? (long long)a.u : a.kind == Kind::kDouble ? (long long)a.d : a.i; };
    switch (c) {
      case 'd': case 'i':
        if (a.kind == Kind::kUint) { spec += "llu"; std::snprintf(buf, sizeof buf, spec.c_str(), a.u); }
        else { spec += "lld"; std::snprintf(buf, sizeof buf, spec.c_str(), as_i()); }
        out += buf; break;
      case 'u': case 'x': case 'X': case 'o':
        spec += "ll"; spec.push_back(c); std::snprintf(buf, sizeof buf, spec.c_str(), as_i()); out += buf; break;
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a':
        spec.push_back(c); std::snprintf(buf, sizeof buf, spec.c_str(), as_d()); out += buf; break;
      case 'c': out.push_back((char)a.i); break;
      case 's': { std::string v = Render(a); 
        if (spec.size() > 1) { spec.push_back('s'); std::snprintf(buf, sizeof buf, spec.c_str(), v.c_str()); out += buf; }
        else out += v; break; }
      default: out += Render(a); break;
    }
  }
  return out;
}
}  // namespace shim
