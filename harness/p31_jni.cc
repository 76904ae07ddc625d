// P31: JNI strings, exceptions and the Angle bindings, against a modelled JVM.
#include "fakejvm.h"
#include "util.h"
#include "absl/status/status.h"
#include "ink/geometry/angle.h"
#include "ink/jni/internal/jni_defines.h"
#include "ink/jni/internal/jni_string_util.h"
#include "ink/jni/internal/jni_throw_util.h"
#include <array>
#include <memory>
#include <optional>
using namespace fakejvm; using ink::jni::JStringView;
#include "ink/geometry/internal/jni/angle_jni.cc"
namespace {
const std::vector<std::string>& Units() { static const std::vector<std::string> v = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xc0\x80", "\xed\xa0\xbd", "%s", "\n"}; return v; }
}  // namespace
MC_SECTION(strings, "all strings of up to 4 units from a 7-unit alphabet (1 to 3 byte characters, the modified-UTF-8 NUL, half a surrogate pair, format characters), and null: the view and the copy are the string's bytes, everything acquired is released once") {
  bool null = c.flag(); std::string s; int n = c.pick(5); for (int i = 0; i < n; ++i) s += c.of(Units()); if (null && n) { c.assume(false); return; }
  Vm vm; jstring j = null ? nullptr : vm.str(s);
  { std::string copy = ink::jni::JStringToStdString(&vm.env, j); MC_EXPECT(c, copy == s, "copy", copy); }
  MC_EXPECT(c, vm.acquired.empty() && vm.global_refs == 0, "released after copy", "");
  { JStringView v(&vm.env, j); MC_EXPECT(c, v.string_view() == s, "view", std::string(v.string_view())); if (j) vm.table.DeleteLocalRef(&vm.env, j); MC_EXPECT(c, v.string_view() == s, "view outlives the caller's reference", ""); }
  vm.finish(); MC_EXPECT(c, vm.errors.empty(), "jni rules", vm.all_errors()); c.op(2); c.add_states(1); c.outcome(mc::Hash(s.size(), null));
}
MC_SECTION(string_histories, "all histories of 6 (thorough 8) steps over 3 views and 2 strings and null: create a view, destroy a view, drop the caller's reference, raise an exception; every live view keeps showing its string and nothing is leaked, released twice or used after release") {
  Vm vm; const std::string text[2] = {"first", "second \xe2\x82\xac"}; jstring js[2] = {vm.str(text[0]), vm.str(text[1])}; bool dropped[2] = {false, false}; std::optional<JStringView> v[3]; int shows[3] = {-2, -2, -2}; uint64_t h = 0;
  for (int d = 0, D = mc::tier(6, 8); d < D; ++d) {
    int op = c.pick(16);
    if (op < 9) { int k = op / 3, s = op % 3; if (v[k] || (s < 2 && dropped[s]) || vm.pending) { c.assume(false); break; } v[k].emplace(&vm.env, s < 2 ? js[s] : nullptr); shows[k] = s < 2 ? s : -1; }
    else if (op < 12) { int k = op - 9; if (!v[k]) { c.assume(false); break; } v[k].reset(); shows[k] = -2; }
    else if (op < 14) { int s = op - 12; if (dropped[s]) { c.assume(false); break; } vm.table.DeleteLocalRef(&vm.env, js[s]); dropped[s] = true; }
    else if (op == 14) { if (vm.pending) { c.assume(false); break; } vm.pending = vm.make("java/lang/RuntimeException"); }
    else break;
    c.op(1); h = mc::Hash(h, op);
    for (int k = 0; k < 3; ++k) if (v[k]) MC_EXPECT(c, v[k]->string_view() == (shows[k] < 0 ? std::string() : text[shows[k]]), "view", std::string(v[k]->string_view()));
    c.state(h);
  }
  for (auto& x : v) x.reset();
  vm.finish(); MC_EXPECT(c, vm.errors.empty(), "jni rules", vm.all_errors());
}
MC_SECTION(throwing, "every status code x messages: an OK status throws nothing, any other throws exactly one exception of the mapped class carrying code and message; catching it gives the mapped code back") {
  int code = c.pick(17); std::string m = c.of(std::vector<std::string>{"", "x", "50% of %s\n", "a longer message \xe2\x82\xac"}); absl::Status st(absl::StatusCode(code), m); Vm vm;
  static const std::map<int, std::string> cls = {{9, "java/lang/IllegalStateException"}, {3, "java/lang/IllegalArgumentException"}, {5, "java/util/NoSuchElementException"}, {11, "java/lang/IndexOutOfBoundsException"}, {12, "java/lang/UnsupportedOperationException"}};
  std::string want = cls.count(code) ? cls.at(code) : "java/lang/IllegalStateException";
  vm.handler = [&](Call& k) { jvalue r{}; if (k.name == "getMessage") r.l = k.self->null_str ? nullptr : vm.str(k.self->utf); return r; };
  bool ok = ink::jni::CheckOkOrThrow(&vm.env, st); c.op(1);
  MC_EXPECT(c, ok == (code == 0) && (vm.pending != nullptr) == (code != 0), "CheckOkOrThrow", code);
  if (code == 0) { MC_EXPECT(c, mc::DiesOnCheck([&] { ink::jni::ThrowExceptionFromStatus(&vm.env, st); }), "throwing OK", ""); MC_EXPECT(c, ink::jni::CatchExceptionAsStatus(&vm.env).ok(), "nothing to catch", ""); return; }
  for (int again = 0; again < 2; ++again) {
    MC_EXPECT(c, vm.pending && vm.pending->cls == want, "class", code << " " << (vm.pending ? vm.pending->cls : ""));
    MC_EXPECT(c, vm.pending->utf.find(m) != std::string::npos && vm.pending->utf == st.ToString(), "message", vm.pending->utf);
    absl::Status back = ink::jni::CatchExceptionAsStatus(&vm.env); c.op(2);
    MC_EXPECT(c, !vm.pending, "cleared", ""); MC_EXPECT(c, int(back.code()) == (cls.count(code) ? code : 9) && back.message() == st.ToString(), "caught", back.ToString());
    MC_EXPECT(c, ink::jni::CatchExceptionAsStatus(&vm.env).ok(), "caught once", "");
    if (!again) ink::jni::ThrowExceptionFromStatus(&vm.env, st);
  }
  vm.finish(); MC_EXPECT(c, vm.errors.empty(), "jni rules", vm.all_errors()); c.add_states(1); c.outcome(mc::Hash(code, m.size()));
}
MC_SECTION(catching, "every modelled exception class, subclasses of the mapped ones included, x messages and no message: the status has the code of the closest mapped class (else unknown) and the message, the exception is cleared, nothing leaks") {
  static const std::vector<std::pair<std::string, int>> k = {{"java/lang/IllegalStateException", 9}, {"java/util/concurrent/CancellationException", 9}, {"java/lang/IllegalArgumentException", 3}, {"java/lang/NumberFormatException", 3}, {"java/util/NoSuchElementException", 5}, {"java/util/InputMismatchException", 5}, {"java/lang/IndexOutOfBoundsException", 11}, {"java/lang/ArrayIndexOutOfBoundsException", 11}, {"java/lang/UnsupportedOperationException", 12}, {"java/lang/RuntimeException", 2}, {"java/lang/NullPointerException", 2}, {"java/lang/OutOfMemoryError", 2}, {"java/lang/Exception", 2}};
  auto& e = c.of(k); int m = c.pick(4); Vm vm; vm.pending = vm.make(e.first); vm.pending->null_str = m == 0; vm.pending->utf = m == 1 ? "" : m == 2 ? "oops" : m == 3 ? "\xe2\x82\xac % %d" : ""; std::string text = vm.pending->utf;
  vm.handler = [&](Call& q) { jvalue r{}; if (q.name == "getMessage") r.l = q.self->null_str ? nullptr : vm.str(q.self->utf); return r; };
  absl::Status s = ink::jni::CatchExceptionAsStatus(&vm.env); c.op(1);
  MC_EXPECT(c, int(s.code()) == e.second && s.message() == text, "status", e.first << " -> " << s.ToString()); MC_EXPECT(c, !vm.pending, "cleared", "");
  vm.finish(); MC_EXPECT(c, vm.errors.empty(), "jni rules", vm.all_errors());
  for (auto& x : k) { ink::jni::ThrowException(&vm.env, x.first.c_str(), text); c.op(1); MC_EXPECT(c, vm.pending && vm.pending->cls == x.first && vm.pending->utf == text, "ThrowException", x.first); vm.pending = nullptr; }
  c.add_states(1); c.outcome(mc::Hash(e.second, m));
}
MC_SECTION(angles, "every float (quick: 3 of each 65536; thorough: all 2^32): the two angle bindings return the normalised angle of their argument bit for bit") {
  TierFloatsBlock(c, [&](uint32_t b) {
    float x = FromBits(b); float n = Java_androidx_ink_geometry_Angle_nativeNormalized(nullptr, nullptr, x), z = Java_androidx_ink_geometry_Angle_nativeNormalizedAboutZero(nullptr, nullptr, x);
    if (!Same(n, ink::Angle::Radians(x).Normalized().ValueInRadians()) || !Same(z, ink::Angle::Radians(x).NormalizedAboutZero().ValueInRadians())) c.fail("angle", std::to_string(x) + " -> " + std::to_string(n) + ", " + std::to_string(z));
    if (std::fabs(x) < 1e5f) { double t = 6.283185307179586, d = std::remainder(double(n) - x, t), e = std::remainder(double(z) - x, t), tol = 1e-6 * (4 + std::fabs(x)); if (!(n >= 0 && n < float(t)) || !(std::fabs(z) <= float(t / 2)) || std::fabs(d) > tol || std::fabs(e) > tol) c.fail("range", std::to_string(x) + " -> " + std::to_string(n) + ", " + std::to_string(z)); }
    c.op(2); c.eval(2);
  });
}
MC_MAIN()
