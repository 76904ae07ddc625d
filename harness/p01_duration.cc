// P01: Duration32 arithmetic.
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "ink/types/duration.h"
#include "util.h"
using ink::Duration32;
namespace {
const Duration32 kD0 = Duration32::Zero();
float S(Duration32 d) { return d.ToSeconds(); }
// The documented sign rule: where IEEE 754 gives NaN, an infinity comes out instead.
float RefAdd(float a, float b) { return std::isinf(a) ? a : a + b; }
float RefSub(float a, float b) { return std::isinf(a) ? a : a - b; }
enum Kind { kExact, kAnyInf };
struct Ref { Kind k; float v; };
Ref RefMul(float d, float s) {
  if (std::isnan(s)) return {kExact, d >= 0 ? kInf : -kInf};
  float r = d * s;
  if (std::isnan(r)) return {kAnyInf, 0};
  return {kExact, r};
}
Ref RefDiv(float d, float s) {
  if (std::isnan(s)) return {kExact, d >= 0 ? kInf : -kInf};
  if (std::isinf(d) && std::isinf(s)) return {kExact, (d > 0) == (s > 0) ? kInf : -kInf};
  float r = d / s;
  if (std::isnan(r)) return {kAnyInf, 0};
  if (std::isinf(d) && s == 0) return {kAnyInf, 0};  // sign of x/±0 for infinite x: unspecified
  return {kExact, r};
}
float RefRatio(float a, float b, bool* any) {
  *any = false;
  if (b == 0) return a >= 0 ? kInf : -kInf;
  if (std::isinf(a)) return (a > 0) == (b > 0) ? kInf : -kInf;
  return a / b;
}
bool Match(Ref r, float got) { return r.k == kAnyInf ? std::isinf(got) : Eq(r.v, got); }
const std::vector<float>& DurFloats() {
  static const std::vector<float> v = [] { std::vector<float> r; for (float f : SpecialFloats()) if (!std::isnan(f)) r.push_back(f); return r; }();
  return v;
}
}  // namespace

MC_SECTION(every_float_construct, "all 2^32 float bit patterns: construction from seconds/milliseconds, read back, negate, NaN-freeness") {
  uint64_t nans = 0;
  AllFloatsBlock(c, [&](uint32_t b) {
    float f = FromBits(b);
    Duration32 d = Duration32::Seconds(f), m = Duration32::Millis(f);
    float s = d.ToSeconds(), ms = m.ToMillis(), s2 = m.ToSeconds();
    bool ok = std::isnan(f) ? (s == kInf && s2 == kInf && ms == kInf && (++nans, true))
                            : (s == f && !std::isnan(ms) && Near(s2, double(f) / 1000, 4e-7, 3e-45));
    double back = double(s2) * 1000;
    ok = ok && (std::isnan(f) || (std::fabs(back) > 3.4e38 ? true : Near(ms, back, 4e-7, 3e-45)));
    ok = ok && d.IsFinite() == (std::isfinite(f)) && (-d).ToSeconds() == -s && !(d != d) && d == d && d <= d && d >= d && !(d < d) && !(d > d);
    ok = ok && !std::isnan(d.ToMillis());
    if (!ok) c.fail("construct", "Seconds/Millis of float bits " + std::to_string(b));
  });
  c.op(uint64_t(8) << 20); c.eval(uint64_t(6) << 20); c.add_nontrivial((1u << 20) - nans);
}

MC_SECTION(every_float_scale, "all float bit patterns whose 16 low bits are 0, 1 or 0xffff (thorough: all 2^32) as scale factor/divisor/duration against a 9-value duration alphabet: never NaN, documented result, * commutes") {
  uint64_t n = 0;
  const float ds[] = {0.f, 1.f, -1.f, 0.37f, -2.5e4f, kMax, -kDenorm, kInf, -kInf};
  TierFloatsBlock(c, [&](uint32_t b) {
    float f = FromBits(b);
    for (float x : ds) {
      Duration32 d = Duration32::Seconds(x);
      float m = (d * f).ToSeconds(), m2 = (f * d).ToSeconds(), q = (d / f).ToSeconds();
      bool ok = Match(RefMul(x, f), m) && Eq(m, m2) && Match(RefDiv(x, f), q);
      if (!std::isnan(f)) {
        Duration32 e = Duration32::Seconds(f);
        bool any;
        ok = ok && Eq((e + d).ToSeconds(), RefAdd(f, x)) && Eq((d - e).ToSeconds(), RefSub(x, f)) && Eq((e - d).ToSeconds(), RefSub(f, x)) &&
             Eq(e / d, RefRatio(f, x, &any)) && Eq(d / e, RefRatio(x, f, &any)) && (e < d) == (f < x) && (e >= d) == (f >= x) && (e == d) == (f == x);
      }
      ++n;
      if (!ok) c.fail("scale", absl::StrCat("duration ", x, "s with float ", f, " (bits ", b, "): * ", m, " / ", q));
    }
  });
  c.op(11 * n); c.eval(11 * n); c.add_nontrivial(n);
}

MC_SECTION(alphabet_pairs, "all pairs from the special-value alphabet x {+,-,*,/,ratio,compare, compound forms}: reference table, never NaN") {
  float a = c.of(DurFloats()), b = c.of(SpecialFloats());
  Duration32 d = Duration32::Seconds(a);
  auto note = [&] { return absl::StrCat(a, " , ", b); };
  c.state(mc::Hash(a, b));
  Duration32 t = d; t *= b;
  MC_EXPECT(c, Eq(S(t), S(d * b)), "compound-mul", note());
  t = d; t /= b;
  MC_EXPECT(c, Eq(S(t), S(d / b)), "compound-div", note());
  MC_EXPECT(c, Match(RefMul(a, b), S(d * b)), "mul", note() << " -> " << S(d * b));
  MC_EXPECT(c, Match(RefMul(a, b), S(b * d)), "mul-commuted", note() << " -> " << S(b * d));
  MC_EXPECT(c, Match(RefDiv(a, b), S(d / b)), "div", note() << " -> " << S(d / b));
  MC_EXPECT(c, !std::isnan(S(d * b)) && !std::isnan(S(d / b)) && !std::isnan((d * b).ToMillis()), "nan", note());
  c.outcome(mc::Hash(S(d * b), S(d / b)));
  if (!std::isnan(b)) {
    Duration32 e = Duration32::Seconds(b);
    bool any;
    MC_EXPECT(c, Eq(S(d + e), RefAdd(a, b)), "add", note() << " -> " << S(d + e));
    MC_EXPECT(c, Eq(S(d - e), RefSub(a, b)), "sub", note() << " -> " << S(d - e));
    MC_EXPECT(c, Eq(d / e, RefRatio(a, b, &any)) && !std::isnan(d / e), "ratio", note() << " -> " << d / e);
    t = d; t += e; MC_EXPECT(c, t == d + e, "compound-add", note());
    t = d; t -= e; MC_EXPECT(c, t == d - e, "compound-sub", note());
    MC_EXPECT(c, (d < e) == (a < b) && (d > e) == (a > b) && (d <= e) == (a <= b) && (d >= e) == (a >= b) && (d == e) == (a == b) && (d != e) == (a != b), "order", note());
    MC_EXPECT(c, !(d == e) || absl::HashOf(d) == absl::HashOf(e), "hash", note());
    if (d == e) MC_EXPECT(c, absl::StrCat(d) == absl::StrCat(e) || a == 0, "text", note());
    MC_EXPECT(c, (absl::StrCat(d).find("inf") != std::string::npos) == std::isinf(a), "text-inf", absl::StrCat(d));
  }
  c.op(14);
}

MC_SECTION(from_to_abseil, "conversion to and from 96-bit durations over the alphabet: infinities kept, sign kept, within float rounding") {
  float a = c.of(DurFloats());
  Duration32 d = Duration32::Seconds(a);
  absl::Duration w = d.ToAbseil();
  c.state(mc::Hash(a)); c.op(2);
  if (std::isinf(a)) MC_EXPECT(c, w == (a > 0 ? absl::InfiniteDuration() : -absl::InfiniteDuration()), "inf", a);
  if (std::fabs(a) < 9e18) {
    MC_EXPECT(c, Near(absl::ToDoubleSeconds(w), a, 1e-12, 3e-10), "value", a << " " << absl::ToDoubleSeconds(w));
  }
  Duration32 back(w);
  MC_EXPECT(c, std::fabs(a) > 9e18 ? std::isinf(S(back)) && (S(back) > 0) == (a > 0) : Near(S(back), a, 1e-7, 3e-10), "back", a << " " << S(back));
  c.outcome(mc::Hash(S(back)));
  const absl::Duration ws[] = {absl::ZeroDuration(), absl::Nanoseconds(1), absl::Milliseconds(-1), absl::Hours(46), absl::InfiniteDuration(), -absl::InfiniteDuration(), absl::Seconds(1680) + absl::Microseconds(100)};
  absl::Duration x = c.of(ws);
  MC_EXPECT(c, S(Duration32(x)) == static_cast<float>(absl::ToDoubleSeconds(x)), "ctor", absl::ToDoubleSeconds(x));
}

MC_SECTION(op_sequences, "every sequence of up to 4 compound operations over {+=,-=,*=,/=,negate} x 9 operands: value stays non-NaN and equals the reference run step by step") {
  const float alpha[] = {0.f, -0.f, 1.f, -0.25f, kMax, -kMax, kInf, -kInf, kNan};
  float cur = c.of(DurFloats());
  Duration32 d = Duration32::Seconds(cur);
  int depth = mc::tier(3, 4);
  for (int i = 0; i < depth; ++i) {
    int op = c.pick(6);
    if (op == 5) break;
    if (op == 4) { d = -d; cur = -cur; }
    else {
      float b = c.of(alpha);
      float before = S(d);
      Duration32 e = Duration32::Seconds(b);
      Ref r{kExact, 0};
      if (op == 0) { d += e; r.v = RefAdd(before, S(e)); }
      if (op == 1) { d -= e; r.v = RefSub(before, S(e)); }
      if (op == 2) { d *= b; r = RefMul(before, b); }
      if (op == 3) { d /= b; r = RefDiv(before, b); }
      MC_EXPECT(c, Match(r, S(d)) && !std::isnan(S(d)), "step", before << " op" << op << " " << b << " -> " << S(d));
    }
    c.op(); c.state(mc::Hash(S(d), i));
  }
  c.outcome(mc::Hash(S(d)));
}

MC_SECTION(order_total, "all triples of the alphabet: ordering is total, transitive and antisymmetric; adjacent floats stay distinct") {
  float x = c.of(DurFloats()), y = c.of(DurFloats());
  for (float z : DurFloats()) {
    Duration32 a = Duration32::Seconds(x), b = Duration32::Seconds(y), e = Duration32::Seconds(z);
    MC_EXPECT(c, (a < b) + (a == b) + (a > b) == 1, "trichotomy", x << "," << y);
    MC_EXPECT(c, !(a <= b && b <= e) || a <= e, "transitive", x << "," << y << "," << z);
    MC_EXPECT(c, (a - b == Duration32::Zero()) <= (a == b) || std::isinf(x) , "sub-zero", x << "," << y);
    c.op(6);
  }
  c.state(mc::Hash(x, y)); c.outcome(mc::Hash(x < y, x == y));
}
MC_MAIN()
