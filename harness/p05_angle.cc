// P05: Angle.
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "ink/geometry/angle.h"
#include "util.h"
using ink::Angle;
namespace {
const double kTau = 6.283185307179586476925286766559;
const float kPif = static_cast<float>(kTau / 2), kTauf = static_cast<float>(kTau);
double ModDist(double d, double m) { double r = std::fmod(std::fabs(d), m); return std::min(r, m - r); }
float R(Angle a) { return a.ValueInRadians(); }
}
MC_SECTION(every_float_normalize, "all float bit patterns as radians (quick: all with magnitude below 2^20 and, above, those whose 12 low bits are all 0 or all 1; thorough: all 2^32): normalized results lie in [0,2pi) and (-pi,pi], differ from the input by whole turns, are fixed points and agree with each other") {
  uint64_t cnt = 0;
  AllFloatsBlock(c, [&](uint32_t b) {
    float f = FromBits(b);
    if (!mc::thorough() && !(std::fabs(f) < 1048576.f) && (b & 0xfff) != 0 && (b & 0xfff) != 0xfff) return;
    ++cnt;
    Angle a = Angle::Radians(f);
    float n = R(a.Normalized()), z = R(a.NormalizedAboutZero());
    if (!std::isfinite(f)) { if (!std::isnan(n) && !(n >= 0 && n < kTauf)) c.fail("nonfinite", std::to_string(f)); return; }
    bool ok = n >= 0 && n < kTauf && z > -kPif && z <= kPif;
    ok = ok && (std::fabs(f) > 1000 || (ModDist(double(n) - f, kTau) <= std::fabs(f) * 3e-7 + 1e-6 && ModDist(double(z) - f, kTau) <= std::fabs(f) * 3e-7 + 1e-6));
    ok = ok && ModDist(double(n) - z, kTau) <= 1.5e-6;
    ok = ok && (f < 0 || f >= kTauf || n == f) && (f <= -kPif || f > kPif || z == f);
    if (!ok) c.fail("normalize", absl::StrCat("radians ", f, " bits ", b, " -> ", n, " , ", z));
  });
  c.op(2 * cnt); c.eval(8 * cnt); c.add_nontrivial(cnt); c.add_states(cnt - (1u << 20));
}
MC_SECTION(every_float_units, "float patterns (thorough: all 2^32): degrees and radians convert by pi/180 and back; trigonometry, abs and inverse functions agree with the math library") {
  uint64_t n = 0;
  TierFloatsBlock(c, [&](uint32_t b) {
    float f = FromBits(b); double x = f; ++n;
    Angle r = Angle::Radians(f), d = Angle::Degrees(f);
    bool ok = Eq(R(r), f) && Near(R(d), x * kTau / 360, 4e-7, 3e-45);
    double deg = x * 360 / kTau;
    ok = ok && (std::fabs(deg) > 3.4e38 || Near(r.ValueInDegrees(), deg, 4e-7, 6e-44));
    if (std::isfinite(f)) {
      ok = ok && Near(ink::Sin(r), std::sin(x), 0, 2e-7) && Near(ink::Cos(r), std::cos(x), 0, 2e-7) && R(ink::Abs(r)) == std::fabs(f);
      if (std::fabs(std::cos(x)) > 1e-3) ok = ok && Near(ink::Tan(r), std::tan(x), 1e-6, 1e-6);
      ok = ok && Near(R(ink::Atan(f)), std::atan(x), 3e-7, 1e-44);
      if (std::fabs(f) <= 1) ok = ok && Near(R(ink::Asin(f)), std::asin(x), 3e-7, 1e-44) && Near(R(ink::Acos(f)), std::acos(x), 3e-7, 2e-7);
    }
    if (!ok) c.fail("units", absl::StrCat("value ", f, " bits ", b));
  });
  c.op(12 * n); c.eval(10 * n); c.add_nontrivial(n);
}
MC_SECTION(alphabet_pairs, "all pairs from special floats and multiples of pi/4: arithmetic, comparison, min/max/mod, compound forms, hash and text") {
  static const std::vector<float> v = [] { auto r = SpecialFloats(); for (int k = -9; k <= 9; ++k) r.push_back(float(k * kTau / 8)); return r; }();
  float a = c.of(v), b = c.of(v); Angle x = Angle::Radians(a), y = Angle::Radians(b), t;
  c.state(mc::Hash(a, b)); c.op(20);
  MC_EXPECT(c, R(t) == 0, "default", "");
  MC_EXPECT(c, Eq(R(x + y), a + b) && Eq(R(x - y), a - b) && Eq(R(-x), -a), "addsub", a << "," << b);
  MC_EXPECT(c, Eq(R(x * b), a * b) && Eq(R(b * x), a * b) && Eq(R(x / b), a / b) && Eq(x / y, a / b), "muldiv", a << "," << b);
  t = x; t += y; MC_EXPECT(c, Eq(R(t), a + b), "c+", a << "," << b);
  t = x; t -= y; MC_EXPECT(c, Eq(R(t), a - b), "c-", a << "," << b);
  t = x; t *= b; MC_EXPECT(c, Eq(R(t), a * b), "c*", a << "," << b);
  t = x; t /= b; MC_EXPECT(c, Eq(R(t), a / b), "c/", a << "," << b);
  MC_EXPECT(c, (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "order", a << "," << b);
  if (!std::isnan(a) && !std::isnan(b)) MC_EXPECT(c, R(ink::Min(x, y)) == std::fmin(a, b) && R(ink::Max(x, y)) == std::fmax(a, b), "minmax", a << "," << b);
  MC_EXPECT(c, Eq(R(ink::Mod(x, y)), std::fmod(a, b)), "mod", a << "," << b);
  MC_EXPECT(c, !(x == y) || absl::HashOf(x) == absl::HashOf(y), "hash", a << "," << b);
  MC_EXPECT(c, absl::StrCat(x).size() > 2 && absl::StrCat(x).substr(absl::StrCat(x).size() - 2) == "\xcf\x80", "text", absl::StrCat(x));
  c.outcome(mc::Hash(R(x + y), R(x * b)));
}
MC_SECTION(every_float_text, "float patterns (thorough: all 2^32): the printed multiple of pi parses back to the angle") {
  uint64_t n = 0;
  uint32_t hi = c.pick(1024);
  for (uint32_t mid = 0; mid < 64; mid += mc::thorough() ? 1 : 8) {
    float f = FromBits((hi << 22) | (mid << 16)); if (!std::isfinite(f)) continue; ++n;
    std::string s = absl::StrCat(Angle::Radians(f));
    double v = std::strtod(s.c_str(), nullptr);
    double want = double(f) / 3.14159274101257324;
    if (!Near(v, want, 2e-5, 1e-44)) c.fail("text", s + " for " + std::to_string(f));
  }
  c.op(n); c.eval(n); c.add_states(n); c.add_nontrivial(n);
}
MC_MAIN()
