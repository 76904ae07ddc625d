// P16: interpolation helpers.
#include "absl/strings/str_cat.h"
#include "ink/geometry/internal/algorithms.h"
#include "util.h"
using ink::Angle; using ink::Color; using ink::Point; using ink::Vec; namespace gi = ink::geometry_internal;
namespace {
constexpr double kPi = 3.14159265358979323846;
const std::vector<float> kV = {0, 1, -1, 0.1f, -2.5f, 3, 1e-3f, 255, -1e4f, 1e6f}, kT = {0, 1, 0.5f, 0.25f, 0.1f, 0.9f, -1, 2, -0.3f, 1.7f};
}  // namespace
MC_SECTION(scalars, "all triples of a value alphabet and all ratios: floats, points, vectors and colours interpolate and extrapolate per component, equal ends give that value, inverse interpolation and linear maps undo and compose") {
  float a = c.of(kV), b = c.of(kV);
  for (float t : kT) {
    double want = a + (double(b) - a) * t, tol = 4e-7 * ((std::fabs(a) + std::fabs(b)) * (1 + std::fabs(t)));
    float l = gi::Lerp(a, b, t); c.op(4); c.eval(6); c.add_states(1); c.add_nontrivial(a != b); c.outcome(mc::Hash(l));
    MC_EXPECT(c, Near(l, want, 0, tol), "float", a << " " << b << " " << t << ": " << l);
    if (a == b) MC_EXPECT(c, l == a, "equal-ends", a << " " << t);
    for (float y : kV) {
      double wy = y + (double(a) - y) * t, ty = 4e-7 * ((std::fabs(a) + std::fabs(y)) * (1 + std::fabs(t)));
      Point p = gi::Lerp(Point{a, y}, Point{b, a}, t); Vec v = gi::Lerp(Vec{a, y}, Vec{b, a}, t); auto k = gi::Lerp(Color::RgbaFloat{a, y, b, a}, Color::RgbaFloat{b, a, a, y}, t); c.op(3);
      double wb = b + (double(a) - b) * t, wa = a + (double(y) - a) * t;
      MC_EXPECT(c, Near(p.x, want, 0, tol) && Near(p.y, wy, 0, ty), "point", a << " " << b << " " << y << " " << t);
      MC_EXPECT(c, Near(v.x, want, 0, tol) && Near(v.y, wy, 0, ty), "vec", a << " " << b << " " << y << " " << t);
      MC_EXPECT(c, Near(k.r, want, 0, tol) && Near(k.g, wy, 0, ty) && Near(k.b, wb, 0, tol) && Near(k.a, wa, 0, ty), "color", a << " " << b << " " << y << " " << t);
    }
    if (t == 0) MC_EXPECT(c, l == a, "start", a << " " << b);
    Angle g = gi::Lerp(Angle::Radians(a), Angle::Radians(b), t);
    MC_EXPECT(c, Near(g.ValueInRadians(), want, 0, tol), "angle", a << " " << b << " " << t);
  }
  for (float v : kV) {
    float i = gi::InverseLerp(a, b, v); c.op();
    MC_EXPECT(c, a == b ? i == 0 : Near(i, (double(v) - a) / (double(b) - a), 4e-7, 0), "inverse", a << " " << b << " " << v << ": " << i);
    if (a != b && ((a <= v && v <= b) || (b <= v && v <= a))) MC_EXPECT(c, i >= 0 && i <= 1, "inverse-range", a << " " << b << " " << v << ": " << i);
    if (v == a) MC_EXPECT(c, i == 0, "inverse-start", a << " " << b);
    if (v == b && a != b) MC_EXPECT(c, i == 1, "inverse-end", a << " " << b);
    for (float lo : kV) for (float hi : kV) {
      float m = gi::LinearMap(v, {a, b}, {lo, hi}); c.op(); double r = a == b ? 0 : (double(v) - a) / (double(b) - a);
      MC_EXPECT(c, Near(m, lo + (double(hi) - lo) * r, 0, 1e-6 * (std::fabs(lo) + std::fabs(hi)) * (1 + std::fabs(r))), "linear-map", v << " [" << a << "," << b << "]->[" << lo << "," << hi << "]: " << m);
    }
  }
}
MC_SECTION(angles, "all pairs of angles on a 1/48-turn grid over +-2 turns and all ratios: the result lies in [0, 2pi) and is the point that far along the shorter way round") {
  int i = c.pick(193) - 96;
  for (int j = -96; j <= 96; ++j) for (float t : kT) {
    float a = float(i * kPi / 24), b = float(j * kPi / 24); double d = std::remainder(double(b) - a, 2 * kPi);
    float g = gi::NormalizedAngleLerp(Angle::Radians(a), Angle::Radians(b), t).ValueInRadians(); c.op(); c.eval(2); c.add_states(1); c.add_nontrivial(d != 0); c.outcome(mc::Hash(g));
    MC_EXPECT(c, g >= 0 && g < float(2 * kPi), "range", a << " " << b << " " << t << ": " << g);
    double e1 = std::fabs(std::remainder(g - (a + t * d), 2 * kPi)), e2 = 1e9;
    if (std::abs(std::abs(i - j) % 48) == 24) e2 = std::fabs(std::remainder(g - (a - t * d), 2 * kPi));  // a half turn: either way is shortest
    MC_EXPECT(c, std::min(e1, e2) < 5e-6, "value", a << " " << b << " " << t << ": " << g);
  }
}
MC_SECTION(spiral, "all pairs of vectors from 24 directions x 4 magnitudes (and zero) and all ratios: direction and magnitude are interpolated separately, ends are exact, negative magnitudes reflect through the origin") {
  auto V = [](int k) { double r[] = {0.5, 1, 3, 100}; double a = (k / 4) * kPi / 12 + 0.01; return k == 96 ? Vec{0, 0} : Vec{float(r[k % 4] * std::cos(a)), float(r[k % 4] * std::sin(a))}; };
  Vec a = V(c.pick(97));
  for (int j = 0; j < 97; ++j) for (float t : kT) {
    Vec b = V(j), s = gi::SpiralLerp(a, b, t); c.op(); c.eval(1); c.add_states(1); c.add_nontrivial(t != 0); c.outcome(mc::Hash(s.x, s.y));
    if (t == 0 || t == 1) { MC_EXPECT(c, s == (t ? b : a), "ends", t); continue; }
    double ma = std::hypot(double(a.x), double(a.y)), mb = std::hypot(double(b.x), double(b.y)), da = std::atan2(double(a.y), double(a.x)), db = std::atan2(double(b.y), double(b.x));
    double turn = ma == 0 || mb == 0 ? double(Vec::SignedAngleBetween(a, b).ValueInRadians()) : std::remainder(db - da, 2 * kPi), m = (1 - t) * ma + t * mb, tol = 1.5e-5 * (ma + mb) + (std::fabs(std::sin(turn)) < 0.05 ? 1e-3 * std::fabs(t * m) : 0);
    bool ok = false; for (double sg : {1., -1.}) if (sg > 0 || std::fabs(std::fabs(turn) - kPi) < 1e-5) ok |= std::hypot(s.x - m * std::cos(da + sg * t * turn), s.y - m * std::sin(da + sg * t * turn)) <= tol;
    MC_EXPECT(c, ok, "value", "(" << a.x << "," << a.y << ") (" << b.x << "," << b.y << ") " << t << ": (" << s.x << "," << s.y << ")");
  }
}
MC_MAIN()
