// P06: Vec, Point, Segment.
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "ink/geometry/point.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/vec.h"
#include "util.h"
using ink::Angle; using ink::Point; using ink::Segment; using ink::Vec;
namespace {
const double kPi = 3.14159265358979323846;
const std::vector<float>& Comp() {
  static const std::vector<float> v = {0.f, -0.f, 1.f, -1.f, 3.f, -4.f, 0.1f, 1e-3f, -1e-3f, 1e6f, 1e-20f, -1e-20f, 1e19f, -3e19f, 1e-30f, 1e30f, 3e38f, kMax, -kMax,
                                       kMinNormal, -kMinNormal, kDenorm, -kDenorm, 3 * kDenorm, 5e-40f, 1.7e-38f, kInf, -kInf, kNan};
  return v;
}
bool Fin(Vec v) { return std::isfinite(v.x) && std::isfinite(v.y); }
bool IsNanV(Vec v) { return std::isnan(v.x) || std::isnan(v.y); }
double AngDiff(double a, double b) { double d = std::fmod(a - b, 2 * kPi); if (d > kPi) d -= 2 * kPi; if (d < -kPi) d += 2 * kPi; return std::fabs(d); }
void CheckUnit(mc::Choices& c, Vec v) {
  Vec u = v.AsUnitVec();
  c.op(4); c.state(mc::Hash(v.x, v.y)); c.outcome(mc::Hash(u.x, u.y));
  if (IsNanV(v)) {
    MC_EXPECT(c, std::isnan(u.x) && std::isnan(u.y), "unit-nan", v.x << "," << v.y);
    MC_EXPECT(c, std::isnan(v.Direction().ValueInRadians()), "dir-nan", v.x << "," << v.y);
    return;
  }
  c.add_nontrivial(1);
  double dir = std::atan2(double(v.y), double(v.x)), got = v.Direction().ValueInRadians();
  MC_EXPECT(c, Near(got, dir, 3e-7, 1e-44) && std::signbit(got) == std::signbit(v.y) && std::fabs(got) <= float(kPi), "direction", v.x << "," << v.y);
  MC_EXPECT(c, Near(std::hypot(double(u.x), double(u.y)), 1, 0, 4e-7), "unit-magnitude", v.x << "," << v.y << " -> " << u.x << "," << u.y);
  MC_EXPECT(c, Near(u.x, std::cos(dir), 0, 4e-7) && Near(u.y, std::sin(dir), 0, 4e-7) && std::signbit(u.x) == std::signbit(v.x) && std::signbit(u.y) == std::signbit(v.y), "unit-direction", v.x << "," << v.y << " -> " << u.x << "," << u.y);
  if (Fin(v)) {
    double m = std::hypot(double(v.x), double(v.y));
    if (m < 3.4e38) MC_EXPECT(c, Near(v.Magnitude(), m, 3e-7, 2e-45), "magnitude", v.x << "," << v.y << " -> " << v.Magnitude());
    double m2 = double(v.x) * v.x + double(v.y) * v.y;
    if (m2 < 3.4e38) MC_EXPECT(c, Near(v.MagnitudeSquared(), m2, 4e-7, 5e-45), "magnitude2", v.x << "," << v.y);
  }
  Vec o = v.Orthogonal();
  MC_EXPECT(c, Eq(o.x, -v.y) && Eq(o.y, v.x), "orthogonal", v.x << "," << v.y);
}
}  // namespace
MC_SECTION(unit_alphabet, "all vectors over 29 special components: unit vector, direction, magnitude, orthogonal") { Vec v{c.of(Comp()), c.of(Comp())}; CheckUnit(c, v); }
MC_SECTION(unit_grid, "all vectors over a component grid (every sign and exponent, 4 mantissas; thorough: 16 mantissas): unit vector, direction, magnitude") {
  int step = mc::tier(4, 16);
  uint32_t a = c.pick(512);
  for (int m = 0; m < step; ++m)
    for (uint32_t b = 0; b < 512; ++b)
      for (int k = 0; k < (mc::thorough() ? 4 : 2); ++k) {
        float x = FromBits((a << 23) + m * (1u << 23) / step + (m ? 0x1234 : 0)), y = FromBits((b << 23) + (k ? 0x2aaaabu * k : 0));
        Vec v{x, y};
        if (!Fin(v)) continue;
        Vec u = v.AsUnitVec();
        double dir = std::atan2(double(y), double(x));
        if (!(Near(u.x, std::cos(dir), 0, 4e-7) && Near(u.y, std::sin(dir), 0, 4e-7))) c.fail("unit", absl::StrCat(x, ",", y, " -> ", u.x, ",", u.y));
        if (!Near(v.Direction().ValueInRadians(), dir, 3e-7, 1e-44)) c.fail("direction", absl::StrCat(x, ",", y));
        c.op(2); c.eval(3); c.add_states(1); c.add_nontrivial(1);
      }
}
MC_SECTION(pairs, "all pairs of vectors over a component alphabet: arithmetic, dot, determinant, angles between, equality, hash, compound forms") {
  static const std::vector<float> k = {0.f, -0.f, 1.f, -1.f, 3.f, -4.f, 0.1f, 1e-3f, 1e6f, 1e-20f, -3e19f, kMax, -kMax, kDenorm, 5e-40f, kInf, -kInf, kNan};
  Vec a{c.of(k), c.of(k)};
  for (float bx : k) for (float by : k) {
    Vec b{bx, by};
    c.add_states(1); c.op(12);
    auto d = [&] { return absl::StrCat("(", a.x, ",", a.y, ") (", bx, ",", by, ")"); };
    Vec s = a + b, m = a - b, n = -a, p = a; p += b; Vec q = a; q -= b;
    MC_EXPECT(c, Eq(s.x, a.x + bx) && Eq(s.y, a.y + by) && Eq(m.x, a.x - bx) && Eq(m.y, a.y - by) && Eq(n.x, -a.x) && Eq(n.y, -a.y), "add", d());
    MC_EXPECT(c, Eq(p.x, s.x) && Eq(p.y, s.y) && Eq(q.x, m.x) && Eq(q.y, m.y), "compound", d());
    Vec sc = a * bx, sd = bx * a, se = a; se *= bx;
    MC_EXPECT(c, Eq(sc.x, a.x * bx) && Eq(sc.y, a.y * bx) && Eq(sd.x, sc.x) && Eq(se.y, sc.y) && Eq(sd.y, sc.y) && Eq(se.x, sc.x), "scale", d());
    if (bx != 0) { Vec dv = a / bx, de = a; de /= bx; MC_EXPECT(c, Eq(dv.x, a.x / bx) && Eq(dv.y, a.y / bx) && Eq(de.x, dv.x) && Eq(de.y, dv.y), "divide", d()); }
    MC_EXPECT(c, (a == b) == (a.x == bx && a.y == by) && (a != b) == !(a == b) && (!(a == b) || absl::HashOf(a) == absl::HashOf(b)), "equal", d());
    // Points.
    Point pa{a.x, a.y}, pb{bx, by}; Point r1 = pa + b, r2 = b + pa, r3 = pa - b, r4 = pa, r5 = pa; r4 += b; r5 -= b; Vec r6 = pa - pb;
    MC_EXPECT(c, Eq(r1.x, s.x) && Eq(r1.y, s.y) && Eq(r2.x, s.x) && Eq(r2.y, s.y) && Eq(r3.x, m.x) && Eq(r3.y, m.y) && Eq(r4.x, s.x) && Eq(r4.y, s.y) && Eq(r5.x, m.x) && Eq(r5.y, m.y) && Eq(r6.x, m.x) && Eq(r6.y, m.y), "point", d());
    MC_EXPECT(c, (pa == pb) == (a == b) && (pa != pb) == (a != b) && (!(pa == pb) || absl::HashOf(pa) == absl::HashOf(pb)), "point-equal", d());
    if (Fin(a) && Fin(b)) {
      double dot = double(a.x) * bx + double(a.y) * by, det = double(a.x) * by - double(a.y) * bx, mag = std::fabs(double(a.x) * bx) + std::fabs(double(a.y) * by), mag2 = std::fabs(double(a.x) * by) + std::fabs(double(a.y) * bx);
      if (mag < 3e38) MC_EXPECT(c, std::fabs(Vec::DotProduct(a, b) - dot) <= 2e-7 * mag + 5e-45, "dot", d());
      if (mag2 < 3e38) MC_EXPECT(c, std::fabs(Vec::Determinant(a, b) - det) <= 2e-7 * mag2 + 5e-45, "det", d());
    }
    float ab = Vec::AbsoluteAngleBetween(a, b).ValueInRadians(), sb = Vec::SignedAngleBetween(a, b).ValueInRadians();
    if (IsNanV(a) || IsNanV(b)) { MC_EXPECT(c, std::isnan(ab) && std::isnan(sb), "angle-nan", d()); continue; }
    c.add_nontrivial(1);
    MC_EXPECT(c, ab >= 0 && ab <= float(kPi) && sb > -float(kPi) && sb <= float(kPi), "angle-range", d() << " " << ab << " " << sb);
    double want = std::atan2(double(by), double(bx)) - std::atan2(double(a.y), double(a.x));
    MC_EXPECT(c, AngDiff(sb, want) < 1e-3, "signed-angle", d() << " " << sb << " vs " << want);
    MC_EXPECT(c, std::fabs(ab - AngDiff(want, 0)) < 1e-3 && std::fabs(ab - std::fabs(sb)) < 1e-6, "absolute-angle", d() << " " << ab << " vs " << want);
    double wn = std::remainder(want, 2 * kPi);
    if (std::fabs(wn) > 1e-3 && std::fabs(wn) < kPi - 1e-3) MC_EXPECT(c, (sb > 0) == (wn > 0), "angle-sign", d() << " " << sb);
  }
}
MC_SECTION(direction_magnitude, "every 1/8 turn multiple and special radian angle x special magnitudes: FromDirectionAndMagnitude") {
  int k = c.pick(64); float m = c.of(SpecialFloats()); float ang = float((k - 32) * kPi / 8);
  Vec v = Vec::FromDirectionAndMagnitude(Angle::Radians(ang), m);
  c.op(); c.state(mc::Hash(k, m)); c.outcome(mc::Hash(v.x, v.y));
  if (std::isfinite(m)) MC_EXPECT(c, Near(v.x, m * std::cos(double(ang)), 2e-7, std::fabs(m) * 1e-7 + 2e-45) && Near(v.y, m * std::sin(double(ang)), 2e-7, std::fabs(m) * 1e-7 + 2e-45), "from-direction", ang << " " << m);
}
MC_SECTION(segment, "all segments over a coordinate alphabet x interpolation ratios and x query points: Lerp stays on the segment and finite, Project inverts it, Midpoint, Vector, Length, equality") {
  static const std::vector<float> k = {0.f, 1.f, -2.f, 5.f, 0.1f, 1e-3f, 1e6f, -1e19f, kMax, -kMax, 1e-22f, kDenorm};
  Segment s{{c.of(k), c.of(k)}, {c.of(k), c.of(k)}};
  c.add_states(1);
  auto d = [&] { return absl::StrCat("(", s.start.x, ",", s.start.y, ")->(", s.end.x, ",", s.end.y, ")"); };
  Vec v = s.Vector();
  MC_EXPECT(c, v.x == s.end.x - s.start.x && v.y == s.end.y - s.start.y, "vector", d());
  if (Fin(v)) { double l = std::hypot(double(v.x), double(v.y)); if (l < 3.4e38) MC_EXPECT(c, Near(s.Length(), l, 3e-7, 2e-45), "length", d()); }
  double mx = std::max({std::fabs(s.start.x), std::fabs(s.end.x)}), my = std::max({std::fabs(s.start.y), std::fabs(s.end.y)});
  for (float r : {0.f, 1.f, 0.5f, 0.25f, 0.1f, 0.9f, 0.99999994f, 1e-8f, kDenorm, -1.f, 2.f, 1.5f}) {
    Point p = s.Lerp(r); c.op(); c.eval(2);
    double wx = s.start.x + r * (double(s.end.x) - s.start.x), wy = s.start.y + r * (double(s.end.y) - s.start.y);
    if (r >= 0 && r <= 1) {
      MC_EXPECT(c, std::isfinite(p.x) && std::isfinite(p.y), "lerp-finite", d() << " @" << r << " = " << p.x << "," << p.y);
      MC_EXPECT(c, std::fabs(p.x - wx) <= 4e-7 * mx + 3e-45 && std::fabs(p.y - wy) <= 4e-7 * my + 3e-45, "lerp", d() << " @" << r << " = " << p.x << "," << p.y);
      if (r == 0 || r == 1) MC_EXPECT(c, p == (r == 0 ? s.start : s.end), "lerp-end", d() << " @" << r);
      if (r == 0.5f) MC_EXPECT(c, s.Midpoint() == p, "midpoint", d());
    } else if (mx < 1e37 && my < 1e37) {
      MC_EXPECT(c, std::fabs(p.x - wx) <= 2e-6 * mx + 3e-45 && std::fabs(p.y - wy) <= 2e-6 * my + 3e-45, "lerp-extrapolate", d() << " @" << r);
    }
  }
  double dx = double(s.end.x) - s.start.x, dy = double(s.end.y) - s.start.y, m2 = dx * dx + dy * dy;
  for (Point q : {Point{0, 0}, Point{1, 1}, Point{-2, 5}, Point{1e6f, 3}, s.start, s.end, s.Lerp(.25f)}) {
    auto r = s.Project(q); c.op();
    if (s.start == s.end || (m2 < 1e-46)) { MC_EXPECT(c, !r.has_value(), "project-degenerate", d()); continue; }
    if (m2 < 1e-36 || m2 > 1e38 || mx > 1e18 || my > 1e18) continue;
    MC_EXPECT(c, r.has_value(), "project-missing", d());
    double qx = double(q.x) - s.start.x, qy = double(q.y) - s.start.y, want = (qx * dx + qy * dy) / m2, tol = 1e-6 * (std::fabs(qx * dx) + std::fabs(qy * dy)) / m2 + 1e-6;
    MC_EXPECT(c, std::fabs(*r - want) <= tol * 3, "project", d() << " q=" << q.x << "," << q.y << " -> " << *r << " want " << want);
    c.add_nontrivial(1); c.outcome(mc::Hash(*r));
  }
  Segment t = s; MC_EXPECT(c, t == s && !(t != s), "equal", d());
  for (int f = 0; f < 4; ++f) { t = s; float* w[] = {&t.start.x, &t.start.y, &t.end.x, &t.end.y}; *w[f] = *w[f] == 7.f ? 8.f : 7.f; MC_EXPECT(c, t != s && !(t == s), "unequal", d()); }
}
MC_MAIN()
