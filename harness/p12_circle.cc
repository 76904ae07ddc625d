// P12: Circle arcs and tangents.
#include "absl/strings/str_cat.h"
#include "ink/geometry/internal/circle.h"
#include "util.h"
using ink::Angle; using ink::Point; using ink::Vec; using ink::geometry_internal::Circle;
namespace {
constexpr double kPi = 3.14159265358979323846;
const std::vector<float> kScales = {1, 0.01f, 1000};
std::string S(const Circle& c) { return absl::StrCat("circle(", c.Center().x, ",", c.Center().y, " r ", c.Radius(), ")"); }
bool OkAngle(float a) { return a > -float(kPi) - 1e-6 && a <= float(kPi); }
}  // namespace
MC_SECTION(tangents, "all pairs of circles with centres on a 5x5 integer grid and radii 0..5 in half steps, at three scales: existence, side, range and tangency of the exterior tangents, and containment") {
  float s = c.of(kScales);
  float r1 = c.pick(11) * 0.5f, r2 = c.pick(11) * 0.5f;
  for (int x1 = 0; x1 < 3; ++x1) for (int y1 = 0; y1 < 3; ++y1)
  for (int x2 = -2; x2 <= 2; ++x2) for (int y2 = -2; y2 <= 2; ++y2) {
    Circle a({x1 * s, y1 * s}, r1 * s), b({x2 * s, y2 * s}, r2 * s);
    double dx = double(x2 * s) - double(x1 * s), dy = double(y2 * s) - double(y1 * s), d = std::hypot(dx, dy), dr = double(r1 * s) - double(r2 * s);
    bool exact = s == 1 && (x1 == x2 || y1 == y2), clear = std::fabs(std::fabs(dr) - d) > 1e-5 * s;
    auto t = a.GetTangentAngles(b);
    c.op(3); c.eval(3); c.add_states(1); c.add_nontrivial(t.has_value());
    bool coincide = x1 == x2 && y1 == y2;
    if (exact || clear || coincide) MC_EXPECT(c, t.has_value() == (!coincide && std::fabs(dr) < d), "existence", S(a) << " " << S(b));
    if (t) {
      for (int side = 0; side < 2; ++side) {
        float th = (side ? t->right : t->left).ValueInRadians();
        double nx = std::cos(double(th)), ny = std::sin(double(th)), cross = dx * ny - dy * nx;
        MC_EXPECT(c, OkAngle(th), "range", S(a) << " " << S(b) << " " << th);
        MC_EXPECT(c, std::fabs(nx * dx + ny * dy - dr) <= 2e-6 * (d + s), "tangency", S(a) << " " << S(b) << " " << th);
        MC_EXPECT(c, side ? cross < 1e-3 * d : cross > -1e-3 * d, "side", S(a) << " " << S(b) << " " << th);
        Point pa = a.GetPoint(Angle::Radians(th));
        MC_EXPECT(c, Near(pa.x, x1 * double(s) + a.Radius() * nx, 0, 1e-6 * s * 8) && Near(pa.y, y1 * double(s) + a.Radius() * ny, 0, 1e-6 * s * 8), "point", S(a) << " " << th);
      }
    }
    bool ca = a.Contains(b), cb = b.Contains(a);
    if (exact || clear || coincide) {
      MC_EXPECT(c, ca == (d + r2 * s <= r1 * s) && cb == (d + r1 * s <= r2 * s), "contains", S(a) << " " << S(b));
    }
    if (!ca && !cb && clear) {
      float g = a.GuaranteedRightTangentAngle(b).ValueInRadians();
      MC_EXPECT(c, OkAngle(g) && t && std::fabs(std::remainder(double(g) - t->right.ValueInRadians(), 2 * kPi)) < 1e-5, "right", S(a) << " " << S(b));
    }
    if (t) c.outcome(mc::Hash(t->left.ValueInRadians(), t->right.ValueInRadians()));
  }
}
MC_SECTION(chord_angle, "all radii and chord heights from exponent-complete grids: the angle is in [0, 2pi], is zero for non-positive heights, grows with the height and gives back that height") {
  static const std::vector<float> mant = {1, 1.25f, 1.9f};
  int e = int(c.pick(41)) - 20; float r = std::ldexp(c.of(mant), e);
  Circle k({3, -2}, r); float prev = 0;
  MC_EXPECT(c, Circle({3, -2}, 0).GetArcAngleForChordHeight(r) == Angle(), "zero-radius", r);
  for (float h : {0.f, -0.f, -1.f, -kMax, -kInf}) MC_EXPECT(c, k.GetArcAngleForChordHeight(h) == Angle(), "non-positive", r << " " << h);
  for (int i = -26 * 8; i <= 24; ++i) {
    float h = r * std::exp2(i / 8.0f), a = k.GetArcAngleForChordHeight(h).ValueInRadians();
    double want = 2 * std::acos(std::max(-1.0, 1 - double(h) / r)), back = r * (1 - std::cos(double(a) / 2));
    c.op(); c.eval(3); c.add_states(1); c.add_nontrivial(a > 0); c.outcome(mc::Hash(a));
    MC_EXPECT(c, a >= 0 && a <= float(2 * kPi) && a >= prev, "range", r << " " << h << " " << a);
    MC_EXPECT(c, std::fabs(back - std::min(h, 2 * r)) <= 3e-7 * r, "height", r << " " << h << " " << a << " want " << want);
    prev = a;
  }
}
MC_SECTION(arcs, "all start and arc angles (both signs, over-full turns and zero), radii and chord heights of an alphabet: points are appended, start and end exact, on the circle, evenly spaced, at most the chord height apart, as few as possible and never above the cap") {
  static const std::vector<float> rs = {0, 1, 0.02f, 300}, arcs = {0, 0.3f, -0.3f, 1.5707964f, -3.1415927f, 6.2831855f, -9, 1e-4f}, starts = {0, 1, -2.5f, 3.1415927f},
      hs = {1e-8f, 1e-5f, 1e-3f, 0.01f, 0.1f, 0.2928932f, 0.9999f, 1, 1.5f, 2, 5};
  float r = c.of(rs), arc = c.of(arcs), st = c.of(starts), h = c.of(hs) * (r == 0 ? 1 : r);
  Circle k({2, -1}, r); std::vector<Point> out = {{9, 9}};
  k.AppendArcToPolyline(Angle::Radians(st), Angle::Radians(arc), h, out);
  size_t n = out.size(); c.op(); c.state(mc::Hash(r, arc, st, h)); c.outcome(n); c.add_nontrivial(n > 3);
  MC_EXPECT(c, n >= 3 && n <= 32769 && (out[0] == Point{9, 9}), "count", n << " " << r << " " << arc << " " << h);
  double eps = 1e-6 * (r + 3);
  auto at = [&](double a) { return Point{float(2 + r * std::cos(a)), float(-1 + r * std::sin(a))}; };
  if (r == 0) { MC_EXPECT(c, n == 3 && out[1] == k.Center() && out[2] == k.Center(), "zero-radius", n); return; }
  MC_EXPECT(c, out[1] == k.GetPoint(Angle::Radians(st)) && out.back() == k.GetPoint(Angle::Radians(st) + Angle::Radians(arc)), "ends", r << " " << arc << " " << st << " " << h);
  double steps = n - 2.0, sag = r * (1 - std::cos(std::min(kPi, std::fabs(arc) / steps / 2)));
  for (size_t i = 1; i < n; ++i) {
    double a = double(st) + double(arc) * (i - 1) / steps; Point w = at(a);
    MC_EXPECT(c, Near(out[i].x, w.x, 0, 3 * eps) && Near(out[i].y, w.y, 0, 3 * eps), "even", r << " " << arc << " " << st << " " << h << " i " << i);
  }
  if (n < 32769) MC_EXPECT(c, sag <= h + 3e-7 * r, "sagitta", sag << " > " << h);
  if (steps > 1 && h > 1e-6 * r && std::fabs(arc) / (steps - 1) < 2 * kPi - 1e-3) { double fewer = r * (1 - std::cos(std::min(kPi, std::fabs(arc) / (steps - 1) / 2))); MC_EXPECT(c, fewer >= h - 3e-7 * r, "minimal", n << " points, " << fewer << " would do for " << h); }
}
MC_SECTION(checks, "the documented check failures: negative or NaN radius, non-positive or NaN chord height") {
  static const std::vector<float> bad = {-1, -kDenorm, kNan, -kInf}, badh = {0, -0.f, -1, kNan, -kInf}; c.op(2);
  int i = c.pick(9); c.state(i); c.outcome(i); c.add_nontrivial(1); std::vector<Point> v;
  if (i < 4) MC_EXPECT(c, mc::DiesOnCheck([&] { Circle k({0, 0}, bad[i]); }), "radius", bad[i]);
  else for (float r : {0.f, 1.f}) MC_EXPECT(c, mc::DiesOnCheck([&] { Circle({0, 0}, r).AppendArcToPolyline(Angle(), Angle(), badh[i - 4], v); }) && v.empty(), "height", badh[i - 4]);
}
MC_MAIN()
