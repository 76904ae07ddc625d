// P44: brush tip shapes: what they cover, whether one contains another, and the outlines drawn around and between them.
#include <algorithm>
#include <cmath>
#include <optional>
#include <vector>
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/brush_tip_extruder.h"
#include "ink/strokes/internal/brush_tip_extrusion.h"
#include "ink/strokes/internal/brush_tip_shape.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/constrain_brush_tip_extrusion.h"
#include "ink/strokes/internal/rounded_polygon.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "mc.h"
using namespace ink;
using namespace ink::strokes_internal;
using geometry_internal::Circle;
namespace {
const double kPi = std::acos(-1.0);
struct D2 { double x, y; };
D2 operator+(D2 a, D2 b) { return {a.x + b.x, a.y + b.y}; }
D2 operator-(D2 a, D2 b) { return {a.x - b.x, a.y - b.y}; }
D2 operator*(double k, D2 a) { return {k * a.x, k * a.y}; }
double Dot(D2 a, D2 b) { return a.x * b.x + a.y * b.y; }
double Det(D2 a, D2 b) { return a.x * b.y - a.y * b.x; }
double Len(D2 a) { return std::hypot(a.x, a.y); }
D2 Unit(double t) { return {std::cos(t), std::sin(t)}; }
D2 At(Point p) { return {p.x, p.y}; }
// A convex hull of circles.
struct Disc { D2 c; double r; };
using Hull = std::vector<Disc>;
double Support(const Hull& h, D2 u) { double m = -INFINITY; for (auto& d : h) m = std::max(m, Dot(d.c, u) + d.r); return m; }
Hull Of(const BrushTipShape& s) { Hull h; for (const Circle& c : s.PerimeterCircles()) h.push_back({At(c.Center()), c.Radius()}); return h; }
Hull Join(Hull a, const Hull& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// The documented shape.
Hull Documented(const BrushTipState& t) {
  double w = t.width / 2.0, h = t.height / 2.0, r = t.percent_radius * std::min(w, h), x = w - r, y = h - r, xp = (1 - (double)t.pinch) * x, sl = t.slant.ValueInRadians(), ro = t.rotation.ValueInRadians();
  Hull out;
  for (D2 c : {D2{x, y}, D2{-x, y}, D2{-xp, -y}, D2{xp, -y}}) {
    D2 s{c.x - std::sin(sl) * c.y, std::cos(sl) * c.y};
    out.push_back({D2{t.position.x, t.position.y} + D2{std::cos(ro) * s.x - std::sin(ro) * s.y, std::sin(ro) * s.x + std::cos(ro) * s.y}, r});
  }
  return out;
}
// Directions in which the difference of the supports of two hulls can have its extremes, sorted.
std::vector<double> Directions(const Hull& a, const Hull& b) {
  std::vector<double> v; auto both = [&](double t) { v.push_back(std::remainder(t, 2 * kPi)); v.push_back(std::remainder(t + kPi, 2 * kPi)); };
  auto bends = [&](const Hull& h) {  // where two discs of one hull tie
    for (size_t i = 0; i < h.size(); ++i) for (size_t j = 0; j < i; ++j) { D2 d = h[i].c - h[j].c; double l = Len(d), k = h[j].r - h[i].r; if (l > 0 && std::fabs(k) <= l) { double base = std::atan2(d.y, d.x), off = std::acos(k / l); v.push_back(std::remainder(base + off, 2 * kPi)); v.push_back(std::remainder(base - off, 2 * kPi)); } }
  };
  bends(a); bends(b);
  for (auto& p : a) for (auto& q : b) { D2 d = p.c - q.c; if (Len(d) > 0) both(std::atan2(d.y, d.x)); }
  for (int k = 0; k < 8; ++k) both(k * kPi / 8 + .1);
  std::sort(v.begin(), v.end()); return v;
}
// The least of Support(a) - Support(b): at least 0 exactly when `a` contains `b`.
double Margin(const Hull& a, const Hull& b) { double m = INFINITY; for (double t : Directions(a, b)) m = std::min(m, Support(a, Unit(t)) - Support(b, Unit(t))); return m; }
// The number of straight bridges on the boundary of the hull of both; none if too close to call.
std::optional<int> Bridges(const Hull& a, const Hull& b, double tol) {
  std::vector<int> s; for (double t : Directions(a, b)) { double d = Support(a, Unit(t)) - Support(b, Unit(t)); if (std::fabs(d) <= tol) return {}; s.push_back(d > 0); }
  int n = 0; for (size_t i = 0; i < s.size(); ++i) n += s[i] != s[(i + 1) % s.size()]; return n;
}
// Whether a line separates the hulls, with room to spare.
bool Apart(const Hull& a, const Hull& b, double room) { for (double t : Directions(a, b)) if (Support(a, Unit(t)) + Support(b, Unit(t + kPi)) < -room) return true; return false; }
// With two bridges: whether no shape is met twice at one of its circles although more of its circles are on the boundary of the
// hull of both (which one pair of circle indices per side cannot express), both edges lead forward, and it is clear which circles they join.
bool Expressible(const Hull& a, const Hull& b, D2 forward, double tol) {
  auto ds = Directions(a, b); auto best = [](const Hull& h, D2 u) { int m = 0; for (int i = 1; i < (int)h.size(); ++i) if (Dot(h[i].c, u) + h[i].r > Dot(h[m].c, u) + h[m].r) m = i; return m; };
  std::vector<int> met[2]; std::vector<char> used[2] = {std::vector<char>(a.size()), std::vector<char>(b.size())};
  for (size_t i = 0; i < ds.size(); ++i) {
    double x = ds[i], y = i + 1 < ds.size() ? ds[i + 1] : ds[0] + 2 * kPi; auto diff = [&](double t) { return Support(a, Unit(t)) - Support(b, Unit(t)); }; double dx = diff(x);
    D2 in = Unit(x + 1e-7); if (dx > 0) used[0][best(a, in)] = 1; else used[1][best(b, in)] = 1;
    if ((dx > 0) == (diff(y) > 0)) continue;
    for (int k = 0; k < 60; ++k) { double m = (x + y) / 2; ((diff(m) > 0) == (dx > 0) ? x : y) = m; }
    D2 u = Unit(x); int p = best(a, u), q = best(b, u); met[0].push_back(p); met[1].push_back(q); if (Dot((b[q].c + b[q].r * u) - (a[p].c + a[p].r * u), forward) < tol) return false;
    for (int i = 0; i < (int)a.size(); ++i) if (i != p && Support(a, u) - Support({a[i]}, u) < tol) return false;
    for (int i = 0; i < (int)b.size(); ++i) if (i != q && Support(b, u) - Support({b[i]}, u) < tol) return false;
  }
  for (int s = 0; s < 2; ++s) if (met[s].size() != 2 || (met[s][0] == met[s][1] && std::count(used[s].begin(), used[s].end(), 1) > 1)) return false;
  return true;
}
// How far a point is outside of the hull (negative inside).
double Outside(const Hull& h, D2 p) { double m = -INFINITY; Hull q{{p, 0}}; for (double t : Directions(h, q)) m = std::max(m, Dot(p, Unit(t)) - Support(h, Unit(t))); return m; }
double Shoelace(const std::vector<D2>& p) { double s = 0; for (size_t i = 0; i < p.size(); ++i) s += Det(p[i] - p[0], p[(i + 1) % p.size()] - p[0]); return s / 2; }
std::vector<D2> ConvexHullOf(std::vector<D2> p) {
  std::sort(p.begin(), p.end(), [](D2 a, D2 b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }); std::vector<D2> h;
  for (int pass = 0; pass < 2; ++pass) { size_t base = h.size(); for (D2 q : p) { while (h.size() >= base + 2 && Det(h[h.size() - 1] - h[h.size() - 2], q - h[h.size() - 2]) <= 0) h.pop_back(); h.push_back(q); } h.pop_back(); std::reverse(p.begin(), p.end()); }
  return h;
}
Hull Points(const std::vector<D2>& p) { Hull h; for (D2 q : p) h.push_back({q, 0}); return h; }
// Left points back to front, then right points front to back: clockwise.
std::vector<D2> Outline(const ExtrusionPoints& e) { std::vector<D2> p; for (Point q : e.left) p.push_back(At(q)); for (size_t i = e.right.size(); i-- > 0;) p.push_back(At(e.right[i])); return p; }
double Perimeter(const Hull& h) { double x0 = INFINITY, x1 = -INFINITY, y0 = INFINITY, y1 = -INFINITY; for (auto& d : h) { x0 = std::min(x0, d.c.x - d.r); x1 = std::max(x1, d.c.x + d.r); y0 = std::min(y0, d.c.y - d.r); y1 = std::max(y1, d.c.y + d.r); } return 2 * (x1 - x0 + y1 - y0); }
// `p` goes once around `h`, clockwise: every point on the boundary, nothing missing by more than the chord height.
void ExpectOutline(mc::Choices& c, const std::vector<D2>& p, const Hull& h, double chord, double tol, const char* what) {
  for (D2 q : p) { double o = Outside(h, q); MC_EXPECT(c, std::fabs(o) <= tol, "outline-off-boundary", what << ": (" << q.x << ", " << q.y << ") is " << o << " outside"); }
  Hull ph = Points(p); double worst = -INFINITY; for (double t : Directions(h, {})) worst = std::max(worst, Support(h, Unit(t)) - Support(ph, Unit(t)));
  for (auto& d : h) for (int k = 0; k < 32; ++k) { D2 u = Unit(k * kPi / 16 + .03); (void)d; worst = std::max(worst, Support(h, u) - Support(ph, u)); }
  MC_EXPECT(c, worst <= chord + tol, "outline-misses", what << ": the outline falls short by " << worst << " with chord height " << chord);
  double area = Shoelace(p), want = -Shoelace(ConvexHullOf(p)); MC_EXPECT(c, std::fabs(area - want) <= tol * Perimeter(h), "outline-loops", what << ": signed area " << area << " but going round once clockwise gives " << want);
  c.eval(p.size() + 2);
}
const float kRot[] = {0, .5f, 1.5707964f, 2.5f, -1};
BrushTipState State(float x, float y, float w, float h, float radius, float rot, float slant, float pinch) { return {.position = {x, y}, .width = w, .height = h, .percent_radius = radius, .rotation = Angle::Radians(rot), .slant = Angle::Radians(slant), .pinch = pinch}; }
const float kQuarter = kQuarterTurn.ValueInRadians();
// Tips of every kind: circle, point, stadium, square, rectangle, rounded, slanted, trapezoid, triangle, flat.
struct Kind { float w, h, radius, slant, pinch; };
const Kind kKinds[] = {{2, 2, 1, 0, 0}, {4, 2, 1, 0, 0}, {2, 4, 1, 0, 0}, {2, 2, 0, 0, 0}, {4, 2, .5f, 0, 0}, {4, 2, 0, .6f, 0}, {3, 3, .4f, 0, .5f}, {3, 2, 0, -.4f, .3f}, {3, 3, 0, 0, 1}, {2, 4, .3f, .5f, 1}, {4, 0, 0, 0, 0}, {1, 1, .6f, 0, 0}, {.04f, 3, 1, 0, 0}, {6, 1, .2f, -1, 0}};
constexpr int kNumKinds = 14;
BrushTipState KindAt(int k, float x, float y, float rot, float scale = 1) { const Kind& q = kKinds[k]; return State(x, y, q.w * scale, q.h * scale, q.radius, rot, q.slant, q.pinch); }
std::string Show(const BrushTipState& s) { std::ostringstream o; o << "tip(" << s.position.x << "," << s.position.y << " " << s.width << "x" << s.height << " r" << s.percent_radius << " rot" << s.rotation.ValueInRadians() << " slant" << s.slant.ValueInRadians() << " pinch" << s.pinch << ")"; return o.str(); }
}  // namespace

MC_SECTION(shapes, "tips of 8 widths x 8 heights, 5 roundings, 5 rotations, 7 slants up to a right angle, 6 pinches, 4 positions, 3 smallest separations: circles of one radius, zero or not too small, none too close to the next, in counterclockwise convex order, covering the documented shape; bounds, center and index order") {
  float w = c.of({0.f, .05f, .3f, 1.f, 4.f, 40.f}), h = c.of({0.f, .05f, .3f, 1.f, 2.f, 4.f}); BrushTipState t = State(0, 0, w, h, c.of({0.f, .02f, .5f, 1.f}), kRot[c.pick(mc::tier(3, 5))], c.of({0.f, .7f, -.7f, kQuarter, -kQuarter, 1.55f, -.02f}), c.of({0.f, .25f, .5f, .99f, 1.f}));
  static const Point kAt[] = {{0, 0}, {10, -7}, {-3000, 2000}, {.1f, .3f}}; t.position = kAt[c.pick(4)]; float eps = c.of({0.f, .1f, 1e-4f});
  BrushTipShape s(t, eps); Hull h2 = Of(s), want = Documented(t); double size = std::max(w, h), tol = 2e-6 * size + 4e-7 * (std::fabs(t.position.x) + std::fabs(t.position.y)); c.op(1);
  MC_EXPECT(c, h2.size() >= 1 && h2.size() <= 4, "circle-count", h2.size());
  for (auto& d : h2) { MC_EXPECT(c, d.r == h2[0].r && (d.r == 0 || d.r >= eps), "radii", d.r << " and " << h2[0].r << " with smallest " << eps); }
  int n = h2.size(); if (n > 1) for (int i = 0; i < n; ++i) { double gap = Len(h2[i].c - h2[(i + 1) % n].c); MC_EXPECT(c, gap > 0 && gap >= eps * (1 - 1e-5) - tol, "circles-too-close", Show(t) << ": circles " << i << " and the next of " << n << " are " << gap << " apart with smallest separation " << eps); }
  if (n > 2) for (int i = 0; i < n; ++i) { double turn = Det(h2[(i + 1) % n].c - h2[i].c, h2[(i + 2) % n].c - h2[(i + 1) % n].c); MC_EXPECT(c, turn >= -tol * size, "not-ccw", Show(t) << ": corner " << (i + 1) % n << " of " << n << " turns " << turn); }
  double allow = tol + 2.5 * eps; for (double a : Directions(h2, want)) { double x = Support(h2, Unit(a)), y = Support(want, Unit(a)); MC_EXPECT(c, std::fabs(x - y) <= allow, "shape", Show(t) << ": extends " << x << " towards " << a << ", documented " << y); }
  MC_EXPECT(c, s.Center() == t.position, "center", "");
  Rect b = s.Bounds(); MC_EXPECT(c, std::fabs(b.XMin() + Support(h2, {-1, 0})) <= tol && std::fabs(b.XMax() - Support(h2, {1, 0})) <= tol && std::fabs(b.YMin() + Support(h2, {0, -1})) <= tol && std::fabs(b.YMax() - Support(h2, {0, 1})) <= tol, "bounds", Show(t));
  for (int i = 0; i < n; ++i) MC_EXPECT(c, s.GetNextPerimeterIndexCcw(i) == (i + 1) % n && s.GetNextPerimeterIndexCw((i + 1) % n) == i, "index-order", i << " of " << n);
  MC_EXPECT(c, s.Contains(s), "contains-itself", Show(t));
  // The whole outline.
  float chord = c.of({.02f, .5f}); D2 dir = Unit(c.pick(mc::tier(2, 4)) * 1.3 + .2); ExtrusionPoints e; BrushTipShape::AppendWholeShapeExtrusionPoints(s, chord, Vec{(float)dir.x, (float)dir.y}, e);
  std::vector<D2> p = Outline(e); double otol = 10 * tol + 1e-4 * size; if (n == 1 && h2[0].r == 0) { for (D2 q : p) MC_EXPECT(c, Len(q - h2[0].c) <= tol, "point-outline", ""); return; }
  MC_EXPECT(c, p.size() >= 2, "outline-empty", Show(t)); ExpectOutline(c, p, h2, chord, otol, Show(t).c_str());
  for (Point q : e.left) MC_EXPECT(c, Det(dir, At(q) - At(s.Center())) >= -otol, "left-point-on-the-right", Show(t) << " (" << q.x << ", " << q.y << ")");
  for (Point q : e.right) MC_EXPECT(c, Det(dir, At(q) - At(s.Center())) <= otol, "right-point-on-the-left", Show(t) << " (" << q.x << ", " << q.y << ")");
  c.state(mc::Hash(n, e.left.size(), e.right.size()));
}

MC_SECTION(pairs, "every ordered pair of 14 kinds of tips at 3 rotations each, the second in 3 sizes and displaced to 25 (thorough 49) places: containment agrees with the supports of the hulls, tangents are good exactly when two straight edges join the shapes, and the start and end caps then go once around the hull of both; a constrained tip has the documented attributes, good tangents, and no room for more") {
  static const float kStep[] = {0, 1.3f, -1.7f, 9, -7, .6f, -.8f}; int k = c.pick(kNumKinds), l = c.pick(kNumKinds), n = mc::tier(5, 7); float ra = kRot[c.pick(mc::tier(2, 3))], rb = kRot[c.pick(mc::tier(3, 5))], scale = c.of({1.f, .5f, 2.5f}); float dx = kStep[c.pick(n)], dy = kStep[c.pick(n)];
  float eps = .05f; BrushTipState a = KindAt(k, 5, 4, ra), b = KindAt(l, 5 + dx, 4 + dy, rb, scale); BrushTipExtrusion ea(a, eps), eb(b, eps); const BrushTipShape &sa = ea.GetShape(), &sb = eb.GetShape(); Hull ha = Of(sa), hb = Of(sb); c.op(1); const double tol = 2e-4;
  double ab = Margin(ha, hb), ba = Margin(hb, ha);
  bool con_ab = sa.Contains(sb), con_ba = sb.Contains(sa);
  if (std::fabs(ab) > tol) MC_EXPECT(c, con_ab == (ab > 0), "contains", Show(a) << " Contains " << Show(b) << " is " << con_ab << " with margin " << ab);
  if (std::fabs(ba) > tol) MC_EXPECT(c, con_ba == (ba > 0), "contains", Show(b) << " Contains " << Show(a) << " is " << con_ba << " with margin " << ba);
  using Q = BrushTipExtrusion::TangentQuality; auto q = BrushTipExtrusion::EvaluateTangentQuality(ea, eb, .1f * eps); auto br = Bridges(ha, hb, tol); c.eval(3);
  bool same = (dx != 0 || dy != 0) && a.width == b.width && a.height == b.height && a.percent_radius == b.percent_radius && a.rotation == b.rotation && a.slant == b.slant && a.pinch == b.pinch;
  if (br) {
    if (*br == 0) MC_EXPECT(c, q == (ab > 0 ? Q::kNoTangentsFirstContainsSecond : Q::kNoTangentsSecondContainsFirst), "quality-contained", Show(a) << " to " << Show(b) << ": quality " << (int)q << " (margins " << ab << ", " << ba << ")");
    else MC_EXPECT(c, q == Q::kGoodTangents || q == Q::kBadTangentsJoinedShapeDoesNotCoverInputShapes, "quality-not-contained", Show(a) << " to " << Show(b) << ": quality " << (int)q << " (margins " << ab << ", " << ba << ")");
    if (*br > 2) MC_EXPECT(c, q != Q::kGoodTangents, "quality-too-good", Show(a) << " to " << Show(b) << ": " << *br << " straight edges join the shapes");
    bool apart = *br == 2 && Apart(ha, hb, tol) && Expressible(ha, hb, {dx, dy}, 1e-3); if (apart) MC_EXPECT(c, q == Q::kGoodTangents, "quality-apart", Show(a) << " to " << Show(b) << " are apart but quality is " << (int)q);
    c.state(mc::Hash(*br, (int)q, k, l, apart));
    if (q == Q::kGoodTangents && apart && !same) {
      ExtrusionPoints e; float chord = .05f; BrushTipShape::AppendStartcapExtrusionPoints(sa, sb, chord, e); BrushTipShape::AppendEndcapExtrusionPoints(sa, sb, chord, e);
      ExpectOutline(c, Outline(e), Join(ha, hb), chord, 1e-3, (Show(a) + " to " + Show(b)).c_str());
    }
  }
  if (same) {
    MC_EXPECT(c, q == Q::kGoodTangents, "same-shape-moved", Show(a));
    ExtrusionPoints e; float chord = .05f; BrushTipShape::AppendStartcapExtrusionPoints(sa, sb, chord, e); BrushTipShape::AppendEndcapExtrusionPoints(sa, sb, chord, e);
    ExpectOutline(c, Outline(e), Join(ha, hb), chord, 1e-3, (Show(a) + " to " + Show(b)).c_str());
  }
  auto r = ConstrainBrushTipExtrusion(ea, eb, eps, 8); using R = ConstrainedBrushTipExtrusion::ResultType; auto qs = [&](float t) { BrushTipState m = BrushTipState::LerpShapeAttributes(a, b, t); return BrushTipExtrusion::EvaluateTangentQuality(ea, BrushTipExtrusion(m, eps), .1f * eps); };
  bool found = r.result_type == R::kConstrainedExtrusionFound; R want = q == Q::kNoTangentsFirstContainsSecond ? R::kLastExtrusionContainsProposedExtrusion : q == Q::kNoTangentsSecondContainsFirst ? R::kProposedExtrusionContainsLastExtrusion : q == Q::kGoodTangents ? R::kProposedExtrusionIsValid : (dx == 0 && dy == 0) || qs(0) != Q::kGoodTangents ? R::kCannotFindValidIntermediateExtrusion : R::kConstrainedExtrusionFound;
  MC_EXPECT(c, r.result_type == want, "constrain-result", Show(a) << " to " << Show(b) << ": " << (int)r.result_type << ", expected " << (int)want);
  MC_EXPECT(c, found || (r.lerp_amount == -1 && r.extrusion.IsBreakPoint()), "constrain-unused-fields", r.lerp_amount);
  if (found) {
    MC_EXPECT(c, r.lerp_amount >= 0 && r.lerp_amount < 1, "constrain-amount", r.lerp_amount); BrushTipState m = BrushTipState::LerpShapeAttributes(a, b, r.lerp_amount), g = r.extrusion.GetState();
    MC_EXPECT(c, Show(m) == Show(g) && g.position == b.position, "constrain-attributes", Show(g) << " at " << r.lerp_amount << " expected " << Show(m));
    MC_EXPECT(c, qs(r.lerp_amount) == Q::kGoodTangents, "constrained-not-good", Show(a) << " to " << Show(b)); float next = r.lerp_amount + 1 / 256.f; MC_EXPECT(c, next == 1 || qs(next) != Q::kGoodTangents, "constrain-not-tight", Show(a) << " to " << Show(b) << " at " << r.lerp_amount);
    auto hm = Of(r.extrusion.GetShape()); auto bm = Bridges(ha, hm, tol); if (bm) MC_EXPECT(c, *bm == 2, "constrained-bridges", *bm);
  }
}

MC_SECTION(turns, "one of 14 kinds of tips at 3 rotations moved along every path of 3 points on a grid of 5 x 5 around the middle one without sharp reversals, and kept circles growing and shrinking: start cap, turn and end cap stay inside the two swept areas and reach as far as they do") {
  int k = c.pick(kNumKinds); float rot = kRot[c.pick(3)], s0 = 1, s2 = 1; if (k == 0) { s0 = c.of({1.f, .6f, 1.4f}); s2 = c.of({1.f, .6f, 1.4f}); }
  auto at = [&] { D2 d{(double)((int)c.pick(5) - 2), (double)((int)c.pick(5) - 2)}; return d; }; D2 p = at(), q = at(); c.assume(Len(p) > 0 && Len(q) > 0); c.assume(Dot(p, q) < .5 * Len(p) * Len(q)); p = 4.1 * p; q = 3.9 * q;
  BrushTipShape a(KindAt(k, 5 + p.x, 4 + p.y, rot, s0), .05f), b(KindAt(k, 5, 4, rot), .05f), d(KindAt(k, 5 + q.x, 4 + q.y, rot, s2), .05f); Hull ab = Join(Of(a), Of(b)), bd = Join(Of(b), Of(d)), all = Join(ab, Of(d)); c.op(1);
  ExtrusionPoints e; float chord = .05f; BrushTipShape::AppendStartcapExtrusionPoints(a, b, chord, e); BrushTipShape::AppendTurnExtrusionPoints(a, b, d, chord, e); BrushTipShape::AppendEndcapExtrusionPoints(b, d, chord, e);
  std::vector<D2> o = Outline(e); for (D2 x : o) { double out = std::min(Outside(ab, x), Outside(bd, x)); MC_EXPECT(c, out <= 1e-3, "turn-outside", Show(KindAt(k, 5, 4, rot)) << " from (" << p.x << "," << p.y << ") to (" << q.x << "," << q.y << "): point (" << x.x << ", " << x.y << ") is " << out << " outside the swept area"); }
  Hull oh = Points(o); for (double t : Directions(all, {})) { double miss = Support(all, Unit(t)) - Support(oh, Unit(t)); MC_EXPECT(c, miss <= chord + 1e-3, "turn-misses", Show(KindAt(k, 5, 4, rot)) << " from (" << p.x << "," << p.y << ") to (" << q.x << "," << q.y << "): falls short by " << miss << " towards " << t); }
  double area = Shoelace(o); bool flat = kKinds[k].w < .05f || kKinds[k].h < .05f; MC_EXPECT(c, flat ? area <= 1e-4 : area < 0, "turn-orientation", Show(KindAt(k, 5, 4, rot)) << " from (" << p.x << "," << p.y << ") to (" << q.x << "," << q.y << "): area " << area); c.eval(o.size()); c.state(mc::Hash(k, e.left.size(), e.right.size()));
}

MC_SECTION(polygons, "rounded polygons of 2 to 4 circles of 3 radii in convex position, and circles of 4 radii on a grid of 13 x 13 around them: a circle is contained exactly when the hull contains it; arcs and segments are those of the hull") {
  static const D2 kSets[][4] = {{{0, 0}, {3, 1}}, {{0, 0}, {0, 3}}, {{0, 0}, {3, 0}, {1, 3}}, {{-1, 0}, {2, -1}, {3, 2}, {0, 3}}, {{0, 0}, {3, 0}, {3, 3}, {0, 3}}}; static const int kCount[] = {2, 2, 3, 4, 4};
  int s = c.pick(5), n = kCount[s]; std::vector<Circle> v; Hull h; for (int i = 0; i < n; ++i) { float r = c.of({0.f, .5f, 1.f}); v.push_back(Circle({(float)kSets[s][i].x, (float)kSets[s][i].y}, r)); h.push_back({kSets[s][i], r}); }
  RoundedPolygon poly(v); c.op(1); MC_EXPECT(c, (int)poly.Arcs().size() == n, "arc-count", poly.Arcs().size());
  for (int i = 0; i < n; ++i) {
    auto& arc = poly.Arcs()[i]; MC_EXPECT(c, arc.circle.Center() == v[i].Center() && arc.circle.Radius() == v[i].Radius(), "arc-circle", i); Segment g = poly.GetSegment(i); Disc x = h[i], y = h[(i + 1) % n];
    D2 dir = At(g.end) - At(g.start), nrm = 1 / Len(dir) * D2{dir.y, -dir.x}; MC_EXPECT(c, Len(At(g.start) - (x.c + x.r * nrm)) < 1e-4 && Len(At(g.end) - (y.c + y.r * nrm)) < 1e-4, "segment-tangent", "segment " << i << " is not the right tangent");
  }
  for (int i = -3; i < 10; ++i) for (int j = -3; j < 10; ++j) for (float r : {0.f, .2f, .7f, 2.f}) { Circle q({i * .5f + .01f, j * .5f + .02f}, r); double m = Margin(h, {{At(q.Center()), r}}); if (std::fabs(m) < 1e-3) continue; bool got = poly.ContainsCircle(q); MC_EXPECT(c, got == (m > 0), "contains-circle", "set " << s << " radii " << h[0].r << "," << h[1].r << (n > 2 ? "," : "") << (n > 2 ? h[2].r : 0) << ": circle (" << q.Center().x << ", " << q.Center().y << ") r " << r << " is " << got << " with margin " << m); c.eval(); }
}

MC_SECTION(extreme_tips, "every path of 3 tips, 24 shapes including flat, pinched, empty and very large ones, turning into one another while moving to 5 places or staying, near and far from the origin: extruding them never aborts, and the vertices are finite and near the tips") {
  static const Kind kOdd[] = {{4, 1, 0, kQuarter, .5f}, {4, 1, 0, -kQuarter, .5f}, {2, 1, 0, kQuarter, 1}, {2, 2, 0, -kQuarter, 0}, {2, 2, .5f, kQuarter, 1}, {3, 2, 1, kQuarter, .7f}, {2, 4, .1f, 1.57f, 0}, {4, .06f, 0, 0, 1}, {.06f, 4, 0, .5f, 1}, {.05f, .05f, 0, 0, 0}, {40, .2f, .3f, 1, .9f}, {0, 0, 1, 0, 0}};
  int n = mc::tier(16, 26); auto kind = [&](int i) { return i < 12 ? kOdd[i] : kKinds[(i - 12) % kNumKinds]; }; static const D2 kMove[] = {{0, 0}, {.5, .2}, {8, 0}, {-3, 4}, {.001, 0}}; Point base = c.of({Point{5, 4}, Point{1e6f, -2e6f}}); float rot = c.of({0.f, 1.5707964f, .4f}), eps = c.of({.1f, .001f});
  int k0 = c.pick(n), k1 = c.pick(n), k2 = c.pick(mc::tier(2, 4)) ? k0 : k1; D2 m1 = kMove[c.pick(5)], m2 = kMove[c.pick(5)]; auto tip = [&](int k, D2 o, float r) { Kind q = kind(k); return State(base.x + o.x, base.y + o.y, q.w, q.h, q.radius, r, q.slant, q.pinch); };
  std::vector<BrushTipState> st{tip(k0, {0, 0}, 0), tip(k1, m1, rot), tip(k2, m1 + m2, rot)}; MutableMesh mesh{StrokeVertex::FullMeshFormat()}; BrushTipExtruder ex; ex.StartStroke(eps, false, mesh); c.op(1);
  ex.ExtendStroke({st[0], st[1]}, {st[2]}); ex.ExtendStroke({st[2]}, {}); Hull h; double reach = 0; for (auto& s : st) { h = Join(h, Documented(s)); reach = std::max<double>(reach, s.width + s.height); } for (auto& s : st) h = Join(h, {{At(s.position), reach / 2}}); double x0 = -Support(h, {-1, 0}), x1 = Support(h, {1, 0}), y0 = -Support(h, {0, -1}), y1 = Support(h, {0, 1}), room = 3 * eps + 1e-6 * (std::fabs(base.x) + std::fabs(base.y));
  for (uint32_t i = 0; i < mesh.VertexCount(); ++i) { Point v = mesh.VertexPosition(i); MC_EXPECT(c, v.x >= x0 - room && v.x <= x1 + room && v.y >= y0 - room && v.y <= y1 + room, "vertex-far-from-tips", Show(st[0]) << " " << Show(st[1]) << " " << Show(st[2]) << ": (" << v.x << ", " << v.y << ")"); }
  c.eval(mesh.VertexCount()); c.state(mc::Hash(mesh.VertexCount(), mesh.TriangleCount()));
}
MC_MAIN()
