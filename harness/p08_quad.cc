// P08: Quad.
#include <array>
#include <optional>
#include "absl/strings/str_cat.h"
#include "ink/geometry/quad.h"
#include "util.h"
using ink::Angle; using ink::Point; using ink::Quad; using ink::Rect; using ink::Segment; using ink::Vec;
namespace {
const double kTau = 6.283185307179586;
struct M { double cx, cy, w, h, rot, sh; };
void Norm(M& m) { if (m.w < 0) { m.w = -m.w; m.h = -m.h; m.rot += kTau / 2; } m.rot = std::fmod(m.rot, kTau); if (m.rot < 0) m.rot += kTau; }
double AngDiff(double a, double b) { double d = std::fabs(std::fmod(a - b, kTau)); return std::min(d, kTau - d); }
std::string S(const Quad& q) { return absl::StrCat("c=(", q.Center().x, ",", q.Center().y, ") w=", q.Width(), " h=", q.Height(), " rot=", q.Rotation().ValueInRadians(), " shear=", q.ShearFactor()); }
uint64_t H(const Quad& q) { return mc::Hash(q.Center().x, q.Center().y, q.Width(), q.Height(), q.Rotation().ValueInRadians(), q.ShearFactor()); }
struct Axes { double ux, uy, vx, vy; };
Axes UnitAxes(const M& m) { double k = std::cos(m.rot), s = std::sin(m.rot); return {k, s, m.sh * k - s, m.sh * s + k}; }
void Check(mc::Choices& c, const Quad& q, const M& m, double tol) {
  MC_EXPECT(c, Near(q.Center().x, m.cx, tol, tol) && Near(q.Center().y, m.cy, tol, tol) && Near(q.Width(), m.w, tol, tol) && Near(q.Height(), m.h, tol, tol) && Near(q.ShearFactor(), m.sh, tol, tol) && AngDiff(q.Rotation().ValueInRadians(), m.rot) < 1e-5,
            "fields", S(q) << " want c=(" << m.cx << "," << m.cy << ") w=" << m.w << " h=" << m.h << " rot=" << m.rot << " sh=" << m.sh);
  MC_EXPECT(c, q.Width() >= 0 && q.Rotation().ValueInRadians() >= 0 && q.Rotation().ValueInRadians() < float(kTau), "normalized", S(q));
  Axes a = UnitAxes(m);
  auto [u, v] = q.SemiAxes();
  double s = tol * (1 + std::fabs(m.w) + std::fabs(m.h) * (1 + std::fabs(m.sh)));
  MC_EXPECT(c, Near(u.x, a.ux * m.w / 2, 0, s) && Near(u.y, a.uy * m.w / 2, 0, s) && Near(v.x, a.vx * m.h / 2, 0, s) && Near(v.y, a.vy * m.h / 2, 0, s), "semi-axes", S(q) << " u=" << u.x << "," << u.y << " v=" << v.x << "," << v.y);
  auto k = q.Corners();
  static const int su[4] = {-1, 1, 1, -1}, sv[4] = {-1, -1, 1, 1};
  double cs = s + tol * (std::fabs(m.cx) + std::fabs(m.cy));
  for (int i = 0; i < 4; ++i) {
    double wx = m.cx + su[i] * a.ux * m.w / 2 + sv[i] * a.vx * m.h / 2, wy = m.cy + su[i] * a.uy * m.w / 2 + sv[i] * a.vy * m.h / 2;
    MC_EXPECT(c, Near(k[i].x, wx, 0, cs) && Near(k[i].y, wy, 0, cs), "corner", S(q) << " #" << i << " " << k[i].x << "," << k[i].y << " want " << wx << "," << wy);
    Segment e = q.GetEdge(i);
    MC_EXPECT(c, e.start == k[i] && e.end == k[(i + 1) % 4], "edge", S(q) << " #" << i);
  }
  MC_EXPECT(c, q.IsRectangular() == (q.ShearFactor() == 0) && Near(q.SignedArea(), m.w * m.h, 1e-5, tol), "area", S(q));
  MC_EXPECT(c, q == q && !(q != q), "equal", S(q));
  c.op(8);
}
const std::vector<float> kRot = {0.f, 0.6f, 1.5707964f, 2.5f, 3.1415927f, 4.f, 4.712389f, 6.2f, -0.5f, 7.5f, -1e-9f};
}  // namespace
MC_SECTION(construct, "all quads over centre, width, height (both signs and zero), rotation and shear alphabets: normalisation, semi-axes, corners, edges, area, aspect, axis alignment; containment of a grid of points away from the boundary") {
  M m{c.of({0.0, 3.0, -100.0}), c.of({0.0, -2.0}), c.of({0.0, 4.0, -4.0, 0.5}), c.of({0.0, 2.0, -6.0}), c.of(kRot), c.of({0.0, 1.5, -0.75})};
  M in = m;
  Quad q = Quad::FromCenterDimensionsRotationAndShear({float(m.cx), float(m.cy)}, m.w, m.h, Angle::Radians(m.rot), m.sh);
  Norm(m);
  c.state(H(q)); c.add_nontrivial(1);
  Check(c, q, m, 4e-6);
  if (in.sh == 0) { Quad r = Quad::FromCenterDimensionsAndRotation({float(in.cx), float(in.cy)}, in.w, in.h, Angle::Radians(in.rot)); MC_EXPECT(c, r == q, "factory", S(r)); }
  if (in.sh == 0 && in.rot == 0) { Quad r = Quad::FromCenterAndDimensions({float(in.cx), float(in.cy)}, in.w, in.h); MC_EXPECT(c, r == q, "factory2", S(r)); }
  if (m.h != 0) MC_EXPECT(c, Near(q.AspectRatio(), m.w / m.h, 1e-5, 0), "aspect", S(q));
  else MC_EXPECT(c, mc::DiesOnCheck([&] { q.AspectRatio(); }), "aspect-zero", S(q));
  double qt = std::fabs(std::remainder(m.rot, kTau / 4));
  if (qt < 1e-6 || qt > 1e-4) MC_EXPECT(c, q.IsAxisAligned() == (m.sh == 0 && qt < 1e-6), "axis-aligned", S(q));
  MC_EXPECT(c, q.IsAxisAligned(Angle::Radians(1)) == (m.sh == 0), "axis-aligned-tolerance", S(q));
  Axes a = UnitAxes(m);
  for (double i = -1.5; i <= 1.5; i += 0.25) for (double j = -1.5; j <= 1.5; j += 0.25) {
    if (std::fabs(std::fabs(i) - 1) < 0.1 || std::fabs(std::fabs(j) - 1) < 0.1) continue;
    double W = m.w > 0 ? m.w / 2 : 1, Hh = m.h != 0 ? m.h / 2 : 1;
    Point p{float(m.cx + i * W * a.ux + j * Hh * a.vx), float(m.cy + i * W * a.uy + j * Hh * a.vy)};
    bool want = std::fabs(i) <= 1 && std::fabs(j) <= 1;
    if ((m.w == 0 && std::fabs(i) <= 1) || (m.h == 0 && std::fabs(j) <= 1)) continue;  // on or next to a degenerate quad: rounding decides
    c.op(); c.outcome(want);
    MC_EXPECT(c, q.Contains(p) == want, "contains", S(q) << " i=" << i << " j=" << j);
  }
}
MC_SECTION(histories, "all histories of up to 3 (thorough 4) setter, join and read-out operations from 5 quads against a double model: setters normalise, cached axes never go stale, a join keeps rotation and shear, grows minimally and contains the point and the old corners") {
  static const M st[5] = {{0, 0, 0, 0, 0, 0}, {1, 2, 4, 2, 0, 0}, {-3, 1, 6, -4, 0.6, 0}, {2, -5, 3, 2, 4.0, 1.5}, {0, 0, 5, -3, 2.5, -0.75}};
  M m = st[c.pick(5)];
  Quad q = Quad::FromCenterDimensionsRotationAndShear({float(m.cx), float(m.cy)}, m.w, m.h, Angle::Radians(m.rot), m.sh);
  int depth = mc::tier(3, 4);
  for (int s = 0; s < depth; ++s) {
    std::string before = S(q);
    if (c.flag()) q.SemiAxes();  // Fills the cache.
    Quad copy = q; M cm = m;
    int op = c.pick(6);
    switch (op) {
      case 0: { Point p = c.of({Point{0, 0}, Point{-7, 3}}); q.SetCenter(p); m.cx = p.x; m.cy = p.y; break; }
      case 1: { float w = c.of({0.f, 3.f, -5.f}); q.SetWidth(w); m.w = w; Norm(m); break; }
      case 2: { float h = c.of({0.f, 3.f, -5.f}); q.SetHeight(h); m.h = h; break; }
      case 3: { float r = c.of({0.f, 1.f, -2.f, 9.f}); q.SetRotation(Angle::Radians(r)); m.rot = r; Norm(m); break; }
      case 4: { float k = c.of({0.f, 1.f, -2.5f}); q.SetShearFactor(k); m.sh = k; break; }
      case 5: {
        Point p = c.of({Point{0.25f, 0.5f}, Point{1.5f, 2.125f}, Point{10, -3}, Point{-8, -0.75f}, Point{2.5f, 20}});
        auto old = q.Corners();
        q.Join(p);
        Axes a = UnitAxes(m);
        // Coordinates of p along the unit axes.
        double qx = p.x - m.cx, qy = p.y - m.cy, det = a.ux * a.vy - a.uy * a.vx;
        double i = (qx * a.vy - qy * a.vx) / det, j = (a.ux * qy - a.uy * qx) / det;
        double lo = std::min(-m.w / 2, i), hi = std::max(m.w / 2, i), lv = std::min(-std::fabs(m.h) / 2, j), hv = std::max(std::fabs(m.h) / 2, j);
        double ci = (lo + hi) / 2, cj = (lv + hv) / 2;
        bool neg = std::signbit(q.Height()); if (m.h != 0) neg = m.h < 0;
        m.cx += ci * a.ux + cj * a.vx; m.cy += ci * a.uy + cj * a.vy; m.w = hi - lo; m.h = (neg ? -1 : 1) * (hv - lv);
        Quad big = q; big.SetWidth(q.Width() + 1e-3f); big.SetHeight(q.Height() + (q.Height() < 0 ? -1e-3f : 1e-3f));
        MC_EXPECT(c, big.Contains(p), "join-contains", before << " join " << p.x << "," << p.y << " -> " << S(q));
        for (Point o : old) MC_EXPECT(c, big.Contains(o), "join-keeps", before << " join " << p.x << "," << p.y << " -> " << S(q));
        break;
      }
    }
    c.op(); c.state(H(q));
    Check(c, q, m, 2e-5);
    Check(c, copy, cm, 2e-5);
  }
  c.outcome(H(q)); c.add_nontrivial(1);
}
MC_SECTION(from_rect, "all rects on a grid: the equivalent quad has the same corners") {
  Rect r = Rect::FromTwoPoints({c.of({0.f, -3.f, 2.5f}), c.of({0.f, 7.f, -1.f})}, {c.of({0.f, 4.f, 9.f}), c.of({0.f, -2.f, 3.f})});
  Quad q = Quad::FromRect(r); auto a = r.Corners(), b = q.Corners();
  c.op(); c.state(H(q)); c.outcome(H(q));
  for (int i = 0; i < 4; ++i) MC_EXPECT(c, Near(a[i].x, b[i].x, 0, 1e-5) && Near(a[i].y, b[i].y, 0, 1e-5), "from-rect", S(q));
  MC_EXPECT(c, q.IsAxisAligned(), "from-rect-aligned", S(q));
  MC_EXPECT(c, mc::DiesOnCheck([&] { q.GetEdge(4); }) && mc::DiesOnCheck([&] { q.GetEdge(-1); }), "edge-index", "");
}
MC_SECTION(default_quad, "the default quad is the zero quad at the origin") {
  Quad q; c.op(); c.state(1); c.outcome(H(q)); c.add_nontrivial(1);
  Check(c, q, {0, 0, 0, 0, 0, 0}, 0);
  MC_EXPECT(c, q == Quad::FromCenterAndDimensions({0, 0}, 0, 0), "default", S(q));
}
MC_MAIN()
