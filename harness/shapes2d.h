// Exact integer-grid shapes and an independent convex-set oracle.
#pragma once
#include <array>
#include <memory>
#include "ink/geometry/point.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"
#include "util.h"
struct IP { int64_t x, y; };
// A convex set given by up to 4 hull points (in half units for quads).
struct Shape {
  int kind;  // 0 point 1 segment 2 triangle 3 rect 4 quad
  int n;
  std::array<IP, 4> p;
  int qw = 0, qh = 0, qs = 0;  // quad width/height (grid units) and shear
};
inline bool Separated(const Shape& a, const Shape& b) {
  auto test = [&](int64_t ax, int64_t ay) {
    int64_t alo = INT64_MAX, ahi = INT64_MIN, blo = INT64_MAX, bhi = INT64_MIN;
    for (int i = 0; i < a.n; ++i) { int64_t v = a.p[i].x * ax + a.p[i].y * ay; alo = std::min(alo, v); ahi = std::max(ahi, v); }
    for (int i = 0; i < b.n; ++i) { int64_t v = b.p[i].x * ax + b.p[i].y * ay; blo = std::min(blo, v); bhi = std::max(bhi, v); }
    return ahi < blo || bhi < alo;
  };
  if (test(1, 0) || test(0, 1)) return true;
  for (const Shape* s : {&a, &b})
    for (int i = 0; i < s->n && s->n > 1; ++i) {
      int64_t dx = s->p[(i + 1) % s->n].x - s->p[i].x, dy = s->p[(i + 1) % s->n].y - s->p[i].y;
      if (test(-dy, dx) || test(dx, dy)) return true;
    }
  return false;
}
inline double PointSegDist(IP p, IP a, IP b) {
  double dx = double(b.x - a.x), dy = double(b.y - a.y), px = double(p.x - a.x), py = double(p.y - a.y), m = dx * dx + dy * dy;
  double t = m > 0 ? std::min(1., std::max(0., (px * dx + py * dy) / m)) : 0;
  return std::hypot(px - t * dx, py - t * dy);
}
inline double ShapeDist(const Shape& a, const Shape& b) {
  if (!Separated(a, b)) return 0;
  double d = 1e300;
  for (int i = 0; i < a.n; ++i) for (int j = 0; j < b.n; ++j) {
    d = std::min(d, PointSegDist(a.p[i], b.p[j], b.p[(j + 1) % b.n]));
    d = std::min(d, PointSegDist(b.p[j], a.p[i], a.p[(i + 1) % a.n]));
  }
  return d;
}
// Every shape of a kind with grid coordinates 0..g-1, stored in half units.
inline std::vector<Shape> AllShapes(int kind, int g) {
  std::vector<Shape> r;
  auto P = [&](int i) { return IP{2 * (i % g), 2 * (i / g)}; };
  int n = g * g;
  if (kind == 0) for (int i = 0; i < n; ++i) r.push_back({0, 1, {P(i)}});
  if (kind == 1) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r.push_back({1, 2, {P(i), P(j)}});
  if (kind == 2) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) r.push_back({2, 3, {P(i), P(j), P(k)}});
  if (kind == 3) for (int x0 = 0; x0 < g; ++x0) for (int x1 = x0; x1 < g; ++x1) for (int y0 = 0; y0 < g; ++y0) for (int y1 = y0; y1 < g; ++y1)
    r.push_back({3, 4, {IP{2 * x0, 2 * y0}, IP{2 * x1, 2 * y0}, IP{2 * x1, 2 * y1}, IP{2 * x0, 2 * y1}}});
  // Quads without rotation: centre on the grid, even and odd sizes, signed height, integral shear. All corners are
  // exact in quarter units, so sizes are restricted to make them exact in half units.
  if (kind == 4) for (int cx = 0; cx < g; ++cx) for (int cy = 0; cy < g; ++cy) for (int w = 0; w <= 3; ++w) for (int h : {0, 1, 2, -2}) for (int s : {0, 1, -1}) {
    // Half axes in half units: u=(w,0), v=(s*h,h).
    int64_t X = 2 * cx, Y = 2 * cy, sh = int64_t(s) * h;
    r.push_back({4, 4, {IP{X - w - sh, Y - h}, IP{X + w - sh, Y - h}, IP{X + w + sh, Y + h}, IP{X - w + sh, Y + h}}, w, h, s});
  }
  return r;
}
// Embeds a shape: coordinates are off + half-units * scale / 2.
struct Place { float scale; float off; };
inline ink::Point ToPoint(IP p, Place e) { return {e.off + 0.5f * p.x * e.scale, e.off + 0.5f * p.y * e.scale}; }
struct Concrete {
  ink::Point pt; ink::Segment seg; ink::Triangle tri; ink::Rect rect; ink::Quad quad; int kind;
};
inline Concrete Make(const Shape& s, Place e) {
  Concrete c; c.kind = s.kind; c.pt = ToPoint(s.p[0], e);
  if (s.kind == 1) c.seg = {ToPoint(s.p[0], e), ToPoint(s.p[1], e)};
  if (s.kind == 2) c.tri = {ToPoint(s.p[0], e), ToPoint(s.p[1], e), ToPoint(s.p[2], e)};
  if (s.kind == 3) c.rect = ink::Rect::FromTwoPoints(ToPoint(s.p[0], e), ToPoint(s.p[2], e));
  if (s.kind == 4) {
    IP m{(s.p[0].x + s.p[2].x) / 2, (s.p[0].y + s.p[2].y) / 2};
    c.quad = ink::Quad::FromCenterDimensionsRotationAndShear(ToPoint(m, e), s.qw * e.scale, s.qh * e.scale, ink::Angle::Radians(0), s.qs);
  }
  return c;
}
template <typename F> auto With(const Concrete& c, F f) {
  switch (c.kind) { case 0: return f(c.pt); case 1: return f(c.seg); case 2: return f(c.tri); case 3: return f(c.rect); default: return f(c.quad); }
}
inline std::string Show(const Shape& s) {
  static const char* n[] = {"point", "segment", "triangle", "rect", "quad"};
  std::string r = n[s.kind];
  for (int i = 0; i < s.n; ++i) r += " (" + std::to_string(s.p[i].x / 2.) + "," + std::to_string(s.p[i].y / 2.) + ")";
  return r;
}
