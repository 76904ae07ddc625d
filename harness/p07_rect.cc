// P07: Rect and Envelope.
#include <array>
#include <optional>
#include "absl/strings/str_cat.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/rect.h"
#include "util.h"
using ink::Envelope; using ink::Point; using ink::Quad; using ink::Rect; using ink::Segment; using ink::Triangle; using ink::Vec;
namespace {
struct M { double x0 = 0, y0 = 0, x1 = 0, y1 = 0; };
std::string S(const Rect& r) { return absl::StrCat(r.XMin(), ",", r.YMin(), ",", r.XMax(), ",", r.YMax()); }
bool Is(const Rect& r, const M& m, double tol) {
  return std::fabs(r.XMin() - m.x0) <= tol && std::fabs(r.YMin() - m.y0) <= tol && std::fabs(r.XMax() - m.x1) <= tol && std::fabs(r.YMax() - m.y1) <= tol;
}
uint64_t H(const Rect& r) { return mc::Hash(r.XMin(), r.YMin(), r.XMax(), r.YMax()); }
// Per-dimension reference operations.
void Off(double& a, double& b, double o) { a -= o; b += o; if (b < a) { double m = (a + b) / 2; a = b = m; } }
void Width(double& a, double& b, double w) { double m = (a + b) / 2; a = m - w / 2; b = m + w / 2; }
const float kInfF = std::numeric_limits<float>::infinity();
const std::vector<float> kBig = {0.f, 1.f, -1.f, 1e30f, -1e30f, 2e38f, -2e38f, 3e38f, -3e38f, kMax, -kMax, kDenorm, kMinNormal};
}  // namespace
MC_SECTION(construct, "all rects over 13 finite extremes per coordinate: factories, accessors, corners, edges; centre and half-extents never overflow") {
  float ax = c.of(kBig), ay = c.of(kBig), bx = c.of(kBig);
  for (float by : kBig) {
    Rect r = Rect::FromTwoPoints({ax, ay}, {bx, by});
    float x0 = std::fmin(ax, bx), x1 = std::fmax(ax, bx), y0 = std::fmin(ay, by), y1 = std::fmax(ay, by);
    c.add_states(1); c.op(8);
    MC_EXPECT(c, r.XMin() == x0 && r.XMax() == x1 && r.YMin() == y0 && r.YMax() == y1, "from-points", S(r));
    Point p = r.Center();
    MC_EXPECT(c, Near(p.x, (double(x0) + x1) / 2, 3e-7, 2e-45 + 1e-7 * (std::fabs(x0) + std::fabs(x1))) && Near(p.y, (double(y0) + y1) / 2, 3e-7, 2e-45 + 1e-7 * (std::fabs(y0) + std::fabs(y1))), "center", S(r) << " -> " << p.x << "," << p.y);
    MC_EXPECT(c, std::isfinite(r.SemiWidth()) && std::isfinite(r.SemiHeight()) && Near(r.SemiWidth(), (double(x1) - x0) / 2, 3e-7, 3e-45) && Near(r.SemiHeight(), (double(y1) - y0) / 2, 3e-7, 3e-45), "semi", S(r));
    MC_EXPECT(c, Eq(r.Width(), x1 - x0) && Eq(r.Height(), y1 - y0) && (r.Area() >= 0 || std::isnan(r.Area())), "extent", S(r));
    auto k = r.Corners();
    Point w[4] = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}};
    for (int i = 0; i < 4; ++i) {
      MC_EXPECT(c, k[i] == w[i], "corners", S(r) << " #" << i);
      Segment e = r.GetEdge(i);
      MC_EXPECT(c, e.start == w[i] && e.end == w[(i + 1) % 4], "edge", S(r) << " #" << i);
      MC_EXPECT(c, r.Contains(w[i]), "contains-corner", S(r));
    }
    MC_EXPECT(c, r.Contains(r), "contains-self", S(r));
    for (float q : kBig) {
      MC_EXPECT(c, r.Contains(Point{q, y0}) == (q >= x0 && q <= x1) && r.Contains(Point{x0, q}) == (q >= y0 && q <= y1), "contains", S(r) << " " << q);
      Rect j = r; j.Join(Point{q, ay}); MC_EXPECT(c, j.XMin() == std::fmin(x0, q) && j.XMax() == std::fmax(x1, q) && j.YMin() == y0 && j.YMax() == y1, "join", S(r) << " " << q);
      j = r; j.Join(Point{bx, q}); MC_EXPECT(c, j.XMin() == x0 && j.XMax() == x1 && j.YMin() == std::fmin(y0, q) && j.YMax() == std::fmax(y1, q), "join", S(r) << " " << q);
    }
    c.outcome(H(r));
  }
}
MC_SECTION(infinite, "all rects over infinite and finite bounds: a side infinite both ways is centred at 0, a half-infinite one at its infinite end, and containment and joins are those of the bounds") {
  static const std::vector<float> k = {-kInfF, -3.f, 0.f, 2.f, kMax, kInfF}; float ax = c.of(k), ay = c.of(k), bx = c.of(k), by = c.of(k);
  Rect r = Rect::FromTwoPoints({ax, ay}, {bx, by}); float x0 = std::fmin(ax, bx), x1 = std::fmax(ax, bx), y0 = std::fmin(ay, by), y1 = std::fmax(ay, by); c.op(1);
  MC_EXPECT(c, r.XMin() == x0 && r.XMax() == x1 && r.YMin() == y0 && r.YMax() == y1, "bounds", S(r));
  auto mid = [](float a, float b) { return a == -b ? 0.f : std::isinf(a) ? a : std::isinf(b) ? b : (float)((double(a) + b) / 2); }; Point p = r.Center();
  MC_EXPECT(c, Near(p.x, mid(x0, x1), 1e-6, 1e-6) || p.x == mid(x0, x1), "center", S(r) << " -> " << p.x); MC_EXPECT(c, Near(p.y, mid(y0, y1), 1e-6, 1e-6) || p.y == mid(y0, y1), "center", S(r) << " -> " << p.y);
  for (float x : k) for (float y : k) { MC_EXPECT(c, r.Contains(Point{x, y}) == (x >= x0 && x <= x1 && y >= y0 && y <= y1), "contains", S(r) << " " << x << "," << y); Rect j = r; j.Join(Point{x, y}); MC_EXPECT(c, j.XMin() == std::fmin(x0, x) && j.XMax() == std::fmax(x1, x) && j.YMin() == std::fmin(y0, y) && j.YMax() == std::fmax(y1, y), "join", S(r)); }
  c.eval(2 + 2 * k.size() * k.size()); c.state(H(r));
}
MC_SECTION(resize_extreme, "all x extents over finite extremes x new sizes: setting a width or height keeps the centre and never turns a finite box into a non-finite one") {
  float a = c.of(kBig), b = c.of(kBig), w = c.of({0.f, 1.f, 1e30f, 1e38f, 3e38f});
  Rect r = Rect::FromTwoPoints({a, a}, {b, b}), s = r;
  double ctr = (double(r.XMin()) + r.XMax()) / 2;
  c.op(2); c.state(mc::Hash(a, b, w));
  if (std::fabs(ctr) + w / 2.0 >= 3.4e38) return;
  c.add_nontrivial(1);
  double tol = 3e-7 * (std::fabs(double(a)) + std::fabs(double(b)) + w) + 3e-45;
  s.SetWidth(w); MC_EXPECT(c, Is(s, {ctr - w / 2.0, r.YMin(), ctr + w / 2.0, r.YMax()}, tol), "set-width", S(r) << " w=" << w << " -> " << S(s));
  s = r; s.SetHeight(w); MC_EXPECT(c, Is(s, {r.XMin(), ctr - w / 2.0, r.XMax(), ctr + w / 2.0}, tol), "set-height", S(r) << " h=" << w << " -> " << S(s));
}
MC_SECTION(histories, "all histories of mutations (offset, scale, translate, centre, width, height, joins, resize and translate a side) up to depth 3 (thorough 4) from 6 rects on quarter coordinates, against per-dimension double arithmetic") {
  static const float starts[6][4] = {{0, 0, 0, 0}, {0, 0, 4, 2}, {-3, -1, 5, 7}, {1, 2, 1, 6}, {-4, -8, -2, -8}, {-1, -1, 1, 1}};
  const float* st = starts[c.pick(6)];
  Rect r = Rect::FromTwoPoints({st[0], st[1]}, {st[2], st[3]});
  M m{st[0], st[1], st[2], st[3]};
  int depth = mc::tier(3, 4);
  for (int step = 0; step < depth; ++step) {
    int op = c.pick(18);
    std::string before = S(r);
    switch (op) {
      case 0: { float o = c.of({1.f, -1.f, -5.f, 0.f}); r.Offset(o); Off(m.x0, m.x1, o); Off(m.y0, m.y1, o); break; }
      case 1: r.Offset(2, -0.5f); Off(m.x0, m.x1, 2); Off(m.y0, m.y1, -0.5); break;
      case 2: r.Offset(-3, 1); Off(m.x0, m.x1, -3); Off(m.y0, m.y1, 1); break;
      case 3: { float s = c.of({0.f, 0.5f, 2.f, 1.f}); r.Scale(s); Width(m.x0, m.x1, (m.x1 - m.x0) * s); Width(m.y0, m.y1, (m.y1 - m.y0) * s); break; }
      case 4: r.Scale(3, 0.25f); Width(m.x0, m.x1, (m.x1 - m.x0) * 3); Width(m.y0, m.y1, (m.y1 - m.y0) * .25); break;
      case 5: r.Translate(Vec{1.5f, -2}); m.x0 += 1.5; m.x1 += 1.5; m.y0 -= 2; m.y1 -= 2; break;
      case 6: { r.SetCenter({3, -1}); double w = m.x1 - m.x0, h = m.y1 - m.y0; m = {3 - w / 2, -1 - h / 2, 3 + w / 2, -1 + h / 2}; break; }
      case 7: { float w = c.of({0.f, 3.f}); r.SetWidth(w); Width(m.x0, m.x1, w); break; }
      case 8: { float w = c.of({0.f, 3.f}); r.SetHeight(w); Width(m.y0, m.y1, w); break; }
      case 9: { Point p = c.of({Point{0, 0}, Point{9, -2}, Point{-6, 3}}); r.Join(p); m.x0 = std::fmin(m.x0, p.x); m.x1 = std::fmax(m.x1, p.x); m.y0 = std::fmin(m.y0, p.y); m.y1 = std::fmax(m.y1, p.y); break; }
      case 10: { Rect o = Rect::FromTwoPoints({-2, 1}, {2, 8}); r.Join(o); m.x0 = std::fmin(m.x0, -2); m.x1 = std::fmax(m.x1, 2); m.y0 = std::fmin(m.y0, 1); m.y1 = std::fmax(m.y1, 8); break; }
      case 11: { float v = c.of({-2.f, 2.f}); r.ResizeSettingXMinTo(v); m.x0 = v; m.x1 = std::fmax(m.x1, v); break; }
      case 12: { float v = c.of({-2.f, 2.f}); r.ResizeSettingYMinTo(v); m.y0 = v; m.y1 = std::fmax(m.y1, v); break; }
      case 13: { float v = c.of({-2.f, 2.f}); r.ResizeSettingXMaxTo(v); m.x1 = v; m.x0 = std::fmin(m.x0, v); break; }
      case 14: { float v = c.of({-2.f, 2.f}); r.ResizeSettingYMaxTo(v); m.y1 = v; m.y0 = std::fmin(m.y0, v); break; }
      case 15: if (c.flag()) { r.TranslateSettingXMinTo(2); m.x1 += 2 - m.x0; m.x0 = 2; } else { r.TranslateSettingYMinTo(2); m.y1 += 2 - m.y0; m.y0 = 2; } break;
      case 16: if (c.flag()) { r.TranslateSettingXMaxTo(-2); m.x0 += -2 - m.x1; m.x1 = -2; } else { r.TranslateSettingYMaxTo(-2); m.y0 += -2 - m.y1; m.y1 = -2; } break;
      case 17: {
        if (m.y1 - m.y0 <= 0) return;
        double cx = (m.x0 + m.x1) / 2, cy = (m.y0 + m.y1) / 2, w = m.x1 - m.x0, h = m.y1 - m.y0;
        for (float a : {0.f, 0.25f, 0.5f, 1.f, 2.f, 8.f}) {
          Rect in = r.InteriorRectWithAspectRatio(a); double iw = std::fmin(w, h * a), ih = a == 0 ? h : std::fmin(h, w / a);
          MC_EXPECT(c, Is(in, {cx - iw / 2, cy - ih / 2, cx + iw / 2, cy + ih / 2}, 1e-4), "interior", before << " a=" << a << " -> " << S(in));
          if (a == 0) continue;
          Rect out = r.ContainingRectWithAspectRatio(a); double ow = std::fmax(w, h * a), oh = std::fmax(h, w / a);
          MC_EXPECT(c, Is(out, {cx - ow / 2, cy - oh / 2, cx + ow / 2, cy + oh / 2}, 1e-4), "containing", before << " a=" << a << " -> " << S(out));
        }
        MC_EXPECT(c, Near(r.AspectRatio(), w / h, 1e-5, 0), "aspect", before);
        break;
      }
    }
    c.op(); c.state(H(r));
    MC_EXPECT(c, Is(r, m, 1e-4), "op-" + std::to_string(op), before << " -> " << S(r) << " want " << m.x0 << "," << m.y0 << "," << m.x1 << "," << m.y1);
    MC_EXPECT(c, r.XMin() <= r.XMax() && r.YMin() <= r.YMax(), "inverted", S(r));
  }
  c.outcome(H(r)); c.add_nontrivial(1);
}
MC_SECTION(preconditions, "documented CHECK failures: negative sizes and scales, bad edge index, aspect ratios") {
  Rect r = Rect::FromTwoPoints({0, 0}, {4, 2}), flat = Rect::FromTwoPoints({0, 0}, {4, 0});
  struct { const char* n; std::function<void()> f; bool dies; } t[] = {
      {"dims -w", [&] { Rect::FromCenterAndDimensions({0, 0}, -1, 1); }, true}, {"dims -h", [&] { Rect::FromCenterAndDimensions({0, 0}, 1, -1); }, true},
      {"dims ok", [&] { Rect::FromCenterAndDimensions({0, 0}, 0, 0); }, false}, {"setw", [&] { r.SetWidth(-1); }, true}, {"seth", [&] { r.SetHeight(-1); }, true},
      {"scale", [&] { r.Scale(-1); }, true}, {"scale2", [&] { r.Scale(1, -1); }, true}, {"scale3", [&] { r.Scale(-1, 1); }, true}, {"edge", [&] { r.GetEdge(4); }, true}, {"edge-", [&] { r.GetEdge(-1); }, true},
      {"aspect", [&] { flat.AspectRatio(); }, true}, {"contain0", [&] { r.ContainingRectWithAspectRatio(0); }, true}, {"contain-", [&] { r.ContainingRectWithAspectRatio(-1); }, true},
      {"interior-", [&] { r.InteriorRectWithAspectRatio(-1); }, true}, {"interior0", [&] { r.InteriorRectWithAspectRatio(0); }, false}};
  auto& e = t[c.pick(std::size(t))];
  c.op(); c.state(mc::Hash(e.n)); c.outcome(e.dies);
  MC_EXPECT(c, mc::DiesOnCheck(e.f) == e.dies, "precondition", e.n);
}
MC_SECTION(envelope, "all sequences of up to 4 (thorough 5) additions of points, segments, triangles, rects, quads, envelopes, ranges and resets: the envelope is the tight bounding box of everything since the last reset") {
  std::vector<Point> pts; Envelope e; int n = mc::tier(4, 5);
  static const Point P[4] = {{0, 0}, {3, -2}, {-5, 1}, {-1, 6}};
  auto Bounds = [&](const std::vector<Point>& v) -> std::optional<M> {
    if (v.empty()) return std::nullopt;
    M m{v[0].x, v[0].y, v[0].x, v[0].y};
    for (Point p : v) { m.x0 = std::fmin(m.x0, p.x); m.x1 = std::fmax(m.x1, p.x); m.y0 = std::fmin(m.y0, p.y); m.y1 = std::fmax(m.y1, p.y); }
    return m;
  };
  for (int s = 0; s < n; ++s) {
    std::vector<Point> add;
    bool first = s == 0 && c.flag();  // Constructor instead of Add.
    switch (c.pick(9)) {
      case 0: { Point p = c.of(P); if (first) e = Envelope(p); else e.Add(p); add = {p}; break; }
      case 1: { Point p = c.of(P); Segment g{p, P[(c.flag() ? 1 : 2)]}; if (first) e = Envelope(g); else e.Add(g); add = {g.start, g.end}; break; }
      case 2: { int i = c.pick(3); Triangle t{P[i], P[(i + 1) % 4], P[(i + 2) % 4]}; if (first) e = Envelope(t); else e.Add(t); add = {t.p0, t.p1, t.p2}; break; }
      case 3: { Rect r = Rect::FromTwoPoints(P[c.pick(3)], P[3]); if (first) e = Envelope(r); else e.Add(r); auto k = r.Corners(); add.assign(k.begin(), k.end()); break; }
      case 4: { Quad q = Quad::FromCenterDimensionsRotationAndShear({1, 2}, 4, c.flag() ? 2 : -6, ink::Angle::Radians(0.6f), 1.5f); auto k = q.Corners(); if (first) e = Envelope(q); else e.Add(q); add.assign(k.begin(), k.end()); break; }
      case 5: { Envelope o; if (c.flag()) { o.Add(P[1]); o.Add(P[3]); add = {P[1], P[3]}; } if (first) e = o; else e.Add(o); break; }
      case 6: { std::vector<Point> v(P, P + c.pick(4)); if (first) e = Envelope(v); else e.Add(v); add = v; break; }
      case 7: { std::vector<Segment> v{{P[0], P[1]}, {P[2], P[3]}}; if (first) e = Envelope(v.begin(), v.end()); else e.Add(v.begin(), v.end()); add = {P[0], P[1], P[2], P[3]}; break; }
      case 8: if (first) break; e.Reset(); pts.clear(); break;
    }
    pts.insert(pts.end(), add.begin(), add.end());
    auto m = Bounds(pts);
    c.op();
    MC_EXPECT(c, e.IsEmpty() == !m.has_value() && e.AsRect().has_value() == m.has_value(), "empty", s);
    if (m) { MC_EXPECT(c, Is(*e.AsRect(), *m, 1e-5), "bounds", S(*e.AsRect()) << " want " << m->x0 << "," << m->y0 << "," << m->x1 << "," << m->y1); c.state(H(*e.AsRect())); }
    c.add_nontrivial(m.has_value());
  }
  if (!e.IsEmpty()) c.outcome(H(*e.AsRect()));
}
MC_MAIN()
