// P09: Intersects and Contains for plain shapes, on exact grids.
#include "absl/strings/str_cat.h"
#include "ink/geometry/intersects.h"
#include "shapes2d.h"
namespace {
const char* kNames[] = {"point", "segment", "triangle", "rect", "quad"};
bool Hit(const Concrete& a, const Concrete& b) {
  return With(a, [&](const auto& x) { return With(b, [&](const auto& y) { return ink::Intersects(x, y); }); });
}
void Pair(mc::Choices& c, int ka, int kb, int g, const std::vector<Place>& places) {
  static std::map<std::pair<int, int>, std::vector<Shape>> cache;
  auto get = [&](int k) -> const std::vector<Shape>& { auto& v = cache[{k, g}]; if (v.empty()) v = AllShapes(k, g); return v; };
  const auto& A = get(ka); const auto& B = get(kb);
  const Shape& sa = A[c.pick(A.size())];
  for (Place e : places) {
    Concrete a = Make(sa, e);
    for (const Shape& sb : B) {
      Concrete b = Make(sb, e);
      bool want = !Separated(sa, sb), got = Hit(a, b), rev = Hit(b, a);
      if (got != want || rev != want) c.fail(absl::StrCat(kNames[ka], "-", kNames[kb]), absl::StrCat(Show(sa), " vs ", Show(sb), " scale ", e.scale, " offset ", e.off, ": got ", got, " swapped ", rev, " want ", want));
      c.add_nontrivial(want);
    }
    c.op(2 * B.size()); c.eval(2 * B.size()); c.add_states(B.size());
  }
}
const std::vector<Place> kUnit = {{1, 0}};
// Exact embeddings: small offsets keep every product within 24 bits; powers of two scale exactly.
const std::vector<Place> kMany = {{1, 0}, {1, -512}, {256, 7}, {0x1p-20f, 0}, {0x1p-40f, 0}, {0x1p-55f, 0}, {0x1p40f, 0}, {0x1p55f, 0}};
}  // namespace
MC_SECTION(small_kinds, "all pairs of points, segments, rects and quads on a 3x3 grid (quads with signed heights and shear), in both orders, at 8 exact embeddings from 2^-55 to 2^55") {
  static const int k[5][2] = {{0, 0}, {0, 1}, {1, 1}, {0, 3}, {1, 3}};
  auto& p = k[c.pick(5)]; Pair(c, p[0], p[1], 3, kMany);
}
MC_SECTION(small_kinds_4, "all pairs of points, segments and rects on a 4x4 grid, in both orders, at 8 exact embeddings") {
  static const int k[6][2] = {{0, 0}, {0, 1}, {1, 1}, {0, 3}, {1, 3}, {3, 3}};
  auto& p = k[c.pick(6)]; Pair(c, p[0], p[1], 4, kMany);
}
MC_SECTION(triangles, "all pairs of a triangle on a 3x3 grid (degenerate ones included) with a point, segment, triangle or rect on it, in both orders; triangle pairs on the unit embedding (thorough: all 8)") {
  static const int k[4][2] = {{0, 2}, {1, 2}, {3, 2}, {2, 2}};
  auto& p = k[c.pick(4)]; Pair(c, p[0], p[1], 3, p[0] == 2 && !mc::thorough() ? std::vector<Place>{{1, 0}, {0x1p-40f, 0}} : kMany);
}
MC_SECTION(triangles_4, "all pairs of a triangle on a 4x4 grid with a point, segment or rect (thorough: triangle) on it") {
  static const int k[4][2] = {{0, 2}, {1, 2}, {3, 2}, {2, 2}};
  auto& p = k[c.pick(mc::tier(3, 4))]; Pair(c, p[0], p[1], 4, kUnit);
}
MC_SECTION(quads, "all pairs of an unrotated quad (widths 0-3, heights 0,1,2,-2, shear 0,1,-1, centres on a 3x3 grid) with a point, segment, triangle, rect or quad, in both orders") {
  static const int k[5][2] = {{0, 4}, {1, 4}, {3, 4}, {4, 4}, {4, 2}};
  auto& p = k[c.pick(5)]; Pair(c, p[0], p[1], 3, p[0] == 4 && p[1] == 2 ? kUnit : std::vector<Place>{{1, 0}, {256, 7}});
}
MC_SECTION(triangle_area, "all triangles on a 5x5 grid: signed area is exact, its sign is the winding, edges follow the corners; containment agrees with the exact test for every grid half-point") {
  static const auto T = AllShapes(2, 5);
  const Shape& s = T[c.pick(T.size())];
  Concrete t = Make(s, {1, 0});
  int64_t det = (s.p[1].x - s.p[0].x) * (s.p[2].y - s.p[0].y) - (s.p[1].y - s.p[0].y) * (s.p[2].x - s.p[0].x);
  c.op(4); c.add_states(1); c.outcome(det);
  MC_EXPECT(c, t.tri.SignedArea() == det / 8.0, "area", Show(s) << " -> " << t.tri.SignedArea());
  for (int i = 0; i < 3; ++i) MC_EXPECT(c, t.tri.GetEdge(i).start == ToPoint(s.p[i], {1, 0}) && t.tri.GetEdge(i).end == ToPoint(s.p[(i + 1) % 3], {1, 0}), "edge", Show(s));
  for (int x = -1; x <= 9; ++x) for (int y = -1; y <= 9; ++y) {
    Shape q{0, 1, {IP{x, y}}};
    bool want = !Separated(q, s), got = t.tri.Contains(ToPoint(q.p[0], {1, 0}));
    if (got != want) c.fail("contains", absl::StrCat(Show(s), " ", Show(q), " got ", got));
  }
  c.op(121); c.eval(121); c.add_nontrivial(det != 0);
  if (s.p[0].x == 0 && det == 0) MC_EXPECT(c, mc::DiesOnCheck([&] { t.tri.GetEdge(3); }) && mc::DiesOnCheck([&] { t.tri.GetEdge(-1); }), "edge-index", "");
}
bool Flat(const Shape& s) { if (s.n < 3) return false; int64_t a = 0; for (int i = 0; i < s.n; ++i) { auto& p = s.p[i]; auto& q = s.p[(i + 1) % s.n]; a += p.x * q.y - p.y * q.x; } return a == 0; }
MC_SECTION(inexact, "all pairs of segments, triangles, rects and quads on a 3x3 grid placed by 4 inexact similarity transforms (rects only without rotation): shapes that stay overlapping when nudged by 1/64 unit any way must intersect, shapes further apart than that must not") {
  struct E { double angle, scale, ox, oy; };
  static const E es[] = {{0, 0.7, 0.1, 0.3}, {0.3, 1.1, 0.37, -0.2}, {2.5, 0.9, 33.1, 7.7}, {-1.0, 1e-3, 1e-4, 0}};
  static const int k[9][2] = {{1, 1}, {1, 2}, {1, 4}, {4, 4}, {2, 4}, {2, 2}, {1, 3}, {2, 3}, {3, 4}};
  auto& p = k[c.pick(9)]; bool with_rect = p[0] == 3 || p[1] == 3;
  const E& e = es[c.pick(with_rect ? 1 : 4)];
  double ca = std::cos(e.angle) * e.scale, sa = std::sin(e.angle) * e.scale;
  auto pt = [&](IP q) { double x = q.x / 2., y = q.y / 2.; return ink::Point{float(ca * x - sa * y + e.ox), float(sa * x + ca * y + e.oy)}; };
  auto place = [&](const Shape& s) {
    Concrete r; r.kind = s.kind; r.pt = pt(s.p[0]);
    if (s.kind == 1) r.seg = {pt(s.p[0]), pt(s.p[1])};
    if (s.kind == 2) r.tri = {pt(s.p[0]), pt(s.p[1]), pt(s.p[2])};
    if (s.kind == 3) r.rect = ink::Rect::FromTwoPoints(pt(s.p[0]), pt(s.p[2]));
    if (s.kind == 4) { IP m{(s.p[0].x + s.p[2].x) / 2, (s.p[0].y + s.p[2].y) / 2};
      r.quad = ink::Quad::FromCenterDimensionsRotationAndShear(pt(m), float(s.qw * e.scale), float(s.qh * e.scale), ink::Angle::Radians(e.angle), s.qs); }
    return r;
  };
  static std::map<int, std::vector<Shape>> cache;
  auto get = [&](int kind) -> const std::vector<Shape>& { auto& v = cache[kind]; if (v.empty()) v = AllShapes(kind, kind==2?mc::tier(3,4):4); return v; };
  const auto& A = get(p[0]); const auto& B = get(p[1]);
  const Shape& s1 = A[c.pick(A.size())]; Concrete x = place(s1);
  auto fine = [](Shape s) { for (int i = 0; i < s.n; ++i) { s.p[i].x *= 32; s.p[i].y *= 32; } return s; };  // half units -> 1/64 units
  Shape f1 = fine(s1); int hits = 0;
  for (const Shape& s2 : B) {
    Shape f2 = fine(s2); int want;
    if (Separated(f1, f2)) want = ShapeDist(f1, f2) > 1 ? -1 : 0;
    else { want = 1; static const int D[8][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {-1, 1}, {1, -1}, {-1, -1}};
      for (auto& d : D) { Shape g = f1; for (int i = 0; i < g.n; ++i) { g.p[i].x += d[0]; g.p[i].y += d[1]; } if (Separated(g, f2)) { want = 0; break; } } }
    if (want == 0) continue;
    Concrete y = place(s2); bool h = Hit(x, y), r = Hit(y, x); hits += h;
    c.op(2); c.eval(2);
    if (h != (want > 0) || r != (want > 0)) c.fail(absl::StrCat(want > 0 ? "missed-" : "false-", Flat(s1) ? "flat-" : "", kNames[p[0]], "-", Flat(s2) ? "flat-" : "", kNames[p[1]]), absl::StrCat(Show(s1), " vs ", Show(s2), " angle ", e.angle, " scale ", e.scale, ": got ", h, " swapped ", r));
  }
  c.add_states(B.size()); c.add_nontrivial(hits > 0);
}
MC_MAIN()
