// P10: Distance between plain shapes.
#include "absl/strings/str_cat.h"
#include "ink/geometry/distance.h"
#include "ink/geometry/intersects.h"
#include "shapes2d.h"
namespace {
const char* kNames[] = {"point", "segment", "triangle", "rect", "quad"};
float Dist(const Concrete& a, const Concrete& b) {
  return With(a, [&](const auto& x) { return With(b, [&](const auto& y) { return ink::Distance(x, y); }); });
}
void Pair(mc::Choices& c, int ka, int kb, int g, const std::vector<Place>& places) {
  static std::map<std::pair<int, int>, std::vector<Shape>> cache;
  auto get = [&](int k) -> const std::vector<Shape>& { auto& v = cache[{k, g}]; if (v.empty()) v = AllShapes(k, g); return v; };
  const auto& A = get(ka); const auto& B = get(kb);
  const Shape& sa = A[c.pick(A.size())];
  for (Place e : places) {
    Concrete a = Make(sa, e);
    for (const Shape& sb : B) {
      Concrete b = Make(sb, e);
      double want = ShapeDist(sa, sb) / 2 * e.scale; float got = Dist(a, b), rev = Dist(b, a);
      double tol = want * 1e-6 + 1e-6 * (e.scale * 4 + std::fabs(e.off));
      bool ok = got >= 0 && rev >= 0 && std::fabs(got - want) <= tol && std::fabs(rev - want) <= tol && Near(got, rev, 1e-6, 0) && (got > 0 || want == 0);
      if (!ok) c.fail(absl::StrCat(kNames[ka], "-", kNames[kb]), absl::StrCat(Show(sa), " vs ", Show(sb), " scale ", e.scale, " offset ", e.off, ": got ", got, " swapped ", rev, " want ", want));
      c.add_nontrivial(want > 0);
    }
    c.op(2 * B.size()); c.eval(5 * B.size()); c.add_states(B.size());
  }
}
const std::vector<Place> kMany = {{1, 0}, {256, 7}, {0x1p-20f, 0}, {0x1p40f, 0}};
}  // namespace
MC_SECTION(small_kinds, "all pairs of points, segments and rects on 3x3 and 4x4 grids, in both orders, at exact embeddings") {
  static const int k[6][2] = {{0, 0}, {0, 1}, {1, 1}, {0, 3}, {1, 3}, {3, 3}};
  auto& p = k[c.pick(6)]; int g = c.flag() ? 4 : 3; Pair(c, p[0], p[1], g, g == 3 ? kMany : std::vector<Place>{{1, 0}});
}
MC_SECTION(triangles, "all pairs of a triangle on a 3x3 grid with a point, segment, rect or triangle, in both orders") {
  static const int k[4][2] = {{0, 2}, {1, 2}, {3, 2}, {2, 2}};
  auto& p = k[c.pick(4)]; Pair(c, p[0], p[1], 3, p[0] == 2 && !mc::thorough() ? std::vector<Place>{{1, 0}} : kMany);
}
MC_SECTION(quads, "all pairs of an unrotated quad with a point, segment, rect, quad or triangle, in both orders") {
  static const int k[5][2] = {{0, 4}, {1, 4}, {3, 4}, {4, 4}, {4, 2}};
  auto& p = k[c.pick(5)]; Pair(c, p[0], p[1], 3, {{1, 0}});
}
MC_MAIN()
