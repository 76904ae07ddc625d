// P25: spatial queries on a PartitionedMesh equal brute force.
#include "pmesh.h"
using PM = PartitionedMesh; using ink::Point; using ink::Rect; using ink::Triangle; using ink::Quad; using ink::Segment;
namespace {
const std::vector<PM>& Pms() { static const std::vector<PM> v = [] { std::vector<PM> r; for (auto& t : Targets()) r.push_back(MakePm(t)); return r; }(); return v; }
std::vector<Shape> Queries(int kind, int g, IP off) { auto v = AllShapes(kind, g); for (auto& s : v) s = Shift(s, off.x, off.y); return v; }
// The query's image, as the API's types, needs no care: the API transforms it. Point of comparison: integer image.
struct Hits { std::map<std::pair<int, int>, int> n; int calls = 0; double area = 0; };
template <typename Q> Hits Visit(const PM& pm, const Q& q, const AffineTransform& t) {
  Hits h; pm.VisitIntersectedTriangles(q, [&](PM::TriangleIndexPair i) { ++h.calls; ++h.n[{i.mesh_index, i.triangle_index}]; return PM::FlowControl::kContinue; }, t); return h;
}
std::string Name(const Target& t, const Xf& x, const std::string& q) { return std::string(t.name) + ", query " + q + " under " + x.name; }
// Compares one visit with the oracle `judge(mesh, triangle)` and checks early break.
template <typename Q, typename J> void CheckVisit(mc::Choices& c, const Target& t, const PM& pm, const Q& q, const Xf& x, J judge, const std::string& what) {
  Hits h = Visit(pm, q, x.Get());
  int expect = 0;
  for (size_t m = 0; m < t.meshes.size(); ++m) for (size_t i = 0; i < t.meshes[m].size(); ++i) {
    int want = judge(t.meshes[m][i]); auto it = h.n.find({int(m), int(i)}); int got = it == h.n.end() ? 0 : it->second;
    if (got > 1) c.fail("twice", Name(t, x, what) + ": a triangle is visited twice");
    if ((want == 1 && !got) || (want == -1 && got)) c.fail("visit", Name(t, x, what) + ": triangle " + std::to_string(i) + " of mesh " + std::to_string(m) + (got ? " visited wrongly" : " missed"));
    expect += got;
  }
  if (expect != h.calls) c.fail("visit", Name(t, x, what) + ": visited a triangle that does not exist");
  if (h.calls > 1) { int n = 0; pm.VisitIntersectedTriangles(q, [&](PM::TriangleIndexPair) { ++n; return n == 2 ? PM::FlowControl::kBreak : PM::FlowControl::kContinue; }, x.Get()); if (n != 2) c.fail("break", Name(t, x, what) + ": kBreak did not stop the visit"); }
  c.op(2); c.eval(t.meshes[0].size()); c.add_states(1); c.add_nontrivial(h.calls > 0); c.outcome(h.calls);
}
template <typename Q> void CheckCoverage(mc::Choices& c, const Target& t, const PM& pm, const Q& q, const Xf& x, const std::string& what) {
  Hits h = Visit(pm, q, x.Get()); double area = 0, total = 0;
  for (size_t m = 0; m < t.meshes.size(); ++m) for (size_t i = 0; i < t.meshes[m].size(); ++i) {
    auto& p = t.meshes[m][i]; double a = std::abs(double((p[1].x - p[0].x) * (p[2].y - p[0].y) - (p[1].y - p[0].y) * (p[2].x - p[0].x))) / 2;
    total += a; if (h.n.count({int(m), int(i)})) area += a;
  }
  float cov = pm.Coverage(q, x.Get());
  if (!(std::abs(cov - area / total) < 1e-5)) c.fail("coverage", Name(t, x, what) + ": coverage " + std::to_string(cov) + " want " + std::to_string(area / total));
  for (float th : {-0.5f, 0.f, 0.2f, 0.45f, 0.8f, 1.f, 2.f, cov * 0.99f, cov * 1.01f + 0.001f}) {
    if (th != 0 && std::abs(area / total - th) < 1e-5) continue;
    if (pm.CoverageIsGreaterThan(q, th, x.Get()) != (area / total > th)) c.fail("greater", Name(t, x, what) + ": CoverageIsGreaterThan(" + std::to_string(th) + ") with coverage " + std::to_string(cov));
  }
  c.op(10); c.eval(10);
}
int Grid(int kind) { static const int q[] = {5, 4, 2, 3, 2}, d[] = {8, 4, 3, 4, 3}; return mc::thorough() ? d[kind] : q[kind]; }
}
MC_SECTION(visit, "every point, segment, triangle, rect and quad on a grid (with two offsets) against 4 targets of 1 to 48 triangles under 14 transforms incl. five collapsing ones: exactly the triangles intersecting the transformed query are visited, once each; stopping stops; coverage is the visited share of the area") {
  size_t ti = c.pick(Targets().size()); auto& t = Targets()[ti]; auto& pm = Pms()[ti]; auto& x = c.of(Transforms());
  int kind = c.pick(5); IP off = c.flag() ? IP{0, 0} : IP{3, 1};
  for (auto& s : Queries(kind, Grid(kind), off)) {
    Shape img = Apply(x, s); Concrete q = Make(s, {1, 0});
    bool exact = kind < 3 && x.exact;
    if (kind >= 3 && x.a == 1 && x.b == 0 && x.d == 0 && x.e == 1 && kind == 3) exact = true;  // translated rects
    auto judge = [&](const std::array<IP, 3>& tri) { Shape b = Tri(tri); for (int i = 0; i < 3; ++i) { b.p[i].x *= kU; b.p[i].y *= kU; } return Judge(img, b, exact); };
    With(q, [&](const auto& o) { CheckVisit(c, t, pm, o, x, judge, Show(s)); return 0; });
    if (kind == 2) CheckCoverage(c, t, pm, q.tri, x, Show(s));
    if (kind == 3) CheckCoverage(c, t, pm, q.rect, x, Show(s));
    if (kind == 4) CheckCoverage(c, t, pm, q.quad, x, Show(s));
  }
}
MC_SECTION(mesh_query, "every target queried with every target and with 12 small triangle pairs under 14 transforms: exactly the triangles that intersect some transformed triangle of the query") {
  size_t ti = c.pick(Targets().size()), qi = c.pick(Targets().size() + 12); auto& t = Targets()[ti]; auto& pm = Pms()[ti]; auto& x = c.of(Transforms());
  Target small{"pair", {{{IP{int(qi) % 3, 0}, IP{int(qi) % 4, 2}, IP{1, int(qi) / 4}}, {IP{3, 1}, IP{int(qi) / 3, 3}, IP{2, 1}}}}, {1}};
  const Target& qt = qi < Targets().size() ? Targets()[qi] : small; PM q = qi < Targets().size() ? Pms()[qi] : MakePm(small);
  std::vector<Shape> imgs; for (auto& m : qt.meshes) for (auto& tri : m) imgs.push_back(Apply(x, Tri(tri)));
  bool exact = x.exact && (x.a == 1 || x.a == 2 || x.a == -1) && x.b == 0;
  if (!x.invertible()) {  // the query becomes one segment: the hull of all images, which lie on a line
    Shape seg{1, 2, {}}; double best = -1; std::vector<IP> pts; for (auto& s : imgs) for (int i = 0; i < 3; ++i) pts.push_back(s.p[i]);
    for (auto a : pts) for (auto b : pts) { double d = std::hypot(a.x - b.x, a.y - b.y); if (d > best) { best = d; seg.p[0] = a; seg.p[1] = b; } }
    imgs = {seg};
  }
  auto judge = [&](const std::array<IP, 3>& tri) { Shape b = Tri(tri); for (int i = 0; i < 3; ++i) { b.p[i].x *= kU; b.p[i].y *= kU; } int best = -1; for (auto& s : imgs) best = std::max(best, Judge(s, b, exact)); return best; };
  CheckVisit(c, t, pm, q, x, judge, std::string("mesh ") + qt.name + std::to_string(qi));
  CheckCoverage(c, t, pm, q, x, std::string("mesh ") + qt.name);
}
MC_SECTION(intersects, "Intersects(mesh, transform, shape), in both argument orders, for every shape of a grid, and Intersects(mesh, transform, mesh, transform) for all pairs of targets and all pairs of 14 transforms: true exactly if some transformed triangle (or the collapsed segment) meets the other object") {
  size_t ti = c.pick(Targets().size()); auto& t = Targets()[ti]; auto& pm = Pms()[ti]; auto& x = c.of(Transforms());
  auto images = [](const Target& t, const Xf& x) {
    std::vector<Shape> r; for (auto& m : t.meshes) for (auto& tri : m) r.push_back(Apply(x, Tri(tri)));
    if (!x.invertible()) { Shape seg{1, 2, {}}; double best = -1; std::vector<IP> pts; for (auto& s : r) for (int i = 0; i < 3; ++i) pts.push_back(s.p[i]); for (auto a : pts) for (auto b : pts) { double d = std::hypot(a.x - b.x, a.y - b.y); if (d > best) { best = d; seg.p[0] = a; seg.p[1] = b; } } r = {seg}; }
    return r;
  };
  auto imgs = images(t, x);
  if (c.flag()) {
    int kind = c.pick(5); IP off = c.flag() ? IP{0, 0} : IP{3, 1};
    for (auto& s : Queries(kind, Grid(kind), off)) {
      Concrete q = Make(s, {1, 0}); Shape b = s; for (int i = 0; i < b.n; ++i) { b.p[i].x *= kU; b.p[i].y *= kU; }
      int want = -1; for (auto& im : imgs) want = std::max(want, Judge(im, b, false));
      bool got = With(q, [&](const auto& o) { return ink::Intersects(pm, x.Get(), o); }), rev = With(q, [&](const auto& o) { return ink::Intersects(o, pm, x.Get()); });
      if (got != rev || (want == 1 && !got) || (want == -1 && got)) c.fail("intersects", Name(t, x, Show(s)) + ": Intersects is " + std::to_string(got) + "/" + std::to_string(rev));
      c.op(2); c.eval(2); c.add_states(1); c.add_nontrivial(want == 1);
    }
  } else {
    size_t qi = c.pick(Targets().size()); auto& y = c.of(Transforms());
    auto other = images(Targets()[qi], y); int want = -1; for (auto& a : imgs) for (auto& b : other) { want = std::max(want, Judge(a, b, false)); if (want == 1) break; }
    bool got = ink::Intersects(pm, x.Get(), Pms()[qi], y.Get()), rev = ink::Intersects(Pms()[qi], y.Get(), pm, x.Get());
    // Both answers are only comparable when the oracle is decisive.
    if ((want == 1 && !(got && rev)) || (want == -1 && (got || rev))) c.fail("intersects", Name(t, x, Targets()[qi].name) + " (other under " + y.name + "): Intersects is " + std::to_string(got) + "/" + std::to_string(rev) + " want " + std::to_string(want));
    c.op(2); c.eval(2); c.state(mc::Hash(ti, qi, x.name[0], y.name[0])); c.outcome(want);
  }
}
MC_SECTION(tree_sizes, "rows and grids of 1 to 300 (thorough 1100) triangles in 1 to 3 meshes: the index holds each triangle once and every unit window finds its triangles") {
  int n = 1 + c.pick(mc::tier(300, 1100)), k = 1 + c.pick(3), wide = c.of({1, 7, 1000}); c.assume(n >= k && (n < 40 || k == 1 + n % 3));
  Target t{"grid", std::vector<std::vector<std::array<IP, 3>>>(k), {k}};
  std::vector<IP> at; for (int i = 0; i < n; ++i) { IP p{2 * ((i * 7) % n % wide), 2 * ((i * 7) % n / wide)}; if (n % 7 == 0) p = {2 * (i % wide), 2 * (i / wide)}; at.push_back(p); t.meshes[i * k / n].push_back({p, IP{p.x + 1, p.y}, IP{p.x, p.y + 1}}); }
  PM pm = MakePm(t); Hits all = Visit(pm, Rect::FromTwoPoints({-1, -1}, {5000, 5000}), {});
  MC_EXPECT(c, all.calls == n && int(all.n.size()) == n, "all", n << " triangles in " << k << " meshes: visited " << all.calls);
  for (int i = 0; i < n; i += 1 + n / 60) { Hits h = Visit(pm, Rect::FromTwoPoints({at[i].x - 0.5f, at[i].y - 0.5f}, {at[i].x + 0.5f, at[i].y + 0.5f}), {}); MC_EXPECT(c, h.calls == 1, "window", n << " triangles: window " << i << " finds " << h.calls); }
  c.op(1 + n / (1 + n / 60)); c.state(mc::Hash(n, k, wide));
}
MC_SECTION(many_triangles, "one mesh of 65535, 65536, 65537 and 128000 triangles, alone or before or between others: every triangle is visited once") {
  int n = c.of({65535, 65536, 65537, 128000}), place = c.pick(3);
  std::vector<float> x, y; std::vector<uint32_t> idx; int cols = 400;
  for (int i = 0; i <= (n + 1) / 2 / cols + 1 - ((n + 1) / 2 % cols == 0); ++i) for (int j = 0; j <= cols; ++j) { x.push_back(j); y.push_back(i); }
  for (int i = 0; i < n; ++i) { uint32_t q = i / 2, v = q / cols * (cols + 1) + q % cols; if (i % 2) idx.insert(idx.end(), {v, v + cols + 2, v + cols + 1}); else idx.insert(idx.end(), {v, v + 1, v + cols + 2}); }
  std::vector<absl::Span<const float>> sp{x, y}; Mesh big = *Mesh::Create(*MeshFormat::Create({{AT::kFloat2Unpacked, AI::kPosition}}, IF::k16BitUnpacked16BitPacked), sp, idx);
  Mesh tiny = MakeMesh({{IP{-5, -5}, IP{-4, -5}, IP{-5, -4}}, {IP{-9, -9}, IP{-8, -9}, IP{-9, -8}}});
  std::vector<Mesh> ms = place == 0 ? std::vector<Mesh>{big} : place == 1 ? std::vector<Mesh>{big, tiny} : std::vector<Mesh>{tiny, big, tiny};
  PM pm = *PM::FromMeshes(ms); Hits h = Visit(pm, Rect::FromTwoPoints({-99, -99}, {9999, 9999}), {});
  int total = 0; for (auto& m : ms) total += m.TriangleCount();
  MC_EXPECT(c, h.calls == total && int(h.n.size()) == total, "all", n << " triangles place " << place << ": " << h.calls << " visits of " << h.n.size() << " distinct, want " << total);
  float cov = pm.Coverage(Rect::FromTwoPoints({-99, -99}, {9999, 9999})); MC_EXPECT(c, std::abs(cov - 1) < 1e-3, "coverage", cov);
  c.op(2); c.state(mc::Hash(n, place)); c.add_states(total);
}
MC_SECTION(empty, "empty meshes of every kind (default, no meshes, empty groups) as target and as query: nothing is visited, coverage 0 and never greater than a threshold >= 0, no intersection, initialising is a no-op") {
  int k = c.pick(4); PM e = k == 0 ? PM() : k == 1 ? *PM::FromMeshes({}) : k == 2 ? PM::WithEmptyGroups(3) : *PM::FromMutableMesh(ink::MutableMesh());
  auto& x = c.of(Transforms()); const PM& full = Pms()[c.pick(Pms().size())]; float th = c.of({0.f, 0.5f, 1.f, -1.f});
  Rect r = Rect::FromTwoPoints({-9, -9}, {9, 9}); Triangle tri{{-9, -9}, {9, -9}, {0, 9}}; Quad q = Quad::FromRect(r);
  int n = 0; auto count = [&](PM::TriangleIndexPair) { ++n; return PM::FlowControl::kContinue; };
  e.InitializeSpatialIndex(); MC_EXPECT(c, !e.IsSpatialIndexInitialized(), "noop", "kind " << k);
  e.VisitIntersectedTriangles(Point{0, 0}, count, x.Get()); e.VisitIntersectedTriangles(Segment{{0, 0}, {1, 1}}, count, x.Get()); e.VisitIntersectedTriangles(tri, count, x.Get()); e.VisitIntersectedTriangles(r, count, x.Get()); e.VisitIntersectedTriangles(q, count, x.Get()); e.VisitIntersectedTriangles(full, count, x.Get()); full.VisitIntersectedTriangles(e, count, x.Get()); e.VisitIntersectedTriangles(e, count, x.Get());
  MC_EXPECT(c, n == 0, "visit", "kind " << k << ": " << n << " triangles");
  MC_EXPECT(c, e.Coverage(tri, x.Get()) == 0 && e.Coverage(r, x.Get()) == 0 && e.Coverage(q, x.Get()) == 0 && e.Coverage(full, x.Get()) == 0 && full.Coverage(e, x.Get()) == 0, "coverage", "kind " << k);
  MC_EXPECT(c, !e.CoverageIsGreaterThan(tri, th, x.Get()) && !e.CoverageIsGreaterThan(r, th, x.Get()) && !e.CoverageIsGreaterThan(q, th, x.Get()) && !e.CoverageIsGreaterThan(full, th, x.Get()), "greater", "kind " << k << " threshold " << th);
  MC_EXPECT(c, full.CoverageIsGreaterThan(e, th, x.Get()) == (0 > th), "greater", "empty query, threshold " << th);
  MC_EXPECT(c, !ink::Intersects(e, x.Get(), Point{0, 0}) && !ink::Intersects(e, x.Get(), tri) && !ink::Intersects(e, x.Get(), r) && !ink::Intersects(e, x.Get(), full, {}) && !ink::Intersects(full, {}, e, x.Get()) && !ink::Intersects(e, {}, e, x.Get()), "intersects", "kind " << k);
  c.op(20); c.state(mc::Hash(k, x.name[0], th));
}
MC_MAIN()
