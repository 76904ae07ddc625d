// P34: geometry values shared between threads, under every schedule up to a preemption bound.
#include "ink/geometry/distance.h"
#include "ink/geometry/mutable_mesh.h"
#include "pmesh.h"
#include "race.h"
using PM = PartitionedMesh; using ink::MutableMesh; using ink::Point; using ink::Quad; using ink::Rect; using ink::Segment; using ink::Triangle;
namespace {
using Digest = std::vector<uint32_t>;
uint32_t FBits(float f) { uint32_t u; std::memcpy(&u, &f, 4); return u; }
const char* const kOps[] = {"InitializeSpatialIndex", "IsSpatialIndexInitialized", "Coverage", "CoverageIsGreaterThan", "VisitIntersectedTriangles", "Intersects", "copy and use", "drop", "Coverage of the other", "mesh data"};
// Performs one operation through `pm`, the calling thread's own handle; `other` is another mesh shared by all threads.
void Do(PM& pm, PM& other, int op, Digest& out) {
  switch (op) {
    case 0: pm.InitializeSpatialIndex(); out.push_back(pm.IsSpatialIndexInitialized()); break;
    case 1: { bool a = pm.IsSpatialIndexInitialized(); race::Yield(); bool b = pm.IsSpatialIndexInitialized(); out.push_back(!a || b); break; }
    case 2: out.push_back(FBits(pm.Coverage(Rect::FromTwoPoints({0.25f, 0.25f}, {1.5f, 1.5f}), AffineTransform::Translate({0.25f, 0})))); break;
    case 3: out.push_back(pm.CoverageIsGreaterThan(Triangle{{0, 0}, {4, 0}, {0, 4}}, 0.5f)); break;
    case 4: { uint32_t h = 0; pm.VisitIntersectedTriangles(Point{1, 1}, [&](PM::TriangleIndexPair i) { h = h * 31 + i.mesh_index * 7 + i.triangle_index + 1; return PM::FlowControl::kContinue; }); out.push_back(h); break; }
    case 5: out.push_back(ink::Intersects(Segment{{0, 0}, {0.5f, 3}}, pm, AffineTransform::Identity())); break;
    case 6: { PM copy = pm; race::Yield(); out.push_back(FBits(copy.Coverage(Rect::FromTwoPoints({0, 0}, {1, 1})))); break; }
    case 7: pm = PM(); out.push_back(pm.Meshes().size()); break;
    case 8: out.push_back(FBits(pm.Coverage(other, AffineTransform::Translate({0.5f, 0.5f})))); break;
    case 9: { Mesh m = pm.Meshes().empty() ? Mesh() : pm.Meshes()[0]; out.push_back(m.VertexCount()); for (uint32_t i = 0; i < m.VertexCount(); ++i) out.push_back(FBits(m.VertexPosition(i).x)); auto b = m.Bounds().AsRect(); out.push_back(b ? FBits(b->XMax()) : 0); break; }
  }
}
void Warm() { static bool done = [] { PM a = MakePm(Targets()[1]), b = MakePm(Targets()[0]); for (int o = 0; o < 10; ++o) { Digest d; Do(a, b, o, d); } PM c = MakePm(Targets()[0]); Digest d; Do(c, b, 8, d); return true; }(); (void)done; }
std::string Show(const std::vector<int>& p) { std::string s; for (int o : p) s += std::string(s.empty() ? "" : "; ") + kOps[o]; return s; }
void RunThreads(mc::Choices& c, int target, const std::vector<std::vector<int>>& prog, int bound, bool pre_init, bool two_meshes) {
  Warm(); int n = prog.size(); std::vector<Digest> want(n), got(n);
  for (int i = 0; i < n; ++i) { PM a = MakePm(Targets()[target]), b = MakePm(Targets()[target == 0 ? 1 : 0]); for (int o : prog[i]) { if (two_meshes && i == 1) Do(b, a, o, want[i]); else Do(a, b, o, want[i]); } }
  race::Report rep;
  {
    PM a = MakePm(Targets()[target]), b = MakePm(Targets()[target == 0 ? 1 : 0]); if (pre_init) { a.InitializeSpatialIndex(); b.InitializeSpatialIndex(); }
    std::vector<PM> own, oth; for (int i = 0; i < n; ++i) { own.push_back(two_meshes && i == 1 ? b : a); oth.push_back(two_meshes && i == 1 ? a : b); }
    if (c.flag()) { a = PM(); b = PM(); }
    std::vector<std::function<void()>> bodies; for (int i = 0; i < n; ++i) bodies.push_back([&, i] { for (int o : prog[i]) Do(own[i], oth[i], o, got[i]); oth[i] = PM(); });
    rep = race::Run(c, bodies, bound);
  }
  std::string what; for (auto& p : prog) what += " [" + Show(p) + "]";
  MC_EXPECT(c, rep.races.empty(), "race", rep.races[0] << " in" << what);
  for (int i = 0; i < n; ++i) MC_EXPECT(c, got[i] == want[i], "result", "thread " << i << " of" << what << " on " << Targets()[target].name << " differs from a sequential run");
  uint64_t h = target; for (auto& p : prog) for (int o : p) { h = mc::Hash(h, o); c.op(1); } c.outcome(h); c.add_states(rep.points); c.add_nontrivial(rep.switches > size_t(n));
}
}  // namespace
MC_SECTION(one_mesh, "2 threads with one operation each (thorough: also two each, on one target) out of 10 on their own copies of one PartitionedMesh (lazy spatial index, cached area, queries, coverage by another shared mesh, copy, drop, mesh data), 3 targets, index built before or not, creator's copies kept or dropped, every schedule with up to 3 preemptions (2 for two operations each): no race, no deadlock, results equal a sequential run") {
  int target = c.pick(3), len = mc::thorough() && target == 0 && c.flag() ? 2 : 1; std::vector<std::vector<int>> prog(2); for (auto& p : prog) for (int i = 0; i < len; ++i) p.push_back(c.pick(10));
  RunThreads(c, target, prog, len == 2 ? 2 : 3, c.flag(), false);
}
MC_SECTION(two_meshes, "as above with each thread using its own mesh and the other's as a query, so that both caches are filled in opposite orders") {
  std::vector<std::vector<int>> prog(2); for (auto& p : prog) { p.push_back(c.of({0, 2, 8, 5})); p.push_back(8); }
  RunThreads(c, c.pick(2), prog, mc::tier(2, 4), c.flag(), true);
}
MC_SECTION(three_threads, "3 threads, one operation each, up to 1 (thorough: 2) preemptions, on an uninitialised mesh") {
  std::vector<std::vector<int>> prog(3); for (auto& p : prog) p.push_back(c.pick(10));
  if (prog[0][0] > prog[1][0] || prog[1][0] > prog[2][0]) c.assume(false);
  RunThreads(c, c.pick(2), prog, mc::tier(1, 2), false, false);
}
MC_SECTION(values, "2 threads calling const operations on the same Quad, MutableMesh, Mesh, Rect, Triangle and transform (corners, semi-axes, containment, edges, intersection, distance, AsMeshes, ...): no race, equal results") {
  static const auto fmt = ink::MeshFormat(); (void)fmt;
  auto make_quad = [&](int k) { return k == 0 ? Quad::FromCenterDimensionsRotationAndShear({1, 2}, 3, 2, ink::Angle::Degrees(30), 0.5f) : Quad::FromRect(Rect::FromTwoPoints({0, 0}, {2, 1})); };
  auto make_mesh = [] { MutableMesh m; for (int i = 0; i < 4; ++i) m.AppendVertex({float(i % 2), float(i / 2)}); m.AppendTriangleIndices({0, 1, 3}); m.AppendTriangleIndices({0, 3, 2}); return m; };
  auto op = [](int o, const Quad& q, const MutableMesh& mm, const Mesh& m, const AffineTransform& t) {
    Digest d; auto pt = [&](Point p) { d.push_back(FBits(p.x)); d.push_back(FBits(p.y)); };
    switch (o) {
      case 0: for (Point p : q.Corners()) pt(p); break; case 1: { auto [a, b] = q.SemiAxes(); d.push_back(FBits(a.x)); d.push_back(FBits(b.y)); break; } case 2: d.push_back(q.Contains({1, 1})); break;
      case 3: for (int i = 0; i < 4; ++i) pt(q.GetEdge(i).end); break; case 4: d.push_back(ink::Intersects(Segment{{0, 0}, {2, 2}}, q)); d.push_back(FBits(ink::Distance(Point{5, 5}, q))); break;
      case 5: { auto r = mm.AsMeshes(); d.push_back(r.ok() ? r->size() : 99); for (int i = 0; i < 4; ++i) pt((*r)[0].VertexPosition(i)); break; } case 6: { d.push_back(mm.ValidateTriangles().ok()); pt(mm.VertexPosition(3)); break; }
      case 7: { Mesh c2 = m; pt(c2.VertexPosition(1)); d.push_back(c2.TriangleCount()); break; } case 8: { Quad k = t.Apply(q); pt(k.Center()); d.push_back(FBits(k.Width())); auto inv = t.Inverse(); d.push_back(inv ? FBits(inv->A()) : 0); break; } case 9: { Quad k = q; k.SetWidth(k.Width() + 1); for (Point p : k.Corners()) pt(p); break; }
    }
    return d;
  };
  int which = c.pick(2), o[2] = {int(c.pick(10)), int(c.pick(10))}; AffineTransform t(1, 0.5f, 2, 0, 2, 3);
  Digest want[2], got[2]; { Mesh m = *make_mesh().AsMeshes()->begin(); for (int i = 0; i < 2; ++i) { Quad q = make_quad(which); MutableMesh mm = make_mesh(); want[i] = op(o[i], q, mm, m, t); } }
  const Quad q = make_quad(which); const MutableMesh mm = make_mesh(); const Mesh m = *make_mesh().AsMeshes()->begin();
  auto rep = race::Run(c, {[&] { got[0] = op(o[0], q, mm, m, t); }, [&] { race::Yield(); got[1] = op(o[1], q, mm, m, t); }}, 3);
  MC_EXPECT(c, rep.races.empty(), "value-race", rep.races[0]); for (int i = 0; i < 2; ++i) MC_EXPECT(c, got[i] == want[i], "value-result", o[i]);
  c.op(2); c.add_states(rep.points + 1); c.outcome(mc::Hash(which, o[0], o[1]));
}
MC_MAIN()
