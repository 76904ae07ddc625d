// P24: building a PartitionedMesh.
#include "pmesh.h"
using PM = PartitionedMesh; using ink::MutableMesh; using ink::Point;
namespace {
using VIP = PM::VertexIndexPair;
const std::vector<Mesh>& Palette() {
  static const std::vector<Mesh> v = {MakeMesh({{IP{0, 0}, IP{1, 0}, IP{0, 1}}}, 0), MakeMesh({{IP{5, 5}, IP{6, 5}, IP{5, 6}}, {IP{-1, 0}, IP{1, 0}, IP{0, 1}}}, 0), MakeMesh({{IP{2, 0}, IP{3, 0}, IP{2, 1}}}, 1), Mesh()};
  return v;
}
bool SameMesh(const Mesh& a, const Mesh& b) { return a.RawVertexData().data() == b.RawVertexData().data() && a.VertexCount() == b.VertexCount() && a.TriangleCount() == b.TriangleCount(); }
bool operator==(VIP a, VIP b) { return a.mesh_index == b.mesh_index && a.vertex_index == b.vertex_index; }
}
MC_SECTION(mesh_groups, "0 to 2 (thorough 3) groups, each of 0 to 2 meshes out of 4 (two formats, one empty mesh) and 0 to 2 outlines out of 6 (valid, empty, bad mesh, bad vertex): error exactly for a documented reason; otherwise groups, formats, meshes, outlines, positions, bounds are as given and accessors out of range CHECK-fail") {
  int ng = c.pick(mc::tier(3, 4));
  std::vector<std::vector<Mesh>> gm(ng); std::vector<std::vector<std::vector<VIP>>> go(ng); std::vector<std::vector<absl::Span<const VIP>>> spans(ng); std::vector<PM::MeshGroup> groups;
  bool ok = true; uint64_t h = ng;
  for (int g = 0; g < ng; ++g) {
    int nm = c.pick(3);
    for (int i = 0; i < nm; ++i) { int k = c.pick(4); h = mc::Hash(h, k); gm[g].push_back(Palette()[k]); ok &= k != 3 && gm[g][i].Format() == gm[g][0].Format(); }
    int no = c.pick(mc::tier(2, g == 0 ? 3 : 2));
    for (int o = 0; o < no; ++o) {
      std::vector<VIP> out;
      switch (c.pick(6)) {
        case 0: out = {{0, 0}, {0, 2}, {0, 1}}; break;
        case 1: out = {{1, 1}, {0, 2}, {1, 0}, {1, 1}}; break;
        case 2: break;
        case 3: out = {{0, 1}, {2, 0}}; break;
        case 4: out = {{0, 6}}; break;
        case 5: out = {{0, 5}, {0, 3}}; break;
      }
      h = mc::Hash(h, out.size(), o);
      ok &= !out.empty(); for (auto v : out) ok = ok && v.mesh_index < gm[g].size() && v.vertex_index < gm[g][v.mesh_index].VertexCount();
      go[g].push_back(out);
    }
  }
  for (int g = 0; g < ng; ++g) { for (auto& o : go[g]) spans[g].push_back(o); groups.push_back({.meshes = gm[g], .outlines = spans[g]}); }
  auto pm = PM::FromMeshGroups(groups);
  MC_EXPECT(c, pm.ok() == ok, "validity", ng << " groups: " << (pm.ok() ? "accepted" : "rejected ") << pm.status());
  if (ng == 1) { auto one = PM::FromMeshes(gm[0], spans[0]); MC_EXPECT(c, one.ok() == ok, "from_meshes", "FromMeshes disagrees with FromMeshGroups"); }
  c.op(); c.state(h); c.outcome(ok); c.add_nontrivial(ok);
  if (!ok) return;
  MC_EXPECT(c, pm->RenderGroupCount() == uint32_t(ng), "groups", "group count");
  size_t at = 0; ink::Envelope env;
  for (int g = 0; g < ng; ++g) {
    auto m = pm->RenderGroupMeshes(g);
    MC_EXPECT(c, m.size() == gm[g].size(), "meshes", "group " << g << " has " << m.size() << " meshes");
    for (size_t i = 0; i < m.size(); ++i, ++at) { MC_EXPECT(c, SameMesh(m[i], gm[g][i]) && SameMesh(pm->Meshes()[at], m[i]), "meshes", "mesh " << i << " of group " << g); env.Add(m[i].Bounds()); }
    MC_EXPECT(c, pm->RenderGroupFormat(g) == (m.empty() ? MeshFormat() : gm[g][0].Format()), "format", "format of group " << g);
    MC_EXPECT(c, pm->OutlineCount(g) == go[g].size(), "outlines", "outline count of group " << g);
    for (size_t o = 0; o < go[g].size(); ++o) {
      auto out = pm->Outline(g, o);
      MC_EXPECT(c, out.size() == go[g][o].size() && pm->OutlineVertexCount(g, o) == out.size(), "outlines", "size");
      for (size_t i = 0; i < out.size(); ++i) MC_EXPECT(c, out[i] == go[g][o][i] && pm->OutlinePosition(g, o, i) == gm[g][out[i].mesh_index].VertexPosition(out[i].vertex_index), "outlines", "vertex " << i << " of outline " << o << " of group " << g);
      MC_EXPECT(c, mc::DiesOnCheck([&] { pm->OutlinePosition(g, o, out.size()); }), "check", "OutlinePosition");
    }
    MC_EXPECT(c, mc::DiesOnCheck([&] { pm->Outline(g, go[g].size()); }) && mc::DiesOnCheck([&] { pm->OutlineVertexCount(g, go[g].size()); }), "check", "Outline");
  }
  MC_EXPECT(c, pm->Meshes().size() == at, "meshes", "total");
  MC_EXPECT(c, mc::DiesOnCheck([&] { pm->RenderGroupMeshes(ng); }) && mc::DiesOnCheck([&] { pm->RenderGroupFormat(ng); }) && mc::DiesOnCheck([&] { pm->OutlineCount(ng); }) && mc::DiesOnCheck([&] { pm->Outline(ng, 0); }), "check", "group index out of range is accepted");
  auto a = env.AsRect(), b = pm->Bounds().AsRect();
  MC_EXPECT(c, a.has_value() == b.has_value() && (!a || (a->XMin() == b->XMin() && a->XMax() == b->XMax() && a->YMin() == b->YMin() && a->YMax() == b->YMax())), "bounds", "bounds are not the join of the meshes' bounds");
}
MC_SECTION(empty_groups, "default, FromMeshes({}), FromMutableMesh(empty) and WithEmptyGroups(0..40): group count, default formats, no meshes, empty bounds") {
  int n = c.pick(44);
  PM p = n == 43 ? PM() : n == 42 ? *PM::FromMeshes({}) : n == 41 ? *PM::FromMutableMesh(MutableMesh()) : PM::WithEmptyGroups(n);
  uint32_t want = n == 43 ? 0 : n >= 41 ? 1 : n;
  MC_EXPECT(c, p.RenderGroupCount() == want && p.Meshes().empty() && p.Bounds().IsEmpty() && !p.IsSpatialIndexInitialized(), "empty", "n " << n);
  for (uint32_t g = 0; g < want; ++g) MC_EXPECT(c, p.RenderGroupMeshes(g).empty() && p.OutlineCount(g) == 0 && p.RenderGroupFormat(g) == MeshFormat(), "empty", "group " << g);
  MC_EXPECT(c, mc::DiesOnCheck([&] { p.RenderGroupMeshes(want); }), "check", "group index");
  c.state(n);
}
MC_SECTION(mutable_groups, "1 or 2 mutable groups out of 5 (empty, strip, with unused vertices, invalid triangle, non-finite) with omissions and up to 2 outlines out of 6: error exactly for a documented reason; outlines keep order and positions, empty outlines are dropped, meshes equal AsMeshes") {
  int ng = 1 + c.pick(2); bool ok = true; uint64_t h = 0;
  std::vector<MutableMesh> mm; std::vector<std::vector<std::vector<uint32_t>>> go(ng); std::vector<std::vector<absl::Span<const uint32_t>>> spans(ng); std::vector<std::vector<AI>> omit(ng); std::vector<int> kinds;
  for (int g = 0; g < ng; ++g) {
    bool extra = c.flag(); MutableMesh m(extra ? *MeshFormat::Create({{AT::kFloat1Unpacked, AI::kOpacityShift}, {AT::kFloat2PackedIn1Float, AI::kPosition}}, IF::k32BitUnpacked16BitPacked) : *MeshFormat::Create({{AT::kFloat2Unpacked, AI::kPosition}}, IF::k16BitUnpacked16BitPacked));
    int kind = c.pick(5); kinds.push_back(kind);
    if (kind) for (int i = 0; i < 6; ++i) m.AppendVertex({float(i / 2), float(i % 2)});
    if (kind == 1) for (uint32_t i = 0; i < 4; ++i) m.AppendTriangleIndices(i % 2 ? std::array<uint32_t, 3>{i, i + 1, i + 2} : std::array<uint32_t, 3>{i, i + 2, i + 1});
    if (kind >= 2) { m.AppendTriangleIndices({2, 4, 3}); }
    if (kind == 3) { m.AppendTriangleIndices({2, 4, 6}); ok = false; }
    if (kind == 4) { m.SetVertexPosition(4, {1, kNan}); ok = false; }
    int om = c.pick(3); if (om == 1) omit[g] = {AI::kOpacityShift}; if (om == 2) omit[g] = {AI::kPosition};
    if (kind != 0) ok = ok && (om == 0 || (om == 1 && extra));
    int no = c.pick(3);
    for (int o = 0; o < no; ++o) {
      std::vector<uint32_t> out;
      switch (c.pick(5)) { case 0: out = {2, 3, 4}; break; case 1: out = {4, 2, 2, 4, 3}; break; case 2: break; case 3: out = {3, 6}; break; case 4: out = {0xFFFFFFFFu}; break; }
      for (auto v : out) ok = ok && v < m.VertexCount();
      h = mc::Hash(h, out.size()); go[g].push_back(out);
    }
    h = mc::Hash(h, kind, extra, om); mm.push_back(std::move(m));
  }
  std::vector<PM::MutableMeshGroup> groups;
  for (int g = 0; g < ng; ++g) { for (auto& o : go[g]) spans[g].push_back(o); groups.push_back({.mesh = &mm[g], .outlines = spans[g], .omit_attributes = omit[g]}); }
  auto pm = PM::FromMutableMeshGroups(groups);
  MC_EXPECT(c, pm.ok() == ok, "validity", (pm.ok() ? "accepted" : "rejected: ") << pm.status());
  if (ng == 1) MC_EXPECT(c, PM::FromMutableMesh(mm[0], spans[0], omit[0]).ok() == ok, "validity", "FromMutableMesh disagrees");
  c.op(); c.state(h); c.outcome(ok); c.add_nontrivial(ok);
  if (!ok) return;
  for (int g = 0; g < ng; ++g) {
    auto want = *mm[g].AsMeshes({}, omit[g]); auto got = pm->RenderGroupMeshes(g);
    MC_EXPECT(c, got.size() == want.size(), "meshes", "count");
    for (size_t i = 0; i < got.size(); ++i) MC_EXPECT(c, got[i].RawVertexData() == want[i].RawVertexData() && got[i].RawIndexData() == want[i].RawIndexData() && got[i].Format() == want[i].Format(), "meshes", "contents of group " << g);
    std::vector<std::vector<uint32_t>> outs; for (auto& o : go[g]) if (!o.empty()) outs.push_back(o);
    MC_EXPECT(c, pm->OutlineCount(g) == outs.size(), "outlines", "count");
    for (size_t o = 0; o < outs.size(); ++o) {
      MC_EXPECT(c, pm->OutlineVertexCount(g, o) == outs[o].size(), "outlines", "length");
      for (size_t i = 0; i < outs[o].size(); ++i) { Point a = pm->OutlinePosition(g, o, i), b = mm[g].VertexPosition(outs[o][i]); MC_EXPECT(c, std::abs(a.x - b.x) < 1e-3 && std::abs(a.y - b.y) < 1e-3, "outlines", "outline vertex " << i << " is at the wrong vertex"); }
    }
  }
}
MC_SECTION(big, "a mutable mesh of 70000 vertices in three triangle orders with an outline along every vertex: each outline vertex is at its source vertex, first partition first") {
  int order = c.pick(3), n = 70000; MutableMesh m(*MeshFormat::Create({{AT::kFloat2Unpacked, AI::kPosition}}, IF::k32BitUnpacked16BitPacked));
  for (int i = 0; i < n; ++i) m.AppendVertex({float(i / 2), float(i % 2)});
  for (uint32_t i = 0; i + 2 < uint32_t(n); ++i) { uint32_t j = order == 0 ? i : order == 1 ? n - 3 - i : (i % 2 ? n - 3 - i / 2 : i / 2); m.AppendTriangleIndices(j % 2 ? std::array<uint32_t, 3>{j, j + 1, j + 2} : std::array<uint32_t, 3>{j, j + 2, j + 1}); }
  std::vector<uint32_t> out(n); for (int i = 0; i < n; ++i) out[i] = (i * 7919LL) % n;
  absl::Span<const uint32_t> sp = out; auto pm = PM::FromMutableMesh(m, absl::MakeConstSpan(&sp, 1));
  MC_EXPECT(c, pm.ok() && pm->RenderGroupCount() == 1 && pm->Meshes().size() >= 2 && pm->OutlineCount(0) == 1 && pm->OutlineVertexCount(0, 0) == uint32_t(n), "big", pm.status());
  for (int i = 0; i < n; ++i) if (pm->OutlinePosition(0, 0, i) != m.VertexPosition(out[i])) c.fail("big", "outline vertex " + std::to_string(i) + " order " + std::to_string(order));
  c.state(order); c.op(); c.add_states(n);
}
MC_SECTION(limits, "65535 meshes in one group or spread over three are accepted and indexed by group; 65537 are rejected") {
  int n = c.of({65535, 65537, 70000}); bool split = c.flag();
  std::vector<Mesh> m(n, Palette()[0]); m.back() = Palette()[1]; auto sp = absl::MakeConstSpan(m);
  std::vector<PM::MeshGroup> g; VIP last{uint16_t((split ? n - 40000 : n) - 1), 5}; absl::Span<const VIP> o(&last, 1); std::vector<absl::Span<const VIP>> outs{o};
  if (split) { g = {{.meshes = sp.subspan(0, 10)}, {.meshes = sp.subspan(10, 39990)}, {.meshes = sp.subspan(40000), .outlines = outs}}; } else g = {{.meshes = sp, .outlines = outs}};
  if (n > 65535) { g.back().outlines = {}; }
  auto pm = PM::FromMeshGroups(g); MC_EXPECT(c, pm.ok() == (n <= 65535), "limit", n << (pm.ok() ? " accepted" : " rejected"));
  if (pm.ok()) { int k = split ? 2 : 0; auto r = pm->RenderGroupMeshes(k); MC_EXPECT(c, r.size() == size_t(split ? n - 40000 : n) && SameMesh(r.back(), m.back()) && pm->OutlinePosition(k, 0, 0) == m.back().VertexPosition(5), "limit", "last mesh"); }
  c.op(); c.state(mc::Hash(n, split));
}
MC_SECTION(copies, "copies and moves: share meshes, share one spatial index even when it is built through either copy, survive the original") {
  auto& t = c.of(Targets()); int first = c.pick(4);
  PM a = MakePm(t); PM b = a; MC_EXPECT(c, !a.IsSpatialIndexInitialized() && !b.IsSpatialIndexInitialized(), "lazy", "index built at once");
  switch (first) { case 0: a.InitializeSpatialIndex(); break; case 1: b.InitializeSpatialIndex(); break; case 2: a.Coverage(ink::Rect::FromTwoPoints({0, 0}, {1, 1})); break; case 3: Intersects(b, AffineTransform(), Point{0, 0}); break; }
  MC_EXPECT(c, a.IsSpatialIndexInitialized() && b.IsSpatialIndexInitialized(), "shared", "the copy does not share the index, first use " << first);
  MC_EXPECT(c, SameMesh(a.Meshes()[0], b.Meshes()[0]), "shared", "meshes");
  PM d = std::move(a); a = PM(); int n = 0; d.VisitIntersectedTriangles(ink::Rect::FromTwoPoints({-99, -99}, {99, 99}), [&](auto) { ++n; return PM::FlowControl::kContinue; });
  size_t all = 0; for (auto& m : t.meshes) all += m.size();
  MC_EXPECT(c, n == int(all) && d.Meshes().size() == b.Meshes().size(), "survive", "after the original is gone " << n << " of " << all << " triangles are found");
  c.state(mc::Hash(t.name[0], first));
}
MC_MAIN()
