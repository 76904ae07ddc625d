// P23: MutableMesh::AsMeshes.
#include <set>
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/mesh.h"
#include "meshmodel.h"
using ink::MutableMesh; using ink::Mesh; using ink::Point; using ink::SmallArray; using ink::MeshAttributeCodingParams;
namespace {
using OptParams = std::optional<MeshAttributeCodingParams>;
MeshAttributeCodingParams P2(float ox, float sx, float oy, float sy) { MeshAttributeCodingParams p; p.components = SmallArray<MeshAttributeCodingParams::ComponentCodingParams, 4>({{ox, sx}, {oy, sy}}); return p; }
MeshFormat F(std::vector<std::pair<AT, AI>> a, IF f) { return *MeshFormat::Create(absl::MakeConstSpan(a.data(), a.size()), f); }
double Area2(const Point& a, const Point& b, const Point& d) { return (double(b.x) - a.x) * (double(d.y) - a.y) - (double(b.y) - a.y) * (double(d.x) - a.x); }
// Walks source triangles and output triangles in step; every output vertex must come from exactly the source vertices it is used for.
// `check(src vertex, mesh, out vertex)` judges attribute values.
template <typename Fn> std::string Walk(const MutableMesh& m, absl::Span<const Mesh> out, Fn check) {
  uint32_t tri = 0;
  for (const Mesh& o : out) {
    if (o.TriangleCount() == 0) return "an empty mesh in the result";
    if (o.VertexCount() > 65536) return "too many vertices";
    std::vector<int64_t> src(o.VertexCount(), -1); std::map<uint32_t, uint32_t> back;
    for (uint32_t i = 0; i < o.TriangleCount(); ++i, ++tri) {
      if (tri >= m.TriangleCount()) return "more triangles than the source";
      auto a = m.TriangleIndices(tri), b = o.TriangleIndices(i);
      for (int k = 0; k < 3; ++k) {
        if (b[k] >= o.VertexCount()) return "index out of range";
        if (src[b[k]] == -1) src[b[k]] = a[k]; else if (src[b[k]] != a[k]) return "two source vertices share an output vertex";
        auto it = back.emplace(a[k], b[k]); if (it.first->second != b[k]) return "a source vertex is duplicated in one mesh";
      }
    }
    for (uint32_t v = 0; v < o.VertexCount(); ++v) { if (src[v] == -1) return "an unused vertex was kept"; std::string e = check(uint32_t(src[v]), o, v); if (!e.empty()) return e; }
  }
  if (tri != m.TriangleCount()) return "triangles are missing";
  return "";
}
// Values: unpacked exact; packed within `steps` steps (positions) or half a step.
std::string Values(const MutableMesh& m, const Mesh& o, uint32_t sv, uint32_t ov, double pos_steps) {
  size_t oa = 0;
  for (size_t a = 0; a < m.Format().Attributes().size(); ++a) {
    auto at = m.Format().Attributes()[a];
    if (oa >= o.Format().Attributes().size() || o.Format().Attributes()[oa].id != at.id) continue;  // omitted
    const TypeInfo& t = *Find(at.type);
    auto x = m.FloatVertexAttribute(sv, a), y = o.FloatVertexAttribute(ov, oa);
    auto b = o.AttributeBounds(oa);
    if (!b) return "no bounds";
    for (int k = 0; k < t.comps; ++k) {
      if (x[k] < b->minimum[k] || x[k] > b->maximum[k]) return "value outside the mesh's bounds";
      if (t.bits.empty()) { if (ToBits(x[k]) != ToBits(y[k])) return "unpacked value changed"; continue; }
      auto p = o.VertexAttributeUnpackingParams(oa).components[k];
      double tol = p.scale * (at.id == AI::kPosition ? pos_steps : 0.5) + 5e-7 * (std::abs(double(x[k])) + std::abs(double(p.offset)));
      if (std::abs(double(x[k]) - y[k]) > tol) return "value " + std::to_string(x[k]) + " came back as " + std::to_string(y[k]) + " (step " + std::to_string(p.scale) + ")";
    }
    ++oa;
  }
  if (oa != o.Format().Attributes().size()) return "output format has other attributes";
  return "";
}
std::string BoundsTight(const MutableMesh& m, const Mesh& o, const std::set<uint32_t>& used, AI id) {
  int a = -1, oa = -1;
  for (size_t i = 0; i < m.Format().Attributes().size(); ++i) if (m.Format().Attributes()[i].id == id) a = i;
  for (size_t i = 0; i < o.Format().Attributes().size(); ++i) if (o.Format().Attributes()[i].id == id) oa = i;
  if (oa < 0) return "";
  auto b = *o.AttributeBounds(oa);
  for (int k = 0; k < b.minimum.Size(); ++k) {
    float lo = kInf, hi = -kInf; for (auto v : used) { float x = m.FloatVertexAttribute(v, a)[k]; lo = std::min(lo, x); hi = std::max(hi, x); }
    if (lo != b.minimum[k] || hi != b.maximum[k]) return "bounds are not those of the used vertices";
  }
  return "";
}
// Does any vertex differ from its nearest grid point; number of triangles of negative area before, after and after plain rounding.
struct Flip { int before = 0, plain = 0, after = 0; bool moved = false; double worst = 0; };
Flip Flips(const MutableMesh& m, const Mesh& o, double step) {
  Flip f;
  for (uint32_t i = 0; i < m.TriangleCount(); ++i) {
    auto a = m.TriangleIndices(i); auto b = o.TriangleIndices(i);
    Point s[3], r[3], q[3];
    for (int k = 0; k < 3; ++k) {
      s[k] = m.VertexPosition(a[k]); q[k] = o.VertexPosition(b[k]);
      r[k] = {float(std::round(s[k].x / step) * step), float(std::round(s[k].y / step) * step)};
      if (r[k] != q[k]) f.moved = true;
      f.worst = std::max({f.worst, std::abs(double(q[k].x) - s[k].x) / step, std::abs(double(q[k].y) - s[k].y) / step});
    }
    f.before += Area2(s[0], s[1], s[2]) < 0; f.plain += Area2(r[0], r[1], r[2]) < 0; f.after += Area2(q[0], q[1], q[2]) < 0;
  }
  return f;
}
const AT kPackedPos[] = {AT::kFloat2PackedIn1Float, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat2PackedIn4UnsignedBytes_X12_Y20};
// Can rounding just one coordinate of one vertex the other way leave no triangle negative?
bool OneMoveRepairs(const MutableMesh& m) {
  std::vector<Point> r; for (uint32_t v = 0; v < m.VertexCount(); ++v) { Point s = m.VertexPosition(v); r.push_back({std::round(s.x), std::round(s.y)}); }
  for (uint32_t v = 0; v < r.size(); ++v) for (int k = 0; k < 2; ++k) {
    Point s = m.VertexPosition(v), keep = r[v]; float d = k ? s.y - keep.y : s.x - keep.x; if (d == 0) continue;
    (k ? r[v].y : r[v].x) += d > 0 ? 1 : -1; bool ok = r[v].x >= 0 && r[v].y >= 0;
    for (uint32_t i = 0; ok && i < m.TriangleCount(); ++i) { auto a = m.TriangleIndices(i); ok = Area2(r[a[0]], r[a[1]], r[a[2]]) >= 0; }
    r[v] = keep; if (ok) return true;
  }
  return false;
}
void CheckFlips(mc::Choices& c, const MutableMesh& m, const MeshAttributeCodingParams& params, double step, const char* what) {
  auto r = m.AsMeshes({params});
  MC_EXPECT(c, r.ok() && r->size() == 1, "rejected", what << r.status());
  const Mesh& o = (*r)[0];
  Flip f = Flips(m, o, step);
  MC_EXPECT(c, f.worst <= 1.0 + 1e-4, "error", what << ": a vertex moved by " << f.worst << " steps");
  MC_EXPECT(c, f.after <= f.plain, "worse", what << ": " << f.after << " negative triangles, plain rounding gives " << f.plain);
  if (f.before > 0 || f.plain == 0) MC_EXPECT(c, !f.moved, "needless", what << ": vertices are not at their nearest position though " << (f.before ? "the source has negative triangles" : "no triangle flips"));
  if (f.moved) MC_EXPECT(c, f.after == 0, "partial", what << ": vertices were moved but " << f.after << " triangles stay negative");
  if (f.before == 0 && f.after > 0) {
    MC_EXPECT(c, m.TriangleCount() > 1, "unrepaired", what << " stays negative");
    if (step == 1) MC_EXPECT(c, !OneMoveRepairs(m), "unrepaired", what << ": " << f.after << " triangles stay negative though moving one vertex along one axis repairs them");
  }
  std::string e = Walk(m, *r, [&](uint32_t sv, const Mesh& mesh, uint32_t ov) { return Values(m, mesh, sv, ov, 1.0 + 1e-4); });
  MC_EXPECT(c, e.empty(), "contents", what << ": " << e);
  c.op(); c.outcome(mc::Hash(f.plain, f.after, f.moved)); c.add_nontrivial(f.plain > 0 && f.before == 0);
}
}
MC_SECTION(small, "all meshes of 3 or 4 (thorough 5) vertices with all lists of 0 to 2 triangles over their indices (valid and invalid), 3 formats, both index widths: errors exactly for invalid triangles; otherwise triangles in order, unused vertices stripped, values and bounds kept") {
  int nv = 3 + c.pick(mc::tier(2, 3)), nt = c.pick(3), fi = c.pick(3); IF idx = c.flag() ? IF::k32BitUnpacked16BitPacked : IF::k16BitUnpacked16BitPacked;
  MutableMesh m(fi == 0 ? F({{AT::kFloat2Unpacked, AI::kPosition}}, idx) : fi == 1 ? F({{AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat3PackedIn2Floats, AI::kCustom0}}, idx) : F({{AT::kFloat4PackedIn1Float, AI::kColorShiftHsl}, {AT::kFloat1Unpacked, AI::kOpacityShift}, {AT::kFloat2PackedIn4UnsignedBytes_X12_Y20, AI::kPosition}}, idx));
  static const Point pts[] = {{0, 0}, {10, 1}, {3, 8}, {-4, 5}, {1, -7}};
  for (int i = 0; i < nv; ++i) {
    m.AppendVertex(pts[i]);
    for (size_t a = 0; a < m.Format().Attributes().size(); ++a) if (m.Format().Attributes()[a].id != AI::kPosition) { SmallArray<float, 4> v(MeshFormat::ComponentCount(m.Format().Attributes()[a].type)); for (int k = 0; k < v.Size(); ++k) v[k] = i * 1.5f - k * i * i; m.SetFloatVertexAttribute(i, a, v); }
  }
  bool valid = true; std::set<uint32_t> used;
  for (int i = 0; i < nt; ++i) { std::array<uint32_t, 3> t; for (auto& x : t) { x = c.pick(nv + 1); used.insert(x); valid &= int(x) < nv; } valid &= t[0] != t[1] && t[1] != t[2] && t[0] != t[2]; m.AppendTriangleIndices(t); }
  auto r = m.AsMeshes();
  MC_EXPECT(c, r.ok() == valid, "validity", (valid ? "rejected: " : "accepted invalid triangles ") << r.status());
  if (r.ok()) {
    MC_EXPECT(c, r->size() == (nt > 0 ? 1u : 0u), "count", r->size() << " meshes");
    std::string e = Walk(m, *r, [&](uint32_t sv, const Mesh& o, uint32_t ov) { return Values(m, o, sv, ov, 1.0 + 1e-4); });
    if (e.empty() && nt > 0) { if ((*r)[0].VertexCount() != used.size()) e = "vertex count"; for (auto& a : m.Format().Attributes()) if (e.empty()) e = BoundsTight(m, (*r)[0], used, a.id); if ((*r)[0].Format() != m.Format()) e = "format changed"; }
    MC_EXPECT(c, e.empty(), "contents", e);
  }
  c.op(); c.state(mc::Hash(nv, nt, fi, int(idx), valid, used.size()));
}
MC_SECTION(omit, "every subset of a 4-attribute format's ids plus one absent id, optionally repeated, each order of the format: omitting the position or an absent id is an error; otherwise the rest is kept, in order; a non-finite value matters exactly in a kept attribute") {
  std::vector<std::pair<AT, AI>> at = {{AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat3PackedIn2Floats, AI::kCustom0}, {AT::kFloat1Unpacked, AI::kOpacityShift}, {AT::kFloat2Unpacked, AI::kSurfaceUv}};
  std::rotate(at.begin(), at.begin() + c.pick(4), at.end());
  int mask = c.pick(32); bool dup = c.flag(); int bad = c.pick(5);  // 4: no non-finite value
  std::vector<AI> omit; for (int i = 0; i < 4; ++i) if (mask >> i & 1) omit.push_back(at[i].second);
  if (mask & 16) omit.push_back(AI::kCustom5);
  if (dup) { c.assume(!omit.empty()); omit.push_back(omit[0]); }
  MutableMesh m(F(at, IF::k32BitUnpacked16BitPacked));
  for (int i = 0; i < 4; ++i) { m.AppendVertex({float(i % 2), float(i / 2)}); for (int a = 0; a < 4; ++a) if (at[a].second != AI::kPosition) { SmallArray<float, 4> v(MeshFormat::ComponentCount(at[a].first)); for (int k = 0; k < v.Size(); ++k) v[k] = 0.5f * i + a + k; m.SetFloatVertexAttribute(i, a, v); } }
  m.AppendTriangleIndices({0, 1, 2}); m.AppendTriangleIndices({1, 3, 2});
  if (bad < 4) { auto v = m.FloatVertexAttribute(2, bad); v[v.Size() - 1] = c.of({kInf, -kInf, kNan}); m.SetFloatVertexAttribute(2, bad, v); }
  bool ok = !(mask & 16);
  for (int i = 0; i < 4; ++i) if ((mask >> i & 1) && at[i].second == AI::kPosition) ok = false;
  if (bad < 4 && !(mask >> bad & 1)) ok = false;
  auto r = m.AsMeshes({}, omit);
  MC_EXPECT(c, r.ok() == ok, "omit", "mask " << mask << " dup " << dup << " non-finite in " << bad << (r.ok() ? " accepted" : " rejected"));
  if (r.ok()) {
    std::vector<std::pair<AT, AI>> rest; for (int i = 0; i < 4; ++i) if (!(mask >> i & 1)) rest.push_back(at[i]);
    MC_EXPECT(c, r->size() == 1 && (*r)[0].Format() == F(rest, IF::k32BitUnpacked16BitPacked), "format", "format after omission");
    std::string e = Walk(m, *r, [&](uint32_t sv, const Mesh& o, uint32_t ov) { return Values(m, o, sv, ov, 1.0 + 1e-4); });
    MC_EXPECT(c, e.empty(), "contents", "mask " << mask << ": " << e);
  }
  c.op(); c.state(mc::Hash(mask, dup, bad, int(at[0].second)));
}
MC_SECTION(errors, "packing parameter errors (wrong count, unpacked attribute, wrong components, non-finite, unrepresentable, overflowing range): rejected, repaired input accepted") {
  MutableMesh m(F({{AT::kFloat1PackedIn1UnsignedByte, AI::kOpacityShift}, {AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat1Unpacked, AI::kCustom0}}, IF::k32BitUnpacked16BitPacked));
  for (int i = 0; i < 4; ++i) { m.AppendVertex({float(i % 2), float(i / 2)}); m.SetFloatVertexAttribute(i, 0, {float(i)}); m.SetFloatVertexAttribute(i, 2, {float(i)}); }
  m.AppendTriangleIndices({0, 1, 2}); m.AppendTriangleIndices({1, 3, 2});
  MeshAttributeCodingParams one; one.components = SmallArray<MeshAttributeCodingParams::ComponentCodingParams, 4>(1, {0, 0.25f});
  std::vector<OptParams> p = {one, P2(0, 0.5f, 0, 0.25f), std::nullopt};
  MC_EXPECT(c, m.AsMeshes(p).ok() && m.AsMeshes().ok(), "baseline", "baseline rejected");
  int kind = c.pick(9);
  switch (kind) {
    case 0: p.pop_back(); break;
    case 1: p.push_back(std::nullopt); break;
    case 2: p[2] = one; break;
    case 3: p[0] = P2(0, 1, 0, 1); break;
    case 4: p[1] = one; break;
    case 5: { float x = c.of({kInf, -kInf, kNan}); auto& q = p[c.pick(2)]->components; auto& e = q[c.pick(q.Size())]; if (c.flag()) e.offset = x; else e.scale = x; break; }
    case 6: { auto& q = p[c.pick(2)]->components; q[c.pick(q.Size())].offset = 0.5f; break; }
    case 7: { auto& q = p[c.pick(2)]->components; q[c.pick(q.Size())].scale = 1e-5f; break; }
    case 8: { p.clear(); int a = c.pick(2); auto v = m.FloatVertexAttribute(1, a); int k = c.pick(v.Size()); v[k] = kMax; m.SetFloatVertexAttribute(1, a, v); v[k] = -kMax; m.SetFloatVertexAttribute(2, a, v); break; }
  }
  MC_EXPECT(c, !m.AsMeshes(p).ok(), "errors", "kind " << kind << " accepted");
  // An unused vertex does not count towards representability, but triangles still do.
  c.op(3); c.state(mc::Hash(kind));
}
MC_SECTION(flip_one, "every triangle with corners on a quarter-step grid within 2x2 steps (thorough 2.5 x 2.5), three packed position types: no vertex further than a step; never more negative triangles than nearest rounding; vertices move only when rounding flips something, and then nothing stays negative") {
  int n = mc::tier(9, 11); double step = 1; AT t = kPackedPos[c.pick(3)];
  Point a{c.pick(n) * 0.25f, c.pick(n) * 0.25f}, b{c.pick(n) * 0.25f, c.pick(n) * 0.25f};
  MutableMesh m(F({{t, AI::kPosition}}, IF::k16BitUnpacked16BitPacked));
  m.AppendVertex(a); m.AppendVertex(b); m.AppendVertex({}); m.AppendTriangleIndices({0, 1, 2});
  for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) {
    m.SetVertexPosition(2, {x * 0.25f, y * 0.25f});
    CheckFlips(c, m, P2(0, 1, 0, 1), step, "one triangle");
  }
  c.add_states(n * n);
}
MC_SECTION(flip_two, "two triangles sharing an edge, every choice of the four corners from a grid of positions near rounding boundaries (quick 3x4, thorough 4x5)") {
  static const float X[] = {0.3f, 1.45f, 1.55f, 2.45f}, Y[] = {1.45f, 1.55f, 0.6f, 2.52f, 0.f};
  int nx = mc::tier(3, 4), ny = mc::tier(4, 5);
  MutableMesh m(F({{kPackedPos[c.pick(3)], AI::kPosition}}, IF::k16BitUnpacked16BitPacked));
  auto pt = [&](int k) { return Point{X[k % nx], Y[k / nx]}; };
  int n = nx * ny;
  m.AppendVertex(pt(c.pick(n))); m.AppendVertex(pt(c.pick(n))); m.AppendVertex(pt(c.pick(n))); m.AppendVertex({});
  m.AppendTriangleIndices({0, 1, 2}); m.AppendTriangleIndices({1, 3, 2});
  for (int k = 0; k < n; ++k) { m.SetVertexPosition(3, pt(k)); CheckFlips(c, m, P2(0, 1, 0, 1), 1, "two triangles"); }
  c.add_states(n);
}
MC_SECTION(flip_strip, "strips of 2 to 4 (thorough 6) triangles over every assignment of four near-boundary heights to their vertices, three spacings, two slants, fan or strip connectivity") {
  int nv = 4 + c.pick(mc::tier(3, 5)); bool fan = c.flag(); float sp = c.of({0.37f, 0.61f, 0.9f}), slant = c.of({0.f, 0.13f});
  static const float Y[] = {1.35f, 1.45f, 1.55f, 1.65f};
  MutableMesh m(F({{kPackedPos[c.pick(2)], AI::kPosition}}, IF::k16BitUnpacked16BitPacked));
  for (int i = 0; i < nv; ++i) { float y = Y[c.pick(4)]; if (fan) m.AppendVertex(i == 0 ? Point{1.3f, 4.52f} : Point{5.3f - sp * i, y + slant * i}); else m.AppendVertex({1 + sp * (i / 2) + (i % 2 ? 0.2f : 0.f), y + slant * (i / 2) + (i % 2 ? 0.08f : 0.f)}); }
  for (uint32_t i = 0; i + 2 < uint32_t(nv); ++i) {
    std::array<uint32_t, 3> t = fan ? std::array<uint32_t, 3>{0, i + 1, i + 2} : i % 2 ? std::array<uint32_t, 3>{i, i + 1, i + 2} : std::array<uint32_t, 3>{i, i + 2, i + 1};
    if (Area2(m.VertexPosition(t[0]), m.VertexPosition(t[1]), m.VertexPosition(t[2])) < 0) std::swap(t[1], t[2]);
    m.AppendTriangleIndices(t);
  }
  CheckFlips(c, m, P2(0, 1, 0, 1), 1, fan ? "fan" : "strip");
  c.state(mc::Hash(nv, fan, sp, slant, m.VertexPosition(0).y, m.VertexPosition(1).y, m.VertexPosition(2).y, m.VertexPosition(3).y));
}
MC_SECTION(partitions, "meshes of 65533..65540, 131070..131073 and 200000 vertices, four triangle orders (forwards, backwards, from both ends, from the middle out), two formats: at most 65536 vertices per mesh, triangles in order, shared transforms, tight bounds") {
  int n = c.of({65533, 65534, 65535, 65536, 65537, 65538, 65539, 65540, 131070, 131072, 131073, 200000}), order = c.pick(4); bool packed = c.flag();
  MutableMesh m(F(packed ? std::vector<std::pair<AT, AI>>{{AT::kFloat2PackedIn4UnsignedBytes_X12_Y20, AI::kPosition}, {AT::kFloat1Unpacked, AI::kOpacityShift}} : std::vector<std::pair<AT, AI>>{{AT::kFloat2Unpacked, AI::kPosition}}, IF::k32BitUnpacked16BitPacked));
  for (int i = 0; i < n; ++i) { m.AppendVertex({float(i / 2), float(i % 2) * 3}); if (packed) m.SetFloatVertexAttribute(i, 1, {float(i)}); }
  for (uint32_t i = 0; i + 2 < uint32_t(n); ++i) { uint32_t j = order == 0 ? i : order == 1 ? n - 3 - i : order == 3 ? (i % 2 ? (n - 3) / 2 - i / 2 - (n % 2 ? 1 : 0) : (n - 2) / 2 + i / 2) : (i % 2 ? n - 3 - i / 2 : i / 2); if (j % 2) m.AppendTriangleIndices({j, j + 1, j + 2}); else m.AppendTriangleIndices({j, j + 2, j + 1}); }
  auto r = m.AsMeshes(); MC_EXPECT(c, r.ok(), "rejected", r.status());
  std::string e = Walk(m, *r, [&](uint32_t sv, const Mesh& o, uint32_t ov) { return Values(m, o, sv, ov, 0.5); });
  MC_EXPECT(c, e.empty(), "contents", n << " vertices order " << order << ": " << e);
  MC_EXPECT(c, r->size() == (n <= 65536 ? 1u : r->size()) && (n <= 65536 || r->size() >= 2) && r->size() <= size_t(n / 65534 + 3), "partitions", n << " vertices order " << order << " in " << r->size() << " meshes");
  for (auto& o : *r) for (size_t a = 0; a < o.Format().Attributes().size(); ++a) for (int k = 0; k < o.VertexAttributeUnpackingParams(a).components.Size(); ++k) {
    auto x = o.VertexAttributeUnpackingParams(a).components[k], y = (*r)[0].VertexAttributeUnpackingParams(a).components[k];
    MC_EXPECT(c, x.offset == y.offset && x.scale == y.scale, "transform", "meshes of one source use different transforms");
  }
  uint32_t tri = 0;
  for (auto& o : *r) { std::set<uint32_t> used; for (uint32_t i = 0; i < o.TriangleCount(); ++i) for (auto v : m.TriangleIndices(tri++)) used.insert(v); for (auto& a : m.Format().Attributes()) { e = BoundsTight(m, o, used, a.id); MC_EXPECT(c, e.empty(), "bounds", n << " order " << order << ": " << e); } }
  c.op(); c.state(mc::Hash(n, order, packed)); c.outcome(r->size());
}
MC_MAIN()
