// P27: mesh specifications: which formats are accepted, what they describe, and the whole vertex-to-fragment path run on packed meshes.
#include "gen_shaders.inc"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "meshmodel.h"
#include "spec_formats.h"
using ink::strokes_internal::StrokeVertex; using ink::skia_common_internal::MeshSpecificationData; using ink::Mesh; using ink::MutableMesh; using ink::PartitionedMesh;
using Spec = MeshSpecificationData; using sksl::float2; using sksl::float4;
namespace {
struct Block { std::vector<std::pair<AT, AI>> a; };
std::string Names(const std::vector<std::pair<AT, AI>>& a) { std::string s; for (auto& [t, i] : a) s += std::string(Find(t)->name) + "/" + std::to_string(int(i)) + " "; return s; }
// The documented support rules, restated over a list of attributes.
struct Want { bool ok; std::vector<std::pair<std::string, std::pair<Spec::AttributeType, AI>>> attrs; };
Want Reference(const std::vector<std::pair<AT, AI>>& a) {
  auto at = [&](AI id) { for (size_t i = 0; i < a.size(); ++i) if (a[i].second == id) return int(i); return -1; };
  Want w{true, {}}; using S = Spec::AttributeType;
  auto pair = [&](const char* name, AI x, AI y, std::vector<std::array<int, 3>> types) {
    int i = at(x), j = at(y);
    if (i < 0 || j < 0 || j != i + 1) { w.ok = false; return; }
    for (auto& t : types) if (AT(t[0]) == a[i].first && AT(t[1]) == a[j].first) { w.attrs.push_back({name, {S(t[2]), x}}); return; }
    w.ok = false;
  };
  auto one = [&](const char* name, AI x, std::vector<std::array<int, 2>> types) {
    int i = at(x); if (i < 0) return;
    for (auto& t : types) if (AT(t[0]) == a[i].first) { w.attrs.push_back({name, {S(t[1]), x}}); return; }
    w.ok = false;
  };
  pair("positionAndOpacityShift", AI::kPosition, AI::kOpacityShift, {{int(AT::kFloat2PackedIn1Float), int(AT::kFloat1Unpacked), int(S::kFloat2)}, {int(AT::kFloat2PackedIn3UnsignedBytes_XY12), int(AT::kFloat1PackedIn1UnsignedByte), int(S::kUByte4)}});
  std::vector<std::array<int, 3>> d = {{int(AT::kFloat2Unpacked), int(AT::kFloat1Unpacked), int(S::kFloat3)}, {int(AT::kFloat2PackedIn3UnsignedBytes_XY12), int(AT::kFloat1PackedIn1UnsignedByte), int(S::kUByte4)}};
  pair("sideDerivativeAndLabel", AI::kSideDerivative, AI::kSideLabel, d); pair("forwardDerivativeAndLabel", AI::kForwardDerivative, AI::kForwardLabel, d);
  one("hslShift", AI::kColorShiftHsl, {{int(AT::kFloat3Unpacked), int(S::kFloat3)}, {int(AT::kFloat3PackedIn4UnsignedBytes_XYZ10), int(S::kUByte4)}});
  one("surfaceUv", AI::kSurfaceUv, {{int(AT::kFloat2Unpacked), int(S::kFloat2)}, {int(AT::kFloat2PackedIn4UnsignedBytes_X12_Y20), int(S::kUByte4)}});
  return w;
}
void CheckSpec(mc::Choices& c, const std::vector<std::pair<AT, AI>>& a) {
  auto f = MeshFormat::Create(a, IF::k16BitUnpacked16BitPacked);
  if (!f.ok()) { c.fail("format", Names(a)); return; }
  Want w = Reference(a); auto s = Spec::CreateForStroke(*f); c.op(1);
  MC_EXPECT(c, s.ok() == w.ok, w.ok ? "rejects-supported" : "accepts-unsupported", Names(a));
  if (!s.ok()) { MC_EXPECT(c, s.status().code() == absl::StatusCode::kInvalidArgument, "status", Names(a)); return; }
  if (!w.ok) return;
  c.add_nontrivial(1);
  MC_EXPECT(c, s->attributes.Size() == int(w.attrs.size()) && s->vertex_stride == f->PackedVertexStride(), "attribute-count", Names(a) << s->attributes.Size());
  for (auto& [name, t] : w.attrs) {
    int off = -1; for (auto& x : f->Attributes()) if (x.id == t.second) off = x.packed_offset;
    bool found = false;
    for (int i = 0; i < s->attributes.Size(); ++i) if (s->attributes[i].name == name) { MC_EXPECT(c, !found && s->attributes[i].type == t.first && s->attributes[i].offset == off, "attribute", name << " in " << Names(a)); found = true; }
    MC_EXPECT(c, found, "attribute-missing", name << " in " << Names(a));
  }
  std::map<int, int> u; for (int i = 0; i < s->uniforms.Size(); ++i) {
    auto& x = s->uniforms[i]; MC_EXPECT(c, !u.count(int(x.id)), "uniform-twice", int(x.id)); u[int(x.id)] = x.unpacking_attribute_index.value_or(-1);
    MC_EXPECT(c, (x.type == Spec::UniformType::kInt) == (x.id == Spec::UniformId::kTextureMapping), "uniform-type", int(x.id));
  }
  auto idx = [&](AI id) { for (size_t i = 0; i < a.size(); ++i) if (a[i].second == id) return int(i); return -2; };
  MC_EXPECT(c, u.size() == 6 && u[0] == -1 && u[1] == -1 && u[5] == -1 && u[2] == idx(AI::kPosition) && u[3] == idx(AI::kSideDerivative) && u[4] == idx(AI::kForwardDerivative), "uniforms", Names(a));
  std::map<std::string, int> v; for (int i = 0; i < s->varyings.Size(); ++i) v[std::string(s->varyings[i].name)] = int(s->varyings[i].type);
  MC_EXPECT(c, v == (std::map<std::string, int>{{"color", 3}, {"textureCoords", 1}, {"pixelsPerDimension", 1}, {"normalizedToEdgeLRFB", 3}, {"outsetPixelsLRFB", 3}}), "varyings", Names(a));
  c.eval(12);
}
const std::vector<AT> k1 = {AT::kFloat1Unpacked, AT::kFloat1PackedIn1UnsignedByte}, k2 = {AT::kFloat2Unpacked, AT::kFloat2PackedIn1Float, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat2PackedIn4UnsignedBytes_X12_Y20},
  k3 = {AT::kFloat3Unpacked, AT::kFloat3PackedIn1Float, AT::kFloat3PackedIn2Floats, AT::kFloat3PackedIn4UnsignedBytes_XYZ10};
// A mesh whose vertices carry the given values.
struct Vtx { float x, y, op, h, s, l, sx, sy, sl, fx, fy, fl, u, v; };
StrokeVertex Make(const Vtx& v) { return {.position = {v.x, v.y}, .non_position_attributes = {.opacity_shift = v.op, .hsl_shift = {v.h, v.s, v.l}, .side_derivative = {v.sx, v.sy}, .side_label = {v.sl}, .forward_derivative = {v.fx, v.fy}, .forward_label = {v.fl}, .surface_uv = {v.u, v.v}}}; }
struct Uniforms { float4 m{1, 0, 0, 1}, color{0.2f, 0.6f, 0.9f, 0.5f}; int mapping = 0; };
struct Expect { double x, y, op, h, s, l, sx, sy, sl, fx, fy, fl, u, v; };
template <typename S> void SetCommon(const Uniforms& u) { S::SetUniform(int(Spec::UniformId::kObjectToCanvasLinearComponent), u.m); S::SetUniform(int(Spec::UniformId::kBrushColor), u.color); S::SetUniform(int(Spec::UniformId::kTextureMapping), u.mapping); }
template <typename S> void CheckVertex(mc::Choices& c, const uint8_t* data, const Expect& e, const Uniforms& u, bool hsl, bool uv, const std::string& what, double tp, double td) {
  auto y = S::Vertex(data); c.op(1); c.eval(6);
  float2 ppd; float4 edge, out;
  auto move = sksl::helpers::calculateAntialiasingAndPositionOutset(sksl::float3(e.sx, e.sy, e.sl), sksl::float3(e.fx, e.fy, e.fl), sksl::helpers::mat2FromFloat4ColumnMajor(u.m), ppd, edge, out);
  auto col = sksl::helpers::applyHSLAndOpacityShift(hsl ? sksl::float3(e.h, e.s, e.l) : sksl::float3(0.0f), e.op, u.color);
  if (!hsl) { col.r = u.color.r; col.g = u.color.g; col.b = u.color.b; }
  double px = e.x + move.x, py = e.y + move.y;
  MC_EXPECT(c, std::abs(y.position.x - px) < tp && std::abs(y.position.y - py) < tp, "position", S::name << ": " << what << " got " << y.position.x << "," << y.position.y << " want " << px << "," << py);
  MC_EXPECT(c, std::abs(y.color.a - col.a) < 1e-3 && std::abs(y.color.r - col.r * col.a) < 2e-3 && std::abs(y.color.g - col.g * col.a) < 2e-3 && std::abs(y.color.b - col.b * col.a) < 2e-3, "color", S::name << ": " << what << " got " << y.color.r << "," << y.color.g << "," << y.color.b << "," << y.color.a << " want premultiplied " << col.r << "," << col.g << "," << col.b << "," << col.a);
  bool wind = uv && u.mapping == 1;
  double wx = wind ? e.u : y.position.x, wy = wind ? e.v : y.position.y;
  MC_EXPECT(c, std::abs(y.textureCoords.x - wx) < (wind ? 2e-4 : 1e-6) && std::abs(y.textureCoords.y - wy) < (wind ? 2e-4 : 1e-6), "texture-coords", S::name << ": " << what << " got " << y.textureCoords.x << "," << y.textureCoords.y << " want " << wx << "," << wy);
  MC_EXPECT(c, Near(y.pixelsPerDimension.x, ppd.x, td, 1e-5) && Near(y.pixelsPerDimension.y, ppd.y, td, 1e-5), "pixels-per-dimension", S::name << ": " << what);
  for (int i = 0; i < 4; ++i) { MC_EXPECT(c, y.normalizedToEdgeLRFB[i] == edge[i], "edges", S::name << ": " << what); MC_EXPECT(c, std::abs(y.outsetPixelsLRFB[i] - out[i]) < 0.02, "outset", S::name << ": " << what << " " << y.outsetPixelsLRFB[i] << " want " << out[i]); }
  float4 rgba; float2 tc = S::Fragment(y, rgba);
  float cov = sksl::helpers::simulatedPixelCoverage(y.pixelsPerDimension, y.normalizedToEdgeLRFB, y.outsetPixelsLRFB);
  for (int i = 0; i < 4; ++i) MC_EXPECT(c, std::abs(rgba[i] - y.color[i] * cov) < 1e-6, "fragment-color", S::name << ": " << what);
  MC_EXPECT(c, tc.x == y.textureCoords.x && tc.y == y.textureCoords.y, "fragment-texture", S::name << ": " << what);
}
std::vector<Vtx> Vertices(int variant) {
  std::vector<Vtx> v; const float L[6] = {0, 127, -127, 33, -65, 1}; const float O[5] = {0, -1, 1, -0.5f, 0.25f};
  for (int i = 0; i < 6; ++i) { double a = i * 1.05 + variant; v.push_back({float(3 * std::cos(a)), float(2 * std::sin(a) + i * .1), O[(i + variant) % 5], O[(i + 1) % 5], O[(i + 2) % 5], O[(i + 3 + variant) % 5] / 2, float(std::cos(a)) * 2, float(std::sin(a)) * 2, L[(i + variant) % 6], float(-std::sin(a)) * 0.5f, float(std::cos(a)) * 0.5f, L[(i + 2 * variant + 1) % 6], i / 5.0f, 1 - i / 7.0f}); }
  return v;
}
const Uniforms kUni[] = {{}, {float4(2, 0, 0, 2), float4(1, 0, 0, 1), 1}, {float4(0, 3, -1, 0.5f), float4(0.1f, 0.2f, 0.3f, 0.75f), 1}, {float4(0.1f, 0, 0, 0.1f), float4(1, 1, 1, 0), 0}};
}  // namespace
MC_SECTION(types, "every combination of attribute types for positions, opacity, side and forward derivatives and labels, HSL and UV (absent or any of 4 types): accepted exactly when supported; names, types, offsets, stride, uniforms and varyings as documented") {
  std::vector<std::pair<AT, AI>> a = {{c.of(k2), AI::kPosition}, {c.of(k1), AI::kOpacityShift}};
  AT sd = c.of(k2), sl = c.of(k1), fd = c.of(k2), fl = c.of(k1);
  int h = c.pick(5); if (h) a.push_back({k3[h - 1], AI::kColorShiftHsl});
  a.push_back({sd, AI::kSideDerivative}); a.push_back({sl, AI::kSideLabel}); a.push_back({fd, AI::kForwardDerivative}); a.push_back({fl, AI::kForwardLabel});
  int u = c.pick(5); if (u) a.push_back({k2[u - 1], AI::kSurfaceUv});
  CheckSpec(c, a); c.add_states(1);
}
MC_SECTION(orders, "every order of the five blocks with supported types, each with an unrelated attribute inserted at every position, each attribute dropped, and each neighbouring pair swapped") {
  std::vector<int> p = {0, 1, 2, 3, 4}; for (int i = 0; i < 5; ++i) std::swap(p[i], p[i + c.pick(5 - i)]);
  bool packed = c.flag();
  auto base = SpecFormats()[packed ? 3 : 7]; std::vector<std::vector<std::pair<AT, AI>>> blocks(5);
  for (auto& x : base.Attributes()) { int b = x.id == AI::kPosition || x.id == AI::kOpacityShift ? 0 : x.id == AI::kSideDerivative || x.id == AI::kSideLabel ? 1 : x.id == AI::kForwardDerivative || x.id == AI::kForwardLabel ? 2 : x.id == AI::kColorShiftHsl ? 3 : 4; blocks[b].push_back({x.type, x.id}); }
  std::vector<std::pair<AT, AI>> a; for (int b : p) for (auto& x : blocks[b]) a.push_back(x);
  CheckSpec(c, a);
  for (size_t i = 0; i <= a.size(); ++i) { auto b = a; b.insert(b.begin() + i, {AT::kFloat2Unpacked, AI::kCustom0}); CheckSpec(c, b); }
  for (size_t i = 0; i < a.size(); ++i) if (a[i].second != AI::kPosition) { auto b = a; b.erase(b.begin() + i); CheckSpec(c, b); }
  for (size_t i = 0; i + 1 < a.size(); ++i) { auto b = a; std::swap(b[i], b[i + 1]); CheckSpec(c, b); }
  c.add_states(1);
}
MC_SECTION(in_progress, "the in-progress specification: unpacked layout of the full stroke format, accepted for that format only; uniform names for every id value from -2 to 40") {
  auto full = StrokeVertex::FullMeshFormat(); Spec s = Spec::CreateForInProgressStroke(); auto t = Spec::CreateForInProgressStroke(full);
  MC_EXPECT(c, t.ok() && t->vertex_shader_source == s.vertex_shader_source && t->fragment_shader_source == s.fragment_shader_source && t->vertex_stride == s.vertex_stride, "from-format", "");
  MC_EXPECT(c, s.vertex_stride == full.UnpackedVertexStride() && s.attributes.Size() == 5, "stride", s.vertex_stride);
  const std::map<std::string, std::pair<AI, Spec::AttributeType>> want = {{"positionAndOpacityShift", {AI::kPosition, Spec::AttributeType::kFloat3}}, {"hslShift", {AI::kColorShiftHsl, Spec::AttributeType::kFloat3}}, {"sideDerivativeAndLabel", {AI::kSideDerivative, Spec::AttributeType::kFloat3}}, {"forwardDerivativeAndLabel", {AI::kForwardDerivative, Spec::AttributeType::kFloat3}}, {"surfaceUv", {AI::kSurfaceUv, Spec::AttributeType::kFloat2}}};
  for (int i = 0; i < s.attributes.Size(); ++i) { auto it = want.find(std::string(s.attributes[i].name)); if (it == want.end()) { c.fail("name", std::string(s.attributes[i].name)); continue; }
    for (auto& x : full.Attributes()) if (x.id == it->second.first) MC_EXPECT(c, s.attributes[i].offset == x.unpacked_offset && s.attributes[i].type == it->second.second, "layout", std::string(s.attributes[i].name)); }
  for (auto& f : SpecFormats()) { auto r = Spec::CreateForInProgressStroke(f); MC_EXPECT(c, r.ok() == (f == full), "accepts-other-format", ""); if (!r.ok()) MC_EXPECT(c, r.status().code() == absl::StatusCode::kInvalidArgument, "status", ""); c.op(1); }
  MC_EXPECT(c, Spec::CreateForStroke(full).ok(), "full-format-for-stroke", "");
  static const char* names[] = {"uObjectToCanvasLinearComponent", "uBrushColor", "uPositionUnpackingTransform", "uSideUnpackingTransform", "uForwardUnpackingTransform", "uTextureMapping"};
  for (int i = -2; i <= 40; ++i) { auto n = std::string(Spec::GetUniformName(Spec::UniformId(i))); MC_EXPECT(c, n == (i >= 0 && i < 6 ? names[i] : ""), "uniform-name", i << " " << n); c.op(1); c.add_states(1); }
}
template <typename S> void PackedRun(mc::Choices& c, bool hsl, bool uv) {
  int variant = c.pick(mc::tier(12, 60)); const Uniforms& un = kUni[c.pick(4)];
  MutableMesh mm(StrokeVertex::FullMeshFormat()); auto vs = Vertices(variant);
  for (auto& v : vs) StrokeVertex::AppendToMesh(mm, Make(v));
  mm.AppendTriangleIndices({0, 1, 2}); mm.AppendTriangleIndices({3, 4, 5}); mm.AppendTriangleIndices({1, 3, 5});
  std::vector<AI> omit; if (!hsl) omit.push_back(AI::kColorShiftHsl); if (!uv) omit.push_back(AI::kSurfaceUv);
  auto packing = StrokeVertex::MakeCustomPackingArray(mm.Format(), omit);
  auto pm = PartitionedMesh::FromMutableMesh(mm, {}, omit, packing.Values());
  if (!pm.ok()) { c.fail("pack", std::string(pm.status().message())); return; }
  MC_EXPECT(c, pm->RenderGroupCount() == 1 && pm->RenderGroupMeshes(0).size() == 1, "meshes", "");
  const Mesh& m = pm->RenderGroupMeshes(0)[0];
  auto spec = Spec::CreateForStroke(m.Format()); if (!spec.ok()) { c.fail("spec", std::string(spec.status().message())); return; }
  SetCommon<S>(un);
  for (int i = 0; i < spec->uniforms.Size(); ++i) if (auto k = spec->uniforms[i].unpacking_attribute_index) {
    auto& p = m.VertexAttributeUnpackingParams(*k); S::SetUniform(int(spec->uniforms[i].id), float4(p.components[0].offset, p.components[0].scale, p.components[1].offset, p.components[1].scale)); }
  auto find = [&](AI id) { for (size_t i = 0; i < m.Format().Attributes().size(); ++i) if (m.Format().Attributes()[i].id == id) return int(i); return -1; };
  for (uint32_t i = 0; i < m.VertexCount(); ++i) {
    auto get = [&](AI id, int k) -> double { int a = find(id); return a < 0 ? 0.0 : double(m.FloatVertexAttribute(i, a).Values()[k]); };
    auto P = m.VertexPosition(i);
    Expect e{P.x, P.y, get(AI::kOpacityShift, 0), get(AI::kColorShiftHsl, 0), hsl ? get(AI::kColorShiftHsl, 1) : 0, hsl ? get(AI::kColorShiftHsl, 2) : 0, get(AI::kSideDerivative, 0), get(AI::kSideDerivative, 1), get(AI::kSideLabel, 0), get(AI::kForwardDerivative, 0), get(AI::kForwardDerivative, 1), get(AI::kForwardLabel, 0), get(AI::kSurfaceUv, 0), uv ? get(AI::kSurfaceUv, 1) : 0};
    CheckVertex<S>(c, reinterpret_cast<const uint8_t*>(m.RawVertexData().data()) + i * m.VertexStride(), e, un, hsl, uv, "variant " + std::to_string(variant) + " vertex " + std::to_string(i), 2e-3, 1e-2);
    // And the packed values are those that were put in, to packing precision.
    auto& v = vs[i]; MC_EXPECT(c, std::abs(e.x - v.x) < 2e-3 && std::abs(e.y - v.y) < 2e-3 && std::abs(e.op - v.op) < 0.004 + 1e-5 && std::abs(e.sl - v.sl) < 1e-5 && std::abs(e.fl - v.fl) < 1e-5 && std::abs(e.sx - v.sx) < 1e-3 && std::abs(e.fy - v.fy) < 1e-3 && (!hsl || (std::abs(e.h - v.h) < 1e-3 && std::abs(e.s - v.s) < 1e-3 && std::abs(e.l - v.l) < 1e-3)) && (!uv || (std::abs(e.u - v.u) < 2e-4 && std::abs(e.v - v.v) < 1e-5)), "packed-values", "vertex " << i);
  }
  c.add_states(m.VertexCount());
}
MC_SECTION(packed_plain, "stroke meshes without HSL and UV, packed by the library, through the generated vertex and fragment shaders at 4 uniform sets: every varying equals what the CPU-side unpacked attributes give") { PackedRun<sksl::spec0::Shader>(c, false, false); }
MC_SECTION(packed_hsl, "the same with HSL shifts") { PackedRun<sksl::spec1::Shader>(c, true, false); }
MC_SECTION(packed_uv, "the same with surface UVs under both texture mappings") { PackedRun<sksl::spec2::Shader>(c, false, true); }
MC_SECTION(packed_full, "the same with HSL and surface UVs") { PackedRun<sksl::spec3::Shader>(c, true, true); }
template <typename S> void FloatRun(mc::Choices& c, int which) {
  bool hsl = which & 1, uv = which & 2; int variant = c.pick(12); const Uniforms& un = kUni[c.pick(4)];
  MeshFormat f = SpecFormats()[which]; auto vs = Vertices(variant);
  std::vector<std::vector<float>> cols;
  for (auto& a : f.Attributes()) { auto col = [&](auto get) { std::vector<float> r; for (auto& v : vs) r.push_back(get(v)); cols.push_back(r); };
    switch (a.id) { case AI::kPosition: col([](auto& v) { return v.x; }); col([](auto& v) { return v.y; }); break; case AI::kOpacityShift: col([](auto& v) { return v.op; }); break;
      case AI::kColorShiftHsl: col([](auto& v) { return v.h; }); col([](auto& v) { return v.s; }); col([](auto& v) { return v.l; }); break;
      case AI::kSideDerivative: col([](auto& v) { return v.sx; }); col([](auto& v) { return v.sy; }); break; case AI::kSideLabel: col([](auto& v) { return v.sl; }); break;
      case AI::kForwardDerivative: col([](auto& v) { return v.fx; }); col([](auto& v) { return v.fy; }); break; case AI::kForwardLabel: col([](auto& v) { return v.fl; }); break;
      default: col([](auto& v) { return v.u; }); col([](auto& v) { return v.v; }); } }
  std::vector<absl::Span<const float>> sp(cols.begin(), cols.end()); std::vector<uint32_t> idx = {0, 1, 2, 3, 4, 5};
  auto m = Mesh::Create(f, sp, idx); if (!m.ok()) { c.fail("create", std::string(m.status().message())); return; }
  auto spec = Spec::CreateForStroke(f); SetCommon<S>(un);
  for (int i = 0; i < spec->uniforms.Size(); ++i) if (auto k = spec->uniforms[i].unpacking_attribute_index) { auto& p = m->VertexAttributeUnpackingParams(*k); S::SetUniform(int(spec->uniforms[i].id), float4(p.components[0].offset, p.components[0].scale, p.components[1].offset, p.components[1].scale)); }
  for (uint32_t i = 0; i < m->VertexCount(); ++i) { auto& v = vs[i]; auto P = m->VertexPosition(i);
    Expect e{P.x, P.y, v.op, v.h, v.s, v.l, v.sx, v.sy, v.sl, v.fx, v.fy, v.fl, v.u, v.v};
    CheckVertex<S>(c, reinterpret_cast<const uint8_t*>(m->RawVertexData().data()) + i * m->VertexStride(), e, un, hsl, uv, "vertex " + std::to_string(i), 1e-3, 1e-3); }
  c.add_states(m->VertexCount());
}
MC_SECTION(floats_plain, "meshes with float attribute types (position packed in one float) through the generated shaders, no HSL or UV") { FloatRun<sksl::spec4::Shader>(c, 4); }
MC_SECTION(floats_hsl, "the same with HSL shifts") { FloatRun<sksl::spec5::Shader>(c, 5); }
MC_SECTION(floats_uv, "the same with surface UVs") { FloatRun<sksl::spec6::Shader>(c, 6); }
MC_SECTION(floats_full, "the same with both") { FloatRun<sksl::spec7::Shader>(c, 7); }
MC_SECTION(mutable_mesh, "the in-progress shader run on the raw bytes of a mutable stroke mesh") {
  int variant = c.pick(60); const Uniforms& un = kUni[c.pick(4)]; using S = sksl::in_progress::Shader;
  MutableMesh mm(StrokeVertex::FullMeshFormat()); auto vs = Vertices(variant); for (auto& v : vs) StrokeVertex::AppendToMesh(mm, Make(v));
  SetCommon<S>(un); Spec s = Spec::CreateForInProgressStroke();
  for (size_t i = 0; i < vs.size(); ++i) { auto& v = vs[i]; Expect e{v.x, v.y, v.op, v.h, v.s, v.l, v.sx, v.sy, v.sl, v.fx, v.fy, v.fl, v.u, v.v};
    CheckVertex<S>(c, reinterpret_cast<const uint8_t*>(mm.RawVertexData().data()) + i * s.vertex_stride, e, un, true, true, "vertex " + std::to_string(i), 1e-4, 1e-4); }
  c.add_states(vs.size());
}
MC_MAIN()
