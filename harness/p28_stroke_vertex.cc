// P28: stroke vertices: labels, packing parameters, mesh accessors, interpolation.
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "meshmodel.h"
using ink::strokes_internal::StrokeVertex; using ink::MutableMesh; using ink::Vec; using ink::Point;
using Label = StrokeVertex::Label; using NPA = StrokeVertex::NonPositionAttributes;
namespace {
int Sign(float f) { return (f > 0) - (f < 0); }
const double kStep = 4.0 / 126;
}  // namespace
MC_SECTION(labels, "WithMargin on every integral label x every float margin (quick: 3 of each 65536; thorough: all 2^32): category kept, interior untouched, the result is an integral label whose margin is the clamped margin rounded down to a step of 4/126") {
  static const float L[] = {0, 1, -1, 64, -77, 127, -127};
  TierFloatsBlock(c, [&](uint32_t bits) {
    float m = FromBits(bits); if (std::isnan(m)) return;
    double want = std::min(4.0, std::max(0.0, double(m)));
    for (float l : L) {
      Label r = Label{l}.WithMargin(m); c.op(1);
      if (l == 0) { if (r.encoded_value != 0) c.fail("interior", std::to_string(m)); continue; }
      double d = r.DecodeMargin();
      if (Sign(r.encoded_value) != Sign(l) || r.DerivativeOutsetSign() != Sign(l) || r.encoded_value != std::trunc(r.encoded_value) || std::abs(r.encoded_value) < 1 || std::abs(r.encoded_value) > 127 || d > want + 1e-6 || d < want - kStep - 1e-6)
        c.fail("with-margin", std::to_string(l) + " margin " + std::to_string(m) + " -> " + std::to_string(r.encoded_value) + " margin " + std::to_string(d));
    }
    c.eval(7);
  });
}
MC_SECTION(label_values, "all integral labels -127..127: categories, outset sign, margin grows with magnitude from 0 at 1 to 4 at 127 and is the same on both sides; re-encoding a slightly larger margin gives the label back") {
  int v = int(c.pick(255)) - 127; Label l{float(v)};
  MC_EXPECT(c, l.DecodeSideCategory() == (v < 0 ? StrokeVertex::SideCategory::kExteriorLeft : v > 0 ? StrokeVertex::SideCategory::kExteriorRight : StrokeVertex::SideCategory::kInterior), "side", v);
  MC_EXPECT(c, l.DecodeForwardCategory() == (v < 0 ? StrokeVertex::ForwardCategory::kExteriorFront : v > 0 ? StrokeVertex::ForwardCategory::kExteriorBack : StrokeVertex::ForwardCategory::kInterior), "forward", v);
  MC_EXPECT(c, l.DerivativeOutsetSign() == Sign(v), "sign", v);
  MC_EXPECT(c, std::abs(l.DecodeMargin() - (v ? (std::abs(v) - 1) * kStep : 0)) < 1e-5, "margin", v << " -> " << l.DecodeMargin());
  MC_EXPECT(c, l.DecodeMargin() == Label{float(-v)}.DecodeMargin(), "symmetric", v);
  if (v) MC_EXPECT(c, l.WithMargin(l.DecodeMargin() + 1e-4f).encoded_value == v, "re-encode", v << " -> " << l.WithMargin(l.DecodeMargin() + 1e-4f).encoded_value);
  if (v == 127) {
    MC_EXPECT(c, StrokeVertex::kInteriorLabel.encoded_value == 0 && StrokeVertex::kExteriorLeftLabel.DecodeSideCategory() == StrokeVertex::SideCategory::kExteriorLeft && StrokeVertex::kExteriorRightLabel.DecodeSideCategory() == StrokeVertex::SideCategory::kExteriorRight &&
      StrokeVertex::kExteriorFrontLabel.DecodeForwardCategory() == StrokeVertex::ForwardCategory::kExteriorFront && StrokeVertex::kExteriorBackLabel.DecodeForwardCategory() == StrokeVertex::ForwardCategory::kExteriorBack, "constants", "");
    for (Label k : {StrokeVertex::kExteriorLeftLabel, StrokeVertex::kExteriorRightLabel, StrokeVertex::kExteriorFrontLabel, StrokeVertex::kExteriorBackLabel}) MC_EXPECT(c, std::abs(k.DecodeMargin() - StrokeVertex::kMaximumMargin) < 1e-5, "maximum", k.encoded_value);
    MC_EXPECT(c, (StrokeVertex::kExteriorLeftLabel == Label{-127}) && (StrokeVertex::kExteriorLeftLabel != Label{127}), "equality", "");
  }
  c.op(8); c.add_states(1); c.outcome(v);
}
MC_SECTION(formats, "formats of up to 8 attributes drawn in every order of every subset up to 4 of the stroke attributes with packed or float types, plus an unrelated one: indices are found or -1, packing parameters are given exactly for packed opacity, HSL, labels and UV not skipped, with the documented offset and scale") {
  struct A { AI id; AT packed, flat; int par; };  // par: expected parameter kind when packed
  static const A all[] = {{AI::kOpacityShift, AT::kFloat1PackedIn1UnsignedByte, AT::kFloat1Unpacked, 1}, {AI::kColorShiftHsl, AT::kFloat3PackedIn4UnsignedBytes_XYZ10, AT::kFloat3PackedIn2Floats, 2}, {AI::kSideDerivative, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat2Unpacked, 0},
    {AI::kSideLabel, AT::kFloat1PackedIn1UnsignedByte, AT::kFloat1Unpacked, 3}, {AI::kForwardDerivative, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat2Unpacked, 0}, {AI::kForwardLabel, AT::kFloat1PackedIn1UnsignedByte, AT::kFloat1Unpacked, 3},
    {AI::kSurfaceUv, AT::kFloat2PackedIn4UnsignedBytes_X12_Y20, AT::kFloat2PackedIn1Float, 4}, {AI::kCustom1, AT::kFloat1PackedIn1UnsignedByte, AT::kFloat1Unpacked, 0}};
  bool packed = c.flag(); int n = c.pick(5); std::vector<int> pick; std::vector<std::pair<AT, AI>> a;
  for (int i = 0; i < n; ++i) { int k = c.pick(8); if (std::count(pick.begin(), pick.end(), k)) { c.assume(false); return; } pick.push_back(k); }
  int pos = c.pick(n + 1);
  for (int k : pick) a.push_back({packed ? all[k].packed : all[k].flat, all[k].id});
  a.insert(a.begin() + pos, {AT::kFloat2PackedIn3UnsignedBytes_XY12, AI::kPosition});
  auto f = MeshFormat::Create(a, IF::k16BitUnpacked16BitPacked); if (!f.ok()) { c.fail("format", ""); return; }
  auto ix = StrokeVertex::FindAttributeIndices(*f); c.op(1);
  auto at = [&](AI id) { for (size_t i = 0; i < a.size(); ++i) if (a[i].second == id) return int(i); return -1; };
  MC_EXPECT(c, ix.position == pos && ix.opacity_shift == at(AI::kOpacityShift) && ix.hsl_shift == at(AI::kColorShiftHsl) && ix.side_derivative == at(AI::kSideDerivative) && ix.side_label == at(AI::kSideLabel) && ix.forward_derivative == at(AI::kForwardDerivative) && ix.forward_label == at(AI::kForwardLabel) && ix.surface_uv == at(AI::kSurfaceUv), "indices", n);
  for (int skip = 0; skip < (1 << n); ++skip) {
    std::vector<AI> sk; for (int i = 0; i < n; ++i) if (skip >> i & 1) sk.push_back(all[pick[i]].id);
    auto p = StrokeVertex::MakeCustomPackingArray(*f, sk); c.op(1); int j = 0; bool ok = true;
    for (auto& [t, id] : a) {
      if (std::count(sk.begin(), sk.end(), id)) continue;
      if (j >= p.Size()) { ok = false; break; }
      int par = 0; for (auto& x : all) if (x.id == id && packed) par = x.par;
      auto& o = p[j++];
      if (o.has_value() != (par != 0)) { ok = false; break; }
      if (!par) continue;
      static const double off[] = {0, -1, -1, -128, 0}, inv[] = {0, 127, 511, 1, 4095}; static const int comps[] = {0, 1, 3, 1, 2};
      ok &= o->components.Size() == comps[par];
      for (int k = 0; k < o->components.Size(); ++k) ok &= o->components[k].offset == off[par] && std::abs(o->components[k].scale * (par == 4 && k == 1 ? 1048575 : inv[par]) - 1) < 1e-6;
    }
    MC_EXPECT(c, ok && j == p.Size(), "packing-params", "skip mask " << skip << " of " << n);
  }
  c.add_states(1); c.add_nontrivial(n > 0);
}
MC_SECTION(too_many, "formats of 1 to 12 attributes: more than 8 CHECK-fail in MakeCustomPackingArray") {
  int n = c.pick(12); std::vector<std::pair<AT, AI>> a = {{AT::kFloat2Unpacked, AI::kPosition}};
  static const AI ids[] = {AI::kOpacityShift, AI::kColorShiftHsl, AI::kTexture, AI::kSideDerivative, AI::kSideLabel, AI::kForwardDerivative, AI::kForwardLabel, AI::kSurfaceUv, AI::kCustom0, AI::kCustom1, AI::kCustom2, AI::kCustom3};
  for (int i = 0; i < n; ++i) a.push_back({AT::kFloat1Unpacked, ids[i]});
  auto f = MeshFormat::Create(a, IF::k16BitUnpacked16BitPacked); bool died = mc::DiesOnCheck([&] { StrokeVertex::MakeCustomPackingArray(*f); });
  MC_EXPECT(c, died == (n + 1 > 8), "limit", n); c.op(1); c.add_states(1);
  auto full = StrokeVertex::FullMeshFormat(); auto k = StrokeVertex::kFullFormatAttributeIndices, g = StrokeVertex::FindAttributeIndices(full);
  MC_EXPECT(c, full.Attributes().size() == 8 && std::memcmp(&k, &g, sizeof k) == 0 && full.UnpackedVertexStride() == sizeof(StrokeVertex), "full-format", "");
}
MC_SECTION(mesh_ops, "all sequences of up to 6 (thorough 7) of append, whole-vertex set and the five single-attribute setters on a mutable stroke mesh: every accessor returns what a model holds, shifts clamped to [-1,1], nothing else disturbed") {
  MutableMesh m(StrokeVertex::FullMeshFormat()); std::vector<StrokeVertex> model; auto key = 0;
  auto val = [&](int k) { float f = k; StrokeVertex v{.position = {f, -2 * f}, .non_position_attributes = {.opacity_shift = (k % 3 - 1) * 1.5f, .hsl_shift = {0.5f * (k % 2), -3, k % 5 - 1.0f}, .side_derivative = {f, 1}, .side_label = {float(k % 255 - 127)}, .forward_derivative = {-1, f}, .forward_label = {float(100 - k)}, .surface_uv = {f / 8, 1 - f / 9}}}; return v; };
  auto clampd = [](StrokeVertex v) { auto& a = v.non_position_attributes; a.opacity_shift = std::min(1.f, std::max(-1.f, a.opacity_shift)); for (float& h : a.hsl_shift) h = std::min(1.f, std::max(-1.f, h)); return v; };
  int len = mc::tier(6, 7);
  for (int i = 0; i < len; ++i) {
    int op = model.empty() ? c.pick(2) : 1 + c.pick(7); if (model.empty() && op == 0) break;
    int k = 3 * i + 1; uint32_t at = model.empty() || op == 1 ? 0 : c.pick(model.size()); c.op(1);
    switch (op) {
      case 1: StrokeVertex::AppendToMesh(m, val(k)); model.push_back(clampd(val(k))); break;
      case 2: StrokeVertex::SetInMesh(m, at, val(k)); model[at] = clampd(val(k)); break;
      case 3: StrokeVertex::SetSideDerivativeInMesh(m, at, {9.f + k, -4}); model[at].non_position_attributes.side_derivative = {9.f + k, -4}; break;
      case 4: StrokeVertex::SetForwardDerivativeInMesh(m, at, {-8, 7.f + k}); model[at].non_position_attributes.forward_derivative = {-8, 7.f + k}; break;
      case 5: StrokeVertex::SetSideLabelInMesh(m, at, {float(-k)}); model[at].non_position_attributes.side_label = {float(-k)}; break;
      case 6: StrokeVertex::SetForwardLabelInMesh(m, at, {float(k)}); model[at].non_position_attributes.forward_label = {float(k)}; break;
      case 7: StrokeVertex::SetSurfaceUvInMesh(m, at, {0.25f * k, 0.5f}); model[at].non_position_attributes.surface_uv = {0.25f * k, 0.5f}; break;
    }
    key = mc::Hash(key, op, at);
    MC_EXPECT(c, m.VertexCount() == model.size(), "count", m.VertexCount());
    for (uint32_t j = 0; j < model.size(); ++j) {
      auto& w = model[j].non_position_attributes; StrokeVertex g = StrokeVertex::GetFromMesh(m, j);
      MC_EXPECT(c, g.position == model[j].position && m.VertexPosition(j) == model[j].position && g.non_position_attributes == w, "vertex", "op " << op << " vertex " << j);
      MC_EXPECT(c, StrokeVertex::GetSideDerivativeFromMesh(m, j) == w.side_derivative && StrokeVertex::GetForwardDerivativeFromMesh(m, j) == w.forward_derivative && StrokeVertex::GetSideLabelFromMesh(m, j) == w.side_label && StrokeVertex::GetForwardLabelFromMesh(m, j) == w.forward_label && StrokeVertex::GetSurfaceUvFromMesh(m, j) == w.surface_uv, "accessor", "op " << op << " vertex " << j);
      MC_EXPECT(c, m.FloatVertexAttribute(j, 1).Values()[0] == w.opacity_shift && m.FloatVertexAttribute(j, 4).Values()[0] == w.side_label.encoded_value, "mesh-attribute", j);
    }
    c.state(key);
  }
}
MC_SECTION(lerp, "interpolation between pairs of attribute sets over 9 label pairs per label and 11 parameters: scalar attributes interpolate linearly and extrapolate, endpoints exact, derivatives are zero, labels follow the end with t <= 0 or t >= 1, equal categories are kept, otherwise interior") {
  static const float L[] = {0, 127, -127, 30, -64}; static const float T[] = {-1, -0.25f, 0, 0.125f, 0.5f, 0.75f, 1, 1.5f, 3, 1e-6f, 0.999f};
  float la = c.of(L), lb = c.of(L), fa = c.of(L), fb = c.of(L), t = c.of(T); int k = c.pick(4);
  NPA a{.opacity_shift = 0.5f * k, .hsl_shift = {1, -0.25f, 0.5f}, .side_derivative = {3, 4}, .side_label = {la}, .forward_derivative = {5, 6}, .forward_label = {fa}, .surface_uv = {0.5f, 0}};
  NPA b{.opacity_shift = -1, .hsl_shift = {0, 0.75f, 0.5f * k}, .side_derivative = {-3, 1}, .side_label = {lb}, .forward_derivative = {2, 2}, .forward_label = {fb}, .surface_uv = {0.25f * k, 1}};
  NPA r = Lerp(a, b, t); c.op(1); c.eval(5);
  auto lin = [&](double p, double q) { return p + (q - p) * t; };
  auto near = [](double x, double y) { return std::abs(x - y) < 1e-5; };
  MC_EXPECT(c, near(r.opacity_shift, lin(a.opacity_shift, b.opacity_shift)) && near(r.hsl_shift[0], lin(1, 0)) && near(r.hsl_shift[1], lin(-0.25, 0.75)) && near(r.hsl_shift[2], lin(0.5, 0.5 * k)) && near(r.surface_uv.x, lin(0.5, 0.25 * k)) && near(r.surface_uv.y, lin(0, 1)), "values", t);
  MC_EXPECT(c, r.side_derivative == (Vec{0, 0}) && r.forward_derivative == (Vec{0, 0}), "derivatives", t);
  auto lab = [&](float p, float q) { return Sign(p) == Sign(q) ? Sign(p) : t <= 0 ? Sign(p) : t >= 1 ? Sign(q) : 0; };
  MC_EXPECT(c, Sign(r.side_label.encoded_value) == lab(la, lb) && Sign(r.forward_label.encoded_value) == lab(fa, fb), "labels", la << " " << lb << " t " << t << " -> " << r.side_label.encoded_value);
  if (t == 0) MC_EXPECT(c, r.opacity_shift == a.opacity_shift && r.hsl_shift == a.hsl_shift && r.surface_uv == a.surface_uv, "start", "");
  if (t == 1) MC_EXPECT(c, r.opacity_shift == b.opacity_shift && r.hsl_shift == b.hsl_shift && r.surface_uv == b.surface_uv, "end", "");
  c.add_states(1);
}
MC_SECTION(barycentric, "barycentric interpolation over all label triples and coordinates in steps of 1/4 (inside and outside): values are the weighted sums, derivatives zero, labels interpolate along the edge whose opposite coordinate is zero and are interior elsewhere") {
  static const float L[] = {0, 127, -127}; float la = c.of(L), lb = c.of(L), lc = c.of(L); int i = int(c.pick(9)) - 2, j = int(c.pick(9)) - 2;
  std::array<float, 3> t = {i / 4.f, j / 4.f, 1 - i / 4.f - j / 4.f};
  NPA v[3]; for (int k = 0; k < 3; ++k) v[k] = {.opacity_shift = 0.5f * k, .hsl_shift = {1.f - k, 0.25f * k + .125f, .5f - .375f * k}, .side_derivative = {3, 4}, .side_label = {k == 0 ? la : k == 1 ? lb : lc}, .forward_derivative = {1, 1}, .forward_label = {k == 0 ? lb : k == 1 ? lc : la}, .surface_uv = {0.5f * k, float(k * k)}};
  NPA r = BarycentricLerp(v[0], v[1], v[2], t); c.op(1); c.eval(3); c.add_states(1);
  auto sum = [&](auto get) { return double(t[0]) * get(v[0]) + double(t[1]) * get(v[1]) + double(t[2]) * get(v[2]); };
  bool ok = std::abs(r.opacity_shift - sum([](NPA& a) { return a.opacity_shift; })) < 1e-6; for (int h = 0; h < 3; ++h) ok &= std::abs(r.hsl_shift[h] - sum([h](NPA& a) { return a.hsl_shift[h]; })) < 1e-6;
  ok &= std::abs(r.surface_uv.x - sum([](NPA& a) { return a.surface_uv.x; })) < 1e-6 && std::abs(r.surface_uv.y - sum([](NPA& a) { return a.surface_uv.y; })) < 1e-6;
  MC_EXPECT(c, ok, "values", t[0] << "," << t[1]);
  MC_EXPECT(c, r.side_derivative == (Vec{0, 0}) && r.forward_derivative == (Vec{0, 0}), "derivatives", "");
  auto edge = [&](float p, float q, float s) { return Sign(p) == Sign(q) ? Sign(p) : s <= 0 ? Sign(p) : s >= 1 ? Sign(q) : 0; };
  auto lab = [&](float p, float q, float s) { return t[0] == 0 ? edge(q, s, t[2]) : t[1] == 0 ? edge(p, s, t[2]) : t[2] == 0 ? edge(p, q, t[1]) : 0; };
  MC_EXPECT(c, Sign(r.side_label.encoded_value) == lab(la, lb, lc) && Sign(r.forward_label.encoded_value) == lab(lb, lc, la), "labels", la << " " << lb << " " << lc << " at " << t[0] << "," << t[1]);
}
MC_MAIN()
