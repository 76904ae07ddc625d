// P22: Mesh::Create accepts exactly the documented inputs and keeps them within packing error.
#include "ink/geometry/mesh.h"
#include "meshmodel.h"
using ink::Mesh; using ink::Point; using ink::SmallArray; using ink::MeshAttributeCodingParams;
namespace {
using OptParams = std::optional<MeshAttributeCodingParams>;
struct Input {
  std::vector<std::pair<AT, AI>> attrs;
  std::vector<std::vector<float>> cols;
  std::vector<uint32_t> idx;
  std::vector<OptParams> params;
};
MeshFormat Fmt(const Input& in) { return *MeshFormat::Create(absl::MakeConstSpan(in.attrs.data(), in.attrs.size()), IF::k16BitUnpacked16BitPacked); }
absl::StatusOr<Mesh> Make(const Input& in) { std::vector<absl::Span<const float>> s(in.cols.begin(), in.cols.end()); return Mesh::Create(Fmt(in), s, in.idx, in.params); }
MeshAttributeCodingParams P(int n, float off, float scale) { MeshAttributeCodingParams p; p.components = SmallArray<MeshAttributeCodingParams::ComponentCodingParams, 4>(n, {off, scale}); return p; }
double MaxInt(const TypeInfo& t, int k) { return double((1u << t.bits[k]) - 1); }
// The documented conditions, for inputs whose representability is not a matter of rounding.
bool Acceptable(const Input& in) {
  size_t comps = 0; for (auto& a : in.attrs) comps += Find(a.first)->comps;
  if (in.cols.size() != comps) return false;
  size_t n = in.cols[0].size();
  for (auto& col : in.cols) { if (col.size() != n) return false; for (float x : col) if (!std::isfinite(x)) return false; }
  if (n > 65536 || in.idx.size() % 3) return false;
  for (auto i : in.idx) if (i >= n) return false;
  if (n == 0 || in.params.empty()) return true;
  if (in.params.size() != in.attrs.size()) return false;
  int col = 0;
  for (size_t a = 0; a < in.attrs.size(); col += Find(in.attrs[a].first)->comps, ++a) {
    if (!in.params[a]) continue;
    const TypeInfo& t = *Find(in.attrs[a].first);
    if (t.bits.empty() || in.params[a]->components.Size() != t.comps) return false;
    for (int k = 0; k < t.comps; ++k) {
      auto p = in.params[a]->components[k];
      if (!std::isfinite(p.offset) || !std::isfinite(p.scale)) return false;
      for (float x : in.cols[col + k]) if (x < p.offset || x > p.offset + double(p.scale) * ((1u << t.bits[k]) - 1)) return false;
    }
  }
  return true;
}
// The whole contract on a mesh created from valid input.
std::string Check(const Input& in, const Mesh& m) {
  size_t n = in.cols[0].size();
  MeshFormat f = Fmt(in);
  if (m.Format() != f) return "format";
  if (m.VertexCount() != n) return "vertex count";
  if (m.TriangleCount() != in.idx.size() / 3) return "triangle count";
  for (uint32_t i = 0; i < m.TriangleCount(); ++i) {
    auto t = m.TriangleIndices(i); for (int k = 0; k < 3; ++k) if (t[k] != in.idx[3 * i + k]) return "triangle indices";
    auto tri = m.GetTriangle(i); if (tri.p0 != m.VertexPosition(t[0]) || tri.p1 != m.VertexPosition(t[1]) || tri.p2 != m.VertexPosition(t[2])) return "GetTriangle";
  }
  if (m.RawVertexData().size() != n * f.PackedVertexStride() || m.RawIndexData().size() != 2 * in.idx.size() || m.IndexStride() != 2 || m.VertexStride() != f.PackedVertexStride()) return "raw sizes";
  int col = 0;
  for (size_t a = 0; a < in.attrs.size(); ++a) {
    const TypeInfo& t = *Find(in.attrs[a].first);
    auto b = m.AttributeBounds(a);
    if (b.has_value() != (n > 0)) return "bounds presence";
    const auto& up = m.VertexAttributeUnpackingParams(a);
    if (up.components.Size() != t.comps) return "unpacking params size";
    for (int k = 0; k < t.comps; ++k, ++col) {
      double off = up.components[k].offset, sc = up.components[k].scale;
      if (!(sc > 0) || !std::isfinite(sc) || !std::isfinite(off)) return "unpacking params not usable";
      if (n > 0) {
        float lo = *std::min_element(in.cols[col].begin(), in.cols[col].end()), hi = *std::max_element(in.cols[col].begin(), in.cols[col].end());
        if (b->minimum[k] != lo || b->maximum[k] != hi) return "bounds values";
        if (!t.bits.empty() && (in.params.empty() || !in.params[a].has_value())) {
          // Default transform: full precision for the bounds.
          double want = (double(hi) - lo) / MaxInt(t, k);
          double mag = std::max({std::abs(double(lo)), std::abs(double(hi)), 1e-30});
          double slack = mag * 1e-6 + 1e-37;
          if (hi > lo && (sc < want * 0.999 - 1e-44 || sc > want * 1.001 + slack / MaxInt(t, k) * 4)) return "default scale " + std::to_string(sc) + " want " + std::to_string(want);
        }
      } else if (sc != 1 || off != 0) return "empty mesh transform";
      for (size_t v = 0; v < n; ++v) {
        float x = in.cols[col][v];
        auto val = m.FloatVertexAttribute(v, a);
        if (val.Size() != t.comps) return "component count";
        if (t.bits.empty()) { if (ToBits(val[k]) != ToBits(x)) return "unpacked value changed"; continue; }
        auto in2 = m.PackedIntegersForFloatVertexAttribute(v, a);
        if (in2[k] > MaxInt(t, k)) return "packed integer out of range";
        double tol = sc * 0.5 + 4e-7 * (std::abs(double(x)) + std::abs(off) + sc * MaxInt(t, k)) + 1e-44;
        if (std::abs(double(val[k]) - x) > tol) return "value " + std::to_string(x) + " came back as " + std::to_string(val[k]) + " step " + std::to_string(sc);
      }
    }
    if (in.attrs[a].second == AI::kPosition) {
      if (m.VertexPositionAttributeIndex() != a) return "position index";
      auto r = m.Bounds().AsRect();
      if (r.has_value() != (n > 0)) return "Bounds presence";
      if (n > 0 && (r->XMin() != b->minimum[0] || r->YMin() != b->minimum[1] || r->XMax() != b->maximum[0] || r->YMax() != b->maximum[1])) return "Bounds";
      for (size_t v = 0; v < n; ++v) { auto p = m.VertexPosition(v); auto q = m.FloatVertexAttribute(v, a); if (p.x != q[0] || p.y != q[1]) return "VertexPosition"; }
    }
  }
  return "";
}
}
MC_SECTION(every_type, "every attribute type beside every position type, vertex columns drawn from 5 value families, 0 to 4 vertices: accepted; counts, indices, bounds, exact or half-step values, integers in range, default transform uses the full range") {
  auto& t = c.of(Types());
  std::vector<AT> pos; for (auto& i : Types()) if (i.comps == 2) pos.push_back(i.type);
  AT p = c.of(pos); bool first = c.flag();
  int n = c.pick(5), fam = c.pick(5), fam2 = c.pick(5);
  Input in; in.attrs = {{t.type, AI::kCustom0}}; in.attrs.insert(first ? in.attrs.begin() : in.attrs.end(), {p, AI::kPosition});
  static const float V[5][4] = {{0, 1, 2, 3}, {-1.5f, 1e-3f, 7.25f, 7.25f}, {5, 5, 5, 5}, {-1e6f, 1e6f, 33.3f, 0}, {-0.f, 1e-20f, 3e-20f, 2e-20f}};
  for (auto& a : in.attrs) for (int k = 0; k < Find(a.first)->comps; ++k) { in.cols.emplace_back(); for (int i = 0; i < n; ++i) in.cols.back().push_back(V[((&a == &in.attrs[0] ? fam : fam2) + (k > 1)) % 5][(i + k) % 4]); }
  if (n >= 3) in.idx = {0, 1, 2, 2, 0, 1};
  auto m = Make(in); MC_EXPECT(c, m.ok(), "rejected", t.name << " " << m.status());
  std::string d = Check(in, *m); MC_EXPECT(c, d.empty(), "contract", t.name << " n=" << n << " families " << fam << fam2 << ": " << d);
  Mesh copy = *m; MC_EXPECT(c, copy.RawVertexData().data() == m->RawVertexData().data() && copy.RawIndexData().data() == m->RawIndexData().data(), "sharing", "a copy does not share the data");
  c.op(2); c.state(mc::Hash(int(t.type), int(p), n, fam, fam2, first)); c.outcome(m->VertexStride());
}
MC_SECTION(positions, "all triples of positions over an 8-value coordinate alphabet (thorough 12), default transform, each packed position type") {
  static const float A[] = {0, 1, -1, 0.1f, 100.3f, -3e5f, 1e-6f, 0.5f, 3e5f, 1.0000001f, 1e30f, -1e-30f};
  std::vector<AT> pos; for (auto& i : Types()) if (i.comps == 2) pos.push_back(i.type);
  Input in; in.attrs = {{c.of(pos), AI::kPosition}}; in.cols.resize(2);
  int k = mc::tier(8, 12);
  float a = A[c.pick(k)], b = A[c.pick(k)], d = A[c.pick(k)];
  in.cols[0] = {a, b, d}; in.cols[1] = {d, a, b}; in.idx = {0, 1, 2};
  auto m = Make(in); MC_EXPECT(c, m.ok(), "rejected", a << " " << b << " " << d << " " << m.status());
  std::string e = Check(in, *m); MC_EXPECT(c, e.empty(), "contract", a << " " << b << " " << d << ": " << e);
  c.op(); c.state(mc::Hash(int(in.attrs[0].first), a, b, d));
}
MC_SECTION(errors, "each documented error condition, at every position it can occur, alone and combined with a second one: rejected, and the same input without it accepted") {
  Input in; in.attrs = {{AT::kFloat3PackedIn1Float, AI::kCustom0}, {AT::kFloat2PackedIn1Float, AI::kPosition}, {AT::kFloat1Unpacked, AI::kOpacityShift}};
  in.cols = {{0, 1, 2, 3}, {5, 4, 3, 2}, {1, 1, 1, 1}, {0, 1, 1, 0}, {0, 0, 1, 1}, {9, 8, 7, 6}}; in.idx = {0, 1, 2, 0, 2, 3};
  bool with_params = c.flag();
  if (with_params) in.params = {P(3, -1, 0.25f), P(2, 0, 0.001f), std::nullopt};
  MC_EXPECT(c, Make(in).ok(), "baseline", "baseline rejected");
  int faults = 1 + c.pick(2); int prev = -1;
  for (int f = 0; f < faults; ++f) {
    int kind = c.pick(13); c.assume(kind >= prev); prev = kind;
    switch (kind) {
      case 0: in.cols.pop_back(); break;
      case 1: in.cols.push_back({1, 2, 3, 4}); break;
      case 2: in.cols[c.pick(in.cols.size())].push_back(1); break;
      case 3: in.cols[c.pick(in.cols.size())].pop_back(); break;
      case 4: { int j = c.pick(in.cols.size()), i = c.pick(in.cols[j].size()); in.cols[j][i] = c.of({kInf, -kInf, kNan}); break; }
      case 5: in.idx.pop_back(); break;
      case 6: in.idx.push_back(0); break;
      case 7: in.idx[c.pick(in.idx.size())] = c.of({3u, 4u, 5u, 100u, 65536u, 65535u, 0xFFFFFFFFu}); break;
      case 8: if (in.params.empty()) in.params = {std::nullopt, std::nullopt}; else in.params.pop_back(); break;
      case 9: c.assume(in.params.size() == 3); in.params[2] = P(1, 0, 1); break;
      case 10: c.assume(in.params.size() >= 2); { int j = c.pick(2); in.params[j] = P(j == 0 ? 2 : 3, 0, 0.25f); } break;
      case 11: c.assume(in.params.size() >= 2); { int j = c.pick(2); auto p = P(j == 0 ? 3 : 2, -1, 0.25f); int k = c.pick(p.components.Size()); float x = c.of({kInf, -kInf, kNan}); if (c.flag()) p.components[k].offset = x; else p.components[k].scale = x; in.params[j] = p; } break;
      case 12: c.assume(in.params.size() >= 2); { int j = c.pick(2); auto p = P(j == 0 ? 3 : 2, -1, 0.25f); int k = c.pick(p.components.Size()); p.components[k] = c.of({MeshAttributeCodingParams::ComponentCodingParams{0.5f, 0.25f}, {-1, 0.0001f}, {10, 1}}); in.params[j] = p; } break;
    }
  }
  bool want = Acceptable(in); auto m = Make(in);
  MC_EXPECT(c, m.ok() == want, "errors", (want ? "rejected: " : "accepted although documented as an error") << m.status());
  if (m.ok()) { std::string d = Check(in, *m); MC_EXPECT(c, d.empty(), "contract", d); }
  c.op(2); c.state(mc::Hash(prev, faults, with_params, in.cols.size(), in.idx.size())); c.add_nontrivial(!want); c.outcome(want);
}
MC_SECTION(range_overflow, "columns whose span overflows a float, each component of each packed type: rejected; the same with half the values: accepted") {
  std::vector<TypeInfo> pk; for (auto& t : Types()) if (!t.bits.empty()) pk.push_back(t);
  auto& t = c.of(pk); int k = c.pick(t.comps); bool half = c.flag();
  float hi = half ? kMax / 2 : c.of({kMax, 2e38f}), lo = half ? -kMax / 2 : -kMax;
  Input in; in.attrs = {{AT::kFloat2Unpacked, AI::kPosition}, {t.type, AI::kCustom3}}; in.cols = {{0, 1, 2}, {0, 3, 1}};
  for (int i = 0; i < t.comps; ++i) in.cols.push_back(i == k ? std::vector<float>{hi, lo, 0} : std::vector<float>{1, 2, 3});
  auto m = Make(in); MC_EXPECT(c, m.ok() == half, "range", t.name << " [" << lo << "," << hi << "] " << (m.ok() ? "accepted" : "rejected"));
  c.op(); c.state(mc::Hash(int(t.type), k, half));
}
MC_SECTION(custom_params, "custom transforms for each packed type: offsets and scales over a grid; accepted exactly when the columns' bounds are representable, then values are within half a step") {
  std::vector<TypeInfo> pk; for (auto& t : Types()) if (!t.bits.empty()) pk.push_back(t);
  auto& t = c.of(pk); int k = c.pick(t.comps);
  float off = c.of({0.f, -1.f, 0.5f, 10.f, -1000.f}), scale = c.of({1.f, 0.25f, 0.001f, 100.f, 1e-6f});
  float lo = c.of({-1.f, 0.f, 0.5f, 10.f}), hi = lo + c.of({0.f, 1.f, 16.f, 900.f});
  Input in; in.attrs = {{AT::kFloat2Unpacked, AI::kPosition}, {t.type, AI::kCustom3}}; in.cols = {{0, 1, 2}, {0, 3, 1}};
  auto p = P(t.comps, 0, 1); p.components[k] = {off, scale}; in.params = {std::nullopt, p};
  for (int i = 0; i < t.comps; ++i) in.cols.push_back(i == k ? std::vector<float>{hi, lo, (hi + lo) / 2} : std::vector<float>{1, 2, 3});
  double top = off + double(scale) * MaxInt(t, k);
  double eps = 1e-5 * (std::abs(off) + std::abs(top)) + scale * 0.6;  // at the edge either answer may be given, by rounding
  auto m = Make(in);
  bool inside = lo >= off && hi <= top, clearly_out = lo < off - eps || hi > top + eps;
  MC_EXPECT(c, !(inside && !m.ok() && lo > off - 1e-9 && hi < top - eps), "rejected", t.name << " off " << off << " scale " << scale << " [" << lo << "," << hi << "]");
  MC_EXPECT(c, !(clearly_out && m.ok()), "accepted", t.name << " off " << off << " scale " << scale << " [" << lo << "," << hi << "]");
  if (m.ok()) {
    auto& u = m->VertexAttributeUnpackingParams(1); MC_EXPECT(c, u.components.Size() == p.components.Size() && u.components[k].offset == off && u.components[k].scale == scale, "params", "the custom transform is not the mesh's transform");
    for (int v = 0; v < 3; ++v) { double x = in.cols[2 + k][v], y = m->FloatVertexAttribute(v, 1)[k]; MC_EXPECT(c, std::abs(x - y) <= scale * 0.5 + 1e-5 * (std::abs(x) + std::abs(off) + scale) + (inside ? 0 : eps), "value", t.name << " " << x << " -> " << y << " step " << scale); }
  }
  c.op(); c.state(mc::Hash(int(t.type), k, off, scale, lo, hi)); c.outcome(m.ok());
}
MC_SECTION(limits, "0, 1, 65535, 65536, 65537 vertices: accepted up to 65536, the last vertex usable; packing params ignored without vertices") {
  int n = c.of({0, 1, 65535, 65536, 65537, 131072}); bool use_last = c.flag(), junk = c.flag();
  Input in; in.attrs = {{AT::kFloat2Unpacked, AI::kPosition}}; in.cols.assign(2, std::vector<float>(n));
  for (int i = 0; i < n; ++i) { in.cols[0][i] = i; in.cols[1][i] = i % 100; }
  if (n > 2) in.idx = {0, 1, use_last ? uint32_t(n - 1) : 2u};
  if (junk) { c.assume(n == 0); in.params = {P(3, kNan, -1), P(2, 0, 0)}; }
  auto m = Make(in); MC_EXPECT(c, m.ok() == (n <= 65536), "limit", n << (m.ok() ? " accepted" : " rejected"));
  if (m.ok()) { std::string d = Check(in, *m); MC_EXPECT(c, d.empty(), "contract", n << ": " << d); }
  c.op(); c.state(mc::Hash(n, use_last, junk));
}
MC_SECTION(default_mesh, "a default-constructed mesh is empty with the default format; independent of meshes created before") {
  Mesh m; MC_EXPECT(c, m.VertexCount() == 0 && m.TriangleCount() == 0 && m.Bounds().IsEmpty() && m.Format() == MeshFormat() && !m.AttributeBounds(0).has_value() && m.RawVertexData().empty() && m.RawIndexData().empty(), "default", "not empty");
  MC_EXPECT(c, mc::DiesOnCheck([&] { m.TriangleIndices(0); }) && mc::DiesOnCheck([&] { m.VertexPosition(0); }), "pre", "reading past the end");
  c.state(1);
}
MC_MAIN()
