// P21: MutableMesh against a list-of-vertices / list-of-triangles model, over every operation history.
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/mesh.h"
#include "meshmodel.h"
using ink::MutableMesh; using ink::Mesh; using ink::Point; using ink::SmallArray;
namespace {
struct Model {
  int fmt = 0;
  std::vector<std::vector<float>> v;
  std::vector<std::array<uint32_t, 3>> t;
};
const std::vector<MeshFormat>& Formats() {
  static const std::vector<MeshFormat> f = [] {
    std::vector<MeshFormat> r;
    r.push_back(*MeshFormat::Create({{AT::kFloat2PackedIn1Float, AI::kPosition}}, IF::k16BitUnpacked16BitPacked));
    r.push_back(*MeshFormat::Create({{AT::kFloat4PackedIn1Float, AI::kColorShiftHsl}, {AT::kFloat2Unpacked, AI::kPosition}, {AT::kFloat1PackedIn1UnsignedByte, AI::kOpacityShift}}, IF::k32BitUnpacked16BitPacked));
    r.push_back(*MeshFormat::Create({{AT::kFloat3PackedIn2Floats, AI::kCustom1}, {AT::kFloat2PackedIn4UnsignedBytes_X12_Y20, AI::kPosition}}, IF::k32BitUnpacked16BitPacked));
    return r;
  }();
  return f;
}
int Width(int fmt) { int n = 0; for (auto& a : Formats()[fmt].Attributes()) n += MeshFormat::ComponentCount(a.type); return n; }
int PosOff(int fmt) { int n = 0; for (auto& a : Formats()[fmt].Attributes()) { if (a.id == AI::kPosition) return n; n += MeshFormat::ComponentCount(a.type); } return -1; }
bool Valid(const Model& m) {
  for (auto& t : m.t) { for (auto i : t) if (i >= m.v.size()) return false; if (t[0] == t[1] || t[1] == t[2] || t[0] == t[2]) return false; }
  return true;
}
std::string Diff(const MutableMesh& g, const Model& m) {
  const MeshFormat& f = Formats()[m.fmt];
  if (g.Format() != f) return "format";
  if (g.VertexCount() != m.v.size()) return "vertex count " + std::to_string(g.VertexCount()) + " want " + std::to_string(m.v.size());
  if (g.TriangleCount() != m.t.size()) return "triangle count " + std::to_string(g.TriangleCount()) + " want " + std::to_string(m.t.size());
  if (g.VertexPositionAttributeIndex() != uint32_t(f.PositionAttributeIndex())) return "position attribute index";
  if (g.VertexStride() != size_t(4 * Width(m.fmt)) || g.IndexStride() != (f.GetIndexFormat() == IF::k16BitUnpacked16BitPacked ? 2u : 4u)) return "stride";
  if (g.RawVertexData().size() != g.VertexStride() * m.v.size() || g.RawIndexData().size() != g.IndexStride() * 3 * m.t.size()) return "raw size";
  for (size_t i = 0; i < m.v.size(); ++i) {
    int k = 0;
    for (size_t a = 0; a < f.Attributes().size(); ++a) {
      auto val = g.FloatVertexAttribute(i, a);
      if (val.Size() != MeshFormat::ComponentCount(f.Attributes()[a].type)) return "attribute size";
      for (float x : val.Values()) { if (ToBits(x) != ToBits(m.v[i][k])) return "vertex " + std::to_string(i) + " value " + std::to_string(k) + " is " + std::to_string(x) + " want " + std::to_string(m.v[i][k]); ++k; }
    }
    Point p = g.VertexPosition(i); int o = PosOff(m.fmt);
    if (ToBits(p.x) != ToBits(m.v[i][o]) || ToBits(p.y) != ToBits(m.v[i][o + 1])) return "position of vertex " + std::to_string(i);
    // Raw layout: components in attribute order, unpacked.
    if (std::memcmp(g.RawVertexData().data() + i * g.VertexStride(), m.v[i].data(), g.VertexStride()) != 0) return "raw vertex bytes";
  }
  for (size_t i = 0; i < m.t.size(); ++i) {
    if (g.TriangleIndices(i) != m.t[i]) return "triangle " + std::to_string(i);
    for (int k = 0; k < 3; ++k) {
      uint32_t raw = 0; std::memcpy(&raw, g.RawIndexData().data() + (3 * i + k) * g.IndexStride(), g.IndexStride());
      if (raw != m.t[i][k]) return "raw index";
    }
  }
  if (g.ValidateTriangles().ok() != Valid(m)) return std::string("ValidateTriangles says ") + (g.ValidateTriangles().ok() ? "ok" : "error");
  if (Valid(m))
    for (size_t i = 0; i < m.t.size(); ++i) {
      auto tri = g.GetTriangle(i); int o = PosOff(m.fmt);
      Point q[3] = {tri.p0, tri.p1, tri.p2};
      for (int k = 0; k < 3; ++k) if (ToBits(q[k].x) != ToBits(m.v[m.t[i][k]][o]) || ToBits(q[k].y) != ToBits(m.v[m.t[i][k]][o + 1])) return "GetTriangle";
    }
  return "";
}
uint64_t StateHash(const Model& m) { std::string s; s.append((const char*)&m.fmt, 4); for (auto& v : m.v) s.append((const char*)v.data(), v.size() * 4); s += "|"; for (auto& t : m.t) s.append((const char*)t.data(), 12); return std::hash<std::string>()(s); }
}
MC_SECTION(histories, "every history of up to 4 (quick) or 6 (thorough) operations out of 21 (append, set position, set attribute, append/set/insert triangle incl. invalid ones, resize up and down, clear, reset to another format, clone and replace, move) from an empty mesh of each of three formats: the whole observable state equals the model's after every operation") {
  Model m; m.fmt = c.pick(3);
  MutableMesh g(Formats()[m.fmt]);
  int depth = mc::tier(4, 6);
  float serial = 1;
  for (int step = 0; step < depth; ++step) {
    int op = c.pick(21);
    int nv = m.v.size(), nt = m.t.size();
    auto zero = [&] { return std::vector<float>(Width(m.fmt), 0.f); };
    auto addv = [&](float x, float y) { g.AppendVertex({x, y}); auto v = zero(); v[PosOff(m.fmt)] = x; v[PosOff(m.fmt) + 1] = y; m.v.push_back(v); };
    auto resize = [&](int a, int b) { g.Resize(a, b); m.v.resize(a, zero()); m.t.resize(b, {0, 0, 0}); };
    auto setattr = [&](int vi, int ai) {
      int k = 0; for (int a = 0; a < ai; ++a) k += MeshFormat::ComponentCount(Formats()[m.fmt].Attributes()[a].type);
      int n = MeshFormat::ComponentCount(Formats()[m.fmt].Attributes()[ai].type);
      SmallArray<float, 4> val(n); for (int i = 0; i < n; ++i) { val[i] = serial++; m.v[vi][k + i] = val[i]; }
      g.SetFloatVertexAttribute(vi, ai, val);
    };
    int na = Formats()[m.fmt].Attributes().size();
    switch (op) {
      case 0: addv(serial, -serial); serial++; break;
      case 1: for (int i = 0; i < 3; ++i) addv(i, serial++); break;
      case 2: c.assume(nv > 0); g.SetVertexPosition(0, {serial, 7}); m.v[0][PosOff(m.fmt)] = serial; m.v[0][PosOff(m.fmt) + 1] = 7; serial++; break;
      case 3: c.assume(nv > 1); g.SetVertexPosition(nv - 1, {kNan, -0.f}); m.v[nv - 1][PosOff(m.fmt)] = kNan; m.v[nv - 1][PosOff(m.fmt) + 1] = -0.f; break;
      case 4: c.assume(nv > 0); setattr(0, 0); break;
      case 5: c.assume(nv > 0); setattr(nv - 1, na - 1); break;
      case 6: c.assume(nv > 1); setattr(nv / 2, na / 2); break;
      case 7: g.AppendTriangleIndices({0, 1, 2}); m.t.push_back({0, 1, 2}); break;
      case 8: g.AppendTriangleIndices({2, 0, 1}); m.t.push_back({2, 0, 1}); break;
      case 9: g.AppendTriangleIndices({0, 1, 1}); m.t.push_back({0, 1, 1}); break;
      case 10: g.AppendTriangleIndices({1, 65535, 256}); m.t.push_back({1, 65535, 256}); break;
      case 11: c.assume(nt > 0); g.SetTriangleIndices(0, {3, 2, 1}); m.t[0] = {3, 2, 1}; break;
      case 12: c.assume(nt > 1); g.SetTriangleIndices(nt - 1, {0, 2, 3}); m.t[nt - 1] = {0, 2, 3}; break;
      case 13: g.InsertTriangleIndices(0, {1, 2, 0}); m.t.insert(m.t.begin(), {1, 2, 0}); break;
      case 14: c.assume(nt > 1); g.InsertTriangleIndices(nt - 1, {2, 1, 0}); m.t.insert(m.t.end() - 1, {2, 1, 0}); break;
      case 15: g.InsertTriangleIndices(nt, {0, 1, 3}); m.t.push_back({0, 1, 3}); break;
      case 16: resize(nv + 2, nt + 1); break;
      case 17: c.assume(nv + nt > 0); resize(nv / 2, nt / 2); break;
      case 18: g.Clear(); m.v.clear(); m.t.clear(); break;
      case 19: { int nf = (m.fmt + 1) % 3; g.Reset(Formats()[nf]); m = Model(); m.fmt = nf; break; }
      case 20: {
        MutableMesh copy = g.Clone();
        std::string d = Diff(copy, m); MC_EXPECT(c, d.empty(), "clone", "clone differs: " << d);
        copy.AppendVertex({99, 99}); copy.AppendTriangleIndices({9, 9, 9});
        d = Diff(g, m); MC_EXPECT(c, d.empty(), "clone_aliases", "changing a clone changed the original: " << d);
        MutableMesh moved = std::move(copy); moved.Resize(nv, nt); g = std::move(moved);
        break;
      }
    }
    c.op();
    std::string d = Diff(g, m);
    MC_EXPECT(c, d.empty(), "state", "after operation " << op << " at step " << step << ": " << d);
    c.state(StateHash(m));
  }
}
MC_SECTION(validate, "all triangle lists of up to 2 triangles over indices {0..4} for meshes of 0 to 4 vertices, both index formats: ValidateTriangles accepts exactly lists whose triangles name three distinct existing vertices") {
  int fmt = c.pick(2), n = c.pick(5), k = c.pick(3);
  Model m; m.fmt = fmt; MutableMesh g(Formats()[fmt]);
  for (int i = 0; i < n; ++i) { g.AppendVertex({float(i), 1}); auto v = std::vector<float>(Width(fmt), 0.f); v[PosOff(fmt)] = i; v[PosOff(fmt) + 1] = 1; m.v.push_back(v); }
  for (int i = 0; i < k; ++i) { std::array<uint32_t, 3> t; for (auto& x : t) x = c.pick(5); g.AppendTriangleIndices(t); m.t.push_back(t); }
  std::string d = Diff(g, m); MC_EXPECT(c, d.empty(), "validate", d);
  c.state(StateHash(m));
}
MC_SECTION(index_values, "every 16-bit index value in each corner, and a 32-bit sweep by powers of two and their neighbours: stored and read back unchanged by append, set and insert") {
  int corner = c.pick(3), blk = c.pick(64);
  MutableMesh g16(Formats()[0]), g32(Formats()[1]);
  std::array<uint32_t, 3> other{7, 8, 9};
  for (uint32_t x = blk * 1024; x < (blk + 1) * 1024u; ++x) {
    auto t = other; t[corner] = x;
    for (auto* g : {&g16, &g32}) {
      g->Clear(); g->AppendTriangleIndices(t); g->InsertTriangleIndices(0, other); g->InsertTriangleIndices(1, t); g->SetTriangleIndices(0, t);
      bool ok = g->TriangleCount() == 3; for (int i = 0; ok && i < 3; ++i) ok = g->TriangleIndices(i) == t;
      MC_EXPECT(c, ok, "index", "index " << x << " corner " << corner);
      c.op(4);
    }
  }
  for (int b = 0; b < 32; ++b) for (int d = -1; d <= 1; ++d) {
    auto t = other; t[corner] = (1u << b) + d; g32.Clear(); g32.AppendTriangleIndices(other); g32.SetTriangleIndices(0, t);
    MC_EXPECT(c, g32.TriangleIndices(0) == t, "index32", "index " << t[corner]);
  }
  c.add_states(2048); c.add_nontrivial(2048);
}
MC_SECTION(from_mesh, "meshes of 0..4 vertices and 0..2, 9 or 50 triangles in each format: FromMesh holds exactly the unpacked values and indices of the mesh, in its format") {
  int fmt = c.pick(3), n = c.pick(5), k = n >= 3 ? c.of({0, 1, 2, 9, 50}) : 0;
  const MeshFormat& f = Formats()[fmt]; int w = Width(fmt);
  std::vector<std::vector<float>> cols(w); for (int j = 0; j < w; ++j) for (int i = 0; i < n; ++i) cols[j].push_back(j * 1.25f - i * (j + 0.3f));
  std::vector<absl::Span<const float>> spans(cols.begin(), cols.end()); std::vector<uint32_t> idx;
  for (int i = 0; i < 3 * k; ++i) idx.push_back((i * 7 + i / 3) % n);
  auto mesh = Mesh::Create(f, spans, idx);
  MC_EXPECT(c, mesh.ok(), "create", mesh.status());
  MutableMesh g = MutableMesh::FromMesh(*mesh);
  Model m; m.fmt = fmt;
  for (int i = 0; i < n; ++i) { std::vector<float> v; for (size_t a = 0; a < f.Attributes().size(); ++a) { auto val = mesh->FloatVertexAttribute(i, a); for (float x : val.Values()) v.push_back(x); } m.v.push_back(v); }
  for (int i = 0; i < k; ++i) m.t.push_back({idx[3 * i], idx[3 * i + 1], idx[3 * i + 2]});
  std::string d = Diff(g, m); MC_EXPECT(c, d.empty(), "from_mesh", d);
  c.state(StateHash(m));
}
MC_SECTION(preconditions, "debug preconditions: reading or writing past the end, an index too large for 16 bits, a wrong component count") {
  MutableMesh g(Formats()[0]); g.AppendVertex({1, 2}); g.AppendTriangleIndices({0, 0, 0});
  switch (c.pick(8)) {
    case 0: MC_EXPECT(c, mc::DiesOnCheck([&] { g.VertexPosition(1); }), "pre", "VertexPosition"); break;
    case 1: MC_EXPECT(c, mc::DiesOnCheck([&] { g.SetVertexPosition(1, {}); }), "pre", "SetVertexPosition"); break;
    case 2: MC_EXPECT(c, mc::DiesOnCheck([&] { g.FloatVertexAttribute(1, 0); }), "pre", "FloatVertexAttribute"); break;
    case 3: MC_EXPECT(c, mc::DiesOnCheck([&] { g.FloatVertexAttribute(0, 1); }), "pre", "FloatVertexAttribute attribute"); break;
    case 4: MC_EXPECT(c, mc::DiesOnCheck([&] { g.SetFloatVertexAttribute(0, 0, {1, 2, 3}); }), "pre", "SetFloatVertexAttribute"); break;
    case 5: MC_EXPECT(c, mc::DiesOnCheck([&] { g.TriangleIndices(1); }), "pre", "TriangleIndices"); break;
    case 6: MC_EXPECT(c, mc::DiesOnCheck([&] { g.AppendTriangleIndices({0, 0, 65536}); }), "pre", "AppendTriangleIndices"); break;
    case 7: MC_EXPECT(c, mc::DiesOnCheck([&] { g.InsertTriangleIndices(2, {0, 0, 0}); }), "pre", "InsertTriangleIndices"); break;
  }
  c.state(1);
}
MC_MAIN()
