// Target shapes and the brute-force oracle for PartitionedMesh queries. Coordinates are integers.
#pragma once
#include <set>
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "meshmodel.h"
#include "shapes2d.h"
using ink::AffineTransform; using ink::Mesh; using ink::PartitionedMesh;
constexpr int64_t kU = 1024;  // oracle units per half unit
struct Target {
  const char* name;
  std::vector<std::vector<std::array<IP, 3>>> meshes;  // in units
  std::vector<int> group_sizes;
};
inline const std::vector<Target>& Targets() {
  static const std::vector<Target> v = [] {
    std::vector<Target> r;
    r.push_back({"one triangle", {{{IP{0, 0}, IP{3, 0}, IP{1, 2}}}}, {1}});
    r.push_back({"square and negative triangle", {{{IP{0, 0}, IP{2, 0}, IP{2, 2}}, {IP{0, 0}, IP{2, 2}, IP{0, 2}}, {IP{1, 3}, IP{3, 3}, IP{3, 1}}}}, {1}});
    r.push_back({"two groups with degenerate triangles", {{{IP{0, 0}, IP{1, 1}, IP{2, 2}}, {IP{3, 0}, IP{3, 0}, IP{3, 0}}}, {{IP{0, 3}, IP{1, 2}, IP{1, 3}}, {IP{0, 3}, IP{0, 3}, IP{2, 3}}}, {{IP{2, 0}, IP{3, 1}, IP{2, 1}}}}, {1, 2}});
    Target s{"strip", {{}, {}}, {2}};
    for (int i = 0; i < 48; ++i) { int x = i / 2; std::array<IP, 3> t = i % 2 ? std::array<IP, 3>{IP{x, 1}, IP{x + 1, 2}, IP{x, 2}} : std::array<IP, 3>{IP{x, 1}, IP{x + 1, 1}, IP{x + 1, 2}}; s.meshes[i / 30].push_back(t); }
    r.push_back(s);
    return r;
  }();
  return v;
}
inline Mesh MakeMesh(const std::vector<std::array<IP, 3>>& t, int fmt = 0) {
  static const std::vector<MeshFormat> F = {
      *MeshFormat::Create({{AT::kFloat2Unpacked, AI::kPosition}}, IF::k16BitUnpacked16BitPacked),
      *MeshFormat::Create({{AT::kFloat1Unpacked, AI::kOpacityShift}, {AT::kFloat2Unpacked, AI::kPosition}}, IF::k16BitUnpacked16BitPacked)};
  std::vector<float> x, y; std::vector<uint32_t> idx;
  for (auto& tri : t) for (auto p : tri) { idx.push_back(x.size()); x.push_back(p.x); y.push_back(p.y); }
  std::vector<absl::Span<const float>> cols; if (fmt == 1) cols.push_back(x); cols.push_back(x); cols.push_back(y);
  return *Mesh::Create(F[fmt], cols, idx);
}
inline PartitionedMesh MakePm(const Target& t) {
  std::vector<Mesh> m; std::vector<PartitionedMesh::MeshGroup> g; int g_idx = 0; size_t at = 0;
  std::vector<int> fmt; for (int n : t.group_sizes) { for (int i = 0; i < n; ++i) fmt.push_back(g_idx % 2); ++g_idx; }
  for (size_t i = 0; i < t.meshes.size(); ++i) m.push_back(MakeMesh(t.meshes[i], fmt[i]));
  for (int n : t.group_sizes) { g.push_back({.meshes = absl::MakeConstSpan(m).subspan(at, n)}); at += n; }
  return *PartitionedMesh::FromMeshGroups(g);
}
// Exact image of a half-unit point under a transform whose entries are multiples of 1/1024 (others are rounded).
struct Xf { const char* name; double a, b, c, d, e, f; bool exact; bool invertible() const { return a * e - b * d != 0; }
  AffineTransform Get() const { return AffineTransform(a, b, c, d, e, f); }
  IP operator()(IP half) const { return {llround((a * half.x + b * half.y + 2 * c) * kU), llround((d * half.x + e * half.y + 2 * f) * kU)}; } };
inline Shape Apply(const Xf& t, Shape s) { for (int i = 0; i < s.n; ++i) s.p[i] = t(s.p[i]); return s; }
inline Shape Tri(const std::array<IP, 3>& t) { return {2, 3, {IP{2 * t[0].x, 2 * t[0].y}, IP{2 * t[1].x, 2 * t[1].y}, IP{2 * t[2].x, 2 * t[2].y}}}; }
// -1 must miss, +1 must hit, 0 too close to tell at float precision.
constexpr int64_t kDelta = 4;
inline Shape Shift(Shape s, int64_t dx, int64_t dy) { for (int i = 0; i < s.n; ++i) { s.p[i].x += dx; s.p[i].y += dy; } return s; }
inline int Judge(const Shape& a, const Shape& b, bool exact) {
  if (exact) return Separated(a, b) ? -1 : 1;
  if (Separated(a, b) && ShapeDist(a, b) > kDelta) return -1;
  static const int64_t D[8][2] = {{8, 0}, {-8, 0}, {0, 8}, {0, -8}, {6, 6}, {-6, 6}, {6, -6}, {-6, -6}};
  for (auto& d : D) if (Separated(Shift(a, d[0], d[1]), b)) return 0;
  return 1;
}
inline const std::vector<Xf>& Transforms() {
  static const std::vector<Xf> v = {
      {"identity", 1, 0, 0, 0, 1, 0, true}, {"translate", 1, 0, 1, 0, 1, -0.5, true}, {"double", 2, 0, -1, 0, 2, 0, true}, {"flip", -1, 0, 3, 0, 1, 0, true}, {"shear", 1, 1, 0, 0, 1, 0, true},
      {"quarter turn", 0, -1, 3, 1, 0, 0, true}, {"turn and scale", 0.75, -0.5, 1, 0.5, 0.75, 0, false}, {"stretch", 6, 0, 0, 0, 0.25, 1, false}, {"far", 1, 0, 20, 0, 1, 0, true},
      {"onto x", 1, 0, 0, 0, 0, 1, false}, {"onto diagonal", 1, 0, 0, 1, 0, 0, false}, {"onto diagonal of x+y", 0.5, 0.5, 0, 0.5, 0.5, 0, false}, {"onto line of x-y", 1, -1, 1, 0.5, -0.5, 1, false}, {"to a point", 0, 0, 1, 0, 0, 1, false}};
  return v;
}
