// P48: the parts the extruder is built from: mesh views, outlines, fans, simplification, vertices and updates.
#include <array>
#include <cmath>
#include <optional>
#include <vector>

#include "ink/strokes/internal/brush_tip_extruder/directed_partial_outline.h"
#include "ink/strokes/internal/brush_tip_extruder/extruded_vertex.h"
#include "ink/strokes/internal/brush_tip_extruder/find_clockwise_winding_segment.h"
#include "ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.h"
#include "ink/strokes/internal/brush_tip_extruder/side.h"
#include "ink/strokes/internal/brush_tip_extruder/simplify.h"
#include "ink/strokes/internal/legacy_vertex.h"
#include "ink/strokes/internal/stroke_shape_update.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "mc.h"
using namespace ink;
using namespace ink::brush_tip_extruder_internal;
using namespace ink::strokes_internal;
using NPA = StrokeVertex::NonPositionAttributes;
static ExtrudedVertex Vert(int k) {
  float f = (float)k;
  return {.position = {f + 1, 2 - f},
          .new_non_position_attributes = {.opacity_shift = .0625f * f, .hsl_shift = {.0625f * f + .25f, .5f - .125f * f, .03125f * f}, .side_derivative = {f, 3}, .side_label = {float(10 * k)}, .forward_derivative = {-1, f + .5f}, .forward_label = {float(-7 * k)}, .surface_uv = {.25f * f, 1 - .125f * f}},
          .color = {.1f * f, .2f, .3f * f, 1 - .1f * f}, .texture_coords = {f, .5f}, .secondary_texture_coords = {.25f, f * f}};
}
static ExtrudedVertex At(float x, float y, int tag = 0) { ExtrudedVertex v = Vert(0); v.position = {x, y}; v.new_non_position_attributes.opacity_shift = tag / 64.f; v.color.r = (float)tag; return v; }
// The parts of a vertex a mesh or the legacy vectors can hold.
static bool SameNew(const ExtrudedVertex& a, const ExtrudedVertex& b) { return a.position == b.position && a.new_non_position_attributes == b.new_non_position_attributes; }
static bool SameOld(const ExtrudedVertex& a, const ExtrudedVertex& b) { return a.position == b.position && a.color.r == b.color.r && a.color.g == b.color.g && a.color.b == b.color.b && a.color.a == b.color.a && a.texture_coords == b.texture_coords && a.secondary_texture_coords == b.secondary_texture_coords; }
static std::vector<Point> Grid() { std::vector<Point> g; for (int i = 0; i < 9; ++i) g.push_back({float(i % 3), float(i / 3)}); return g; }
static const std::vector<Point> kGrid = Grid();
static double Cross(Point a, Point b, Point c) { return double(b.x - a.x) * (c.y - a.y) - double(b.y - a.y) * (c.x - a.x); }
static double Len(Point a, Point b) { return std::hypot(double(a.x) - b.x, double(a.y) - b.y); }

MC_SECTION(view_histories, "every sequence of up to 3 (thorough 4) of 17 operations on a view of a mesh and a view of legacy vectors: both hold exactly the vertices and triangles written, report the first vertex and triangle changed since the last reset, keep zero derivatives and interior labels for legacy vectors, and die on indices out of range") {
  MutableMesh mesh(StrokeVertex::FullMeshFormat()); std::vector<LegacyVertex> lv; std::vector<uint32_t> li; MutableMeshView view(mesh), old(lv, li);
  std::vector<ExtrudedVertex> vs; std::vector<std::array<uint32_t, 3>> ts; uint32_t fv = 0, ft = 0, ofv = 0;
  auto append_vertex = [&](int k) { view.AppendVertex(Vert(k)); old.AppendVertex(Vert(k)); vs.push_back(Vert(k)); };
  auto append_triangle = [&](std::array<uint32_t, 3> t) { view.AppendTriangleIndices(t); old.AppendTriangleIndices(t); ts.push_back(t); };
  auto reset = [&] { view.ResetMutationTracking(); old.ResetMutationTracking(); fv = ofv = (uint32_t)vs.size(); ft = (uint32_t)ts.size(); };
  for (int i = 0; i < 3; ++i) append_vertex(i);
  append_triangle({0, 1, 2}); append_triangle({2, 1, 0}); if (c.flag()) reset();
  auto check = [&](const char* op) {
    MC_EXPECT(c, view.VertexCount() == vs.size() && old.VertexCount() == vs.size() && view.TriangleCount() == ts.size() && old.TriangleCount() == ts.size(), "counts", op);
    for (uint32_t i = 0; i < vs.size(); ++i) {
      auto a = view.GetVertex(i), b = old.GetVertex(i); c.eval(4); const NPA& n = vs[i].new_non_position_attributes;
      MC_EXPECT(c, SameNew(a, vs[i]) && view.GetPosition(i) == vs[i].position, "vertex", op << " vertex " << i);
      MC_EXPECT(c, SameOld(b, vs[i]) && old.GetPosition(i) == vs[i].position, "legacy-vertex", op << " vertex " << i);
      MC_EXPECT(c, view.GetSideDerivative(i) == n.side_derivative && view.GetForwardDerivative(i) == n.forward_derivative && view.GetSideLabel(i) == n.side_label && view.GetForwardLabel(i) == n.forward_label, "attributes", op << " vertex " << i);
      MC_EXPECT(c, old.GetSideDerivative(i) == (Vec{0, 0}) && old.GetForwardDerivative(i) == (Vec{0, 0}) && old.GetSideLabel(i) == StrokeVertex::kInteriorLabel && old.GetForwardLabel(i) == StrokeVertex::kInteriorLabel, "legacy-attributes", op << " vertex " << i);
    }
    for (uint32_t t = 0; t < ts.size(); ++t) {
      c.eval(2); MC_EXPECT(c, view.GetTriangleIndices(t) == ts[t] && old.GetTriangleIndices(t) == ts[t], "triangle", op << " triangle " << t); bool in = true;
      for (uint32_t k = 0; k < 3; ++k) { MC_EXPECT(c, view.GetVertexIndex(t, k) == ts[t][k] && old.GetVertexIndex(t, k) == ts[t][k], "vertex-index", op << " triangle " << t); in &= ts[t][k] < vs.size(); }
      if (in) for (auto* v : {&view, &old}) { Triangle tr = v->GetTriangle(t); MC_EXPECT(c, tr.p0 == vs[ts[t][0]].position && tr.p1 == vs[ts[t][1]].position && tr.p2 == vs[ts[t][2]].position, "triangle-points", op << " triangle " << t); }
    }
    MC_EXPECT(c, view.FirstMutatedVertex() == fv && view.FirstMutatedTriangle() == ft, "first-mutated", op << " " << view.FirstMutatedVertex() << " " << view.FirstMutatedTriangle() << " not " << fv << " " << ft);
    MC_EXPECT(c, old.FirstMutatedVertex() == ofv && old.FirstMutatedTriangle() == ft, "legacy-first-mutated", op << " " << old.FirstMutatedVertex() << " " << old.FirstMutatedTriangle() << " not " << ofv << " " << ft);
  };
  check("start");
  int n = 1 + c.pick(mc::tier(3, 4));
  for (int s = 0; s < n; ++s) {
    int op = c.pick(17); uint32_t nv = (uint32_t)vs.size(), nt = (uint32_t)ts.size(), i = op & 1 ? nv - 1 : 0, t = op & 1 ? nt - 1 : 0; c.op(1);
    if (op >= 2 && op < 14 && op != 12 && op != 13) c.assume(nv > 0);
    switch (op) {
      case 0: append_vertex(3 + s); break;
      case 1: append_triangle({nv, 0, 1}); break;
      case 2: case 3: view.SetVertex(i, Vert(7 + s)); old.SetVertex(i, Vert(7 + s)); vs[i] = Vert(7 + s); fv = std::min(fv, i); ofv = std::min(ofv, i); break;
      case 4: case 5: view.SetSideDerivative(i, {9, -8}); old.SetSideDerivative(i, {9, -8}); vs[i].new_non_position_attributes.side_derivative = {9, -8}; fv = std::min(fv, i); break;
      case 6: case 7: view.SetForwardDerivative(i, {5, -6}); old.SetForwardDerivative(i, {5, -6}); vs[i].new_non_position_attributes.forward_derivative = {5, -6}; fv = std::min(fv, i); break;
      case 8: case 9: view.SetSideLabel(i, {77}); old.SetSideLabel(i, {77}); vs[i].new_non_position_attributes.side_label = {77}; fv = std::min(fv, i); break;
      case 10: case 11: view.SetForwardLabel(i, {-66}); old.SetForwardLabel(i, {-66}); vs[i].new_non_position_attributes.forward_label = {-66}; fv = std::min(fv, i); break;
      case 12: case 13: c.assume(nt > 0); view.SetTriangleIndices(t, {1, 1, 0}); old.SetTriangleIndices(t, {1, 1, 0}); ts[t] = {1, 1, 0}; ft = std::min(ft, t); break;
      case 14: { uint32_t at = nt / 2; view.InsertTriangleIndices(at, {0, 2, 1}); old.InsertTriangleIndices(at, {0, 2, 1}); ts.insert(ts.begin() + at, {0, 2, 1}); ft = std::min(ft, at); break; }
      case 15: { uint32_t v2 = nv > 1 ? nv - 2 : nv, t2 = nt > 0 ? nt - 1 : nt; view.Resize(v2, t2); old.Resize(v2, t2); vs.resize(v2); ts.resize(t2); fv = std::min(fv, v2); ofv = std::min(ofv, v2); ft = std::min(ft, t2); break; }
      case 16: reset(); break;
    }
    check("after an operation");
  }
  uint32_t nv = (uint32_t)vs.size(), nt = (uint32_t)ts.size(); c.state(mc::Hash(nv, nt, fv, ft));
  if (n == 1 || n == 2) for (auto* v : {&view, &old}) {
    c.eval(6);
    MC_EXPECT(c, mc::DiesOnCheck([&] { v->GetPosition(nv); }) && mc::DiesOnCheck([&] { v->GetVertex(nv); }) && mc::DiesOnCheck([&] { v->GetSideLabel(nv); }) && mc::DiesOnCheck([&] { v->GetForwardLabel(nv); }) && mc::DiesOnCheck([&] { v->GetSideDerivative(nv); }) && mc::DiesOnCheck([&] { v->GetForwardDerivative(nv); }), "get-out-of-range", nv);
    MC_EXPECT(c, mc::DiesOnCheck([&] { v->SetVertex(nv, Vert(0)); }) && mc::DiesOnCheck([&] { v->SetSideLabel(nv, {0}); }) && mc::DiesOnCheck([&] { v->SetForwardDerivative(nv, {0, 0}); }), "set-out-of-range", nv);
    MC_EXPECT(c, mc::DiesOnCheck([&] { v->GetTriangle(nt); }) && mc::DiesOnCheck([&] { v->GetTriangleIndices(nt); }) && mc::DiesOnCheck([&] { v->SetTriangleIndices(nt, {0, 0, 0}); }) && mc::DiesOnCheck([&] { v->InsertTriangleIndices(nt + 1, {0, 0, 0}); }) && (nt == 0 || mc::DiesOnCheck([&] { v->GetVertexIndex(0, 3); })), "triangle-out-of-range", nt);
    check("after a refused operation");
  }
}
MC_SECTION(partial_outlines, "every pair of sides of 1 to 4 indices with every start of the partition, connected or not, with and without an intersection in progress that has or has not begun to change triangles: the outline runs backwards down the starting side and on up the ending side, as far as each reaches") {
  Side s[2]; uint32_t last[2], first[2]; bool connects = c.flag(); s[0].self_id = SideId::kLeft; s[1].self_id = SideId::kRight; s[0].first_triangle_vertex = s[1].first_triangle_vertex = 0;
  for (int k = 0; k < 2; ++k) {
    uint32_t n = 1 + c.pick(4); for (uint32_t i = 0; i < n; ++i) s[k].indices.push_back(10 * (k + 1) + i);
    last[k] = n - 1; int x = c.pick(3);
    if (x) { s[k].intersection.emplace(); s[k].intersection->starting_offset = c.pick(n); s[k].intersection->retriangulation_started = x == 2; if (x == 2) last[k] = s[k].intersection->starting_offset; }
    first[k] = c.pick(last[k] + 1); MC_EXPECT(c, LastOutlineIndexOffset(s[k]) == last[k], "last", LastOutlineIndexOffset(s[k]) << " not " << last[k]);
  }
  s[0].partition_start.adjacent_first_index_offset = first[0]; s[0].partition_start.opposite_first_index_offset = first[1]; s[0].partition_start.outline_connects_sides = connects;
  std::vector<uint32_t> want; for (uint32_t i = last[0] + 1; i-- > first[0];) want.push_back(s[0].indices[i]);
  size_t half = want.size(); if (connects) for (uint32_t i = first[1]; i <= last[1]; ++i) want.push_back(s[1].indices[i]);
  auto o = ConstructPartialOutline(s[0], s[1]); c.op(1); c.eval(3); std::vector<uint32_t> got; for (uint32_t i = 0; i < o.Size(); ++i) got.push_back(o[i]);
  MC_EXPECT(c, got == want, "outline", got.size() << " indices of " << want.size()); MC_EXPECT(c, o.StartingSideSize() == half, "starting-size", o.StartingSideSize());
  s[0].indices.push_back(99); MC_EXPECT(c, o.Size() == want.size() && o[0] == want[0], "appended", "");
  MC_EXPECT(c, DirectedPartialOutline().Size() == 0, "empty", "");
}
// Exact intersection of segments with small integer ends: the smallest parameter along the first, if any.
static std::optional<double> FirstMeeting(Point a, Point b, Point p, Point q) {
  auto on = [](Point u, Point v, Point w) { return Cross(u, v, w) == 0 && std::min(u.x, v.x) <= w.x && w.x <= std::max(u.x, v.x) && std::min(u.y, v.y) <= w.y && w.y <= std::max(u.y, v.y); };
  double best = 2, l2 = Len(a, b) * Len(a, b); auto along = [&](Point w) { return l2 == 0 ? 0 : ((w.x - a.x) * double(b.x - a.x) + (w.y - a.y) * double(b.y - a.y)) / l2; };
  for (Point w : {p, q}) if (on(a, b, w)) best = std::min(best, along(w));
  for (Point w : {a, b}) if (on(p, q, w)) best = std::min(best, along(w));
  double d1 = Cross(p, q, a), d2 = Cross(p, q, b), d3 = Cross(a, b, p), d4 = Cross(a, b, q);
  if (d1 * d2 < 0 && d3 * d4 < 0) best = std::min(best, d1 / (d1 - d2));
  if (best > 1) return std::nullopt;
  return best;
}
MC_SECTION(outline_intersections, "every outline of 1 to 3 (thorough 4) points of a 3x3 grid (all on the starting side or split), moved away from the origin or not, every segment between grid points, four search budgets, with and without a containing triangle: the first outline segment of some length that meets the segment within the budget and the triangle is found, at the earliest point along the outline, with exact indices, interpolation values and remaining budget; an outline of one place is found when it lies on the segment") {
  int n = 1 + c.pick(mc::tier(3, 4)); std::vector<Point> at; MutableMesh mesh(StrokeVertex::FullMeshFormat()); MutableMeshView view(mesh); Vec off = c.flag() ? Vec{32, -16} : Vec{0, 0}; std::vector<IndexType> a, b; int on_start = c.flag() ? n : n / 2; if (n == 4) c.assume(off.x != 0);
  for (int i = 0; i < n; ++i) { at.push_back(kGrid[c.pick(9)] + off); }
  for (Point p : at) view.AppendVertex(At(p.x, p.y));
  for (int i = on_start; i-- > 0;) a.push_back(i);
  for (int i = on_start; i < n; ++i) b.push_back(i);
  DirectedPartialOutline o(&a, 0, (uint32_t)a.size(), &b, 0, (uint32_t)b.size());
  Segment seg{kGrid[c.pick(9)] + off, kGrid[c.pick(9)] + off}; std::optional<Triangle> tri; int tk = c.pick(3); if (tk) { float k = tk == 1 ? 1.5f : 3.25f; tri = Triangle{Point{-.25f, -.25f} + off, Point{-.25f + k, -.25f} + off, Point{-.25f, -.25f + k} + off}; }
  float budgets[] = {0, .5f, 1.75f, 50}; float budget = budgets[c.pick(4)];
  double left = budget; int si = -1, ei = -1; double t = 0; Point where{0, 0}; bool one_place = true; for (Point p : at) one_place &= p == at[0];
  bool stop = false;
  for (int i = 1; i < n && left > 0; ++i) {
    if (at[i - 1] == at[i]) continue;
    if (auto m = FirstMeeting(at[i - 1], at[i], seg.start, seg.end)) { si = i - 1; ei = i; t = *m; where = Segment{at[i - 1], at[i]}.Lerp((float)t); left = std::max(0., left - t * Len(at[i - 1], at[i])); break; }
    if (tri && ((at[i] - off).x < -.25f || (at[i] - off).y < -.25f || (at[i] - off).x + (at[i] - off).y > (tk == 1 ? 1.f : 2.75f))) { left = 0; stop = true; break; }
    left -= Len(at[i - 1], at[i]);
  }
  if (si < 0 && left > 0 && one_place && FirstMeeting(seg.start, seg.end, at[n - 1], at[n - 1])) { si = ei = n - 1; where = at[n - 1]; }
  left = std::max(0., left);
  auto r = FindOutlineIntersection(o, seg, view, budget, tri); c.op(1); c.eval(6);
  MC_EXPECT(c, r.segment_intersection.has_value() == (si >= 0), "found", r.segment_intersection.has_value() << " with " << n << " points, budget " << budget);
  MC_EXPECT(c, std::fabs(r.remaining_search_budget - left) < 1e-4, "budget", r.remaining_search_budget << " not " << left << (stop ? " after leaving the triangle" : ""));
  if (r.segment_intersection && si >= 0) {
    auto& x = *r.segment_intersection;
    MC_EXPECT(c, (int)x.starting_index == si && (int)x.ending_index == ei, "indices", x.starting_index << "," << x.ending_index << " not " << si << "," << ei);
    MC_EXPECT(c, Len(x.position, where) < 1e-4, "position", x.position.x << "," << x.position.y << " not " << where.x << "," << where.y);
    if (si != ei) MC_EXPECT(c, std::fabs(x.outline_interpolation_value - t) < 1e-5, "outline-value", x.outline_interpolation_value << " not " << t);
    MC_EXPECT(c, x.segment_interpolation_value >= 0 && x.segment_interpolation_value <= 1 && x.outline_interpolation_value >= 0 && x.outline_interpolation_value <= 1 && (seg.start == seg.end || Len(seg.Lerp(x.segment_interpolation_value), where) < 1e-4), "segment-value", x.segment_interpolation_value);
  }
}
static std::optional<Segment> LastClockwise(const std::vector<Point>& p, const std::vector<std::pair<int, int>>& pairs, bool left, Point centre) {
  for (size_t k = pairs.size(); k-- > 0;) {
    Point a = p[pairs[k].first], b = p[pairs[k].second]; if (a == b) continue;
    if (left) std::swap(a, b);
    if (Cross(centre, a, b) < 0) return Segment{a, b};
  }
  return std::nullopt;
}
static bool Same(std::optional<Segment> a, std::optional<Segment> b) { return a.has_value() == b.has_value() && (!a || (a->start == b->start && a->end == b->end)); }
MC_SECTION(fans, "every fan of up to 4 (thorough 5) outline points and a centre of a 3x3 grid on either side: the last segment whose triangle winds clockwise is returned, in that triangle's order, and nothing if there is none") {
  int n = c.pick(mc::tier(5, 6)); std::vector<Point> p; MutableMesh mesh(StrokeVertex::FullMeshFormat()); MutableMeshView view(mesh); std::vector<IndexType> idx; std::vector<std::pair<int, int>> pairs; bool left = c.flag(); Point centre = kGrid[c.pick(9)]; if (n == 5) c.assume(left);
  for (int i = 0; i < n; ++i) { p.push_back(kGrid[c.pick(9)]); view.AppendVertex(At(p[i].x, p[i].y)); idx.push_back(i); if (i) pairs.push_back({i - 1, i}); }
  auto r = FindLastClockwiseWindingTriangleFanSegment(view, idx, left ? SideId::kLeft : SideId::kRight, centre); c.op(1); c.eval();
  MC_EXPECT(c, Same(r, LastClockwise(p, pairs, left, centre)), "fan", (r ? "found" : "none"));
}
MC_SECTION(broken_fans, "every side of 6 indices with up to two discontinuities, every range of offsets, either side, with every single segment of the range and every pair of them turned clockwise: the segments outside discontinuities and those bridging one inside the range are examined, last first") {
  // Points on an arc around the centre, in the order that winds counter-clockwise; a point may be moved back or forth to turn its segments.
  bool left = c.flag(); int n = 6; std::vector<double> ang; for (int i = 0; i < n; ++i) ang.push_back(.2 + .25 * i); int k1 = c.pick(7), k2 = c.pick(7); double by = c.flag() ? .6 : -.6; if (k1 < 6) ang[k1] += by; if (k2 < 6 && k2 != k1) ang[k2] += by + .07;
  std::vector<Point> p; MutableMesh mesh(StrokeVertex::FullMeshFormat()); MutableMeshView view(mesh); Side s; s.self_id = left ? SideId::kLeft : SideId::kRight; s.first_triangle_vertex = 0;
  for (int i = 0; i < n; ++i) { double a = left ? -ang[i] : ang[i]; p.push_back({(float)std::cos(a), (float)std::sin(a)}); view.AppendVertex(At(p[i].x, p[i].y)); s.indices.push_back(i); }
  int d = c.pick(3), lo = 0; for (int k = 0; k < d; ++k) { int f = lo + c.pick(n - lo), l = f + c.pick(n - f); c.assume(l > f); s.intersection_discontinuities.push_back({(uint32_t)f, (uint32_t)l}); lo = l; if (k + 1 < d) c.assume(lo < n - 1); }
  int f = c.pick(n), l = c.pick(n); std::vector<std::pair<int, int>> pairs;
  for (int i = f; i < l;) {
    const Side::IndexOffsetRange* in = nullptr; for (auto& r : s.intersection_discontinuities) if ((int)r.first <= i && i < (int)r.last) in = &r;
    if (!in) { pairs.push_back({i, i + 1}); ++i; continue; }
    if ((int)in->first == i && (int)in->last <= l) pairs.push_back({i, (int)in->last});
    i = in->last;
  }
  auto r = FindLastClockwiseWindingMultiTriangleFanSegment(view, s, {(uint32_t)f, (uint32_t)l}, {0, 0}); c.op(1); c.eval();
  MC_EXPECT(c, Same(r, LastClockwise(p, pairs, left, {0, 0})), "fan", "offsets " << f << " to " << l << (r ? ": found" : ": none"));
  Side none = s; none.indices.clear(); none.intersection_discontinuities.clear(); MC_EXPECT(c, !FindLastClockwiseWindingMultiTriangleFanSegment(view, none, {0, 3}, {0, 0}), "empty", "");
}
static double ToSegment(Point a, Point b, Point p) { double l2 = Len(a, b) * Len(a, b), t = l2 == 0 ? 0 : ((p.x - a.x) * double(b.x - a.x) + (p.y - a.y) * double(b.y - a.y)) / l2; t = std::min(1., std::max(0., t)); return std::hypot(a.x + t * (b.x - a.x) - p.x, a.y + t * (b.y - a.y) - p.y); }
// Whether keeping `keep` (indices between b and e) is what the algorithm may do: points are dropped only if all are near, otherwise a farthest one is kept.
static bool Allowed(const std::vector<Point>& p, int b, int e, std::vector<int> keep, double eps) {
  double far = 0; for (int i = b + 1; i < e; ++i) far = std::max(far, ToSegment(p[b], p[e], p[i]));
  if (keep.empty()) return far <= eps + 1e-5;
  if (far <= eps - 1e-5) return false;
  for (size_t k = 0; k < keep.size(); ++k) if (ToSegment(p[b], p[e], p[keep[k]]) > far - 1e-5 && Allowed(p, b, keep[k], {keep.begin(), keep.begin() + k}, eps) && Allowed(p, keep[k], e, {keep.begin() + k + 1, keep.end()}, eps)) return true;
  return false;
}
MC_SECTION(simplification, "every polyline of up to 5 (thorough 6) points of a 3x3 grid and four tolerances: the result is appended, has whole vertices of the input in order with both ends, drops points only within the tolerance of the segment that replaces them, and keeps one only as the farthest from a segment beyond the tolerance") {
  int n = c.pick(mc::tier(6, 7)); std::vector<ExtrudedVertex> in, out{Vert(5)}; std::vector<Point> p; float eps = std::array<float, 4>{0, .5f, .8f, 1.2f}[c.pick(4)];
  for (int i = 0; i < n; ++i) { p.push_back(kGrid[c.pick(9)]); in.push_back(At(p[i].x, p[i].y, i + 1)); }
  SimplifyPolyline(in.begin(), in.end(), eps, out); c.op(1); c.eval(3); std::vector<int> keep;
  MC_EXPECT(c, !out.empty() && out[0] == Vert(5), "appends", "");
  bool whole = true; for (size_t i = 1; i < out.size(); ++i) { int k = (int)out[i].color.r - 1; whole &= k >= 0 && k < n && out[i] == in[k] && (keep.empty() || k > keep.back()); keep.push_back(k); }
  MC_EXPECT(c, whole, "vertices", "");
  if (n == 0) { MC_EXPECT(c, keep.empty(), "empty", ""); return; }
  MC_EXPECT(c, whole && !keep.empty() && keep[0] == 0 && keep.back() == n - 1 && (n < 2 || keep.size() > 1), "ends", keep.size());
  if (whole && keep.size() > 1 && keep[0] == 0 && keep.back() == n - 1) MC_EXPECT(c, Allowed(p, 0, n - 1, {keep.begin() + 1, keep.end() - 1}, eps), "tolerance", keep.size() << " of " << n << " points kept for " << eps);
}
MC_SECTION(vertices, "every pair of 5 vertices at 9 parameters inside and outside [0,1], every place in and around 6 triangles of vertices, and every vertex turned legacy and back: positions, colours and texture coordinates are the weighted sums, a vertex differs from another in any one field, and conversion keeps what it can hold") {
  int mode = c.pick(3);
  if (mode == 0) {
    ExtrudedVertex a = Vert(c.pick(5)), b = Vert(c.pick(5)), r; float t = -.5f + .25f * c.pick(9); r = Lerp(a, b, t); c.op(1); c.eval(3);
    auto near = [&](float x, float y, float z) { return std::fabs(x * (1 - t) + y * t - z) < 1e-5; };
    MC_EXPECT(c, near(a.position.x, b.position.x, r.position.x) && near(a.position.y, b.position.y, r.position.y), "lerp-position", t);
    MC_EXPECT(c, near(a.color.r, b.color.r, r.color.r) && near(a.color.g, b.color.g, r.color.g) && near(a.color.b, b.color.b, r.color.b) && near(a.color.a, b.color.a, r.color.a), "lerp-color", t);
    MC_EXPECT(c, near(a.texture_coords.x, b.texture_coords.x, r.texture_coords.x) && near(a.texture_coords.y, b.texture_coords.y, r.texture_coords.y) && near(a.secondary_texture_coords.x, b.secondary_texture_coords.x, r.secondary_texture_coords.x) && near(a.secondary_texture_coords.y, b.secondary_texture_coords.y, r.secondary_texture_coords.y), "lerp-texture", t);
    MC_EXPECT(c, r.new_non_position_attributes == strokes_internal::Lerp(a.new_non_position_attributes, b.new_non_position_attributes, t), "lerp-attributes", t);
  } else if (mode == 1) {
    ExtrudedVertex v[3] = {Vert(1), Vert(2), Vert(4)}; int k = c.pick(6); std::array<Point, 3> p = k < 3 ? std::array<Point, 3>{Point{0, 0}, {4, 0}, {0, 4}} : std::array<Point, 3>{Point{1, 1}, {3, -3}, {-2, 0}}; for (int i = 0; i < 3; ++i) v[i].position = p[(i + k) % 3];
    double w0 = (int(c.pick(9)) - 2) / 4., w1 = (int(c.pick(9)) - 2) / 4., w2 = 1 - w0 - w1; auto mix = [&](double a, double b, double d) { return a * w0 + b * w1 + d * w2; };
    Point at{(float)mix(v[0].position.x, v[1].position.x, v[2].position.x), (float)mix(v[0].position.y, v[1].position.y, v[2].position.y)}; auto r = BarycentricLerp(v[0], v[1], v[2], at); c.op(1); c.eval(4);
    auto near = [&](float a, float b, float d, float z) { return std::fabs(mix(a, b, d) - z) < 2e-5; };
    MC_EXPECT(c, r.position == at, "barycentric-position", w0 << "," << w1);
    MC_EXPECT(c, near(v[0].color.r, v[1].color.r, v[2].color.r, r.color.r) && near(v[0].color.g, v[1].color.g, v[2].color.g, r.color.g) && near(v[0].color.b, v[1].color.b, v[2].color.b, r.color.b) && near(v[0].color.a, v[1].color.a, v[2].color.a, r.color.a), "barycentric-color", w0 << "," << w1);
    MC_EXPECT(c, near(v[0].texture_coords.x, v[1].texture_coords.x, v[2].texture_coords.x, r.texture_coords.x) && near(v[0].texture_coords.y, v[1].texture_coords.y, v[2].texture_coords.y, r.texture_coords.y) && near(v[0].secondary_texture_coords.x, v[1].secondary_texture_coords.x, v[2].secondary_texture_coords.x, r.secondary_texture_coords.x) && near(v[0].secondary_texture_coords.y, v[1].secondary_texture_coords.y, v[2].secondary_texture_coords.y, r.secondary_texture_coords.y), "barycentric-texture", w0 << "," << w1);
    auto& q = r.new_non_position_attributes; auto get = [&](int i) -> NPA& { return v[i].new_non_position_attributes; };
    bool ok = near(get(0).surface_uv.x, get(1).surface_uv.x, get(2).surface_uv.x, q.surface_uv.x) && near(get(0).surface_uv.y, get(1).surface_uv.y, get(2).surface_uv.y, q.surface_uv.y);
    for (int h = 0; h < 3; ++h) ok &= near(get(0).hsl_shift[h], get(1).hsl_shift[h], get(2).hsl_shift[h], q.hsl_shift[h]);
    MC_EXPECT(c, ok && near(get(0).opacity_shift, get(1).opacity_shift, get(2).opacity_shift, q.opacity_shift), "barycentric-attributes", w0 << "," << w1);
  } else {
    ExtrudedVertex a = Vert(1 + c.pick(4)), b = a; LegacyVertex l = a.ToLegacy(), m = l; int f = c.pick(17); c.eval(4);
    MC_EXPECT(c, SameOld(ExtrudedVertex::FromLegacy(l), a), "round-trip", ""); MC_EXPECT(c, l == m && !(l != m) && a == b && !(a != b), "equal", "");
    float* of[] = {&m.position.x, &m.position.y, &m.color.r, &m.color.g, &m.color.b, &m.color.a, &m.texture_coords.x, &m.texture_coords.y, &m.secondary_texture_coords.x, &m.secondary_texture_coords.y}; float* nf[] = {&b.position.x, &b.position.y, &b.color.r, &b.color.g, &b.color.b, &b.color.a, &b.texture_coords.x, &b.texture_coords.y, &b.secondary_texture_coords.x, &b.secondary_texture_coords.y, &b.new_non_position_attributes.opacity_shift, &b.new_non_position_attributes.hsl_shift[0], &b.new_non_position_attributes.hsl_shift[1], &b.new_non_position_attributes.hsl_shift[2], &b.new_non_position_attributes.surface_uv.x, &b.new_non_position_attributes.surface_uv.y, &b.new_non_position_attributes.side_derivative.x};
    if (f < 10) { *of[f] += .5f; MC_EXPECT(c, l != m && !(l == m) && m != l, "legacy-differs", "field " << f); }
    *nf[f] += .5f; MC_EXPECT(c, a != b && !(a == b), "differs", "field " << f);
  }
}
MC_SECTION(updates, "every sequence of 3 of 5x4x4 shape updates added together: the region is the join of all regions, the offsets the smallest of those given, none if none is") {
  StrokeShapeUpdate sum; std::optional<uint32_t> wi, wv; double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; std::optional<uint32_t> off[] = {std::nullopt, 0u, 3u, 7u};
  for (int k = 0; k < mc::tier(2, 3); ++k) {
    StrokeShapeUpdate u; int r = c.pick(5); if (r) { float x = r * 3 - 5.f, y = 4.f - r * r; u.region.Add(Rect::FromTwoPoints({x, y}, {x + 1, y + r})); x0 = std::min<double>(x0, x); x1 = std::max<double>(x1, x + 1); y0 = std::min<double>(y0, y); y1 = std::max<double>(y1, y + r); }
    u.first_index_offset = off[c.pick(4)]; u.first_vertex_offset = off[c.pick(4)]; auto lower = [](std::optional<uint32_t>& w, std::optional<uint32_t> o) { if (o && (!w || *o < *w)) w = o; }; lower(wi, u.first_index_offset); lower(wv, u.first_vertex_offset);
    StrokeShapeUpdate before = u; sum.Add(u); c.op(1); c.eval(3);
    MC_EXPECT(c, sum.first_index_offset == wi && sum.first_vertex_offset == wv, "offsets", k);
    auto b = sum.region.AsRect(); MC_EXPECT(c, b.has_value() == (x1 > -1e8) && (!b || (b->XMin() == x0 && b->XMax() == x1 && b->YMin() == y0 && b->YMax() == y1)), "region", k);
    MC_EXPECT(c, u.first_index_offset == before.first_index_offset && u.first_vertex_offset == before.first_vertex_offset, "other", k);
  }
}
MC_MAIN()
