#pragma once
// Shared by the stroke checks: a small zoo of brushes, input paths and readers of stroke geometry.
#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "ink/brush/brush.h"
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
#include "ink/brush/brush_paint.h"
#include "ink/brush/brush_tip.h"
#include "ink/color/color.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "ink/types/uri.h"
#include "util.h"
namespace zoo {
using namespace ink;
using BB = BrushBehavior;
inline BB OneTarget(BB::Source source, float lo, float hi, BB::Target target, float mlo, float mhi, BB::OutOfRange oor = BB::OutOfRange::kClamp) {
  return BB{{BB::SourceNode{.source = source, .source_out_of_range_behavior = oor, .source_value_range = {lo, hi}}, BB::TargetNode{.target = target, .target_modifier_range = {mlo, mhi}}}};
}
inline const char* kTipNames[] = {"circle", "square", "time-width", "particles", "pressure", "remaining", "direction", "timed-particles", "pinched", "damped-slant"};
inline constexpr int kTips = 10;
inline BrushTip Tip(int k) {
  BrushTip t;
  switch (k) {
    case 1: t.corner_rounding = 0; t.scale = {1, .5f}; t.rotation = kFullTurn / 8; break;
    case 2: t.behaviors.push_back(OneTarget(BB::Source::kTimeSinceInputInSeconds, 0, .05f, BB::Target::kWidthMultiplier, 1.5f, .5f)); break;
    case 3: t.particle_gap_distance_scale = 2.5f; break;
    case 4: t.behaviors.push_back(OneTarget(BB::Source::kNormalizedPressure, 0, 1, BB::Target::kSizeMultiplier, 0, 2)); break;
    case 5: t.behaviors.push_back(OneTarget(BB::Source::kDistanceRemainingInMultiplesOfBrushSize, 0, 4, BB::Target::kSizeMultiplier, 0, 1)); break;
    case 6: t.corner_rounding = 0; t.scale = {.3f, 1}; t.behaviors.push_back(OneTarget(BB::Source::kDirectionAboutZeroInRadians, -3.2f, 3.2f, BB::Target::kRotationOffsetInRadians, -3.2f, 3.2f)); break;
    case 7: t.particle_gap_duration = Duration32::Seconds(.02f); t.behaviors.push_back(OneTarget(BB::Source::kTimeSinceInputInSeconds, 0, .03f, BB::Target::kOpacityMultiplier, 1, 0)); break;
    case 8: t.corner_rounding = .5f; t.pinch = .8f; t.slant = Angle::Radians(.5f); break;
    case 9: t.behaviors.push_back(BB{{BB::SourceNode{.source = BB::Source::kSpeedInMultiplesOfBrushSizePerSecond, .source_out_of_range_behavior = BB::OutOfRange::kMirror, .source_value_range = {0, 100}},
                                      BB::DampingNode{.damping_source = BB::DampingSource::kTimeInSeconds, .damping_gap = .02f}, BB::TargetNode{.target = BB::Target::kSlantOffsetInRadians, .target_modifier_range = {-1, 1}}}});
            break;
  }
  return t;
}
inline BrushFamily::InputModel Model(int m) { return m ? BrushFamily::InputModel(BrushFamily::SpringModelV2{}) : BrushFamily::InputModel(BrushFamily::SpringModelV1{}); }
inline Brush MakeBrush(std::vector<int> tips, float size, float eps, int model = 1, bool winding = false) {
  std::vector<BrushCoat> coats;
  for (int t : tips) {
    BrushCoat coat{.tips = {Tip(t)}};
    if (winding) { BrushPaint::TextureLayer l; l.color_texture_uri = *Uri::Parse("ink://ink/texture:a"); l.mapping = BrushPaint::TextureMapping::kWinding; coat.paint.texture_layers.push_back(l); }
    coats.push_back(coat);
  }
  auto f = BrushFamily::Create(coats, std::nullopt, Model(model));
  auto b = Brush::Create(*f, Color::Red(), size, eps);
  if (!b.ok()) { std::fprintf(stderr, "bad zoo brush\n"); std::abort(); }
  return *b;
}
inline constexpr int kPaths = 5;
// Position and time of the i-th raw input of each path.
inline StrokeInput Raw(int path, int i, bool predicted = false, bool props = true) {
  float x = 0, y = 0, t = 0;
  switch (path) {
    case 0: x = 4 * i; y = (i % 3) * 2; t = .01f * i; break;                                            // zig-zag
    case 1: x = .02f * i; y = 0; t = .004f * i; break;                                                  // hardly moves
    case 2: { static const float px[] = {0, 10, 10, 0, 0, 5, -5, 5}, py[] = {0, 0, 10, 10, 0, 5, 5, -5}; x = px[i % 8]; y = py[i % 8]; t = .02f * i; break; }  // crosses itself
    case 3: x = i % 2 ? 6 : 0; y = 0; t = .01f * i; break;                                              // back and forth over itself
    default: x = i < 2 ? 1 : 8; y = i == 4 ? 9 : 1; t = .03f * i; break;                                // rests, then jumps
  }
  if (predicted) { y += 3.5f; x += 1; t += .001f; }
  StrokeInput in{.tool_type = StrokeInput::ToolType::kStylus, .position = {x, y}, .elapsed_time = Duration32::Seconds(t), .stroke_unit_length = PhysicalDistance::Centimeters(.05f)};
  if (props) { in.pressure = .1f + .1f * ((i * 3) % 8); in.tilt = Angle::Radians(.2f + .1f * (i % 8)); in.orientation = Angle::Radians(1 + .5f * (i % 8)); }
  return in;
}
// The vertices and triangles of a mesh as raw values.
struct Geo {
  std::vector<std::array<float, 2>> pos; std::vector<std::vector<float>> attr; std::vector<std::array<uint32_t, 3>> tri; std::vector<std::vector<uint32_t>> outlines;
  bool operator==(const Geo&) const = default;
};
inline Geo ReadMesh(const MutableMesh& m, bool attributes = true) {
  Geo g;
  for (uint32_t v = 0; v < m.VertexCount(); ++v) {
    Point p = m.VertexPosition(v); g.pos.push_back({p.x, p.y});
    if (!attributes) continue;
    std::vector<float> a;
    for (uint32_t k = 0; k < m.Format().Attributes().size(); ++k) { auto val = m.FloatVertexAttribute(v, k); for (int q = 0; q < val.Size(); ++q) a.push_back(val[q]); }
    g.attr.push_back(a);
  }
  for (uint32_t t = 0; t < m.TriangleCount(); ++t) { auto i = m.TriangleIndices(t); g.tri.push_back({i[0], i[1], i[2]}); }
  return g;
}
template <typename Outlines> void ReadOutlines(Geo& g, const Outlines& o) { for (const auto& s : o) g.outlines.push_back(std::vector<uint32_t>(s.begin(), s.end())); }
// First difference between two geometries, or "".
inline std::string Diff(const Geo& a, const Geo& b) {
  std::ostringstream os;
  if (a.pos.size() != b.pos.size()) { os << "vertex count " << a.pos.size() << " vs " << b.pos.size(); return os.str(); }
  if (a.tri.size() != b.tri.size()) { os << "triangle count " << a.tri.size() << " vs " << b.tri.size(); return os.str(); }
  for (size_t i = 0; i < a.pos.size(); ++i) if (a.pos[i] != b.pos[i]) { os << "vertex " << i << " (" << a.pos[i][0] << "," << a.pos[i][1] << ") vs (" << b.pos[i][0] << "," << b.pos[i][1] << ")"; return os.str(); }
  for (size_t i = 0; i < a.tri.size(); ++i) if (a.tri[i] != b.tri[i]) { os << "triangle " << i << " indices"; return os.str(); }
  for (size_t i = 0; i < a.attr.size(); ++i) for (size_t k = 0; k < a.attr[i].size(); ++k) if (!Same(a.attr[i][k], b.attr[i][k])) { os << "vertex " << i << " attribute value " << k << ": " << a.attr[i][k] << " vs " << b.attr[i][k]; return os.str(); }
  if (a.outlines != b.outlines) { os << "outlines differ (" << a.outlines.size() << " vs " << b.outlines.size() << ")"; return os.str(); }
  return "";
}
inline Envelope Bounds(const Geo& g) { Envelope e; for (auto& p : g.pos) e.Add(Point{p[0], p[1]}); return e; }
inline bool SameRect(const std::optional<Rect>& a, const std::optional<Rect>& b) {
  if (!a || !b) return !a && !b;
  return a->XMin() == b->XMin() && a->XMax() == b->XMax() && a->YMin() == b->YMin() && a->YMax() == b->YMax();
}
inline std::string ShowRect(const std::optional<Rect>& r) { if (!r) return "empty"; std::ostringstream os; os << "[" << r->XMin() << "," << r->XMax() << "]x[" << r->YMin() << "," << r->YMax() << "]"; return os.str(); }
// Structural validity of stroke geometry; "" or what is wrong.
inline std::string Invalid(const Geo& g) {
  std::ostringstream os;
  for (size_t i = 0; i < g.pos.size(); ++i) if (!std::isfinite(g.pos[i][0]) || !std::isfinite(g.pos[i][1])) { os << "vertex " << i << " is not finite"; return os.str(); }
  for (size_t i = 0; i < g.attr.size(); ++i) for (float f : g.attr[i]) if (std::isnan(f)) { os << "vertex " << i << " has a NaN attribute"; return os.str(); }
  for (size_t i = 0; i < g.tri.size(); ++i) {
    auto& t = g.tri[i];
    for (uint32_t v : t) if (v >= g.pos.size()) { os << "triangle " << i << " index " << v << " of " << g.pos.size(); return os.str(); }
    if (t[0] == t[1] || t[1] == t[2] || t[0] == t[2]) { os << "triangle " << i << " repeats a vertex"; return os.str(); }
  }
  for (size_t o = 0; o < g.outlines.size(); ++o) {
    if (g.outlines[o].empty()) { os << "outline " << o << " is empty"; return os.str(); }
    for (uint32_t v : g.outlines[o]) if (v >= g.pos.size()) { os << "outline " << o << " index " << v << " of " << g.pos.size(); return os.str(); }
  }
  return "";
}
}  // namespace zoo
