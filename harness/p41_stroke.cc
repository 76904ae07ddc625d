// P41: strokes: the shape always follows from brush and inputs; copies are independent.
#include <optional>
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/internal/stroke_shape_builder.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "ink/strokes/stroke.h"
#include "mc.h"
#include "strokes_util.h"
using namespace ink;
namespace {
struct BrushSpec { std::vector<int> tips; float size, eps; int model; bool winding; };
bool operator<(const BrushSpec& a, const BrushSpec& b) { return std::tie(a.tips, a.size, a.eps, a.model, a.winding) < std::tie(b.tips, b.size, b.eps, b.model, b.winding); }
const BrushSpec kBrushes[] = {{{0}, 2, .1f, 1, false}, {{0}, 2, .2f, 1, false}, {{0}, 3, .1f, 1, false}, {{1}, 2, .1f, 1, false}, {{1, 0}, 2, .1f, 1, false}, {{0, 1}, 2, .1f, 1, false}, {{3}, 1, .1f, 0, true}, {{}, 2, .1f, 1, false}};
constexpr int kNumBrushes = 8;
struct InputSpec { int path, n; bool props; auto operator<=>(const InputSpec&) const = default; };
const InputSpec kInputs[] = {{0, 0, true}, {0, 1, true}, {0, 4, true}, {2, 7, true}, {2, 7, false}};
constexpr int kNumInputs = 5;
const StrokeInputBatch& TheInputs(int i) {
  static std::vector<StrokeInputBatch> v = [] { std::vector<StrokeInputBatch> r; for (auto& s : kInputs) { StrokeInputBatch b; for (int k = 0; k < s.n; ++k) if (!b.Append(zoo::Raw(s.path, k, false, s.props)).ok()) std::abort(); r.push_back(b); } return r; }();
  return v[i];
}
Brush Make(const BrushSpec& s) { return zoo::MakeBrush(s.tips, s.size, s.eps, s.model, s.winding); }

// What a shape consists of, decoded.
struct Group { std::vector<zoo::Geo> meshes; std::vector<std::vector<std::pair<int, int>>> outlines; bool operator==(const Group&) const = default; };
using Shape = std::vector<Group>;
Shape Read(const PartitionedMesh& p) {
  Shape s;
  for (uint32_t g = 0; g < p.RenderGroupCount(); ++g) {
    Group r;
    for (const Mesh& m : p.RenderGroupMeshes(g)) {
      zoo::Geo q;
      for (uint32_t v = 0; v < m.VertexCount(); ++v) {
        Point pt = m.VertexPosition(v); q.pos.push_back({pt.x, pt.y}); std::vector<float> a;
        for (uint32_t k = 0; k < m.Format().Attributes().size(); ++k) { auto val = m.FloatVertexAttribute(v, k); for (int z = 0; z < val.Size(); ++z) a.push_back(val[z]); }
        q.attr.push_back(a);
      }
      for (uint32_t t = 0; t < m.TriangleCount(); ++t) { auto i = m.TriangleIndices(t); q.tri.push_back({i[0], i[1], i[2]}); }
      r.meshes.push_back(q);
    }
    for (uint32_t o = 0; o < p.OutlineCount(g); ++o) { r.outlines.emplace_back(); for (auto v : p.Outline(g, o)) r.outlines.back().push_back({v.mesh_index, v.vertex_index}); }
    s.push_back(r);
  }
  return s;
}
// The shape a brush and inputs should have, from a fresh in-progress stroke, checked against the
// mesh of a fresh shape builder (positions up to packing).
const Shape& Expected(mc::Choices& c, const BrushSpec& b, int in) {
  static std::map<std::pair<BrushSpec, int>, Shape> memo;
  auto [it, fresh] = memo.try_emplace({b, in});
  if (!fresh) return it->second;
  Brush brush = Make(b);
  InProgressStroke s; s.Start(brush);
  if (kInputs[in].n) { if (!s.EnqueueInputs(TheInputs(in), {}).ok() || !s.UpdateShape(TheInputs(in).GetDuration()).ok()) c.fail("harness", "in-progress"); }
  it->second = Read(s.CopyToStroke().GetShape());
  MC_EXPECT(c, it->second.size() == b.tips.size(), "groups", it->second.size());
  for (size_t g = 0; g < b.tips.size() && kInputs[in].n; ++g) {
    strokes_internal::StrokeShapeBuilder sb; sb.StartStroke(zoo::Model(b.model), brush.GetCoats()[g], b.size, b.eps);
    sb.ExtendStroke(TheInputs(in), {}, TheInputs(in).GetDuration());
    zoo::Geo m = zoo::ReadMesh(sb.GetMesh(), false); size_t t = 0; auto r = zoo::Bounds(m).AsRect(); float tol = r ? (r->Width() + r->Height()) / 2000 : 0;
    for (const zoo::Geo& q : it->second[g].meshes) for (auto& tri : q.tri) {
      if (t >= m.tri.size()) { c.fail("packed-mesh", "too many triangles"); break; }
      for (int k = 0; k < 3; ++k) for (int d = 0; d < 2; ++d) if (!(std::fabs(q.pos[tri[k]][d] - m.pos[m.tri[t][k]][d]) <= tol)) { c.fail("packed-mesh", "a corner moved more than packing allows"); }
      ++t;
    }
    MC_EXPECT(c, t == m.tri.size(), "packed-mesh", t << " of " << m.tri.size() << " triangles");
  }
  return it->second;
}

struct Model { BrushSpec brush; int in; Color color; Shape shape; };
Color TheColor(int i) { return i ? Color::Blue() : Color::Red(); }
struct Sim {
  mc::Choices& c; std::optional<Stroke> s[2]; Model m[2]; bool live[2] = {false, false};
  void Regen(int k) { m[k].shape = Expected(c, m[k].brush, m[k].in); }
  bool SameTips(const BrushSpec& a, const BrushSpec& b) { return a.tips == b.tips; }
  void Check(const char* when) {
    for (int k = 0; k < 2; ++k) if (live[k]) {
      c.eval(6);
      const Brush& b = s[k]->GetBrush(); const BrushSpec& w = m[k].brush;
      MC_EXPECT(c, b.GetSize() == w.size && b.GetEpsilon() == w.eps && b.GetColor() == m[k].color, "brush", when << " size " << b.GetSize() << " epsilon " << b.GetEpsilon());
      MC_EXPECT(c, b.CoatCount() == w.tips.size() && s[k]->GetBrushFamily().GetCoats().size() == w.tips.size(), "coats", when);
      for (size_t i = 0; i < std::min<size_t>(b.CoatCount(), w.tips.size()); ++i) MC_EXPECT(c, b.GetCoats()[i].tips.size() == 1 && b.GetCoats()[i].tips[0] == zoo::Tip(w.tips[i]), "tips", when);
      const StrokeInputBatch& in = s[k]->GetInputs(); const StrokeInputBatch& wi = TheInputs(m[k].in); bool same = in.Size() == wi.Size();
      for (size_t i = 0; same && i < in.Size(); ++i) { StrokeInput a = in.Get(i), e = wi.Get(i); same = a.position == e.position && a.elapsed_time == e.elapsed_time && a.pressure == e.pressure && a.tilt == e.tilt && a.orientation == e.orientation && a.tool_type == e.tool_type; }
      MC_EXPECT(c, same, "inputs", when << " has " << in.Size() << " of " << wi.Size());
      MC_EXPECT(c, s[k]->GetInputDuration() == wi.GetDuration(), "duration", when);
      Shape got = Read(s[k]->GetShape());
      MC_EXPECT(c, got.size() == w.tips.size(), "groups", when << " " << got.size() << " groups for " << w.tips.size() << " coats");
      MC_EXPECT(c, got == m[k].shape, "shape", when << ": stroke " << k << " does not have the expected shape");
    }
  }
  void Set(int k, const BrushSpec& b, int in, const Color& col) { m[k] = {b, in, col, {}}; live[k] = true; Regen(k); }
};
}  // namespace

MC_SECTION(histories, "all histories of 2 operations, 3 from 2 (thorough half) of the starts, one less in the sanitizer build, out of 46 operations on 2 strokes after creating one in 88 ways (8 brushes x 5 input sequences; brush only, with inputs, or with a given shape): every setter with every value, refused sizes and epsilons, setters called with the stroke's own values, copying, moving, swapping, self-assignment and rebuilding from parts; after every step brush, inputs and decoded shape of both strokes agree with a model") {
  Sim x{c};
  int b0 = c.pick(kNumBrushes), i0 = c.pick(kNumInputs), how = c.pick(3);
  if (how == 0) { c.assume(i0 == 0); x.s[0].emplace(Make(kBrushes[b0])); x.Set(0, kBrushes[b0], 0, Color::Red()); }
  else if (how == 1) { x.s[0].emplace(Make(kBrushes[b0]), TheInputs(i0)); x.Set(0, kBrushes[b0], i0, Color::Red()); }
  else {  // a shape that belongs to other inputs: kept until something regenerates it
    int j = (i0 + 2) % kNumInputs; Stroke other(Make(kBrushes[b0]), TheInputs(j));
    x.s[0].emplace(Make(kBrushes[b0]), TheInputs(i0), other.GetShape()); x.Set(0, kBrushes[b0], i0, Color::Red()); x.m[0].shape = Expected(c, kBrushes[b0], j);
    MC_EXPECT(c, mc::DiesOnCheck([&] { Stroke bad(Make(kBrushes[b0]), TheInputs(i0), PartitionedMesh::WithEmptyGroups(kBrushes[b0].tips.size() + 1)); }), "group-count", "");
  }
  x.Check("created");
#ifdef WITH_SANITIZERS
  int n = 2;
#else
  int n = 3;
#endif
  if (mc::thorough() ? (b0 + i0) % 2 != 0 : !(i0 == 3 && how == 2 && (b0 == 0 || b0 == 5))) --n;
  for (int i = 0; i < n; ++i) {
    int op = c.pick(46); c.op(1);
    int k = 0; Stroke& s = *x.s[0]; Model& m = x.m[0];
    if (op < 8) { const BrushSpec& b = kBrushes[op]; bool re = b.size != m.brush.size || b.eps != m.brush.eps || b.tips != m.brush.tips; if (!re && b.model != m.brush.model) continue; s.SetBrush(Make(b)); m.brush = b; m.color = Color::Red(); if (re) x.Regen(k); }
    else if (op < 16) { const BrushSpec& b = kBrushes[op - 8]; bool re = b.tips != m.brush.tips; if (!re && b.model != m.brush.model) continue; s.SetBrushFamily(Make(b).GetFamily()); m.brush.tips = b.tips; m.brush.model = b.model; m.brush.winding = b.winding; if (re) x.Regen(k); }
    else if (op < 21) { s.SetInputs(TheInputs(op - 16)); m.in = op - 16; x.Regen(k); }
    else if (op < 23) { s.SetBrushColor(TheColor(op - 21)); m.color = TheColor(op - 21); }
    else if (op < 29) { static const float v[] = {2, 4, .05f, 0, kNan, kInf}; float f = v[op - 23]; bool same = f == m.brush.size, ok = same || (std::isfinite(f) && f > 0 && f >= m.brush.eps); bool got = s.SetBrushSize(f).ok(); MC_EXPECT(c, got == ok, "size-status", f); if (ok && !same) { m.brush.size = f; x.Regen(k); } }
    else if (op < 35) { static const float v[] = {.1f, .3f, 100, -1, kNan, kInf}; float f = v[op - 29]; bool same = f == m.brush.eps, ok = same || (std::isfinite(f) && f > 0 && f <= m.brush.size); bool got = s.SetBrushEpsilon(f).ok(); MC_EXPECT(c, got == ok, "epsilon-status", f); if (ok && !same) { m.brush.eps = f; x.Regen(k); } }
    else switch (op) {
      case 35: s.SetBrush(s.GetBrush()); break;
      case 36: s.SetBrushFamily(s.GetBrushFamily()); break;
      case 37: s.SetInputs(s.GetInputs()); x.Regen(k); break;
      case 38: s.SetBrushAndInputs(s.GetBrush(), s.GetInputs()); x.Regen(k); break;
      case 39: s.SetBrushAndInputs(Make(kBrushes[4]), TheInputs(3)); m.brush = kBrushes[4]; m.in = 3; m.color = Color::Red(); x.Regen(k); break;
      case 40: if (x.live[1]) *x.s[1] = s; else x.s[1].emplace(s); x.m[1] = m; x.live[1] = true; break;
      case 41: if (!x.live[1]) continue; std::swap(*x.s[0], *x.s[1]); std::swap(x.m[0], x.m[1]); break;
      case 42: { Stroke t(std::move(s)); s.SetBrushAndInputs(Make(kBrushes[5]), TheInputs(2)); x.s[1].emplace(std::move(t)); x.m[1] = m; x.live[1] = true; m.brush = kBrushes[5]; m.in = 2; m.color = Color::Red(); x.Regen(k); break; }  // moved away, then used again
      case 43: { Stroke& self = s; s = self; s.SetBrushColor(s.GetBrush().GetColor()); break; }
      case 44: { Stroke t(s.GetBrush(), s.GetInputs(), s.GetShape()); s = std::move(t); break; }
      case 45: if (!x.live[1]) continue; s.SetBrushAndInputs(x.s[1]->GetBrush(), x.s[1]->GetInputs()); { Shape keep = x.m[1].shape; x.m[0] = x.m[1]; x.Regen(0); x.m[1].shape = keep; } break;
    }
    x.Check("step");
  }
  c.state(mc::Hash(x.m[0].in, x.m[0].brush.size, x.m[0].brush.eps, x.m[0].brush.tips.size(), x.live[1]));
  c.outcome(mc::Hash(x.m[0].in, x.m[0].brush.size, x.m[0].shape.size()));
}
MC_SECTION(reuse, "every ordered pair of (brush, inputs) out of 10 single and multi-coat brushes x 5 paths x 3 lengths: making a stroke leaves no trace in the next one made on the same thread") {
  static const std::vector<std::vector<int>> tips = {{0}, {1, 3}, {2}, {4, 5, 6}, {7}, {8}, {9, 0}, {3}, {}, {5}};
  auto spec = [&](int k, int& path, int& n) { BrushSpec b{tips[k % 10], k % 3 == 1 ? 4.f : 2.f, k % 2 ? .1f : .4f, k % 2, k % 4 == 3}; path = k / 10 % 5; n = std::array{1, 3, 8}[k / 50]; return b; };
  auto inputs = [&](int path, int n) { StrokeInputBatch b; for (int i = 0; i < n; ++i) if (!b.Append(zoo::Raw(path, i, false, path != 3)).ok()) std::abort(); return b; };
  static std::map<int, Shape> memo;
  int p1, n1, p2, n2; int k1 = c.pick(150), k2 = c.pick(150);
  if (!mc::thorough()) c.assume(k1 % 3 == 0 || k2 % 7 == 0);
#ifdef WITH_SANITIZERS
  c.assume((k1 + k2) % 5 == 0);
#endif
  BrushSpec b1 = spec(k1, p1, n1), b2 = spec(k2, p2, n2);
  auto fresh = [&](int k, const BrushSpec& b, int p, int n) -> const Shape& {
    auto [it, isnew] = memo.try_emplace(k);
    if (isnew) { InProgressStroke s; s.Start(Make(b)); auto in = inputs(p, n); if (!s.EnqueueInputs(in, {}).ok() || !s.UpdateShape(in.GetDuration()).ok()) std::abort(); it->second = Read(s.CopyToStroke().GetShape()); }
    return it->second;
  };
  Stroke a(Make(b1), inputs(p1, n1));
  Stroke b(Make(b2), inputs(p2, n2));
  c.op(2);
  MC_EXPECT(c, Read(b.GetShape()) == fresh(k2, b2, p2, n2), "trace-of-earlier", "second stroke differs");
  MC_EXPECT(c, Read(a.GetShape()) == fresh(k1, b1, p1, n1), "changed-by-later", "first stroke differs");
  c.outcome(mc::Hash(k1, k2));
}
MC_MAIN()
