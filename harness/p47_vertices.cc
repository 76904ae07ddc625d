// P47: what the vertices of an extruded stroke carry besides their position.
#include "ink/strokes/internal/brush_tip_extruder.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "mc.h"
#include "strokes_util.h"
using namespace ink;
using namespace ink::strokes_internal;
namespace {
using Label = StrokeVertex::Label;
struct Run {
  MutableMesh mesh{StrokeVertex::FullMeshFormat()}; BrushTipExtruder ex;
  Run(bool winding, float eps) { ex.StartStroke(eps, winding, mesh); }
  StrokeVertex At(uint32_t i) const { return StrokeVertex::GetFromMesh(mesh, i); }
};
struct D2 { double x, y; };
// Opacity and colour shifts a tip state asks for.
std::array<float, 4> Wanted(const BrushTipState& s) { return {s.opacity_multiplier - 1, s.hue_offset_in_full_turns, s.saturation_multiplier - 1, s.luminosity_shift}; }
std::array<float, 4> Got(const StrokeVertex& v) { auto& a = v.non_position_attributes; return {a.opacity_shift, a.hsl_shift[0], a.hsl_shift[1], a.hsl_shift[2]}; }
std::string Show(const std::array<float, 4>& a) { std::ostringstream os; os << "(" << a[0] << " " << a[1] << " " << a[2] << " " << a[3] << ")"; return os.str(); }
// Where in the texture of its particle a point lies: the tip's unslanted, unpinched, square-cornered box is the unit square.
D2 ParticleUv(const BrushTipState& s, Point p) {
  double dx = p.x - (double)s.position.x, dy = p.y - (double)s.position.y, a = s.rotation.ValueInRadians();
  double u = .5 + (std::cos(a) * dx + std::sin(a) * dy) / s.width, v = .5 + (-std::sin(a) * dx + std::cos(a) * dy) / s.height;
  return {std::clamp(u, 0., 1.), std::clamp(v, 0., 1.)};
}
double Cross(D2 a, D2 b) { return a.x * b.y - a.y * b.x; }
D2 Sub(Point a, Point b) { return {(double)a.x - b.x, (double)a.y - b.y}; }
// How far the shaders move a vertex outward, per unit of their target.
D2 Outset(const StrokeVertex& v, double target) {
  auto& a = v.non_position_attributes;
  double s = a.side_label.DerivativeOutsetSign() * target, f = a.forward_label.DerivativeOutsetSign() * target;
  D2 so{s * a.side_derivative.x, s * a.side_derivative.y}, fo{f * a.forward_derivative.x, f * a.forward_derivative.y};
  double common = std::clamp((so.x * fo.x + so.y * fo.y) / std::max(1e-6, fo.x * fo.x + fo.y * fo.y), 0., 1.);
  return {so.x + (1 - common) * fo.x, so.y + (1 - common) * fo.y};
}
// True if p is inside a triangle of the mesh, at least `by` from its edges.
bool Inside(const MutableMesh& m, D2 p, double by) {
  for (uint32_t t = 0; t < m.TriangleCount(); ++t) {
    auto i = m.TriangleIndices(t); bool in = true;
    for (int k = 0; k < 3 && in; ++k) { Point a = m.VertexPosition(i[k]); D2 e = Sub(m.VertexPosition(i[(k + 1) % 3]), a), q{p.x - a.x, p.y - a.y}; double l = std::hypot(e.x, e.y); in = l > 1e-7 && Cross(e, q) / l > by; }
    if (in) return true;
  }
  return false;
}
// Labels and derivatives every stroke vertex must have.
void CheckSides(mc::Choices& c, const Run& r) {
  for (const StrokeOutline& o : r.ex.GetOutlines()) {
    auto idx = o.GetIndices(); auto n = o.GetIndexCounts();
    MC_EXPECT(c, n.left + n.right == idx.size(), "outline-counts", n.left << "+" << n.right << " of " << idx.size());
    for (size_t k = 0; k < idx.size(); ++k) {
      StrokeVertex v = r.At(idx[k]); auto& a = v.non_position_attributes; bool right = k < n.right; c.eval(3);
      auto cat = a.side_label.DecodeSideCategory();
      MC_EXPECT(c, cat == (right ? StrokeVertex::SideCategory::kExteriorRight : StrokeVertex::SideCategory::kExteriorLeft), "outline-side", "outline vertex " << k << " (" << idx[k] << " at " << v.position.x << "," << v.position.y << ") of " << idx.size() << " on the " << (right ? "right" : "left") << " has side label " << a.side_label.encoded_value);
      MC_EXPECT(c, a.side_label.DecodeMargin() >= 0 && a.side_label.DecodeMargin() <= StrokeVertex::kMaximumMargin, "margin", a.side_label.DecodeMargin());
      MC_EXPECT(c, a.side_derivative.Magnitude() > 0, "no-side-derivative", "outline vertex " << k << " (" << idx[k] << " at " << v.position.x << "," << v.position.y << ") right " << right);
    }
  }
  for (uint32_t i = 0; i < r.mesh.VertexCount(); ++i) {
    StrokeVertex v = r.At(i); auto& a = v.non_position_attributes;
    MC_EXPECT(c, std::isfinite(a.side_derivative.x) && std::isfinite(a.side_derivative.y) && std::isfinite(a.forward_derivative.x) && std::isfinite(a.forward_derivative.y), "derivative-not-finite", "vertex " << i);
    for (float l : {a.side_label.encoded_value, a.forward_label.encoded_value}) MC_EXPECT(c, l == std::floor(l) && std::fabs(l) <= 127, "label-value", l);
  }
}
constexpr float kW[] = {1, .4f, 3}, kRot[] = {0, .7f, 3.2f, -1.1f}, kRad[] = {0, .4f, 1};
const std::array<float, 4> kColors[] = {{1, 0, 1, 0}, {.25f, .125f, 1.75f, -.5f}, {0, .5f, 0, 1}, {2, .9f, 2, -1}, {1.5f, .25f, .5f, .75f}};  // opacity, hue, saturation, luminosity
BrushTipState Paint(BrushTipState s, const std::array<float, 4>& k) { s.opacity_multiplier = k[0]; s.hue_offset_in_full_turns = k[1]; s.saturation_multiplier = k[2]; s.luminosity_shift = k[3]; return s; }
}  // namespace

MC_SECTION(particles, "two or three separate particles out of a full grid of sizes, rotations, roundings, slants, pinches and 5 colourings for the first, with and without particle texture coordinates, given as fixed or volatile states: every vertex carries its own particle's opacity, colour shifts and texture coordinates, texture coordinates of an unslanted box reach the texture's edges, every outline vertex is labelled with its side, and outsetting moves it out of the particle") {
  bool winding = c.flag(), vol = c.flag(); int col = c.pick(5), w = c.pick(3), h = c.pick(3), rot = c.pick(4), rad = c.pick(3), slant = c.pick(3), pinch = c.pick(2); bool third = c.flag();
  if (!mc::thorough()) c.assume(!vol || (slant == 0 && third));
  auto make = [&](float x, int dw, int dr, int dc) { return Paint({.position = {x, 7}, .width = kW[(w + dw) % 3], .height = kW[(h + 2 * dw) % 3], .percent_radius = kRad[(rad + dr) % 3], .rotation = Angle::Radians(kRot[(rot + dr) % 4]), .slant = Angle::Radians(slant == 0 ? 0 : slant == 1 ? .5f : -1.f), .pinch = pinch * .5f}, kColors[(col + dc) % 5]); };
  std::vector<BrushTipState> p{make(0, 0, 0, 0), make(10, 1, 1, 2)}, st; if (third) p.push_back(make(20, 2, 2, 3));
  for (auto& s : p) { if (!st.empty()) st.push_back({.position = s.position, .width = 0, .height = 0}); st.push_back(s); }
  Run r(winding, .01f); size_t k = vol ? st.size() - 1 : st.size(); c.op(1);
  r.ex.ExtendStroke({st.data(), k}, {st.data() + k, st.size() - k});
  std::vector<int> seen(p.size()); std::vector<Envelope> uv(p.size());
  for (uint32_t i = 0; i < r.mesh.VertexCount(); ++i) {
    StrokeVertex v = r.At(i); size_t n = std::min<size_t>(p.size() - 1, std::lround(std::max(0.f, v.position.x) / 10)); ++seen[n]; c.eval(2);
    MC_EXPECT(c, Got(v) == Wanted(p[n]), "colour", "vertex " << i << " of particle " << n << " has " << Show(Got(v)) << " not " << Show(Wanted(p[n])));
    Point g = v.non_position_attributes.surface_uv; D2 want = winding ? ParticleUv(p[n], v.position) : D2{0, 0};
    MC_EXPECT(c, std::fabs(g.x - want.x) < 6e-5 && std::fabs(g.y - want.y) < 6e-5 && g.x >= 0 && g.x <= 1 && g.y >= 0 && g.y <= 1, "surface-uv", "vertex " << i << " of particle " << n << ": " << g.x << "," << g.y << " not " << want.x << "," << want.y);
    uv[n].Add(g);
  }
  for (size_t n = 0; n < p.size(); ++n) {
    MC_EXPECT(c, seen[n] >= 3, "no-particle", "particle " << n << " has " << seen[n] << " vertices");
    if (winding && slant == 0 && pinch == 0) { auto b = uv[n].AsRect(); MC_EXPECT(c, b && b->XMin() < .05f && b->YMin() < .05f && b->XMax() > .95f && b->YMax() > .95f, "uv-extent", zoo::ShowRect(b)); }
  }
  CheckSides(c, r);
  for (const StrokeOutline& o : r.ex.GetOutlines()) for (uint32_t i : o.GetIndices()) {
    StrokeVertex v = r.At(i); D2 d = Outset(v, 1); double l = std::hypot(d.x, d.y);
    MC_EXPECT(c, l > 0, "no-outset", "vertex " << i << " side " << v.non_position_attributes.side_label.encoded_value << " forward " << v.non_position_attributes.forward_label.encoded_value);
    if (l > 0) MC_EXPECT(c, !Inside(r.mesh, {v.position.x + d.x / l * 1e-2, v.position.y + d.y / l * 1e-2}, 1e-3), "outset-inward", "vertex " << i << " at " << v.position.x << "," << v.position.y << " moves by " << d.x << "," << d.y);
  }
  c.outcome(mc::Hash(r.mesh.VertexCount(), r.mesh.TriangleCount()));
}
namespace {
const Point kGrid[] = {{0, 0}, {4, 0}, {8, 0}, {0, 4}, {4, 4}, {8, 4}, {0, 8}, {4, 8}, {8, 8}};
// Colour attributes that all lie on one line, so that any mixture of them does too.
std::array<float, 4> OnLine(double s) { return {(float)(.25 + 1.5 * s), (float)(.125 + .5 * s), (float)(1.75 - s), (float)(-.5 + 1.25 * s)}; }
constexpr double kAt[] = {0, .4, 1, .2, .7};
}  // namespace
MC_SECTION(mixtures, "every path of 2 to 4 (thorough 5, unless overlapping) different neighbouring points of a 3x3 grid, at 3 spacings from widely apart to overlapping, with 4 tips, each state given as fixed or the rest as volatile: every vertex has the opacity and colour of one tip state or one mixture of them, in all four components alike; where it is not crowded and turns by 90 degrees at most, outline vertices are labelled with their side and have non-zero side derivatives") {
  int n = 2 + c.pick(mc::tier(3, 4)), tip = c.pick(4), prev = -1, sc = c.pick(3); c.assume(n < 5 || sc < 2); float scale = std::array<float, 3>{1, .4f, .15f}[sc]; bool sharp = false; std::vector<BrushTipState> st;
  for (int i = 0; i < n; ++i) {
    int k = c.pick(9); c.assume(k != prev); prev = k;
    BrushTipState s{.position = {kGrid[k].x * scale, kGrid[k].y * scale}, .width = 1, .height = tip == 2 ? .5f : 1, .percent_radius = tip == 1 ? 0.f : tip == 2 ? .4f : 1.f, .rotation = Angle::Radians(tip == 2 ? .6f : 0), .pinch = tip == 3 ? .7f : 0};
    st.push_back(Paint(s, OnLine(kAt[i])));
    if (i > 1) { Vec a = st[i - 1].position - st[i - 2].position, b = s.position - st[i - 1].position; sharp |= a.x * b.x + a.y * b.y < -1e-3f; }
  }
  int fixed = n == 4 ? c.pick(2) * 2 : 0;
  Run r(true, .02f); r.ex.ExtendStroke({st.data(), (size_t)fixed}, {st.data() + fixed, st.size() - fixed}); c.op(1);
  double lo = 1, hi = 0; for (int i = 0; i < n; ++i) { lo = std::min(lo, kAt[i]); hi = std::max(hi, kAt[i]); }
  for (uint32_t i = 0; i < r.mesh.VertexCount(); ++i) {
    StrokeVertex v = r.At(i); auto g = Got(v); double s = (g[0] + .75) / 1.5; c.eval();
    MC_EXPECT(c, s > lo - 1e-5 && s < hi + 1e-5, "colour-range", "vertex " << i << " opacity shift " << g[0]);
    auto w = OnLine(s); w[0] -= 1; w[2] -= 1;
    for (int k = 0; k < 4; ++k) MC_EXPECT(c, std::fabs(g[k] - w[k]) < 1e-5, "colour-mixture", "vertex " << i << " has " << Show(g) << ", not a mixture like " << Show(w));
  }
  if (scale > .3f && !sharp) CheckSides(c, r);
  c.outcome(mc::Hash(r.mesh.VertexCount(), r.mesh.TriangleCount()));
}
MC_SECTION(straight, "every straight stroke of 2 to 4 states in 16 (thorough 48) directions from 2 points with tips of 5 shapes (round, square, rounded, and flat along or across) in 3 sizes in any order (flat along: always the same) at 3 spacings, as fixed or volatile states: every vertex lies on some state's tip and carries exactly its opacity, colour and particle texture coordinates, or is where two sides in line meet and carries a mixture of two states'; left vertices are on the left; side derivatives point from left to right, forward derivatives forward, and at a state between equal ones have the stroke's width and direction; ends are labelled back and front; outsetting never moves an outline vertex into the stroke") {
  int n = 2 + c.pick(3), dirs = mc::tier(16, 48), dir = c.pick(dirs), shape = c.pick(5); bool square = shape == 1, uv = c.flag(); Vec off = c.flag() ? Vec{37.25f, -12.5f} : Vec{0, 0}; if (!mc::thorough()) c.assume(uv == (off.x == 0)); float gap = std::array<float, 3>{6, 2.5f, 1.2f}[c.pick(3)]; int vol = c.pick(2); std::vector<BrushTipState> st; bool equal = true; std::vector<int> size;
  double angle = dir * 2 * M_PI / dirs, dx = std::cos(angle), dy = std::sin(angle);
  for (int i = 0; i < n; ++i) {
    int k = c.pick(3); size.push_back(k); if (i && k != size[0]) equal = false; c.assume(equal || shape != 3); float w = std::array<float, 3>{1, .8f, 1.3f}[k];
    st.push_back(Paint({.position = {(float)(i * gap * dx + off.x), (float)(i * gap * dy + off.y)}, .width = shape == 4 ? .4f * w : w, .height = shape == 3 ? .4f * w : w, .percent_radius = square ? 0.f : shape == 2 ? .4f : 1.f, .rotation = Angle::Radians((float)angle)}, kColors[i]));
  }
  Run r(uv, .01f); r.ex.ExtendStroke({st.data(), vol ? size_t(n / 2) : st.size()}, {st.data() + (vol ? n / 2 : n), vol ? st.size() - n / 2 : 0}); c.op(1);
  for (uint32_t i = 0; i < r.mesh.VertexCount(); ++i) {
    StrokeVertex v = r.At(i); auto& a = v.non_position_attributes; double px = v.position.x - off.x, py = v.position.y - off.y, along = px * dx + py * dy, across = -px * dy + py * dx; bool found = false; int owner = -1;
    for (int k = 0; k < n; ++k) if (Got(v) == Wanted(st[k])) { owner = k; double l = along - k * gap, w = std::max(st[k].width, st[k].height) / 2; double far = square ? std::max(std::fabs(l), std::fabs(across)) : std::hypot(l, across); found = far > (shape < 2 ? .8 : .15) * w && far < 1.35 * w; }
    c.eval(4);
    bool mixed = false;  // rounding may make sides that are in line intersect
    for (int k = 0; k < n && owner < 0; ++k) for (int l = k + 1; l < n; ++l) {
      auto g = Got(v), p = Wanted(st[k]), q = Wanted(st[l]); double t = (g[0] - p[0]) / (double)(q[0] - p[0]); bool ok = t >= 0 && t <= 1 && along > k * gap - 1 && along < l * gap + 1;
      for (int z = 0; z < 4; ++z) ok &= std::fabs(g[z] - (p[z] + t * (q[z] - p[z]))) < 1e-4;
      mixed |= ok;
    }
    if (mixed) continue;
    MC_EXPECT(c, found, "owner", "vertex " << i << " at " << along << "," << across << " along the stroke has " << Show(Got(v)) << (owner < 0 ? " of no state" : " of a state elsewhere"));
    if (owner < 0) continue;
    D2 want = uv ? ParticleUv(st[owner], v.position) : D2{0, 0}; Point g = a.surface_uv;
    MC_EXPECT(c, std::fabs(g.x - want.x) < 6e-5 && std::fabs(g.y - want.y) < 6e-5, "surface-uv", "vertex " << i << ": " << g.x << "," << g.y << " not " << want.x << "," << want.y);
    auto cat = a.side_label.DecodeSideCategory();
    if (along > 1e-3 && along < (n - 1) * gap - 1e-3) MC_EXPECT(c, cat == StrokeVertex::SideCategory::kExteriorLeft ? across > -1e-3 : cat == StrokeVertex::SideCategory::kExteriorRight ? across < 1e-3 : false, "side", "vertex " << i << " at " << across << " to the left has side label " << a.side_label.encoded_value);
    double sa = a.side_derivative.x * dy - a.side_derivative.y * dx, fa = a.forward_derivative.x * dx + a.forward_derivative.y * dy, m = a.side_derivative.Magnitude();
    MC_EXPECT(c, sa > 0, "side-derivative", "vertex " << i << ": " << a.side_derivative.x << "," << a.side_derivative.y);
    auto f = a.forward_label.DecodeForwardCategory();
    if (f == StrokeVertex::ForwardCategory::kExteriorFront) MC_EXPECT(c, owner == 0 && along < 1e-3, "front-label", "vertex " << i << " of state " << owner);
    if (f == StrokeVertex::ForwardCategory::kExteriorBack) MC_EXPECT(c, owner == n - 1 && along - (n - 1) * gap > -1e-3, "back-label", "vertex " << i << " of state " << owner);
    if (f != StrokeVertex::ForwardCategory::kInterior) MC_EXPECT(c, fa > 0, "forward-derivative", "vertex " << i << ": " << a.forward_derivative.x << "," << a.forward_derivative.y);
    if (equal && owner > 0 && owner < n - 1) MC_EXPECT(c, sa > .6 * st[0].height && (shape == 3 || m < 1.5 * st[0].height), "side-derivative-width", sa << " of " << st[0].height);
    if (f == StrokeVertex::ForwardCategory::kInterior) MC_EXPECT(c, fa > -1e-3, "forward-derivative", a.forward_derivative.x << "," << a.forward_derivative.y);
  }
  CheckSides(c, r);
  bool front = false, back = false;
  for (const StrokeOutline& o : r.ex.GetOutlines()) for (uint32_t i : o.GetIndices()) {
    StrokeVertex v = r.At(i); D2 d = Outset(v, 1); double l = std::hypot(d.x, d.y); auto f = v.non_position_attributes.forward_label.DecodeForwardCategory();
    front |= f == StrokeVertex::ForwardCategory::kExteriorFront; back |= f == StrokeVertex::ForwardCategory::kExteriorBack;
    MC_EXPECT(c, l > 0 && !Inside(r.mesh, {v.position.x + d.x / l * 1e-2, v.position.y + d.y / l * 1e-2}, 1e-3), "outset-inward", "vertex " << i << " at " << v.position.x << "," << v.position.y << " moves by " << d.x << "," << d.y);
  }
  for (const StrokeOutline& o : r.ex.GetOutlines()) {
    auto idx = o.GetIndices(); size_t nr = o.GetIndexCounts().right; auto at = [&](size_t k) { Point p = r.mesh.VertexPosition(idx[k]); return (p.x - off.x) * dx + (p.y - off.y) * dy; };
    for (size_t k = 1; k < idx.size(); ++k) if (k != nr) { double step = at(k) - at(k - 1); MC_EXPECT(c, k < nr ? step < 1e-2 : step > -1e-2, "outline-turns-back", "outline vertex " << k << " of " << idx.size() << " goes " << step); }
  }
  MC_EXPECT(c, front && back, "no-cap-labels", front << back);
  c.outcome(mc::Hash(r.mesh.VertexCount(), r.mesh.TriangleCount()));
}
MC_MAIN()
