// P42: extruding brush tip states into stroke geometry.
#include <memory>
#include "ink/strokes/internal/brush_tip_extruder.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "mc.h"
#include "strokes_util.h"
using namespace ink;
using namespace ink::strokes_internal;
using zoo::Geo;
namespace {
BrushTipState Tip(float x, float y, float w, float h, float radius, float rot = 0, float opacity = 1) { return {.position = {x, y}, .width = w, .height = h, .percent_radius = radius, .rotation = Angle::Radians(rot), .opacity_multiplier = opacity}; }
const BrushTipState kMixed[] = {Tip(0, 0, 1, 1, 1), Tip(2, 0, 1, 1, 1, 0, .5f), Tip(4, 0, 1, 1, 1), Tip(2, 2, 1, 1, 1), Tip(2.05f, 0, 1, 1, 1), Tip(0, 0, 1, 1, 0), Tip(2, 2, 1.5f, .5f, 0, .4f),
                                Tip(1, 1, 6, 6, 1), Tip(3, 1, 5, 5, 0), Tip(2, 0, 2, .06f, 0, .8f), Tip(0, 2, 2, .5f, .5f, 2), Tip(0, 0, 0, 0, 1)};
constexpr int kNumMixed = 12;
constexpr float kEps = .1f;
#ifdef WITH_SANITIZERS
constexpr int kStates = 3;
#else
constexpr int kStates = 4;
#endif
struct Run {
  MutableMesh mesh{StrokeVertex::FullMeshFormat()}; BrushTipExtruder ex;
  explicit Run(bool winding, float eps = kEps) { ex.StartStroke(eps, winding, mesh); }
  Geo Read() const { Geo g = zoo::ReadMesh(mesh); for (auto& o : ex.GetOutlines()) if (!o.GetIndices().empty()) g.outlines.push_back({o.GetIndices().begin(), o.GetIndices().end()}); return g; }
};
using Tri = std::array<float, 6>;
std::multiset<Tri> Triangles(const Geo& g) { std::multiset<Tri> m; for (auto& t : g.tri) m.insert({g.pos[t[0]][0], g.pos[t[0]][1], g.pos[t[1]][0], g.pos[t[1]][1], g.pos[t[2]][0], g.pos[t[2]][1]}); return m; }
void CheckUpdate(mc::Choices& c, const Geo& a, const Geo& b, const StrokeShapeUpdate& u) {
  auto x = Triangles(a), y = Triangles(b); std::vector<Tri> d; std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(d));
  Envelope e; for (auto& t : d) for (int k = 0; k < 3; ++k) e.Add(Point{t[2 * k], t[2 * k + 1]});
  auto want = e.AsRect(), got = u.region.AsRect();
  if (want) MC_EXPECT(c, got && got->Contains(*want), "updated-region", zoo::ShowRect(got) << " misses changes in " << zoo::ShowRect(want));
  uint32_t i = 0; while (i < a.tri.size() && i < b.tri.size() && a.tri[i] == b.tri[i]) ++i;
  if (i < a.tri.size() || i < b.tri.size()) MC_EXPECT(c, u.first_index_offset && *u.first_index_offset <= 3 * i, "first-index", "triangle " << i << " of " << a.tri.size() << "->" << b.tri.size() << " changed but first index is " << (u.first_index_offset ? int(*u.first_index_offset) : -1));
  uint32_t v = 0; while (v < a.pos.size() && v < b.pos.size() && a.pos[v] == b.pos[v] && std::equal(a.attr[v].begin(), a.attr[v].end(), b.attr[v].begin(), [](float p, float q) { return Same(p, q); })) ++v;
  if (v < a.pos.size() || v < b.pos.size()) MC_EXPECT(c, u.first_vertex_offset && *u.first_vertex_offset <= v, "first-vertex", "vertex " << v << " of " << a.pos.size() << "->" << b.pos.size() << " changed but first vertex is " << (u.first_vertex_offset ? int(*u.first_vertex_offset) : -1));
}
double Area(const Geo& g, const std::array<uint32_t, 3>& t) { auto &a = g.pos[t[0]], &b = g.pos[t[1]], &d = g.pos[t[2]]; return ((double)(b[0] - a[0]) * (d[1] - a[1]) - (double)(b[1] - a[1]) * (d[0] - a[0])) / 2; }
bool Near5(float a, float b) { return std::fabs(a - b) < 1e-5f; }
void CheckGeometry(mc::Choices& c, const Run& r, const Geo& g) {
  std::string bad = zoo::Invalid(g); MC_EXPECT(c, bad.empty(), "invalid-geometry", bad);
  auto b = r.ex.GetBounds().AsRect(), w = zoo::Bounds(g).AsRect();
  auto near = [](const std::optional<Rect>& a, const std::optional<Rect>& b) { return a.has_value() == b.has_value() && (!a || (Near5(a->XMin(), b->XMin()) && Near5(a->XMax(), b->XMax()) && Near5(a->YMin(), b->YMin()) && Near5(a->YMax(), b->YMax()))); };
  MC_EXPECT(c, near(b, w), "bounds", zoo::ShowRect(b) << " but the vertices span " << zoo::ShowRect(w));

  std::vector<char> in_outline(g.pos.size(), 0);
  for (auto& o : g.outlines) for (uint32_t v : o) { MC_EXPECT(c, !in_outline[v], "outline-repeat", "vertex " << v); in_outline[v] = 1; }
  c.eval(3 + g.tri.size());
}
// `cusp`: the recorded finding may show, which changes derivatives and margins only.
void ExpectSame(mc::Choices& c, Geo a, Geo b, bool cusp) {
  std::string d = zoo::Diff(a, b);
  if (cusp && !d.empty()) {
    for (Geo* g : {&a, &b}) for (auto& v : g->attr) for (int k : {6, 7, 8, 9, 10, 11}) v[k] = 0;
    MC_EXPECT(c, !zoo::Diff(a, b).empty(), "derivatives-after-removed-cusp", d);
  }
  MC_EXPECT(c, d.empty(), "depends-on-split", d);
}
}  // namespace

MC_SECTION(histories, "all histories of calls with up to 3 fixed and 2 volatile tip states out of 12 (two shapes, sizes, rotations, breaks, shapes containing others), 4 states in all (thorough also 5 with 7 of the 12; one less under sanitizers), with and without particle texture coordinates: geometry, attributes and outlines are those of an extruder given the fixed states at once; bounds, updated region and offsets, winding and outlines are right after every call") {
  std::string hist; bool cusp = false; bool winding = c.flag(); bool deep = mc::thorough() && c.flag(); int left = deep ? kStates + 1 : kStates, kinds = deep ? 7 : kNumMixed;
  Run r(winding); Run ref(winding); std::vector<BrushTipState> pending; Geo last = r.Read();
  for (int call = 0; left > 0 && call < 4; ++call) {
    int nf = c.pick(std::min(left, 3) + 1); std::vector<BrushTipState> fixed, vol;
    std::string now; for (int i = 0; i < nf; ++i) { int k = c.pick(kinds); hist += char('a' + k); fixed.push_back(kMixed[k]); }
    left -= nf; int nv = c.pick(std::min(left, 2) + 1); if (nf + nv == 0 && call == 0) { c.assume(false); }
    for (int i = 0; i < nv; ++i) { int k = c.pick(kinds); now += char('a' + k); vol.push_back(kMixed[k]); }
    left -= nv; c.op(1);
    // The recorded finding: fixed states ending in the two 0.05 apart, then a sharp turn as the first volatile state.
    bool cusp_now = hist.size() >= 2 && !now.empty() && (now[0] == 'd' || now[0] == 'g') && (hist.substr(hist.size() - 2) == "be" || hist.substr(hist.size() - 2) == "eb");
    StrokeShapeUpdate u = r.ex.ExtendStroke(fixed, vol); Geo g = r.Read();
    CheckUpdate(c, last, g, u); CheckGeometry(c, r, g);
    pending.insert(pending.end(), fixed.begin(), fixed.end());
    if (nv == 0) { BrushTipState brk = kMixed[kNumMixed - 1]; std::vector<BrushTipState> none; if (nf == 0) none.push_back(brk); ref.ex.ExtendStroke(pending, none); pending.clear(); ExpectSame(c, g, ref.Read(), cusp); }
    else if (left == 0) { ref.ex.ExtendStroke(pending, vol); ExpectSame(c, g, ref.Read(), cusp); }
    c.state(mc::Hash(g.tri.size(), g.pos.size(), g.outlines.size()));
    cusp |= cusp_now; last = std::move(g);
    if (nf + nv == 0) break;
  }
  c.outcome(mc::Hash(last.tri.size(), last.pos.size(), last.outlines.size()));
}


namespace {
struct V { double x, y; };
double Cross(V o, V a, V b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }
// The outline of a tip (no slant or pinch), as a fine polygon.
std::vector<V> TipOutline(const BrushTipState& s) {
  std::vector<V> out; double r = s.percent_radius * std::min(s.width, s.height) / 2, w = s.width / 2 - r, h = s.height / 2 - r, cr = std::cos(s.rotation.ValueInRadians()), sr = std::sin(s.rotation.ValueInRadians());
  for (int q = 0; q < 4; ++q) for (int k = 0; k <= 8; ++k) {
    double a = (q + k / 8.) * M_PI / 2, x = (q == 0 || q == 3 ? w : -w) + r * std::cos(a), y = (q < 2 ? h : -h) + r * std::sin(a);
    out.push_back({s.position.x + cr * x - sr * y, s.position.y + sr * x + cr * y});
    if (r == 0) break;
  }
  return out;
}
std::vector<V> Hull(std::vector<V> p) {
  std::sort(p.begin(), p.end(), [](V a, V b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
  std::vector<V> h;
  for (int pass = 0; pass < 2; ++pass) { size_t base = h.size(); for (V v : p) { while (h.size() >= base + 2 && Cross(h[h.size() - 2], h.back(), v) <= 0) h.pop_back(); h.push_back(v); } h.pop_back(); std::reverse(p.begin(), p.end()); }
  return h;
}
// Positive inside.
double Depth(const std::vector<V>& h, V p) {
  double in = 1e9, out = 1e9; bool inside = true;
  for (size_t i = 0; i < h.size(); ++i) {
    V a = h[i], b = h[(i + 1) % h.size()]; double l = std::hypot(b.x - a.x, b.y - a.y), d = Cross(a, b, p) / l; in = std::min(in, d); if (d < 0) inside = false;
    double t = std::clamp(((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / (l * l), 0., 1.); out = std::min(out, std::hypot(p.x - a.x - t * (b.x - a.x), p.y - a.y - t * (b.y - a.y)));
  }
  return inside ? in : -out;
}
struct Cover {
  std::vector<std::array<V, 3>> tri;
  explicit Cover(const Geo& g) { for (auto& t : g.tri) { std::array<V, 3> a; for (int k = 0; k < 3; ++k) a[k] = {g.pos[t[k]][0], g.pos[t[k]][1]}; double ar = Cross(a[0], a[1], a[2]); if (ar < 0) std::swap(a[1], a[2]); if (std::fabs(ar) > 1e-5) tri.push_back(a); } }
  bool Has(V p) const { for (auto& t : tri) { bool in = true; for (int k = 0; k < 3 && in; ++k) in = Cross(t[k], t[(k + 1) % 3], p) >= -1e-6; if (in) return true; } return false; }
};
const Point kGrid[] = {{0, 0}, {1, 0}, {2, 0}, {0, 1}, {1, 1}, {2, 1}, {0, 2}, {1, 2}, {2, 2}};
// True if the last move goes exactly back along the one before.
bool Reverses(const std::vector<BrushTipState>& st) { size_t n = st.size(); if (n < 3) return false; Vec a = st[n - 2].position - st[n - 3].position, b = st[n - 1].position - st[n - 2].position; return a.x * b.y == a.y * b.x && a.x * b.x + a.y * b.y < 0; }
// True if the last two turns are both sharper than 120 degrees.
bool TurnsSharplyTwice(const std::vector<BrushTipState>& st) {
  size_t n = st.size(); if (n < 4) return false;
  auto sharp = [&](size_t i) { Vec a = st[i].position - st[i - 1].position, b = st[i + 1].position - st[i].position; return (a.x * b.x + a.y * b.y) < -.5f * a.Magnitude() * b.Magnitude(); };
  return sharp(n - 3) && sharp(n - 2);
}
void CheckSweep(mc::Choices& c, const std::vector<BrushTipState>& st, float eps, double step) {
  Run r(false, eps); r.ex.ExtendStroke({}, st); Geo g = r.Read(); CheckGeometry(c, r, g); c.op(1);
  std::vector<std::vector<V>> hulls; std::vector<V> prev;
  for (size_t i = 0; i < st.size(); ++i) { std::vector<V> o = TipOutline(st[i]), both = o; if (i) both.insert(both.end(), prev.begin(), prev.end()); if (i || st.size() == 1) hulls.push_back(Hull(both)); prev = o; }
  Cover cover(g); double slack = 2.5 * eps; int miss = 0, extra = 0; std::string first;
  for (double x = -.31; x < 2.4; x += step) for (double y = -.31; y < 2.4; y += step) {
    double d = -1e9; for (auto& h : hulls) { d = std::max(d, Depth(h, {x, y})); if (d > slack) break; }
    if (std::fabs(d) < slack) continue;
    bool in = cover.Has({x, y}); c.eval();
    if (d > 0 && !in) { ++miss; if (first.empty()) first = "misses " + std::to_string(x) + "," + std::to_string(y); }
    if (d < 0 && in) { ++extra; if (first.empty()) first = "covers " + std::to_string(x) + "," + std::to_string(y); }
  }
  auto show = [&] { std::ostringstream os; for (auto& s : st) os << " (" << s.position.x << "," << s.position.y << " " << s.width << "x" << s.height << ")"; return os.str(); };
  MC_EXPECT(c, miss == 0, "sweep-missing", miss << " points, " << first << " of" << show());
  MC_EXPECT(c, extra == 0, "sweep-extra", extra << " points, " << first << " of" << show());
  c.outcome(mc::Hash(g.tri.size(), g.pos.size()));
}
const BrushTipState kSweep[] = {Tip(0, 0, .3f, .3f, 1), Tip(0, 0, .16f, .16f, 1), Tip(0, 0, .3f, .3f, 0), Tip(0, 0, .3f, .12f, 0, .4f), Tip(0, 0, .3f, .2f, .5f, 1.2f)};
}  // namespace
#ifndef WITH_SANITIZERS
MC_SECTION(sweep_same, "every path of 4 (thorough 5) points, neighbours different and without exact reversals or two turns above 120 degrees in a row, of a 3x3 grid with one of 5 tips much smaller than the spacing, 2 epsilons: every sample point clearly inside the area swept by the tip is covered by a triangle and none clearly outside is") {
  BrushTipState tip = kSweep[c.pick(5)]; float eps = c.flag() ? .05f : .01f; int n = mc::tier(4, 5), prev = -1; std::vector<BrushTipState> st;
  for (int i = 0; i < n; ++i) { int k = c.pick(9); c.assume(k != prev); prev = k; tip.position = kGrid[k]; st.push_back(tip); c.assume(!Reverses(st) && !TurnsSharplyTwice(st)); }
  CheckSweep(c, st, eps, .083);
}
MC_SECTION(sweep_mixed, "every path of 3 (thorough 4; there with 3 of the tips) such points of a 3x3 grid with 5 tips changing freely: the same") {
  int n = mc::tier(3, 4), prev = -1; std::vector<BrushTipState> st;
  for (int i = 0; i < n; ++i) { int k = c.pick(9); c.assume(k != prev); prev = k; BrushTipState tip = kSweep[c.pick(mc::tier(5, 3)) * mc::tier(1, 2)]; tip.position = kGrid[k]; st.push_back(tip); c.assume(!Reverses(st) && !TurnsSharplyTwice(st)); }
  CheckSweep(c, st, .02f, .083);
}
#endif
MC_MAIN()
