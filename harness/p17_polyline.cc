// P17: ProcessPolylineForMeshCreation.
#include <optional>
#include <set>
#include "absl/strings/str_cat.h"
#include "ink/geometry/internal/polyline_processing.h"
#include "util.h"
using ink::Point; namespace gi = ink::geometry_internal;
namespace {
struct D { double x, y; };
double Cr(D a, D b) { return a.x * b.y - a.y * b.x; }
double Do(D a, D b) { return a.x * b.x + a.y * b.y; }
D Mi(D a, D b) { return {a.x - b.x, a.y - b.y}; }
double Len(D a) { return std::hypot(a.x, a.y); }
struct Pos { int i; double f; double at() const { return i + f; } };
// First (smallest ratio on a) and last common point of two non-degenerate grid segments, as ratios along a.
std::optional<std::pair<double, double>> Meet(D a0, D a1, D b0, D b1) {
  D u = Mi(a1, a0), v = Mi(b1, b0), w = Mi(b0, a0); double d = Cr(u, v);
  if (d) { double t = Cr(w, v) / d, s = Cr(w, u) / d; if (t < 0 || t > 1 || s < 0 || s > 1) return std::nullopt; return std::pair{t, t}; }
  if (Cr(u, w)) return std::nullopt;
  double m = Do(u, u), t0 = Do(w, u) / m, t1 = Do(Mi(b1, a0), u) / m; if (t0 > t1) std::swap(t0, t1);
  if (t1 < 0 || t0 > 1) return std::nullopt;
  return std::pair{std::max(t0, 0.), std::min(t1, 1.)};
}
struct Params { float walk, dist, ratio, trim; };
std::string Show(const std::vector<Point>& v) { std::string s; for (Point p : v) absl::StrAppend(&s, "(", p.x, ",", p.y, ")"); return s; }
struct Ref {
  std::vector<D> p; std::vector<double> len; double total = 0; std::optional<Pos> first, last; bool overlap = false;
  D At(Pos q) const { D a = p[q.i], b = p[q.i + 1]; return {a.x + q.f * (b.x - a.x), a.y + q.f * (b.y - a.y)}; }
  double Walk(Pos q) const { double w = len[q.i] * q.f; for (int i = 0; i < q.i; ++i) w += len[i]; return w; }
  explicit Ref(std::vector<D> pts) : p(std::move(pts)) {
    int n = p.size() - 1; for (int i = 0; i < n; ++i) { len.push_back(Len(Mi(p[i + 1], p[i]))); total += len.back(); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (std::abs(i - j) > 1) if (auto m = Meet(p[i], p[i + 1], p[j], p[j + 1])) {
      overlap |= m->first != m->second;
      if (j > i && (!first || i + m->first < first->at())) first = Pos{i, m->first};
      if (j < i && (!last || i + m->second > last->at())) last = Pos{i, m->second};
    }
  }
  // All equally near best connections of an endpoint (none: empty).
  std::vector<Pos> Connections(bool end, const Params& k) const {
    std::vector<std::pair<double, Pos>> c; int n = len.size(); D e = end ? p.back() : p.front();
    for (int i = 0; i < n; ++i) {
      if (end ? i >= n - 2 : i <= 1) continue;
      D u = Mi(p[i + 1], p[i]); double f = std::min(1., std::max(0., Do(Mi(e, p[i]), u) / Do(u, u))); Pos q{i, f}; double d = Len(Mi(e, At(q))), w = end ? total - Walk(q) : Walk(q);
      if (d >= k.dist || w < k.walk || w / d < k.ratio) continue;
      if (first) { double wi = end ? total - Walk(*last) : Walk(*first); if (wi / d < k.trim) continue; }
      c.push_back({d, q});
    }
    std::vector<Pos> r; double best = 1e300; for (auto& x : c) best = std::min(best, x.first);
    for (auto& x : c) if (x.first < best + 1e-5) r.push_back(x.second);
    return r;
  }
};
std::vector<D> Build(const Ref& r, std::optional<Pos> cf, std::optional<Pos> cl) {
  std::optional<Pos> F = r.first, L = r.last;
  if (cf && !cl && (!L || cf->at() > L->at())) L = cf;
  if (cl && !cf && (!F || cl->at() < F->at())) F = cl;
  std::vector<D> o; double lo = cf || !F ? -1 : F->at(), hi = cl || !L ? 1e9 : L->at();
  if (cf) o.push_back(r.At(*cf)); else if (F) o.push_back(r.At(*F));
  for (int i = 0; i < int(r.p.size()); ++i) if (i > lo && i < hi) o.push_back(r.p[i]);
  if (cl) o.push_back(r.At(*cl)); else if (L) o.push_back(r.At(*L));
  return o;
}
template <typename T> std::vector<D> Dedup(const std::vector<T>& v) { std::vector<D> o; for (auto& p : v) if (o.empty() || Len(Mi({p.x, p.y}, o.back())) > 2e-5) o.push_back({p.x, p.y}); return o; }
bool Close(const std::vector<D>& a, const std::vector<D>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (Len(Mi(a[i], b[i])) > 2e-5) return false; return true; }
void Check(mc::Choices& c, const std::vector<Point>& pts, const Params& k) {
  auto got = gi::ProcessPolylineForMeshCreation(pts, k.walk, k.dist, k.ratio, k.trim); c.op(); c.add_states(1);
  auto what = [&] { return absl::StrCat(Show(pts), " walk ", k.walk, " dist ", k.dist, " ratio ", k.ratio, " trim ", k.trim, ": got ", Show(got)); };
  std::vector<D> u; for (Point p : pts) if (u.empty() || p.x != u.back().x || p.y != u.back().y) u.push_back({p.x, p.y});
  c.outcome(mc::Hash(Show(got)));
  if (u.size() < 2) { MC_EXPECT(c, got == pts, "degenerate", what()); return; }
  Ref r(u); auto cf = r.Connections(false, k), cl = r.Connections(true, k);
  if (cf.empty() && cl.empty() && !r.first) { MC_EXPECT(c, got == pts, "unchanged", what()); return; }
  c.add_nontrivial(1);
  for (Point p : got) MC_EXPECT(c, std::isfinite(p.x) && std::isfinite(p.y), "finite", what());
  if (r.overlap) return;  // where a doubled-back stretch counts as "the" crossing is not specified
  auto g = Dedup(got); bool ok = false; std::string wants;
  std::vector<std::optional<Pos>> fs(cf.begin(), cf.end()), ls(cl.begin(), cl.end()); if (fs.empty()) fs.push_back({}); if (ls.empty()) ls.push_back({});
  for (auto& f : fs) for (auto& l : ls) { auto w = Dedup(Build(r, f, l)); ok |= Close(g, w); if (!ok) { for (D p : w) absl::StrAppend(&wants, "(", p.x, ",", p.y, ")"); wants += "; "; } }
  c.eval(); if (!ok) c.fail("polyline", what() + " want " + wants);
}
const std::vector<Params> kParams = {{0.77f, 0, 1.37f, 0.9f}, {0.77f, 0.61f, 1.37f, 0.9f}, {0.77f, 1.1f, 1.37f, 0.9f}, {0.77f, 1.53f, 1.37f, 1.63f}, {2.3f, 1.53f, 2.9f, 0.13f}, {0.77f, 50, 1.07f, 0.53f}, {3.1f, 50, 1.97f, 3.3f}};
std::vector<Point> Grid(mc::Choices& c, int n, int w, int h) { std::vector<Point> v; for (int i = 0; i < n; ++i) { int k = c.pick(w * h); v.push_back({float(k % w), float(k / w)}); } return v; }
}  // namespace
MC_SECTION(small, "every polyline of up to 5 (thorough 6) points on a 3x3 grid, repeated points included, x seven parameter sets: trimmed at the first and last crossing, connected at the nearest admissible point, otherwise unchanged") {
  int n = c.pick(mc::tier(5, 6)) + 1; auto v = Grid(c, n, 3, 3);
  for (auto& k : kParams) Check(c, v, k);
}
MC_SECTION(strips, "every polyline of 6 (thorough 7) points on a 3x2 and a 2x3 grid x seven parameter sets") {
  bool f = c.flag(); auto v = Grid(c, mc::tier(6, 7), f ? 3 : 2, f ? 2 : 3);
  for (auto& k : kParams) Check(c, v, k);
}
MC_SECTION(loops, "near-closed loops and overshooting tails: every start and end point on a half-step 11x11 grid around a fixed U-shaped path") {
  int a = c.pick(121); static const std::vector<std::vector<Point>> mid = {{{4, 0}, {4, 4}, {0, 4}}, {{3, 1}, {4, 2}, {3, 4}, {1, 4}, {0, 2}}, {{4, 0}, {4, 4}, {0, 4}, {0, 0.25f}, {4, 0.125f}}};
  for (int b = 0; b < 121; ++b) for (auto& m : mid) for (auto& k : kParams) { std::vector<Point> v = {{a % 11 * .5f - 1, a / 11 * .5f - 1}}; v.insert(v.end(), m.begin(), m.end()); v.push_back({b % 11 * .5f - 1.25f, b / 11 * .5f - 0.75f}); Check(c, v, k); }
}
MC_SECTION(walk, "the walking distance from either end of every 3-5 point grid polyline to every segment position is the length of path between, and both ends sum to the whole") {
  int n = c.pick(3) + 3; auto v = Grid(c, n, 3, 3); auto d = gi::CreateNewPolylineData(v);
  MC_EXPECT(c, d.segments.size() == size_t(n - 1), "segments", Show(v));
  double total = 0; for (auto& s : d.segments) total += std::hypot(double(s.segment.end.x) - s.segment.start.x, double(s.segment.end.y) - s.segment.start.y);
  double before = 0; for (int i = 0; i < n - 1; ++i) { double len = std::hypot(double(v[i + 1].x) - v[i].x, double(v[i + 1].y) - v[i].y); for (float f : {0.f, 0.25f, 1.f}) {
    double fw = gi::WalkDistance(d, i, f, false), bw = gi::WalkDistance(d, i, f, true); c.op(2); c.add_states(1); c.outcome(mc::Hash(fw, bw)); c.add_nontrivial(1);
    MC_EXPECT(c, Near(fw, before + f * len, 1e-5, 1e-6) && Near(bw, total - before - f * len, 1e-5, 1e-5), "walk", Show(v) << " segment " << i << " ratio " << f << ": " << fw << " " << bw); }
    before += len; }
}
MC_SECTION(trivial, "zero and one point polylines come back unchanged") { int n = c.pick(2); c.state(n); c.outcome(n); c.add_nontrivial(1); std::vector<Point> v(n, Point{3, 4}); for (auto& k : kParams) { c.op(); MC_EXPECT(c, gi::ProcessPolylineForMeshCreation(v, k.walk, k.dist, k.ratio, k.trim) == v, "trivial", n); } }
MC_MAIN()
