// P15: segment/line intersection ratios, projections, barycentric coordinates (exact grid oracle).
#include <optional>
#include "absl/strings/str_cat.h"
#include "ink/geometry/internal/algorithms.h"
#include "ink/geometry/internal/legacy_segment_intersection.h"
#include "ink/geometry/internal/legacy_triangle_contains.h"
#include "ink/geometry/internal/legacy_vector_utils.h"
#include "shapes2d.h"
using ink::Point; using ink::Segment; using ink::Triangle; using ink::Vec;
namespace gi = ink::geometry_internal;
namespace {
int64_t Det(IP a, IP b) { return a.x * b.y - a.y * b.x; }
int64_t Dot(IP a, IP b) { return a.x * b.x + a.y * b.y; }
IP Sub(IP a, IP b) { return {a.x - b.x, a.y - b.y}; }
bool EqP(IP a, IP b) { return a.x == b.x && a.y == b.y; }
struct Seg { IP a, b; };
struct Hit { double t0, t1, s0, s1; };  // overlap interval on each, t0<=t1 and s0<=s1
double Clamp01(double v) { return std::min(1., std::max(0., v)); }
std::optional<Hit> Oracle(const Seg& A, const Seg& B) {
  if (Separated({1, 2, {A.a, A.b}}, {1, 2, {B.a, B.b}})) return std::nullopt;
  IP u = Sub(A.b, A.a), v = Sub(B.b, B.a), w = Sub(B.a, A.a); int64_t d = Det(u, v), uu = Dot(u, u), vv = Dot(v, v);
  if (d) { double t = double(Det(w, v)) / d, s = double(Det(w, u)) / d; return Hit{t, t, s, s}; }
  auto proj = [](IP p, const Seg& s, IP dir, int64_t m) { return m ? double(Dot(Sub(p, s.a), dir)) / m : 0.0; };
  double tb0 = proj(B.a, A, u, uu), tb1 = proj(B.b, A, u, uu), sa0 = proj(A.a, B, v, vv), sa1 = proj(A.b, B, v, vv);
  return Hit{Clamp01(std::min(tb0, tb1)), Clamp01(std::max(tb0, tb1)), Clamp01(std::min(sa0, sa1)), Clamp01(std::max(sa0, sa1))};
}
std::string Show(const Seg& s) { return absl::StrCat("(", s.a.x, ",", s.a.y, ")-(", s.b.x, ",", s.b.y, ")"); }
IP G(int i, int g) { return {i % g - 1, i / g - 1}; }
const std::vector<Place> kPlaces = {{1, 0}, {256, 7}, {0x1p-20f, 0}, {0x1p30f, 0}};
Point F(IP p, Place e) { return {p.x * e.scale + e.off, p.y * e.scale + e.off}; }
Segment F(const Seg& s, Place e) { return {F(s.a, e), F(s.b, e)}; }
}  // namespace
MC_SECTION(segments, "all pairs of segments (degenerate ones included) with ends on 3x3 and 4x4 grids at four exact embeddings: intersect exactly when they share a point, ratios are the first common point on each, the point lies on both; unbounded lines likewise") {
  int g = c.flag() ? 4 : 3, n = g * g;
  Seg A{G(c.pick(n), g), G(c.pick(n), g)};
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    Seg B{G(i, g), G(j, g)}; auto want = Oracle(A, B);
    IP u = Sub(A.b, A.a), v = Sub(B.b, B.a), w = Sub(B.a, A.a);
    for (Place e : kPlaces) {
      Segment a = F(A, e), b = F(B, e);
      auto r = gi::SegmentIntersectionRatio(a, b); auto p = gi::SegmentIntersection(a, b); auto l = gi::UniqueLineIntersectionRatio(a, b); auto leg = gi::LegacyIntersection(a, b);
      c.op(5); c.eval(5); c.add_states(1); c.add_nontrivial(want.has_value());
      auto what = absl::StrCat(Show(A), " vs ", Show(B), " scale ", e.scale, " offset ", e.off);
      MC_EXPECT(c, r.has_value() == want.has_value() && p.has_value() == want.has_value(), "existence", what);
      if (r) {
        MC_EXPECT(c, Near(r->first, want->t0, 0, 1e-6) && Near(r->second, want->s0, 0, 1e-6), "ratios", what << ": " << r->first << ", " << r->second << " want " << want->t0 << ", " << want->s0);
        double tol = 1e-6 * (8 * e.scale + e.off);
        MC_EXPECT(c, Near(p->x, a.start.x + want->t0 * (double(a.end.x) - a.start.x), 0, tol) && Near(p->y, a.start.y + want->t0 * (double(a.end.y) - a.start.y), 0, tol), "point", what);
        c.outcome(mc::Hash(r->first, r->second));
      }
      MC_EXPECT(c, l.has_value() == (Det(u, v) != 0), "line-existence", what);
      if (l) MC_EXPECT(c, Near(l->first, double(Det(w, v)) / Det(u, v), 1e-6, 1e-6) && Near(l->second, double(Det(w, u)) / Det(u, v), 1e-6, 1e-6), "line-ratios", what);
      MC_EXPECT(c, leg.has_value() == want.has_value(), "legacy-existence", what);
      if (leg) {
        auto& x = leg->segment1_interval; auto& y = leg->segment2_interval;
        bool point_a = EqP(A.a, A.b), point_b = EqP(B.a, B.b);
        MC_EXPECT(c, x[0] <= x[1] && x[0] >= 0 && x[1] <= 1 && std::min(y[0], y[1]) >= 0 && std::max(y[0], y[1]) <= 1, "legacy-range", what);
        if (!point_a) MC_EXPECT(c, Near(x[0], want->t0, 0, 2e-6) && Near(x[1], want->t1, 0, 2e-6), "legacy-interval1", what << " " << x[0] << " " << x[1]);
        if (!point_b) MC_EXPECT(c, Near(std::min(y[0], y[1]), want->s0, 0, 2e-6) && Near(std::max(y[0], y[1]), want->s1, 0, 2e-6), "legacy-interval2", what << " " << y[0] << " " << y[1]);
        double tol = 4e-6 * (8 * e.scale + e.off);
        for (int k = 0; k < 2; ++k) {  // interval ends name the same points on both segments
          Point q = k ? leg->intx.end : leg->intx.start; Point pa = a.Lerp(x[k]), pb = b.Lerp(y[k]);
          MC_EXPECT(c, Near(q.x, pa.x, 0, tol) && Near(q.y, pa.y, 0, tol) && Near(q.x, pb.x, 0, tol) && Near(q.y, pb.y, 0, tol), "legacy-points", what << " end " << k);
        }
      }
    }
  }
}
MC_SECTION(triangles, "all triangles with corners on a 3x3 grid x all points of the 5x5 grid around it: barycentric coordinates exist exactly for non-degenerate triangles, sum to one and rebuild the point; legacy containment and side-of-line agree with the exact answer") {
  Seg S{G(c.pick(9), 3), G(c.pick(9), 3)}; IP k = G(c.pick(9), 3);
  for (int i = 0; i < 25; ++i) { IP p{i % 5 - 2, i / 5 - 2};
    for (Place e : kPlaces) {
      Triangle t{F(S.a, e), F(S.b, e), F(k, e)}; Point q = F(p, e); int64_t area = Det(Sub(S.b, S.a), Sub(k, S.a));
      auto b = gi::GetBarycentricCoordinates(t, q); c.op(3); c.eval(4); c.add_states(1); c.add_nontrivial(area != 0);
      auto what = absl::StrCat(Show(S), " (", k.x, ",", k.y, ") point (", p.x, ",", p.y, ") scale ", e.scale, " offset ", e.off);
      MC_EXPECT(c, b.has_value() == (area != 0), "barycentric-existence", what);
      if (b) {
        double w0 = double(Det(Sub(S.b, p), Sub(k, p))) / area, w1 = double(Det(Sub(k, p), Sub(S.a, p))) / area, w2 = double(Det(Sub(S.a, p), Sub(S.b, p))) / area;
        MC_EXPECT(c, Near((*b)[0], w0, 1e-6, 1e-6) && Near((*b)[1], w1, 1e-6, 1e-6) && Near((*b)[2], w2, 2e-6, 2e-6), "barycentric", what << ": " << (*b)[0] << " " << (*b)[1] << " " << (*b)[2] << " want " << w0 << " " << w1 << " " << w2);
        c.outcome(mc::Hash((*b)[0], (*b)[1]));
      }
      if (area) MC_EXPECT(c, gi::LegacyTriangleContains(t, q) == !Separated({2, 3, {S.a, S.b, k}}, {0, 1, {p}}), "legacy-contains", what);
      auto pos = gi::PositionRelativeToLine(t.p0, t.p1, q); int64_t d = Det(Sub(S.b, S.a), Sub(p, S.a));
      auto want = EqP(S.a, S.b) ? gi::RelativePos::kIndeterminate : d > 0 ? gi::RelativePos::kLeft : d < 0 ? gi::RelativePos::kRight : gi::RelativePos::kCollinear;
      MC_EXPECT(c, pos == want, "legacy-side", what);
    }
  }
}
MC_SECTION(projection, "all segments on a 4x4 grid x all grid points: the vector to the projection on the segment's line is the exact one, and there is none exactly for zero-length segments") {
  Seg S{G(c.pick(16), 4), G(c.pick(16), 4)};
  for (int i = 0; i < 49; ++i) for (Place e : kPlaces) {
    IP p{i % 7 - 3, i / 7 - 3}, u = Sub(S.b, S.a); int64_t m = Dot(u, u);
    auto v = gi::VectorFromPointToSegmentProjection(F(p, e), F(S, e)); c.op(); c.eval(2); c.add_states(1); c.add_nontrivial(m > 0);
    MC_EXPECT(c, v.has_value() == (m > 0), "existence", Show(S));
    if (v) {
      double t = double(Dot(Sub(p, S.a), u)) / m, x = (S.a.x + t * u.x - p.x) * e.scale, y = (S.a.y + t * u.y - p.y) * e.scale;
      MC_EXPECT(c, Near(v->x, x, 1e-6, 1e-6 * e.scale) && Near(v->y, y, 1e-6, 1e-6 * e.scale), "value", Show(S) << " point (" << p.x << "," << p.y << ") scale " << e.scale << ": " << v->x << "," << v->y << " want " << x << "," << y);
      c.outcome(mc::Hash(v->x, v->y));
    }
  }
}
MC_MAIN()
