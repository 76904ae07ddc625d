// P11: AffineTransform.
#include <optional>
#include "absl/strings/str_cat.h"
#include "ink/geometry/affine_transform.h"
#include "util.h"
using ink::AffineTransform; using ink::Angle; using ink::Point; using ink::Quad; using ink::Rect; using ink::Segment; using ink::Triangle; using ink::Vec;
namespace {
struct M { double a = 1, b = 0, c = 0, d = 0, e = 1, f = 0; };
M Mul(const M& l, const M& r) { return {l.a * r.a + l.b * r.d, l.a * r.b + l.b * r.e, l.a * r.c + l.b * r.f + l.c, l.d * r.a + l.e * r.d, l.d * r.b + l.e * r.e, l.d * r.c + l.e * r.f + l.f}; }
struct D2 { double x, y; };
D2 App(const M& m, double x, double y) { return {m.a * x + m.b * y + m.c, m.d * x + m.e * y + m.f}; }
M Of(const AffineTransform& t) { return {t.A(), t.B(), t.C(), t.D(), t.E(), t.F()}; }
double Mag(const M& m) { return 1 + std::fabs(m.a) + std::fabs(m.b) + std::fabs(m.c) + std::fabs(m.d) + std::fabs(m.e) + std::fabs(m.f); }
bool NearM(const M& x, const M& y, double tol) { double s = tol * std::max(Mag(x), Mag(y)); return Near(x.a, y.a, 0, s) && Near(x.b, y.b, 0, s) && Near(x.c, y.c, 0, s) && Near(x.d, y.d, 0, s) && Near(x.e, y.e, 0, s) && Near(x.f, y.f, 0, s); }
std::string S(const AffineTransform& t) { return absl::StrCat("[", t.A(), " ", t.B(), " ", t.C(), "; ", t.D(), " ", t.E(), " ", t.F(), "]"); }
uint64_t H(const AffineTransform& t) { return mc::Hash(t.A(), t.B(), t.C(), t.D(), t.E(), t.F()); }
M MT(double x, double y) { return {1, 0, x, 0, 1, y}; }
M MS(double x, double y) { return {x, 0, 0, 0, y, 0}; }
M MR(double r) { return {std::cos(r), -std::sin(r), 0, std::sin(r), std::cos(r), 0}; }
struct E { AffineTransform t; M m; };
// One factory call per entry with its textbook matrix.
const std::vector<E>& Factories() {
  static const std::vector<E> v = [] {
    std::vector<E> r;
    r.push_back({AffineTransform(), M{}}); r.push_back({AffineTransform::Identity(), M{}});
    for (float x : {0.f, 3.f, -1.5f}) for (float y : {0.f, 2.f}) r.push_back({AffineTransform::Translate({x, y}), MT(x, y)});
    for (float k : {0.f, 1.f, 2.f, -3.f, 0.25f}) { r.push_back({AffineTransform::Scale(k), MS(k, k)}); r.push_back({AffineTransform::ScaleX(k), MS(k, 1)}); r.push_back({AffineTransform::ScaleY(k), MS(1, k)}); }
    r.push_back({AffineTransform::Scale(2, -0.5f), MS(2, -.5)}); r.push_back({AffineTransform::Scale(-2, -3), MS(-2, -3)});
    for (float a : {0.6f, 1.5707964f, 3.1415927f, -2.f, 5.f}) { r.push_back({AffineTransform::Rotate(Angle::Radians(a)), MR(a)}); r.push_back({AffineTransform::RotateAboutPoint(Angle::Radians(a), {4, -2}), Mul(MT(4, -2), Mul(MR(a), MT(-4, 2)))}); }
    for (float k : {1.f, -0.5f, 0.f}) { r.push_back({AffineTransform::ShearX(k), M{1, k, 0, 0, 1, 0}}); r.push_back({AffineTransform::ShearY(k), M{1, 0, 0, k, 1, 0}}); }
    for (float k : {0.f, 2.f, -3.f}) { r.push_back({AffineTransform::ScaleAboutPoint(k, {4, -2}), Mul(MT(4, -2), Mul(MS(k, k), MT(-4, 2)))}); r.push_back({AffineTransform::ScaleAboutPoint(k, 0.5f, {-1, 7}), Mul(MT(-1, 7), Mul(MS(k, .5), MT(1, -7)))}); }
    r.push_back({AffineTransform(1, 2, 3, 4, 5, 6), M{1, 2, 3, 4, 5, 6}}); r.push_back({AffineTransform(2, 4, 1, 1, 2, -1), M{2, 4, 1, 1, 2, -1}});
    return r;
  }();
  return v;
}
const std::vector<Point> kPts = {{0, 0}, {1, 0}, {0, 1}, {-3, 2}, {5, 5}, {2.5f, -7}, {100, -20}};
bool NearP(Point p, D2 q, double s) { return Near(p.x, q.x, 0, s) && Near(p.y, q.y, 0, s); }
}  // namespace
MC_SECTION(factories, "every factory call of a parameter alphabet: coefficients match the textbook matrix and every point, segment and triangle maps accordingly") {
  const E& e = c.of(Factories());
  c.state(H(e.t)); c.outcome(H(e.t)); c.add_nontrivial(1);
  MC_EXPECT(c, NearM(Of(e.t), e.m, 4e-7), "matrix", S(e.t));
  for (Point p : kPts) {
    double s = 1e-6 * Mag(e.m) * (1 + std::fabs(p.x) + std::fabs(p.y)); c.op(3);
    MC_EXPECT(c, NearP(e.t.Apply(p), App(e.m, p.x, p.y), s), "point", S(e.t) << " (" << p.x << "," << p.y << ")");
    for (Point q : kPts) {
      Segment g = e.t.Apply(Segment{p, q}); Triangle t = e.t.Apply(Triangle{p, q, kPts[3]});
      MC_EXPECT(c, g.start == e.t.Apply(p) && g.end == e.t.Apply(q) && t.p0 == g.start && t.p1 == g.end && t.p2 == e.t.Apply(kPts[3]), "segment-triangle", S(e.t));
    }
  }
}
MC_SECTION(composition, "all products of 2 (thorough 3) factory transforms: the product is the composition of the maps, and the inverse, when the linear part is clearly regular, undoes it on both sides; singular integer matrices have none") {
  const E& x = c.of(Factories()); const E& y = c.of(Factories());
  AffineTransform p = x.t * y.t; M m = Mul(x.m, y.m);
  if (mc::thorough()) { const E& z = c.of(Factories()); p = p * z.t; m = Mul(m, z.m); }
  c.op(4); c.state(H(p)); c.outcome(H(p));
  MC_EXPECT(c, NearM(Of(p), m, 4e-6), "product", S(x.t) << " * " << S(y.t) << " = " << S(p));
  double det = m.a * m.e - m.b * m.d; auto inv = p.Inverse();
  if (std::fabs(det) > 1e-3) {
    c.add_nontrivial(1);
    MC_EXPECT(c, inv.has_value(), "inverse-missing", S(p));
    MC_EXPECT(c, NearM(Of(p * *inv), M{}, 1e-3) && NearM(Of(*inv * p), M{}, 1e-3), "inverse", S(p) << " inverse " << S(*inv));
    M w{m.e / det, -m.b / det, (m.b * m.f - m.c * m.e) / det, -m.d / det, m.a / det, (m.c * m.d - m.a * m.f) / det};
    MC_EXPECT(c, NearM(Of(*inv), w, 1e-4), "inverse-formula", S(p) << " inverse " << S(*inv));
  } else if (std::fabs(det) == 0) MC_EXPECT(c, !inv.has_value() || std::fabs(double(p.A()) * p.E() - double(p.B()) * p.D()) > 0, "inverse-singular", S(p));
}
MC_SECTION(quads, "every quad of a parameter alphabet (zero and negative sizes, rotation, shear) and every rect under every factory transform and all pairs of them, collapsing ones included: the corners of the image quad are the images of the corners; image of a collapsed quad spans the image exactly") {
  static const std::vector<float> rot = {0.f, 0.6f, 1.5707964f, 4.f};
  float w = c.of({0.f, 4.f, 1.f}), h = c.of({0.f, 2.f, -3.f}), r = c.of(rot), sh = c.of({0.f, 1.5f, -0.5f});
  Quad q = Quad::FromCenterDimensionsRotationAndShear({3, -1}, w, h, Angle::Radians(r), sh);
  const E& x = c.of(Factories());
  static const int few[] = {0, 4, 12, 21, 25, 27, 30};
  const E& y = mc::thorough() ? c.of(Factories()) : Factories()[c.of(few)];
  AffineTransform t = x.t * y.t; M m = Mul(x.m, y.m);
  c.state(mc::Hash(H(t), w, h, r, sh)); c.op(2); c.add_nontrivial(1);
  auto check = [&](const Quad& out, std::array<Point, 4> k, const char* key) {
    // Directed Hausdorff both ways between the two (possibly degenerate) parallelograms' corner sets: equal sets, or equal hull when collapsed to a segment.
    std::array<Point, 4> o = out.Corners(); std::array<D2, 4> img; double s = 0;
    for (int i = 0; i < 4; ++i) { img[i] = App(m, k[i].x, k[i].y); s = std::max(s, 2e-5 * (Mag(m) * 10)); }
    double det = m.a * m.e - m.b * m.d;
    auto d = [&] { std::string r; for (auto& p : o) absl::StrAppend(&r, " (", p.x, ",", p.y, ")"); r += " want"; for (auto& p : img) absl::StrAppend(&r, " (", p.x, ",", p.y, ")"); return absl::StrCat(S(t), " w=", w, " h=", h, " rot=", q.Rotation().ValueInRadians(), " shear=", sh, ":", r); };
    auto support = [&](double ux, double uy, auto& pts) { double b = -1e300; for (auto& p : pts) b = std::max(b, ux * p.x + uy * p.y); return b; };
    // Support functions in 16 directions determine a parallelogram/segment hull up to tolerance.
    for (int i = 0; i < 16; ++i) { double a = i * 0.39269908169872414 + 0.01, ux = std::cos(a), uy = std::sin(a); if (!Near(support(ux, uy, o), support(ux, uy, img), 0, s)) c.fail(std::string(key) + (std::fabs(det) < 1e-6 ? "-collapsed" : ""), d()); }
    if (std::fabs(det) > 1e-6) for (auto& p : img) { bool found = false; for (auto& z : o) found = found || NearP(z, p, s); if (!found) c.fail(key, d()); }
    MC_EXPECT(c, out.Width() >= 0 && NearP(out.Center(), App(m, q.Center().x, q.Center().y), s), "center", d());
  };
  Quad out = t.Apply(q); c.outcome(mc::Hash(out.Width(), out.Height(), out.ShearFactor(), out.Rotation().ValueInRadians()));
  check(out, q.Corners(), "quad");
  if (r == 0 && sh == 0 && h >= 0) { Rect rc = Rect::FromCenterAndDimensions({3, -1}, w, h); check(t.Apply(rc), rc.Corners(), "rect"); }
}
MC_SECTION(find, "all pairs of a source and a target segment, triangle, rect and quad from grids: Find maps the source onto the target exactly when the source is not degenerate") {
  static const Point G[6] = {{0, 0}, {2, 0}, {0, 3}, {-1, -2}, {4, 1}, {1, 1}};
  auto near = [](Point a, Point b) { return Near(a.x, b.x, 0, 1e-4) && Near(a.y, b.y, 0, 1e-4); };
  // The rotation angle comes from an arc cosine, which is only good to sqrt(eps) near half turns.
  auto near_rot = [](Point a, Point b) { return Near(a.x, b.x, 0, 1e-2) && Near(a.y, b.y, 0, 1e-2); };
  if (c.flag()) {
    Segment f{c.of(G), c.of(G)}, t{c.of(G), c.of(G)};
    auto r = AffineTransform::Find(f, t); c.op(); c.state(mc::Hash(f.start.x, f.start.y, f.end.x, f.end.y, t.start.x, t.start.y, t.end.x, t.end.y)); c.outcome(r.has_value());
    bool fd = f.start == f.end, td = t.start == t.end;
    MC_EXPECT(c, r.has_value() == (!fd || td), "segment-exists", "");
    if (r) { MC_EXPECT(c, near(r->Apply(f.start), t.start) && near_rot(r->Apply(f.end), t.end), "segment-maps", S(*r)); MC_EXPECT(c, Near(r->A(), r->E(), 0, 1e-5) && Near(r->B(), -r->D(), 0, 1e-5), "segment-isotropic", S(*r)); c.add_nontrivial(1); }
    return;
  }
  Triangle f{c.of(G), c.of(G), c.of(G)}; Point a = c.of(G), b = c.of(G);
  for (Point d : G) {
    Triangle t{a, b, d}; auto r = AffineTransform::Find(f, t); c.op(); c.add_states(1);
    bool deg = f.SignedArea() == 0;
    MC_EXPECT(c, r.has_value() == !deg, "triangle-exists", absl::StrCat(f));
    if (r) { MC_EXPECT(c, near(r->Apply(f.p0), t.p0) && near(r->Apply(f.p1), t.p1) && near(r->Apply(f.p2), t.p2), "triangle-maps", absl::StrCat(f, " -> ", t, " ", S(*r))); c.add_nontrivial(1); c.outcome(H(*r)); }
  }
  Rect fr = Rect::FromTwoPoints(f.p0, f.p1), tr = Rect::FromTwoPoints(a, b); auto r = AffineTransform::Find(fr, tr); c.op(2);
  MC_EXPECT(c, r.has_value() == (fr.Width() > 0 && fr.Height() > 0), "rect-exists", "");
  if (r) for (int i = 0; i < 4; ++i) MC_EXPECT(c, near(r->Apply(fr.Corners()[i]), tr.Corners()[i]), "rect-maps", S(*r));
  Quad fq = Quad::FromCenterDimensionsRotationAndShear(f.p0, f.p1.x, f.p1.y, Angle::Radians(f.p2.x * 0.3f), f.p2.y), tq = Quad::FromCenterDimensionsRotationAndShear(a, b.y, b.x, Angle::Radians(0.7f), 0.5f);
  auto s = AffineTransform::Find(fq, tq);
  if (std::fabs(fq.SignedArea()) > 0) { MC_EXPECT(c, s.has_value(), "quad-exists", ""); for (int i = 0; i < 4; ++i) MC_EXPECT(c, Near(s->Apply(fq.Corners()[i]).x, tq.Corners()[i].x, 0, 1e-2) && Near(s->Apply(fq.Corners()[i]).y, tq.Corners()[i].y, 0, 1e-2), "quad-maps", S(*s)); }
}
MC_MAIN()
