// P18: CreateMeshFromPolyline.
#include <numeric>
#include "absl/strings/str_cat.h"
#include "ink/geometry/internal/generic_tessellator.h"
#include "ink/geometry/internal/point_tessellation_helper.h"
#include "ink/geometry/tessellator.h"
#include "ink/geometry/triangle.h"
#include "util.h"
using ink::Mesh; using ink::Point; using ink::Triangle; namespace gi = ink::geometry_internal;
namespace {
std::string Show(const std::vector<Point>& v) { std::string s; for (Point p : v) absl::StrAppend(&s, "(", p.x, ",", p.y, ")"); return s; }
int Winding(const std::vector<Point>& v, double x, double y) {
  int w = 0; for (size_t i = 0; i < v.size(); ++i) { Point a = v[i], b = v[(i + 1) % v.size()]; double cr = (double(b.x) - a.x) * (y - a.y) - (x - a.x) * (double(b.y) - a.y); if (a.y <= y && b.y > y && cr > 0) ++w; if (a.y > y && b.y <= y && cr < 0) --w; }
  return w;
}
bool Collinear(const std::vector<Point>& v) { for (size_t i = 1; i < v.size(); ++i) for (size_t j = 1; j < v.size(); ++j) if ((v[i].x - v[0].x) * (v[j].y - v[0].y) != (v[i].y - v[0].y) * (v[j].x - v[0].x)) return false; return true; }
// Test points off every line through two 4x4-grid points (irrational-ish offsets).
const std::vector<std::pair<double, double>>& Probes() { static const std::vector<std::pair<double, double>> v = [] { std::vector<std::pair<double, double>> r; for (int i = -1; i < 19; ++i) for (int j = -1; j < 19; ++j) r.push_back({i / 6.0 + 0.0713, j / 6.0 + 0.0391}); return r; }(); return v; }
void Check(mc::Choices& c, const std::vector<Point>& v, float k) {
  std::vector<Point> in; for (Point p : v) in.push_back({p.x * k, p.y * k});
  auto m = ink::CreateMeshFromPolyline(in); c.op(); c.add_states(1); auto what = absl::StrCat(Show(v), " scale ", k);
  if (v.size() < 3) { MC_EXPECT(c, m.status().code() == absl::StatusCode::kInvalidArgument, "short", what); return; }
  bool inside = false; for (auto [x, y] : Probes()) if (Winding(v, x, y)) { inside = true; break; }
  if (Collinear(v)) { MC_EXPECT(c, !m.ok(), "collinear", what); return; }
  if (!inside) return;  // not collinear, but every region has winding number zero
  MC_EXPECT(c, m.ok(), "ok", what << ": " << m.status().message()); c.add_nontrivial(1);
  MC_EXPECT(c, m->TriangleCount() > 0 && m->Format() == ink::MeshFormat(), "non-empty", what);
  for (auto [x, y] : Probes()) {
    int hits = 0; for (uint32_t t = 0; t < m->TriangleCount(); ++t) { Triangle tri = m->GetTriangle(t); hits += tri.Contains(Point{float(x * k), float(y * k)}); }
    c.eval(); if (hits != (Winding(v, x, y) != 0)) c.fail("region", absl::StrCat(what, ": point (", x, ",", y, ") covered ", hits, " times, winding number ", Winding(v, x, y)));
  }
  c.outcome(mc::Hash(m->TriangleCount(), m->VertexCount()));
}
}  // namespace
MC_SECTION(polylines, "every polyline of up to 5 points on a 3x3 grid (thorough also 6 points on a 3x2 grid), repeated points and self-crossings included, at three scales: errors exactly when documented, and the mesh covers each point of the non-zero-winding interior exactly once and nothing else") {
  int n = c.pick(mc::tier(6, 7)); std::vector<Point> v; int h = n == 6 ? 2 : 3;
  for (int i = 0; i < n; ++i) { int k = c.pick(3 * h); v.push_back({float(k % 3), float(k / 3)}); }
  Check(c, v, 1); if (n < 5 || mc::thorough()) { Check(c, v, 100); Check(c, v, 0x1p-12f); }
}
MC_SECTION(fans, "stars and long simple loops of 6..40 points with every step 1..n-1 (all star polygons) and both orientations") {
  int n = 6 + c.pick(mc::tier(15, 35)), step = 1 + c.pick(n - 1); std::vector<Point> v;
  for (int i = 0; i < n; ++i) { double a = 6.283185307 * ((i * step) % n) / n + 0.1; v.push_back({float(1.5 + 1.3 * std::cos(a)), float(1.5 + 1.3 * std::sin(a))}); }
  if (std::gcd(n, step) != 1 || step == n / 2) return;
  auto m = ink::CreateMeshFromPolyline(v); c.op(); c.add_states(1); c.add_nontrivial(1);
  MC_EXPECT(c, m.ok(), "ok", n << "/" << step);
  int bad = 0; for (auto [x, y] : Probes()) { bool near = false; for (size_t i = 0; i < v.size(); ++i) { Point a = v[i], b = v[(i + 1) % v.size()]; double dx = b.x - a.x, dy = b.y - a.y; near |= std::fabs(dx * (y - a.y) - dy * (x - a.x)) / std::hypot(dx, dy) < 2e-3; }
    if (near) continue; int hits = 0; for (uint32_t t = 0; t < m->TriangleCount(); ++t) hits += m->GetTriangle(t).Contains(Point{float(x), float(y)}); c.eval(); bool in = Winding(v, x, y) != 0; MC_EXPECT(c, in ? hits >= 1 : hits == 0, "region", n << "/" << step << " (" << x << "," << y << ") " << hits); }
  c.outcome(mc::Hash(m->TriangleCount()));
}
MC_MAIN()
