// P37: the easing evaluator computes the declared easing function for every input.
#include <algorithm>
#include "ink/brush/easing_function.h"
#include "ink/strokes/internal/easing_implementation.h"
#include "mc.h"
#include "util.h"
using namespace ink;
using strokes_internal::EasingImplementation;
using EF = EasingFunction;
using CP = absl::InlinedVector<float, EasingImplementation::kInlineCriticalPointCount>;

static std::vector<float> Critical(const EasingImplementation& e) { CP v; e.AppendUnitIntervalCriticalPoints(v); return {v.begin(), v.end()}; }

// ---- reference definitions (double) ----
static double BezX(const EF::CubicBezier& b, double t) { return 3 * (1 - t) * (1 - t) * t * b.x1 + 3 * (1 - t) * t * t * b.x2 + t * t * t; }
static double BezY(const EF::CubicBezier& b, double t) { return 3 * (1 - t) * (1 - t) * t * b.y1 + 3 * (1 - t) * t * t * b.y2 + t * t * t; }
static double SolveT(const EF::CubicBezier& b, double x) {
  double lo = 0, hi = 1;
  for (int i = 0; i < 60; ++i) { double m = (lo + hi) / 2; (BezX(b, m) < x ? lo : hi) = m; }
  return (lo + hi) / 2;
}
struct Piece { double x0, y0, x1, y1; };
// The piecewise-linear function of the documentation, with the implicit end points.
static double RefLinear(const std::vector<Point>& pts, double x, double* slope_mag = nullptr) {
  std::vector<Point> p = {{0, 0}};
  p.insert(p.end(), pts.begin(), pts.end());
  p.push_back({1, 1});
  // value at a listed x: the last point there
  for (int i = static_cast<int>(p.size()) - 1; i >= 0; --i) if (p[i].x == x) { if (slope_mag) *slope_mag = 0; return p[i].y; }
  size_t i = 0;
  if (x < 0) i = 0; else if (x > 1) i = p.size() - 2;
  else while (!(p[i].x < x && x < p[i + 1].x)) ++i;
  if (p[i].x == p[i + 1].x) { if (slope_mag) *slope_mag = 0; return x < p[i].x ? p[i].y : p[i + 1].y; }  // vertical end segment: extend flat
  double m = (double(p[i + 1].y) - p[i].y) / (double(p[i + 1].x) - p[i].x);
  if (slope_mag) *slope_mag = std::fabs(m);
  return p[i].y + m * (x - p[i].x);
}
static double RefSteps(int n, EF::StepPosition pos, double x) {
  if (x < 0) return 0;
  if (x >= 1) return 1;
  double k = std::floor(x * n);
  switch (pos) {
    case EF::StepPosition::kJumpEnd: return k / n;
    case EF::StepPosition::kJumpStart: return (k + 1) / n;
    case EF::StepPosition::kJumpBoth: return (k + 1) / (n + 1.0);
    case EF::StepPosition::kJumpNone: return k / (n - 1.0);
  }
  return 0;
}
static const std::vector<EF::StepPosition> kPos = {EF::StepPosition::kJumpEnd, EF::StepPosition::kJumpStart, EF::StepPosition::kJumpBoth, EF::StepPosition::kJumpNone};

static std::vector<float> XGrid(int n) {
  std::vector<float> v = {-kMax, -1e6f, -2.f, -1.f, -.5f, -1e-6f, -kDenorm, -0.f, 0.f, kDenorm, 1e-30f, 1e-6f, std::nextafter(1.f, 0.f), 1.f, std::nextafter(1.f, 2.f), 1.5f, 2.f, 100.f, 1e6f, kMax};
  for (int i = 1; i < n; ++i) { float x = i / static_cast<float>(n); v.push_back(x); v.push_back(std::nextafter(x, 0.f)); v.push_back(std::nextafter(x, 1.f)); }
  return v;
}

MC_SECTION(identity, "every float (thorough all 2^32): kLinear and the empty piecewise function return their input; NaN stays NaN in every function") {
  int which = c.pick(2);
  EasingImplementation id(EF{.parameters = which ? EF::Parameters(EF::Linear{}) : EF::Parameters(EF::Predefined::kLinear)});
  TierFloatsBlock(c, [&](uint32_t b) {
    float x = FromBits(b);
    if (which == 1 && std::isinf(x)) return;
    float y = id.GetY(x);
    MC_EXPECT(c, Eq(y, x), "identity", "which " << which << " x " << x << " gives " << y);
  });
  c.op(); c.eval(64 * 3);
  c.add_nontrivial(64 * 3);
  for (const EF::Parameters& p : {EF::Parameters(EF::Predefined::kEase), EF::Parameters(EF::Predefined::kStepStart), EF::Parameters(EF::Predefined::kStepEnd), EF::Parameters(EF::Linear{.points = {{.5, 2}}}), EF::Parameters(EF::Steps{5, EF::StepPosition::kJumpBoth}), EF::Parameters(EF::Predefined::kLinear)})
    MC_EXPECT(c, std::isnan(EasingImplementation(EF{.parameters = p}).GetY(kNan)), "nan", "NaN input does not give NaN for function " << p.index());
  MC_EXPECT(c, Critical(id).empty(), "identity-critical", "identity has critical points");
}

MC_SECTION(steps, "all step counts 1..40 (thorough 1..200) and large ones, 4 positions, x: every step boundary and its float neighbours, midpoints, outside") {
  static const std::vector<int> counts = [] { std::vector<int> v; for (int i = 1; i <= mc::tier(40, 200); ++i) v.push_back(i); for (int n : {1000, 4095, 65537, 1000003, 16777215, 16777216}) v.push_back(n); return v; }();
  int n = c.of(counts);
  EF::StepPosition pos = c.of(kPos);
  c.assume(!(pos == EF::StepPosition::kJumpNone && n == 1));
  EasingImplementation e(EF{.parameters = EF::Steps{n, pos}});
  std::vector<float> xs = XGrid(8);
  for (int k = 0; k <= n; k += std::max(1, n / 200)) {
    float x = static_cast<float>(double(k) / n);
    for (float d : {x, std::nextafter(x, -1.f), std::nextafter(x, 2.f), static_cast<float>((k + .5) / n)}) xs.push_back(d);
  }
  std::sort(xs.begin(), xs.end());
  float prev = -kInf;
  for (float x : xs) {
    float y = e.GetY(x);
    double eps = 1e-6;
    // Within a rounding error of a boundary either side is right.
    double lo = std::min({RefSteps(n, pos, x), RefSteps(n, pos, x < 0 || x >= 1 ? x : std::max(0.0, x * (1 - 1.2e-7)))}), hi = RefSteps(n, pos, x < 0 || x >= 1 ? x : std::min<double>(std::nextafter(1.f, 0.f), x * (1 + 1.2e-7)));
    hi = std::max(hi, RefSteps(n, pos, x));
    MC_EXPECT(c, y >= lo - eps && y <= hi + eps, "steps-value", "count " << n << " position " << int(pos) << " x " << x << " gives " << y << " expected " << lo << ".." << hi);
    MC_EXPECT(c, y >= 0 && y <= 1 + 2e-7f, "steps-range", "count " << n << " position " << int(pos) << " x " << x << " gives " << y);
    MC_EXPECT(c, y >= prev - 2e-7f, "steps-monotone", "count " << n << " position " << int(pos) << " x " << x << " gives " << y << " after " << prev);
    prev = y;
    c.outcome(mc::Hash(n, int(pos), y));
  }
  c.eval(xs.size() * 3); c.op(xs.size());
  c.add_states(xs.size());
  if (n == 1) {  // the predefined step functions are the one-step ones
    if (pos == EF::StepPosition::kJumpEnd || pos == EF::StepPosition::kJumpStart) {
      EasingImplementation p(EF{.parameters = pos == EF::StepPosition::kJumpEnd ? EF::Predefined::kStepEnd : EF::Predefined::kStepStart});
      for (float x : xs) MC_EXPECT(c, p.GetY(x) == e.GetY(x), "predefined-step", "position " << int(pos) << " x " << x);
      MC_EXPECT(c, Critical(p) == Critical(e), "predefined-step", "critical points differ");
    }
  }
  if (n <= 1000) {
    std::vector<float> cp = Critical(e);
    for (size_t i = 0; i < cp.size(); ++i) {
      MC_EXPECT(c, cp[i] >= 0 && cp[i] <= 1, "critical-range", "count " << n << " " << cp[i]);
      MC_EXPECT(c, i == 0 || cp[i] > cp[i - 1], "critical-order", "count " << n << " position " << int(pos) << ": " << cp[i - 1] << " then " << cp[i]);
    }
    // Every jump of the function inside the unit interval is next to a pair of critical points.
    auto near = [&](double x) { for (float p : cp) if (std::fabs(p - x) <= 1.5e-7 * std::max(x, 1e-3)) return true; return false; };
    size_t expected = 2 * (n - 1);
    for (int k = 1; k < n; ++k) MC_EXPECT(c, near(double(k) / n), "critical-missing", "count " << n << " position " << int(pos) << " step " << k);
    bool at0 = RefSteps(n, pos, 0) != 0, at1 = true;
    if (at0) { MC_EXPECT(c, !cp.empty() && cp[0] == 0, "critical-missing", "0 missing for position " << int(pos)); ++expected; }
    else MC_EXPECT(c, cp.empty() || cp[0] > 0, "critical-extra", "0 listed for position " << int(pos));
    at1 = RefSteps(n, pos, std::nextafter(1.f, 0.f)) != 1;
    if (at1) MC_EXPECT(c, !cp.empty() && cp.back() == 1, "critical-missing", "1 missing for position " << int(pos));
  }
}

static const std::vector<float> kLx = {0.f, .25f, .5f, 1.f};
static const std::vector<float> kLy = {-1.f, 0.f, .5f, 2.f};

static void CheckLinear(mc::Choices& c, const std::vector<Point>& pts) {
  EasingImplementation e(EF{.parameters = EF::Linear{.points = pts}});
  static const std::vector<float> grid = XGrid(16);
  std::ostringstream os; for (Point p : pts) os << "(" << p.x << "," << p.y << ")";
  for (float x : grid) {
    if (std::fabs(x) > 1e30f) continue;  // extrapolation that far may overflow; no claim
    double m, want = RefLinear(pts, x, &m);
    float y = e.GetY(x);
    double tol = 1e-6 * (4 + std::fabs(want) + m * (1 + std::fabs(x)));
    MC_EXPECT(c, std::fabs(y - want) <= tol, "linear-value", os.str() << " x " << x << " gives " << y << " expected " << want);
    c.outcome(mc::Hash(y));
  }
  for (Point p : pts) {  // exact at listed points
    float y = e.GetY(p.x);
    double want = RefLinear(pts, p.x);
    MC_EXPECT(c, y == want, "linear-at-point", os.str() << " at " << p.x << " gives " << y << " expected " << want);
  }
  c.eval(grid.size() + pts.size()); c.op(grid.size() + pts.size());
  std::vector<float> cp = Critical(e);
  std::vector<float> marks = {0.f};
  for (size_t i = 0; i < cp.size(); ++i) {
    MC_EXPECT(c, cp[i] >= 0 && cp[i] <= 1, "critical-range", os.str() << " " << cp[i]);
    MC_EXPECT(c, i == 0 || cp[i] >= cp[i - 1], "critical-order", os.str());
    marks.push_back(cp[i]);
  }
  marks.push_back(1.f);
  // Between consecutive critical points the function is one straight line.
  for (size_t i = 0; i + 1 < marks.size(); ++i) {
    double a = marks[i], b = marks[i + 1];
    if (b - a < 1e-3) continue;
    float l = std::nextafter(float(a), 2.f), r = std::nextafter(float(b), -1.f), mid = float((a + b) / 2), q = float(a + (b - a) / 4);
    double yl = e.GetY(l), yr = e.GetY(r), ym = e.GetY(mid), yq = e.GetY(q);
    MC_EXPECT(c, std::fabs((yl + yr) / 2 - ym) < 1e-3 && std::fabs(yl * .75 + yr * .25 - yq) < 1e-3, "critical-missing", os.str() << " not straight between " << a << " and " << b);
    c.eval();
  }
}
MC_SECTION(linear, "all lists of up to 4 (thorough 5) points with x ordered on {0,.25,.5,1} and y on {-1,0,.5,2}; x on a grid of 65 values in and outside [0,1]") {
  int n = c.pick(mc::tier(5, 6));
  std::vector<Point> pts;
  size_t lo = 0;
  for (int i = 0; i < n; ++i) { lo += c.pick(kLx.size() - lo); pts.push_back({kLx[lo], c.of(kLy)}); }
  c.state([&] { uint64_t h = n; for (Point p : pts) h = mc::Hash(h, p.x, p.y); return h; }());
  CheckLinear(c, pts);
}
MC_SECTION(linear_long, "longer lists: all 2^9 subsets of 9 x positions (with a duplicated x for each choice of none or one member), zigzag y") {
  uint32_t mask = c.pick(512);
  int dup = static_cast<int>(c.pick(10)) - 1;
  c.assume(dup < 0 || (mask >> dup & 1));
  std::vector<Point> pts;
  for (int i = 0; i < 9; ++i) if (mask >> i & 1) {
    float x = i / 8.f, y = (i * 5 % 7) / 3.f - 1;
    pts.push_back({x, y});
    if (i == dup) { pts.push_back({x, y + 3}); pts.push_back({x, y - 1}); }
  }
  c.state(mc::Hash(mask, dup));
  CheckLinear(c, pts);
}

static void CheckBezier(mc::Choices& c, const EF::CubicBezier& b, const EasingImplementation& e, double tight) {
  double ymag = std::max({1.0, std::fabs(double(b.y1)), std::fabs(double(b.y2))});
  auto show = [&] { std::ostringstream os; os << "bezier(" << b.x1 << "," << b.y1 << "," << b.x2 << "," << b.y2 << ")"; return os.str(); };
  auto expect_near = [&](float y, double want, double tol, const char* k, float x) { MC_EXPECT(c, std::fabs(y - want) <= tol, k, show() << " x " << x << " gives " << y << " expected " << want); };
  expect_near(e.GetY(0), 0, 1e-5 * ymag, "bezier-start", 0);
  // The end: (1, 1), up to the error of the last table step.
  expect_near(e.GetY(1), 1, 2e-3 * ymag, "bezier-end", 1);
  for (float x : {-kInf, -kMax, -1.f, -kDenorm, -0.f}) MC_EXPECT(c, e.GetY(x) == e.GetY(0), "bezier-clamp", show() << " x " << x);
  for (float x : {kInf, kMax, 2.f, std::nextafter(1.f, 2.f)}) MC_EXPECT(c, e.GetY(x) == e.GetY(1), "bezier-clamp", show() << " x " << x);
  // The approximation joins table points at a spacing of at most 1/13 in x; each table
  // point lies on a chord of at most 1/78 of the parameter range.
  double prev_y = 0;
  for (int i = 0; i <= 52; ++i) {
    float x = i / 52.f;
    double t0 = std::max(0.0, SolveT(b, std::max(0.0, x - 1 / 13.0)) - 1 / 70.0), t1 = std::min(1.0, SolveT(b, std::min(1.0, x + 1 / 13.0)) + 1 / 70.0);
    double lo = 1e300, hi = -1e300;
    for (int k = 0; k <= 40; ++k) { double y = BezY(b, t0 + (t1 - t0) * k / 40); lo = std::min(lo, y); hi = std::max(hi, y); }
    float y = e.GetY(x);
    double tol = 4e-3 * ymag;
    MC_EXPECT(c, y >= lo - tol && y <= hi + tol, "bezier-value", show() << " x " << x << " gives " << y << " outside " << lo << ".." << hi);
    if (tight > 0) expect_near(y, BezY(b, SolveT(b, x)), tight, "bezier-accuracy", x);
    if (i % 4 == 0) {  // a table point (x = k/13): on the curve within a chord
      double t = SolveT(b, x), ya = 1e300, yb = -1e300;
      for (int k = -20; k <= 20; ++k) { double y = BezY(b, std::min(1.0, std::max(0.0, t + k / 20.0 / 70))); ya = std::min(ya, y); yb = std::max(yb, y); }
      MC_EXPECT(c, y >= ya - 4e-3 * ymag && y <= yb + 4e-3 * ymag, "bezier-table", show() << " x " << x << " gives " << y << " outside " << ya << ".." << yb);
    }
    if (b.y1 >= 0 && b.y1 <= 1 && b.y2 >= 0 && b.y2 <= 1 && b.y1 <= b.y2) MC_EXPECT(c, y >= prev_y - 1e-5, "bezier-monotone", show() << " x " << x << " gives " << y << " after " << prev_y);
    prev_y = y;
    c.eval(2); c.op();
    c.outcome(mc::Hash(std::round(y * 1e4)));
  }
  // Between critical points the function is monotone.
  std::vector<float> cp = Critical(e);
  std::vector<float> m = {0.f};
  for (size_t i = 0; i < cp.size(); ++i) {
    MC_EXPECT(c, cp[i] >= 0 && cp[i] <= 1 && (i == 0 || cp[i] > cp[i - 1]), "critical-order", show() << " " << cp[i]);
    m.push_back(cp[i]);
  }
  m.push_back(1.f);
  for (size_t i = 0; i + 1 < m.size(); ++i) {
    int dir = 0;
    double y0 = e.GetY(m[i]);
    for (int k = 1; k <= 40; ++k) {
      double y = e.GetY(m[i] + (m[i + 1] - m[i]) * k / 40);
      double d = y - y0;
      if (std::fabs(d) < 2e-6 * ymag) continue;
      int s = d > 0 ? 1 : -1;
      MC_EXPECT(c, dir == 0 || s == dir, "critical-missing", show() << " turns between " << m[i] << " and " << m[i + 1]);
      dir = s; y0 = y;
    }
    c.eval();
  }
}
MC_SECTION(bezier, "x1, x2 on 9 (thorough 17) values in [0,1] including both ends and their neighbours, y1, y2 on 9 values in [-1e6, 1e6]") {
  static const std::vector<float> xs = mc::thorough() ? std::vector<float>{0, kDenorm, 1e-6f, .05f, .1f, .2f, .25f, .333f, .42f, .5f, .58f, .75f, .9f, .99f, .9999f, std::nextafter(1.f, 0.f), 1}
                                                  : std::vector<float>{0, 1e-6f, .1f, .25f, .5f, .75f, .99f, std::nextafter(1.f, 0.f), 1};
  static const std::vector<float> ys = {0, 1, .5f, .1f, 2, -1, 5, -3, 1e6f};
  EF::CubicBezier b{c.of(xs), c.of(ys), c.of(xs), c.of(ys)};
  c.state(mc::Hash(b.x1, b.y1, b.x2, b.y2));
  CheckBezier(c, b, EasingImplementation(EF{.parameters = b}), 0);
}
MC_SECTION(bezier_termination, "x1 and x2 near 1 (the last 2000 floats below 1, thorough 20000) with the other on 12 values; construction ends and is finite for huge y") {
  static const std::vector<float> o = {0, kDenorm, .1f, .25f, .5f, .75f, .9f, .99f, .999f, .9999f, std::nextafter(1.f, 0.f), 1};
  float a = c.of(o);
  bool second = c.flag();
  int block = c.pick(mc::tier(20, 200));
  for (int k = 0; k < 100; ++k) {
    float v = FromBits(0x3f800000u - (block * 100 + k));
    EF::CubicBezier b{second ? a : v, -1e6f, second ? v : a, 1e6f};
    EasingImplementation e(EF{.parameters = b});
    MC_EXPECT(c, std::isfinite(e.GetY(.5f)) && std::fabs(e.GetY(1.f) - 1) < 1e4, "bezier-end", b.x1 << " " << b.x2 << " ends at " << e.GetY(1.f));
  }
  c.add_states(100); c.op(100); c.eval(100);
  c.outcome(mc::Hash(a, second));
  for (float y1 : {kMax, -kMax, 1e38f}) for (float y2 : {kMax, -kMax, -1e38f}) {
    EasingImplementation e(EF{.parameters = EF::CubicBezier{a, y1, 1 - a, y2}});
    for (float x : {0.f, .01f, .5f, .99f, 1.f}) MC_EXPECT(c, std::isfinite(e.GetY(x)), "bezier-finite", a << " " << y1 << " " << y2 << " x " << x << " gives " << e.GetY(x));
  }
}
MC_SECTION(predefined, "the four predefined cubic curves against the CSS parameters, accuracy 0.02") {
  struct D { EF::Predefined p; EF::CubicBezier b; };
  static const std::vector<D> d = {{EF::Predefined::kEase, {.25, .1, .25, 1}}, {EF::Predefined::kEaseIn, {.42, 0, 1, 1}}, {EF::Predefined::kEaseOut, {0, 0, .58, 1}}, {EF::Predefined::kEaseInOut, {.42, 0, .58, 1}}};
  const D& x = c.of(d);
  c.state(mc::Hash(int(x.p)));
  CheckBezier(c, x.b, EasingImplementation(EF{.parameters = x.p}), 0.02);
}
MC_MAIN()
