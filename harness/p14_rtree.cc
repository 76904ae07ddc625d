// P14: StaticRTree.
#include <algorithm>
#include <set>
#include "absl/strings/str_cat.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/internal/static_rtree.h"
#include "util.h"
using ink::Envelope; using ink::Point; using ink::Rect; using ink::geometry_internal::StaticRTree;
namespace {
bool Hit(const Rect& a, const Rect& b) { return a.XMin() <= b.XMax() && b.XMin() <= a.XMax() && a.YMin() <= b.YMax() && b.YMin() <= a.YMax(); }
bool SameRect(const Rect& a, const Rect& b) { return a.XMin() == b.XMin() && a.XMax() == b.XMax() && a.YMin() == b.YMin() && a.YMax() == b.YMax(); }
template <uint32_t B> void Structure(mc::Choices& c, const StaticRTree<int, B>& t, const std::vector<Rect>& rects) {
  auto nodes = t.BranchNodes(); std::vector<int> leaf(rects.size(), 0), br(nodes.size(), 0);
  std::vector<int> depth(nodes.size(), 0); int leaf_depth = -1;
  for (size_t i = 0; i < nodes.size(); ++i) {
    Envelope e; auto kids = nodes[i].child_indices.Values();
    MC_EXPECT(c, kids.size() >= 1 && kids.size() <= B, "fanout", i);
    for (uint32_t k : kids) {
      if (nodes[i].is_leaf_parent) { ++leaf.at(k); e.Add(rects[t.Elements()[k]]); if (leaf_depth < 0) leaf_depth = depth[i]; MC_EXPECT(c, leaf_depth == depth[i], "balance", i); }
      else { MC_EXPECT(c, k > i, "order", i); ++br.at(k); depth.at(k) = depth[i] + 1; e.Add(nodes[k].bounds); }
    }
    MC_EXPECT(c, SameRect(*e.AsRect(), nodes[i].bounds), "bounds", i);
  }
  for (int x : leaf) MC_EXPECT(c, x == 1, "leaf-once", x);
  for (size_t i = 1; i < br.size(); ++i) MC_EXPECT(c, br[i] == 1, "branch-once", i);
}
template <uint32_t B> void Run(mc::Choices& c, const std::vector<Rect>& rects, const std::vector<Rect>& queries, bool stops) {
  std::vector<int> ids(rects.size()); for (size_t i = 0; i < ids.size(); ++i) ids[i] = i;
  auto bf = [&rects](const int& i) { return rects[i]; };
  int next = 0;
  StaticRTree<int, B> t = (rects.size() & 1) ? StaticRTree<int, B>(absl::MakeSpan(ids), bf) : StaticRTree<int, B>(uint32_t(rects.size()), [&next] { return next++; }, bf);
  c.op(); c.add_states(1); Structure<B>(c, t, rects);
  StaticRTree<int, B> copy = t;
  for (const Rect& q : queries) {
    std::vector<int> got, want, gotc; for (size_t i = 0; i < rects.size(); ++i) if (Hit(rects[i], q)) want.push_back(i);
    t.VisitIntersectedElements(q, [&](const int& i) { got.push_back(i); return true; });
    copy.VisitIntersectedElements(q, [&](const int& i) { gotc.push_back(i); return true; });
    std::vector<int> sorted = got; std::sort(sorted.begin(), sorted.end()); c.op(2); c.eval(2); c.add_nontrivial(!want.empty() && want.size() < rects.size()); c.outcome(mc::Hash(want.size(), rects.size(), B));
    MC_EXPECT(c, sorted == want && gotc == got, "visit", absl::StrCat("branching ", B, ", ", rects.size(), " elements: visited ", got.size(), " want ", want.size(), " query (", q.XMin(), ",", q.YMin(), ")-(", q.XMax(), ",", q.YMax(), ")"));
    if (stops && got.size() > 1) for (size_t k : {size_t(1), size_t(2), got.size() / 2, got.size()}) { size_t n = 0; t.VisitIntersectedElements(q, [&](const int&) { return ++n < k; }); c.op(); MC_EXPECT(c, n == std::max<size_t>(k, 1), "early-stop", n << " calls, asked to stop after " << k); }
  }
}
template <uint32_t B> void Layouts(mc::Choices& c, int n, int layout) {
  std::vector<Rect> r; int side = std::ceil(std::sqrt(double(n)));
  for (int i = 0; i < n; ++i) {
    float x, y, w = 0.5f, h = 0.5f;
    switch (layout) {
      case 0: x = i % side; y = i / side; break;                     // grid
      case 1: x = i; y = 0; break;                                   // row
      case 2: x = 0; y = n - i; break;                               // column, descending
      case 3: x = y = 0; break;                                      // all identical
      case 4: x = i; y = -i; w = h = 0; break;                       // diagonal points
      case 5: x = -i * .25f; y = -i * .25f; w = h = i * .5f; break;  // nested
      default: x = (i * 7919) % 101; y = (i * 104729) % 97; w = i % 5; h = i % 3;  // scattered
    }
    r.push_back(Rect::FromTwoPoints({x, y}, {x + w, y + h}));
  }
  std::vector<Rect> q; float m = std::max(side, 3);
  for (float lo : {-m, 0.f, m / 2}) for (float sz : {0.f, 0.75f, m, 4 * m + 2 * n}) { q.push_back(Rect::FromTwoPoints({lo, lo}, {lo + sz, lo + sz})); q.push_back(Rect::FromTwoPoints({lo, -1}, {lo + sz, 1})); }
  q.push_back(Rect::FromTwoPoints({-1e9f, -1e9f}, {1e9f, 1e9f})); q.push_back(Rect::FromTwoPoints({1e8f, 0}, {1e9f, 1}));
  if (n) { q.push_back(r.back()); q.push_back(r.front()); q.push_back(r[n / 2]); }
  Run<B>(c, r, q, true);
}
}  // namespace
MC_SECTION(counts, "every element count 0..300 (thorough 0..1200) x branching factors 2,3,4,16 x seven layouts x 27 query boxes, with early stops and copies; tree structure audited too") {
  int n = c.pick(mc::tier(301, 1201)), layout = c.pick(7);
  switch (c.pick(4)) { case 0: Layouts<2>(c, n, layout); break; case 1: Layouts<3>(c, n, layout); break; case 2: Layouts<4>(c, n, layout); break; default: Layouts<16>(c, n, layout); }
}
MC_SECTION(exhaustive, "all multisets of up to 4 (thorough 5) boxes with corners on a 3x3 grid x every query box on the half-step grid, branching factors 2 and 3") {
  static const std::vector<Rect> boxes = [] { std::vector<Rect> b; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int X = x; X < 3; ++X) for (int Y = y; Y < 3; ++Y) b.push_back(Rect::FromTwoPoints({float(x), float(y)}, {float(X), float(Y)})); return b; }();
  static const std::vector<Rect> qs = [] { std::vector<Rect> b; for (int x = -1; x < 6; ++x) for (int y = -1; y < 6; ++y) for (int s : {0, 1, 3}) b.push_back(Rect::FromTwoPoints({x * .5f, y * .5f}, {(x + s) * .5f, (y + 2 * s) * .5f})); return b; }();
  int n = c.pick(mc::tier(3, 4)) + 2; std::vector<Rect> r; int lo = 0;
  for (int i = 0; i < n; ++i) { int k = lo + c.pick(int(boxes.size()) - lo); lo = k; r.push_back(boxes[k]); }
  if (c.flag()) std::reverse(r.begin(), r.end());
  if (c.flag()) Run<2>(c, r, qs, false); else Run<3>(c, r, qs, false);
}
MC_SECTION(checks, "a null bounds function is a check failure for a non-empty tree; an empty tree visits nothing") {
  int n = c.pick(4); c.state(n); c.outcome(n); c.add_nontrivial(1); c.op(2); std::vector<int> ids(n); std::function<Rect(const int&)> null;
  if (n) MC_EXPECT(c, mc::DiesOnCheck([&] { StaticRTree<int> t(ids, null); }) && mc::DiesOnCheck([&] { StaticRTree<int> t(uint32_t(n), [] { return 0; }, null); }), "null", n);
  else { StaticRTree<int> a, b(ids, [](const int&) { return Rect(); }); int k = 0; for (auto* t : {&a, &b}) t->VisitIntersectedElements(Rect::FromTwoPoints({-1, -1}, {1, 1}), [&](const int&) { ++k; return true; }); MC_EXPECT(c, k == 0 && a.Elements().empty() && a.BranchNodes().empty(), "empty", k); }
}
MC_MAIN()
