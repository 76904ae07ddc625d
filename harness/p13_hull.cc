// P13: ConvexHull.
#include <algorithm>
#include <set>
#include "absl/strings/str_cat.h"
#include "ink/geometry/convex_hull.h"
#include "util.h"
using ink::Point;
namespace {
struct IP { int x, y; bool operator<(const IP& o) const { return y != o.y ? y < o.y : x < o.x; } bool operator==(const IP& o) const { return x == o.x && y == o.y; } };
long Cross(IP a, IP b, IP p) { return long(b.x - a.x) * (p.y - a.y) - long(b.y - a.y) * (p.x - a.x); }
// Exact strict hull, counter-clockwise from the lowest (then leftmost) point (monotone chain on swapped axes).
std::vector<IP> Oracle(std::vector<IP> v) {
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  if (v.size() <= 2) return v;
  std::vector<IP> h;
  for (int pass = 0; pass < 2; ++pass) {
    size_t base = h.size();
    for (IP p : v) { while (h.size() >= base + 2 && Cross(h[h.size() - 2], h.back(), p) <= 0) h.pop_back(); h.push_back(p); }
    h.pop_back(); std::reverse(v.begin(), v.end());
  }
  return h;
}
const std::vector<std::pair<float, float>> kPlaces = {{1, 0}, {1024, 3}, {0x1p-10f, 0}, {0x1p30f, 0}};
std::string Show(const std::vector<IP>& v) { std::string s; for (IP p : v) absl::StrAppend(&s, "(", p.x, ",", p.y, ")"); return s; }
void Check(mc::Choices& c, const std::vector<IP>& in, const std::vector<IP>& want, size_t copies, const char* key) {
  for (auto [k, off] : kPlaces) {
    std::vector<Point> pts; for (size_t j = 0; j < copies; ++j) for (IP p : in) pts.push_back({p.x * k + off, p.y * k + off});
    auto got = ink::ConvexHull(pts); c.op(); c.eval(1); c.add_states(1);
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); ++i) ok = got[i] == Point{want[i].x * k + off, want[i].y * k + off};
    if (!ok) { std::string s; for (Point p : got) absl::StrAppend(&s, "(", p.x, ",", p.y, ")"); c.fail(key, absl::StrCat(Show(in), " x", copies, " scale ", k, " offset ", off, ": got ", s, " want ", Show(want))); }
    c.outcome(mc::Hash(got.size()));
  }
  c.add_nontrivial(want.size() > 2);
}
IP G(int i, int g) { return {i % g - g / 2, i / g - g / 2}; }
}  // namespace
MC_SECTION(sequences, "all sequences of up to 5 (thorough 6) points of the 3x3 integer grid around zero, duplicates included, at four exact embeddings: the hull is the exact strict hull, anticlockwise from the lowest-leftmost point") {
  int n = c.pick(mc::tier(5, 6)) + 1; std::vector<IP> in;
  for (int i = 0; i < n; ++i) in.push_back(G(c.pick(9), 3));
  Check(c, in, Oracle(in), 1, "hull");
}
MC_SECTION(subsets, "all subsets of the 4x4 grid (in row order, reversed and interleaved)") {
  int hi = c.pick(256);
  for (int lo = 0; lo < 256; ++lo) {
    int m = hi << 8 | lo; if (!m) continue;
    std::vector<IP> v; for (int i = 0; i < 16; ++i) if (m >> i & 1) v.push_back(G(i, 4));
    auto want = Oracle(v); Check(c, v, want, 1, "subset");
    std::reverse(v.begin(), v.end()); Check(c, v, want, 1, "subset-reversed");
    std::stable_partition(v.begin(), v.end(), [](IP p) { return (p.x + p.y) & 1; }); Check(c, v, want, 1, "subset-interleaved");
  }
}
MC_SECTION(large, "the same point sets repeated past the 500-point threshold at which interior points are pruned: all sets of up to 4 points of the 3x3 grid, and all subsets of that grid, repeated to 501-504 points, plus 499/500-point repetitions") {
  int m = c.pick(511) + 1; std::vector<IP> v; for (int i = 0; i < 9; ++i) if (m >> i & 1) v.push_back(G(i, 3));
  auto want = Oracle(v);
  for (size_t copies : {500 / v.size(), 500 / v.size() + 1}) {
    Check(c, v, want, copies, "large");
    if (mc::thorough()) for (size_t r = 1; r < v.size(); ++r) { auto w = v; std::rotate(w.begin(), w.begin() + r, w.end()); Check(c, w, want, copies, "large-rotated"); }
  }
}
MC_SECTION(small, "the trivial cases: no point and one point") { c.op(2); c.add_nontrivial(1);
  int i = c.pick(10); c.state(i); c.outcome(i);
  if (i == 9) MC_EXPECT(c, ink::ConvexHull({}).empty(), "empty", "");
  else { Point p = {float(i % 3), float(i / 3)}; auto h = ink::ConvexHull({p}); MC_EXPECT(c, h.size() == 1 && h[0] == p, "single", i); }
}
MC_MAIN()
