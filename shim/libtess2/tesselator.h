// Stand-in for the external libtess2 library (not installed here): the public
// surface google/ink uses. Simple polygons are ear-clipped (no new vertices);
// anything else goes through a slab decomposition that honours the non-zero
// winding rule and creates vertices at crossings, as libtess2 does.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstring>
#include <map>
#include <utility>
#include <vector>
typedef float TESSreal;
typedef int TESSindex;
constexpr TESSindex TESS_UNDEF = ~(TESSindex)0;
enum TessWindingRule { TESS_WINDING_ODD, TESS_WINDING_NONZERO, TESS_WINDING_POSITIVE, TESS_WINDING_NEGATIVE, TESS_WINDING_ABS_GEQ_TWO };
enum TessElementType { TESS_POLYGONS, TESS_CONNECTED_POLYGONS, TESS_BOUNDARY_CONTOURS };
struct TESSalloc;
struct TESStesselator {
  std::vector<std::vector<std::pair<float, float>>> contours;
  std::vector<std::vector<int>> ids;
  int next_id = 0;
  std::vector<float> verts;
  std::vector<TESSindex> vidx;
  std::vector<TESSindex> elems;
  int nelem = 0;
};
inline TESStesselator* tessNewTess(TESSalloc*) { return new TESStesselator; }
inline void tessDeleteTess(TESStesselator* t) { delete t; }
inline void tessAddContour(TESStesselator* t, int, const void* p, int stride, int count) {
  std::vector<std::pair<float, float>> c;
  std::vector<int> ids;
  for (int i = 0; i < count; ++i) {
    float xy[2];
    std::memcpy(xy, static_cast<const char*>(p) + static_cast<size_t>(i) * stride, sizeof xy);
    c.emplace_back(xy[0], xy[1]);
    ids.push_back(t->next_id++);
  }
  t->contours.push_back(std::move(c));
  t->ids.push_back(std::move(ids));
}
namespace shim_tess {
inline double Cross(std::pair<double, double> a, std::pair<double, double> b, std::pair<double, double> c) {
  return (b.first - a.first) * (c.second - a.second) - (b.second - a.second) * (c.first - a.first);
}
inline int Sgn(double v) { return (v > 0) - (v < 0); }
inline bool OnSeg(std::pair<double, double> a, std::pair<double, double> b, std::pair<double, double> p) {
  return std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) &&
         std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second);
}
inline bool Meet(std::pair<double, double> a, std::pair<double, double> b, std::pair<double, double> c, std::pair<double, double> d) {
  int o1 = Sgn(Cross(a, b, c)), o2 = Sgn(Cross(a, b, d)), o3 = Sgn(Cross(c, d, a)), o4 = Sgn(Cross(c, d, b));
  if (o1 != o2 && o3 != o4) return true;
  return (o1 == 0 && OnSeg(a, b, c)) || (o2 == 0 && OnSeg(a, b, d)) || (o3 == 0 && OnSeg(c, d, a)) || (o4 == 0 && OnSeg(c, d, b));
}
}  // namespace shim_tess
inline int tessTesselate(TESStesselator* t, int rule, int, int, int, const TESSreal*) {
  using P = std::pair<double, double>;
  using namespace shim_tess;
  t->verts.clear(); t->vidx.clear(); t->elems.clear(); t->nelem = 0;
  for (auto& c : t->contours) for (auto& p : c) if (!std::isfinite(p.first) || !std::isfinite(p.second)) return 0;
  // Merge coincident vertices.
  std::map<std::pair<float, float>, int> at;
  auto vert = [&](float x, float y, int id) {
    auto [it, ins] = at.try_emplace({x + 0.0f, y + 0.0f}, static_cast<int>(t->vidx.size()));
    if (ins) { t->verts.push_back(x); t->verts.push_back(y); t->vidx.push_back(id); }
    return it->second;
  };
  std::vector<std::vector<int>> polys;
  for (size_t c = 0; c < t->contours.size(); ++c) {
    std::vector<int> poly;
    for (size_t i = 0; i < t->contours[c].size(); ++i) {
      int v = vert(t->contours[c][i].first, t->contours[c][i].second, t->ids[c][i]);
      if (poly.empty() || poly.back() != v) poly.push_back(v);
    }
    while (poly.size() > 1 && poly.front() == poly.back()) poly.pop_back();
    if (poly.size() >= 3) polys.push_back(poly);
  }
  auto pt = [&](int v) { return P(t->verts[2 * v], t->verts[2 * v + 1]); };
  std::vector<std::array<int, 3>> tris;
  bool simple = polys.size() == 1;
  if (simple) {
    auto& q = polys[0];
    size_t n = q.size();
    for (size_t i = 0; i < n && simple; ++i)
      for (size_t j = i + 1; j < n && simple; ++j) {
        size_t i2 = (i + 1) % n, j2 = (j + 1) % n;
        if (i2 == j || j2 == i) {
          // adjacent edges: only share the common vertex unless they fold back
          P a = i2 == j ? pt(q[i]) : pt(q[j]), b = i2 == j ? pt(q[j]) : pt(q[i]), c = i2 == j ? pt(q[j2]) : pt(q[i2]);
          if (n > 2 && Cross(a, b, c) == 0 && (a.first - b.first) * (c.first - b.first) + (a.second - b.second) * (c.second - b.second) > 0) simple = false;
          continue;
        }
        if (Meet(pt(q[i]), pt(q[i2]), pt(q[j]), pt(q[j2]))) simple = false;
      }
  }
  if (simple) {
    std::vector<int> q = polys[0];
    double area = 0;
    for (size_t i = 0; i < q.size(); ++i) { P a = pt(q[i]), b = pt(q[(i + 1) % q.size()]); area += a.first * b.second - b.first * a.second; }
    if (area < 0) std::reverse(q.begin(), q.end());
    if (area != 0)
      while (q.size() >= 3) {
        size_t n = q.size(), k = n;
        for (size_t i = 0; i < n; ++i) {
          int a = q[(i + n - 1) % n], b = q[i], c = q[(i + 1) % n];
          double cr = Cross(pt(a), pt(b), pt(c));
          if (cr == 0) continue;
          if (cr < 0) continue;
          bool ok = true;
          for (int v : q)
            if (v != a && v != b && v != c && Cross(pt(a), pt(b), pt(v)) >= 0 && Cross(pt(b), pt(c), pt(v)) >= 0 && Cross(pt(c), pt(a), pt(v)) >= 0) { ok = false; break; }
          if (ok) { k = i; break; }
        }
        if (k == n) break;
        tris.push_back({q[(k + n - 1) % n], q[k], q[(k + 1) % n]});
        q.erase(q.begin() + static_cast<std::ptrdiff_t>(k));
      }
  } else if (!polys.empty()) {
    struct E { P a, b; int w; };
    std::vector<E> es;
    std::vector<double> xs;
    for (auto& q : polys)
      for (size_t i = 0; i < q.size(); ++i) {
        P a = pt(q[i]), b = pt(q[(i + 1) % q.size()]);
        xs.push_back(a.first);
        if (a.first < b.first) es.push_back({a, b, 1});
        if (b.first < a.first) es.push_back({b, a, -1});
      }
    for (size_t i = 0; i < es.size(); ++i)
      for (size_t j = i + 1; j < es.size(); ++j) {
        double mi = (es[i].b.second - es[i].a.second) / (es[i].b.first - es[i].a.first);
        double mj = (es[j].b.second - es[j].a.second) / (es[j].b.first - es[j].a.first);
        if (mi == mj) continue;
        double bi = es[i].a.second - mi * es[i].a.first, bj = es[j].a.second - mj * es[j].a.first;
        double x = (bj - bi) / (mi - mj);
        if (x > std::max(es[i].a.first, es[j].a.first) && x < std::min(es[i].b.first, es[j].b.first)) xs.push_back(static_cast<float>(x));
      }
    std::sort(xs.begin(), xs.end());
    xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
    auto y_at = [](const E& e, double x) {
      if (x == e.a.first) return e.a.second;
      if (x == e.b.first) return e.b.second;
      return e.a.second + (e.b.second - e.a.second) * (x - e.a.first) / (e.b.first - e.a.first);
    };
    for (size_t s = 0; s + 1 < xs.size(); ++s) {
      double x0 = xs[s], x1 = xs[s + 1], xm = (x0 + x1) / 2;
      std::vector<const E*> act;
      for (auto& e : es) if (e.a.first <= x0 && e.b.first >= x1) act.push_back(&e);
      std::sort(act.begin(), act.end(), [&](const E* l, const E* r) { return y_at(*l, xm) < y_at(*r, xm); });
      int w = 0;
      auto inside = [&](int k) {
        switch (rule) {
          case TESS_WINDING_ODD: return (k & 1) != 0;
          case TESS_WINDING_POSITIVE: return k > 0;
          case TESS_WINDING_NEGATIVE: return k < 0;
          case TESS_WINDING_ABS_GEQ_TWO: return k >= 2 || k <= -2;
          default: return k != 0;
        }
      };
      for (size_t k = 0; k + 1 < act.size(); ++k) {
        w += act[k]->w;
        if (!inside(w)) continue;
        int bl = vert(x0, y_at(*act[k], x0), TESS_UNDEF), br = vert(x1, y_at(*act[k], x1), TESS_UNDEF);
        int tl = vert(x0, y_at(*act[k + 1], x0), TESS_UNDEF), tr = vert(x1, y_at(*act[k + 1], x1), TESS_UNDEF);
        if (bl != br && br != tr && bl != tr && Cross(pt(bl), pt(br), pt(tr)) > 0) tris.push_back({bl, br, tr});
        if (bl != tr && tr != tl && bl != tl && Cross(pt(bl), pt(tr), pt(tl)) > 0) tris.push_back({bl, tr, tl});
      }
    }
  }
  std::map<std::pair<int, int>, int> edge;
  for (size_t i = 0; i < tris.size(); ++i) for (int k = 0; k < 3; ++k) edge[{tris[i][k], tris[i][(k + 1) % 3]}] = static_cast<int>(i);
  for (auto& tri : tris) {
    for (int k = 0; k < 3; ++k) t->elems.push_back(tri[k]);
    for (int k = 0; k < 3; ++k) {
      auto it = edge.find({tri[(k + 1) % 3], tri[k]});
      t->elems.push_back(it == edge.end() ? TESS_UNDEF : it->second);
    }
  }
  t->nelem = static_cast<int>(tris.size());
  return 1;
}
inline int tessGetVertexCount(TESStesselator* t) { return static_cast<int>(t->vidx.size()); }
inline const TESSreal* tessGetVertices(TESStesselator* t) { return t->verts.data(); }
inline const TESSindex* tessGetVertexIndices(TESStesselator* t) { return t->vidx.data(); }
inline int tessGetElementCount(TESStesselator* t) { return t->nelem; }
inline const TESSindex* tessGetElements(TESStesselator* t) { return t->elems.data(); }
