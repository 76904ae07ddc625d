// P04: SmallArray, CopyOnWrite and iterator_range as value types, over all short operation histories.
#include <list>
#include <map>
#include <set>
#include "ink/types/internal/copy_on_write.h"
#include "ink/types/iterator_range.h"
#include "ink/types/small_array.h"
#include "util.h"
using ink::SmallArray;
namespace {
// Counts live instances and detects use of destroyed / moved-from objects.
struct Tracked {
  static inline int live = 0;
  int v; int* heap;
  explicit Tracked(int x = 0) : v(x), heap(new int(x)) { ++live; }
  Tracked(const Tracked& o) : v(o.v), heap(new int(*o.heap)) { ++live; }
  Tracked(Tracked&& o) noexcept : v(o.v), heap(new int(*o.heap)) { ++live; }
  Tracked& operator=(const Tracked& o) { v = o.v; *heap = *o.heap; return *this; }
  ~Tracked() { --live; delete heap; }
  bool operator==(const Tracked& o) const { return v == o.v; }
};
template <typename T, int N> struct SA { SmallArray<T, N> a; std::vector<int> m; };
template <typename T> int Val(const T& t) { if constexpr (std::is_same_v<T, Tracked>) return *t.heap; else return static_cast<int>(t); }
template <typename T, int N> void SmallArrayHistory(mc::Choices& c, int depth) {
  std::vector<SA<T, N>> s(2);
  auto check = [&](const char* what) {
    for (auto& x : s) {
      const auto& ca = x.a;
      MC_EXPECT(c, ca.Size() == x.m.size() && ca.Values().size() == x.m.size() && ca.MaxSize() == N && x.a.Values().size() == x.m.size(), "size", what << " size " << int(ca.Size()) << " want " << x.m.size());
      for (size_t i = 0; i < x.m.size(); ++i)
        MC_EXPECT(c, Val(ca[i]) == x.m[i] && Val(ca.Values()[i]) == x.m[i] && &x.a[i] == &x.a.Values()[i], "value", what << " [" << i << "]=" << Val(ca[i]) << " want " << x.m[i]);
      if (what[0] == 'R' && x.m.size() < 2) MC_EXPECT(c, mc::DiesOnCheck([&] { (void)ca[static_cast<uint8_t>(x.m.size())]; }), "index-past-size", what);
    }
    MC_EXPECT(c, (s[0].a == s[1].a) == (s[0].m == s[1].m), "equality", what);
    uint64_t h = 0; for (auto& x : s) { h = mc::Hash(h, x.m.size()); for (int v : x.m) h = mc::Hash(h, v); }
    c.state(h); c.outcome(mc::Hash(h, what));
  };
  auto mk = [](int v) { return T(v); };
  int fresh = 1;
  for (int d = 0; d < depth; ++d) {
    uint32_t op = c.pick(9);
    uint32_t w = op == 0 ? 0 : c.pick(2);
    auto& x = s[w];
    c.op();
    switch (op) {
      case 0: return;
      case 1: { int n = c.pick(N + 1), v = ++fresh; x.a.Resize(n, mk(v)); size_t old = x.m.size(); x.m.resize(n); for (size_t i = old; i < x.m.size(); ++i) x.m[i] = v; check("Resize(n,v)"); break; }
      case 2: { int n = c.pick(N + 1); x.a.Resize(n); x.m.resize(n, 0); check("Resize(n)"); break; }
      case 3: { if (x.m.empty()) throw mc::SkipPath{}; int i = c.pick(x.m.size()), v = ++fresh; x.a[i] = mk(v); x.m[i] = v; check("[]="); break; }
      case 4: { s[w].a = s[1 - w].a; s[w].m = s[1 - w].m; check("copy="); break; }
      case 5: { int n = c.pick(N + 1), v = ++fresh; x.a = SmallArray<T, N>(static_cast<uint8_t>(n), mk(v)); x.m.assign(n, v); check("ctor(n,v)"); break; }
      case 6: { int n = c.pick(N + 1); std::vector<T> src; x.m.clear(); for (int i = 0; i < n; ++i) { src.push_back(mk(++fresh)); x.m.push_back(fresh); } x.a = SmallArray<T, N>(absl::Span<const T>(src)); check("ctor(span)"); break; }
      case 7: { SmallArray<T, N> copy(s[1 - w].a); x.a = std::move(copy); x.m = s[1 - w].m; check("move="); break; }
      case 8: { int v = ++fresh; for (auto& e : x.a.Values()) e = mk(v); for (auto& e : x.m) e = v; check("Values()="); break; }
    }
  }
}
}  // namespace
MC_SECTION(small_array_int, "every history of up to 3 (thorough 4) operations on two int arrays of capacity 3, compared element-wise with a vector; index past the end dies in debug") {
  SmallArrayHistory<int, 3>(c, mc::tier(3, 4));
}
MC_SECTION(small_array_tracked, "the same over a heap-owning element type under the address sanitizer, capacity 2") {
  int before = Tracked::live;
  SmallArrayHistory<Tracked, 2>(c, mc::tier(4, 5));
  MC_EXPECT(c, Tracked::live == before, "leak", Tracked::live);
}
MC_SECTION(small_array_capacity, "over-capacity construction and resize are refused in debug builds for every excess up to 255; full-capacity ones work (capacities 0-ish,1,4,255)") {
  uint32_t n = c.pick(256);
  c.state(n); c.op(6);
  auto probe = [&](auto tag, unsigned cap) {
    using A = typename decltype(tag)::type;
    MC_EXPECT(c, mc::DiesOnCheck([&] { A a(static_cast<uint8_t>(n), 7); if (a.Size() != n) throw 1; }) == (n > cap), "ctor", n << " of " << cap);
    MC_EXPECT(c, mc::DiesOnCheck([&] { A a; a.Resize(static_cast<uint8_t>(n), 7); if (a.Size() != n || (n && a[n - 1] != 7)) throw 1; }) == (n > cap), "resize", n << " of " << cap);
    std::vector<int> src(n, 5);
    MC_EXPECT(c, mc::DiesOnCheck([&] { A a{absl::Span<const int>(src)}; }) == (n > cap), "span", n << " of " << cap);
  };
  probe(std::type_identity<SmallArray<int, 1>>{}, 1);
  probe(std::type_identity<SmallArray<int, 4>>{}, 4);
  probe(std::type_identity<SmallArray<int, 255>>{}, 255);
  c.outcome(n > 4);
  SmallArray<int, 4> il = {1, 2, 3};
  MC_EXPECT(c, il.Size() == 3 && il[0] == 1 && il[2] == 3, "init-list", "");
}
MC_SECTION(copy_on_write, "every history of up to 4 (thorough 5) operations on three handles: each handle behaves as an independent optional value; shared exactly when another handle holds the same object; unshared writes keep the object in place") {
  using ink_internal::CopyOnWrite;
  struct M { bool has = false; int v = 0; int id = 0; };
  int before = Tracked::live;
  {
    CopyOnWrite<Tracked> h[3]; M m[3]; int ids = 0, fresh = 10;
    int depth = mc::tier(4, 5);
    auto shared = [&](int i) { if (!m[i].has) return false; for (int j = 0; j < 3; ++j) if (j != i && m[j].has && m[j].id == m[i].id) return true; return false; };
    for (int d = 0; d < depth; ++d) {
      uint32_t op = c.pick(8); if (op == 0) break;
      int i = c.pick(3); c.op();
      switch (op) {
        case 1: { int v = ++fresh; Tracked& r = h[i].Emplace(v); m[i] = {true, v, ++ids}; MC_EXPECT(c, *r.heap == v && &r == &h[i].Value(), "emplace", v); break; }
        case 2: h[i].Reset(); m[i] = {}; break;
        case 3: { int j = c.pick(3); h[i] = h[j]; m[i] = m[j]; break; }
        case 4: { int j = c.pick(3); if (i == j) throw mc::SkipPath{}; h[i] = std::move(h[j]); m[i] = m[j]; m[j] = {}; break; }
        case 5: {
          if (!m[i].has) { MC_EXPECT(c, mc::DiesOnCheck([&] { h[i].MutableValue(); }), "mutable-empty", i); break; }
          const Tracked* old = &h[i].Value(); bool was = shared(i); int v = ++fresh;
          Tracked& r = h[i].MutableValue();
          MC_EXPECT(c, (&r == old) == !was, "write-in-place", "shared=" << was);
          MC_EXPECT(c, *r.heap == m[i].v, "copied-value", *r.heap << " want " << m[i].v);
          r.v = v; *r.heap = v; m[i].v = v; if (was) m[i].id = ++ids; break; }
        case 6: { CopyOnWrite<Tracked> t(h[i]); if (m[i].has) { MC_EXPECT(c, t.IsShared() && h[i].IsShared(), "copy-shared", ""); } break; }
        case 7: { Tracked x(++fresh); h[i] = CopyOnWrite<Tracked>(x); m[i] = {true, fresh, ++ids}; break; }
      }
      uint64_t st = 0;
      for (int k = 0; k < 3; ++k) {
        MC_EXPECT(c, h[k].HasValue() == m[k].has, "has", k);
        MC_EXPECT(c, h[k].IsShared() == shared(k), "shared", k);
        if (m[k].has) {
          MC_EXPECT(c, *h[k].Value().heap == m[k].v && (*h[k]).v == m[k].v && h[k]->v == m[k].v, "value", "handle " << k << " sees " << h[k].Value().v << " want " << m[k].v);
          for (int l = 0; l < 3; ++l) if (m[l].has) MC_EXPECT(c, (&h[k].Value() == &h[l].Value()) == (m[k].id == m[l].id), "identity", k << "," << l);
        } else if (d == 0) MC_EXPECT(c, mc::DiesOnCheck([&] { h[k].Value(); }) && mc::DiesOnCheck([&] { (void)*h[k]; }), "empty-access", k);
        st = mc::Hash(st, m[k].has, m[k].id, m[k].v);
      }
      std::set<int> objs; for (auto& x : m) if (x.has) objs.insert(x.id);
      MC_EXPECT(c, Tracked::live - before == int(objs.size()), "live-objects", Tracked::live - before << " want " << objs.size());
      c.state(st); c.outcome(mc::Hash(st, op));
    }
  }
  MC_EXPECT(c, Tracked::live == before, "leak", Tracked::live - before);
}
MC_SECTION(iterator_range, "every sub-range [i,j) of sequences of length up to 6 over vector, list and map pairs: traversal, size and emptiness") {
  uint32_t n = c.pick(7), i = c.pick(n + 1), j = i + c.pick(n - i + 1);
  std::vector<int> v; std::list<int> l; std::multimap<int, int> mm;
  for (uint32_t k = 0; k < n; ++k) { v.push_back(k * k); l.push_back(k); mm.emplace(k / 2, k); }
  c.state(mc::Hash(n, i, j)); c.op(4); c.outcome(j - i);
  auto r = ink::make_range(v.begin() + i, v.begin() + j);
  MC_EXPECT(c, r.size() == j - i && r.empty() == (i == j) && r.begin() == v.begin() + i && r.end() == v.begin() + j, "vector", n << i << j);
  uint32_t k = i; for (int x : r) { MC_EXPECT(c, x == int(k * k), "elem", k); ++k; } MC_EXPECT(c, k == j, "count", k);
  auto lr = ink::make_range(std::next(l.begin(), i), std::next(l.begin(), j));
  k = i; for (int x : lr) { MC_EXPECT(c, x == int(k), "list", k); ++k; } MC_EXPECT(c, k == j && lr.empty() == (i == j), "list-count", k);
  auto mr = ink::make_range(mm.equal_range(int(i)));
  size_t cnt = 0; for (auto& e : mr) { MC_EXPECT(c, e.first == int(i), "map", i); ++cnt; } MC_EXPECT(c, cnt == mm.count(int(i)) && mr.empty() == (cnt == 0), "map-count", cnt);
  ink::iterator_range<std::vector<int>::iterator> e; MC_EXPECT(c, e.empty(), "default", "");
  ink::iterator_range<std::vector<int>::const_iterator> cr(v.cbegin() + i, v.cbegin() + j); MC_EXPECT(c, cr.size() == j - i, "const", "");
}
MC_MAIN()
