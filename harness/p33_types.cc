// P33 (part 1): iterator_range, numbers, IsFinite and CopyOnWrite under sequential histories.
#include <list>
#include <map>
#include "ink/types/internal/copy_on_write.h"
#include "ink/types/internal/float.h"
#include "ink/types/iterator_range.h"
#include "ink/types/numbers.h"
#include "util.h"
namespace {
int g_live = 0;
struct Obj {
  int v = 0, w = 0; Obj() { ++g_live; } Obj(int a, int b) : v(a), w(b) { ++g_live; } Obj(const Obj& o) : v(o.v), w(o.w) { ++g_live; } Obj(Obj&& o) : v(o.v), w(o.w) { o.v = o.w = -1; ++g_live; } Obj& operator=(const Obj&) = default; ~Obj() { --g_live; v = w = -2; }
};
using Cow = ink_internal::CopyOnWrite<Obj>;
static_assert(!std::is_convertible_v<Obj, Cow>);
template <typename It> void CheckRange(mc::Choices& c, It b, It e, const std::vector<int>& want, auto value) {
  for (int how = 0; how < 4; ++how) {
    ink::iterator_range<It> r; if (how == 0) r = ink::make_range(b, e); else if (how == 1) r = ink::make_range(std::make_pair(b, e)); else if (how == 2) r = ink::iterator_range<It>(b, e); else { auto t = ink::make_range(b, e); r = t; }
    MC_EXPECT(c, r.begin() == b && r.end() == e, "range-ends", how);
    std::vector<int> got; for (const auto& x : r) got.push_back(value(x));
    MC_EXPECT(c, got == want, "range-elements", how << " " << got.size() << " vs " << want.size());
    MC_EXPECT(c, r.empty() == want.empty(), "range-empty", want.size());
    if constexpr (std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<It>::iterator_category>) MC_EXPECT(c, r.size() == want.size(), "range-size", r.size() << " vs " << want.size());
    static_assert(std::is_same_v<typename ink::iterator_range<It>::value_type, typename std::iterator_traits<It>::value_type>);
  }
  c.op(4);
}
}  // namespace
MC_SECTION(ranges, "iterator_range over every subrange of sequences of up to 7 elements in arrays, vectors (both directions), lists, map equal_range of every key: begin, end, size, empty and iterated elements, from two iterators or a pair") {
  int n = c.pick(8), lo = c.pick(n + 1), hi = lo + c.pick(n - lo + 1); std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i * 7 + 1);
  std::vector<int> want(v.begin() + lo, v.begin() + hi), rev(want.rbegin(), want.rend()); auto id = [](int x) { return x; };
  CheckRange(c, v.begin() + lo, v.begin() + hi, want, id); CheckRange(c, v.cbegin() + lo, v.cbegin() + hi, want, id);
  CheckRange(c, v.data() + lo, v.data() + hi, want, id); CheckRange(c, (const int*)v.data() + lo, (const int*)v.data() + hi, want, id);
  CheckRange(c, std::reverse_iterator(v.begin() + hi), std::reverse_iterator(v.begin() + lo), rev, id);
  std::list<int> l(v.begin(), v.end()); CheckRange(c, std::next(l.begin(), lo), std::next(l.begin(), hi), want, id);
  std::multimap<int, int> m; int bits = lo * 8 + hi; for (int i = 0; i < n; ++i) m.emplace((bits >> (i % 6)) & 1, v[i]);
  for (int k = -1; k < 3; ++k) { std::vector<int> w; for (auto& [a, b] : m) if (a == k) w.push_back(b); auto p = m.equal_range(k); CheckRange(c, p.first, p.second, w, [](const auto& e) { return e.second; }); }
  c.add_states(1); c.outcome(mc::Hash(n, lo, hi));
}
MC_SECTION(constants, "kPi and kSqrt2 are the nearest doubles; IsFinite on every float (quick: 3 of each 65536) is false exactly for infinities and NaN") {
  static_assert(ink::numbers::kPi == 3.141592653589793238462643383279502884 && ink::numbers::kSqrt2 == 1.41421356237309504880168872420969807857);
  TierFloatsBlock(c, [&](uint32_t b) { float f = FromBits(b); bool want = ((b >> 23) & 255) != 255; if (ink_internal::IsFinite(f) != want) c.fail("is-finite", std::to_string(b)); c.op(1); });
  c.outcome(1);
}
MC_SECTION(cow_histories, "all histories of 4 (quick) or 5 operations on 3 CopyOnWrite objects (Emplace, Reset, construct from lvalue and rvalue, copy and move construction and assignment incl. self-copy, swap, MutableValue): values, sharing, identity, liveness against a model; reading an empty one is fatal (the first operation is on object 0: rotating the objects changes nothing)") {
  constexpr int kN = 3; struct M { int group = -1; }; M m[kN]; struct G { int v, w; }; std::map<int, G> g; int next = 0; int base = g_live;
  auto refs = [&](int id) { int n = 0; for (auto& x : m) n += x.group == id; return n; };
  {
    Cow cow[kN]; const int len = mc::tier(4, 5);
    for (int step = 0; step < len; ++step) {
      int op = c.pick(10), i = step ? c.pick(kN) : 0; const Obj* before = cow[i].HasValue() ? &cow[i].Value() : nullptr; int val = step + 10;
      switch (op) {
        case 0: { Obj& o = cow[i].Emplace(val, -val); MC_EXPECT(c, &o == &cow[i].Value(), "emplace-reference", ""); g[m[i].group = next++] = {val, -val}; break; }
        case 1: cow[i].Reset(); m[i].group = -1; break;
        case 2: { int j = c.pick(kN); cow[i] = std::as_const(cow[j]); m[i] = m[j]; break; }
        case 3: { int j = c.pick(kN); c.assume(j != i); cow[i] = std::move(cow[j]); m[i] = m[j]; m[j].group = -1; break; }
        case 4: { if (m[i].group < 0) { MC_EXPECT(c, mc::DiesOnCheck([&] { cow[i].MutableValue().v = 1; }), "mutable-empty", ""); c.assume(false); }
          bool shared = refs(m[i].group) > 1; Obj& o = cow[i].MutableValue(); MC_EXPECT(c, shared == (&o != before), "clone-iff-shared", shared); MC_EXPECT(c, o.v == g[m[i].group].v && o.w == g[m[i].group].w, "clone-value", o.v);
          G was = g[m[i].group]; if (shared) { m[i].group = next++; g[m[i].group] = was; } o.v = val; g[m[i].group].v = val; break; }
        case 5: { Cow t(cow[i]); int j = c.pick(kN); MC_EXPECT(c, t.HasValue() == (m[i].group >= 0) && t.IsShared() == t.HasValue(), "copy-construct", ""); cow[j] = t; m[j] = m[i]; break; }
        case 6: { Cow t(std::move(cow[i])); MC_EXPECT(c, !cow[i].HasValue() && t.HasValue() == (m[i].group >= 0), "move-construct", ""); int j = c.pick(kN); M mm = m[i]; m[i].group = -1; cow[j] = std::move(t); m[j] = mm; break; }
        case 7: { Obj o(val, val + 1); if (c.flag()) { Cow t(o); cow[i] = t; MC_EXPECT(c, o.v == val, "construct-copies", ""); } else { cow[i] = Cow(std::move(o)); MC_EXPECT(c, o.v == -1, "construct-moves", ""); } g[m[i].group = next++] = {val, val + 1}; break; }
        case 8: { int j = (i + 1) % kN; std::swap(cow[i], cow[j]); std::swap(m[i], m[j]); break; }
        case 9: { if (m[i].group >= 0) { Obj& o = cow[i].Emplace(); MC_EXPECT(c, o.v == 0 && o.w == 0, "emplace-default", o.v); g[m[i].group = next++] = {0, 0}; }
          else { MC_EXPECT(c, mc::DiesOnCheck([&] { (void)cow[i].Value().v; }) && mc::DiesOnCheck([&] { (void)(*cow[i]).v; }) && mc::DiesOnCheck([&] { (void)cow[i]->v; }), "value-empty", ""); } break; }
      }
      c.op(1); uint64_t h = 0; std::map<int, int> live;
      for (int k = 0; k < kN; ++k) {
        bool has = m[k].group >= 0; MC_EXPECT(c, cow[k].HasValue() == has, "has-value", k << " after op " << op); h = mc::Hash(h, has);
        if (!has) { MC_EXPECT(c, !cow[k].IsShared(), "empty-shared", k); continue; }
        const G& w = g[m[k].group]; ++live[m[k].group]; const Obj& o = cow[k].Value();
        MC_EXPECT(c, o.v == w.v && o.w == w.w, "value", "object " << k << " after op " << op << ": " << o.v << " want " << w.v);
        MC_EXPECT(c, &o == &*cow[k] && &o.v == &cow[k]->v, "accessors", k);
        MC_EXPECT(c, cow[k].IsShared() == (refs(m[k].group) > 1), "shared", k << " after op " << op);
        for (int j = 0; j < k; ++j) if (m[j].group >= 0) MC_EXPECT(c, (&cow[j].Value() == &o) == (m[j].group == m[k].group), "identity", j << " and " << k);
        h = mc::Hash(h, w.v, refs(m[k].group));
      }
      MC_EXPECT(c, g_live - base == int(live.size()), "live-objects", (g_live - base) << " want " << live.size()); c.state(h);
    }
    c.outcome(mc::Hash(refs(m[0].group), m[0].group, m[1].group, m[2].group));
  }
  MC_EXPECT(c, g_live == base, "leak", g_live - base);
}
MC_MAIN()
