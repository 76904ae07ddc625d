// P33 (part 2): CopyOnWrite objects sharing one value, each used by its own thread, under every schedule.
#include <atomic>
#include <memory>
#include <mutex>
#include "ink/types/internal/copy_on_write.h"
#include "race.h"
namespace {
std::atomic<int> g_live{0};
struct Obj { int v = 0, w = 0; Obj(int a, int b) : v(a), w(b) { g_live.fetch_add(1, std::memory_order_relaxed); } Obj(const Obj& o) : v(o.v), w(o.w) { g_live.fetch_add(1, std::memory_order_relaxed); } ~Obj() { v = w = -2; g_live.fetch_sub(1, std::memory_order_relaxed); } };
using Cow = ink_internal::CopyOnWrite<Obj>;
struct Step { int op; };
// One thread's part: owns `own`, expects to see `v` until it writes something else.
void Do(Cow& own, const std::vector<int>& prog, int id, std::string& err) {
  int v = 1; bool has = true; Cow extra;
  for (int op : prog) {
    switch (op) {
      case 0: if (has && (own.Value().v != v || own->w != v)) err = "read"; break;
      case 1: if (has) { Obj& o = own.MutableValue(); if (o.v != v || o.w != v) err = "clone"; v = 100 * id + 2; o.v = v; o.w = v; } break;
      case 2: { Cow t = own; if (has && (!t.IsShared() || t->v != v)) err = "copy"; break; }
      case 3: own.Reset(); has = false; break;
      case 4: { Cow t = std::move(own); own = std::move(t); break; }
      case 5: extra = own; break;
      case 6: if (has) { own.IsShared(); } break;
    }
  }
  if (has && (own->v != v || own->w != v)) err = "final";
}
}  // namespace
MC_SECTION(threads, "2 threads, each owning its own copy of one shared object and running every program of 2 operations (read, MutableValue and write, copy and drop, Reset, move, keep a second copy, IsShared), under every schedule with up to 3 preemptions (thorough: threads, operations, preemptions 2,2,6; 2,3,2; 3,1,4; 3,2,1): no data race, no use after free, each thread sees only its own writes, all objects are destroyed") {
  int n = 2, len = 2, bound = mc::tier(3, 4); if (mc::thorough()) { static const int kCfg[4][3] = {{2, 2, 6}, {2, 3, 2}, {3, 1, 4}, {3, 2, 1}}; auto& k = kCfg[c.pick(4)]; n = k[0]; len = k[1]; bound = k[2]; }
  std::vector<std::vector<int>> prog(n); for (auto& p : prog) for (int i = 0; i < len; ++i) p.push_back(c.pick(7));
  bool keep = c.flag(); int live0 = g_live; race::Report rep; std::string err[3];
  {
    Cow main(Obj(1, 1)); std::vector<Cow> own(n, main); if (!keep) main.Reset();
    std::vector<std::function<void()>> bodies; for (int i = 0; i < n; ++i) bodies.push_back([&, i] { Do(own[i], prog[i], i + 1, err[i]); });
    rep = race::Run(c, bodies, bound);
    if (keep) MC_EXPECT(c, main->v == 1 && main->w == 1, "main-copy", main->v);
  }
  MC_EXPECT(c, rep.races.empty(), "race", rep.races[0]);
  for (int i = 0; i < n; ++i) MC_EXPECT(c, err[i].empty(), "isolation", "thread " << i << ": " << err[i]);
  MC_EXPECT(c, g_live == live0, "leak", g_live - live0);
  c.op(n * len); c.add_states(rep.points); uint64_t h = keep; for (auto& p : prog) for (int o : p) h = mc::Hash(h, o); c.outcome(h);
}
MC_SECTION(detector, "the race detector itself, on small programs of the harness: unordered accesses, relaxed publication and use after free are reported in every schedule where they occur; mutex, release/acquire and fence synchronisation are not") {
  static const char* kName[] = {"plain", "mutex", "relaxed", "release-acquire", "fence", "free", "shared_ptr"}; static const bool kRacy[] = {true, false, true, false, false, true, false};
  int k = c.pick(7); struct Node { int v = 0; }; int x = 0; std::mutex m; std::atomic<int> f{0}; Node* node = new Node; bool seen = false; auto sp = std::make_shared<Node>(), sp2 = sp;
  auto a = [&] { switch (k) { case 0: x = 1; break; case 1: { std::lock_guard l(m); x = 1; break; } case 2: x = 1; f.store(1, std::memory_order_relaxed); break; case 3: x = 1; f.store(1, std::memory_order_release); break;
    case 4: x = 1; std::atomic_thread_fence(std::memory_order_release); f.store(1, std::memory_order_relaxed); break; case 5: delete node; f.store(1, std::memory_order_release); break; case 6: sp->v; sp.reset(); break; } };
  auto b = [&] { switch (k) { case 0: x = 2; break; case 1: { std::lock_guard l(m); x = 2; break; } case 2: if (f.load(std::memory_order_relaxed)) { seen = true; x = 2; } break; case 3: if (f.load(std::memory_order_acquire)) x = 2; break;
    case 4: if (f.load(std::memory_order_relaxed)) { std::atomic_thread_fence(std::memory_order_acquire); x = 2; } break; case 5: if (f.load(std::memory_order_acquire)) { seen = true; node->v = 1; } break; case 6: sp2->v; sp2.reset(); break; } };
  race::Report r = race::Run(c, {a, b}, 3); bool want = kRacy[k] && (k == 0 || seen); if (k != 5) delete node;
  MC_EXPECT(c, r.races.empty() != want, "detector", kName[k] << (r.races.empty() ? "" : r.races[0])); c.op(2); c.add_states(1); c.outcome(mc::Hash(k, seen));
}
MC_MAIN()
