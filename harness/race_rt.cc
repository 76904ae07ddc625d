// See race.h. Compiled without instrumentation.
#include "race.h"
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <thread>
#include <unordered_map>
extern "C" { int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); }
namespace race { namespace {
constexpr int kN = 4;
struct Clock { uint32_t c[kN] = {}; void Join(const Clock& o) { for (int i = 0; i < kN; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Cell { uint32_t run, wc, rc[kN]; uint16_t wt, freed; };
struct Page { uintptr_t key; Cell cell[4096]; };
struct T { sem_t sem; std::thread th; std::function<void()> body; Clock clk, acq_pending, rel_fence; const void* blocked = nullptr; bool done = true; void* pc[64]; int depth = 0; };
T g_t[kN]; int g_n = 0, g_cur = -1, g_bound = 0, g_used = 0; bool g_abandon = false; std::exception_ptr g_exc; mc::Choices* g_c = nullptr; sem_t g_main; Report* g_rep = nullptr;
uint32_t g_run = 0; std::unordered_map<const void*, Clock>* g_sync; std::unordered_map<const void*, int>* g_owner; std::vector<void*>* g_deferred;
thread_local int t_id = -1; thread_local int t_in = 0;
constexpr size_t kPages = 1 << 16; Page* g_pages[kPages];
struct In { In() { ++t_in; } ~In() { --t_in; } };
bool Off() { return t_id < 0 || t_in; }
Cell* CellAt(uintptr_t a) {
  uintptr_t k = a >> 12; size_t i = (k * 0x9e3779b97f4a7c15ull) >> 48;
  for (;; i = (i + 1) & (kPages - 1)) { if (!g_pages[i]) { g_pages[i] = static_cast<Page*>(calloc(1, sizeof(Page))); g_pages[i]->key = k; } if (g_pages[i]->key == k) return &g_pages[i]->cell[a & 4095]; }
}
std::string Where(void* pc) {
  static std::map<void*, std::string>* memo = new std::map<void*, std::string>; auto [it, fresh] = memo->emplace(pc, "?"); if (!fresh) return it->second;  // called by one thread at a time
  char exe[512], cmd[800]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n <= 0) return "?"; exe[n] = 0; Dl_info in; uintptr_t base = 0; if (dladdr(pc, &in)) base = reinterpret_cast<uintptr_t>(in.dli_fbase);
  snprintf(cmd, sizeof cmd, "addr2line -Cfie %s %zx 2>/dev/null | head -8 | tr '\\n' ' '", exe, size_t(reinterpret_cast<uintptr_t>(pc) - base - 1)); FILE* f = popen(cmd, "r"); if (!f) return "?"; char b[600] = ""; size_t k = fread(b, 1, sizeof b - 1, f); b[k] = 0; pclose(f); return it->second = b;
}
void Race(uintptr_t a, bool write, int other, bool other_write, void* pc) {
  if (g_rep->races.size() >= 3) return; std::string s = std::string(write ? "write" : "read") + " by thread " + std::to_string(t_id) + " at " + Where(pc) + " conflicts with a " + (other_write ? "write" : "read") + " by thread " + std::to_string(other); g_rep->races.push_back(s); (void)a;
}
void Access(const void* p, size_t n, bool write, void* pc, bool freeing = false) {
  if (Off()) return; In in; T& t = g_t[t_id]; ++g_rep->accesses; bool said = false;
  for (size_t i = 0; i < n; ++i) {
    Cell* c = CellAt(reinterpret_cast<uintptr_t>(p) + i); if (c->run != g_run) { std::memset(c, 0, sizeof *c); c->run = g_run; }
    if (c->freed && !said) { said = true; if (g_rep->races.size() < 3) g_rep->races.push_back("use after free by thread " + std::to_string(t_id) + " at " + Where(pc) + " of memory freed by thread " + std::to_string(c->wt)); continue; }
    if (c->wc && int(c->wt) != t_id && c->wc > t.clk.c[c->wt] && !said) { said = true; Race(0, write, c->wt, true, pc); }
    if (write) { for (int k = 0; k < g_n; ++k) if (k != t_id && c->rc[k] > t.clk.c[k] && !said) { said = true; Race(0, true, k, false, pc); } c->wt = t_id; c->wc = t.clk.c[t_id]; }
    else c->rc[t_id] = t.clk.c[t_id];
    if (freeing) c->freed = 1;
  }
}
bool Enabled(int i) { return !g_t[i].done && !(g_t[i].blocked && g_owner->count(g_t[i].blocked)); }
// Chooses the next thread; returns -1 when all are done.
int Choose(int from, bool from_enabled) {
  int opt[kN], n = 0; if (from_enabled) opt[n++] = from; for (int i = 0; i < g_n; ++i) if (i != from && Enabled(i)) opt[n++] = i;
  if (n == 0) { for (int i = 0; i < g_n; ++i) if (!g_t[i].done) { fprintf(stderr, "\nERROR: deadlock: no thread can go on\n"); _exit(98); } return -1; }
  int k = 0;
  if (n > 1 && !g_abandon && !(from_enabled && g_used >= g_bound)) { try { k = g_c->pick(n); } catch (...) { g_exc = std::current_exception(); g_abandon = true; k = 0; } }
  if (from_enabled && k) ++g_used;
  return opt[k];
}
void SwitchTo(int to, int from) { if (to == from) return; ++g_rep->switches; g_cur = to; sem_post(&g_t[to].sem); while (sem_wait(&g_t[from].sem) != 0) {} }
void Point() { ++g_rep->points; int me = t_id; SwitchTo(Choose(me, true), me); }
void Acquire(const void* a) { g_t[t_id].clk.Join((*g_sync)[a]); }
void Tick() { ++g_t[t_id].clk.c[t_id]; }
void Main(int id) {
  t_id = -1; T& t = g_t[id];
  for (;;) {
    while (sem_wait(&t.sem) != 0) {}
    t_id = id; t_in = 0; std::exception_ptr ex; try { t.body(); } catch (...) { ex = std::current_exception(); }
    t_id = -1; if (ex && !g_exc) { g_exc = ex; g_abandon = true; }
    t.done = true; t_id = id; ++t_in; int to = Choose(id, false); --t_in; t_id = -1;
    if (to < 0) sem_post(&g_main); else { g_cur = to; sem_post(&g_t[to].sem); }
  }
}
bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
enum { kLoad, kStore, kRmw };
void Sync(const volatile void* va, int kind, int mo) {
  const void* a = const_cast<const void*>(va); T& t = g_t[t_id]; Clock& L = (*g_sync)[a];
  if (kind != kStore) { if (acq(mo)) t.clk.Join(L); else t.acq_pending.Join(L); }
  if (kind != kLoad) { Clock r = rel(mo) ? t.clk : t.rel_fence; if (kind == kStore) L = r; else L.Join(r); Tick(); }
}
}  // namespace
void Yield() { if (!Off()) { In in; Point(); } }
Report Run(mc::Choices& c, const std::vector<std::function<void()>>& bodies, int bound) {
  static bool init = false; if (!init) { init = true; sem_init(&g_main, 0, 0); g_sync = new std::unordered_map<const void*, Clock>; g_owner = new std::unordered_map<const void*, int>; g_deferred = new std::vector<void*>; for (int i = 0; i < kN; ++i) { sem_init(&g_t[i].sem, 0, 0); g_t[i].th = std::thread(Main, i); g_t[i].th.detach(); } }
  Report rep; g_rep = &rep; g_c = &c; g_n = bodies.size(); g_bound = bound; g_used = 0; g_abandon = false; g_exc = nullptr; ++g_run; g_sync->clear(); g_owner->clear();
  for (int i = 0; i < g_n; ++i) { T& t = g_t[i]; t.body = bodies[i]; t.clk = t.acq_pending = t.rel_fence = Clock(); t.clk.c[i] = 1; t.blocked = nullptr; t.done = false; t.depth = 0; }
  int first = Choose(-1, false); g_cur = first; sem_post(&g_t[first].sem); while (sem_wait(&g_main) != 0) {}
  for (void* p : *g_deferred) free(p); g_deferred->clear();
  if (g_exc) { auto e = g_exc; g_exc = nullptr; std::rethrow_exception(e); }
  return rep;
}
namespace {
void* New(size_t n, bool nothrow, size_t al = 0) { void* p = al ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); if (!p && !nothrow) throw std::bad_alloc(); return p; }
void Del(void* p) { if (!p) return; if (Off()) { free(p); return; } Access(p, malloc_usable_size(p), true, __builtin_return_address(0), true); In in; g_deferred->push_back(p); }
int Lock(pthread_mutex_t* m, bool tr) {
  In in; T& t = g_t[t_id]; Point();
  if (tr && g_owner->count(m)) return 16;
  while (g_owner->count(m)) { if ((*g_owner)[m] == t_id) { fprintf(stderr, "\nERROR: deadlock: mutex locked twice by its owner\n"); _exit(98); } t.blocked = m; int me = t_id; SwitchTo(Choose(me, false), me); t.blocked = nullptr; }
  (*g_owner)[m] = t_id; Acquire(m); return 0;
}
void Unlock(pthread_mutex_t* m) { In in; auto it = g_owner->find(m); if (it == g_owner->end() || it->second != t_id) { g_rep->races.push_back("unlock of a mutex not held"); return; } (*g_sync)[m] = g_t[t_id].clk; Tick(); g_owner->erase(it); Point(); }
}  // namespace
}  // namespace race
using race::Access; using race::New; using race::Del;
void* operator new(size_t n) { return New(n, false); } void* operator new[](size_t n) { return New(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return New(n, true); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return New(n, true); }
void* operator new(size_t n, std::align_val_t a) { return New(n, false, size_t(a)); } void* operator new[](size_t n, std::align_val_t a) { return New(n, false, size_t(a)); }
void operator delete(void* p) noexcept { Del(p); } void operator delete[](void* p) noexcept { Del(p); } void operator delete(void* p, size_t) noexcept { Del(p); } void operator delete[](void* p, size_t) noexcept { Del(p); }
void operator delete(void* p, std::align_val_t) noexcept { Del(p); } void operator delete[](void* p, std::align_val_t) noexcept { Del(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { Del(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { Del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Del(p); } void operator delete[](void* p, const std::nothrow_t&) noexcept { Del(p); }
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return race::Off() ? __real_pthread_mutex_lock(m) : race::Lock(m, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return race::Off() ? __real_pthread_mutex_trylock(m) : race::Lock(m, true); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (race::Off()) return __real_pthread_mutex_unlock(m); race::Unlock(m); return 0; }
void* __wrap_memcpy(void* d, const void* s, size_t n) { Access(s, n, false, __builtin_return_address(0)); Access(d, n, true, __builtin_return_address(0)); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { Access(s, n, false, __builtin_return_address(0)); Access(d, n, true, __builtin_return_address(0)); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { Access(d, n, true, __builtin_return_address(0)); return __real_memset(d, v, n); }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* p) { Access(p, n, false, __builtin_return_address(0)); } void __tsan_write##n(void* p) { Access(p, n, true, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##n(void* p) { Access(p, n, false, __builtin_return_address(0)); } void __tsan_unaligned_write##n(void* p) { Access(p, n, true, __builtin_return_address(0)); } \
  void __tsan_volatile_read##n(void* p) { Access(p, n, false, __builtin_return_address(0)); } void __tsan_volatile_write##n(void* p) { Access(p, n, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { Access(p, n, false, __builtin_return_address(0)); } void __tsan_write_range(void* p, size_t n) { Access(p, n, true, __builtin_return_address(0)); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) Access(p, 8, true, __builtin_return_address(0)); } void __tsan_vptr_read(void** p) { Access(p, 8, false, __builtin_return_address(0)); }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { if (!race::Off()) { race::In in; race::Point(); race::Sync(a, race::kLoad, mo); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { if (!race::Off()) { race::In in; race::Point(); race::Sync(a, race::kStore, mo); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { if (!race::Off()) { race::In in; race::Point(); race::Sync(a, race::kRmw, mo); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { if (!race::Off()) { race::In in; race::Point(); race::Sync(a, race::kRmw, mo); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { if (!race::Off()) { race::In in; race::Point(); race::Sync(a, race::kRmw, mo); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { if (!race::Off()) { race::In in; race::Point(); race::Sync(a, race::kRmw, mo); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { if (!race::Off()) { race::In in; race::Point(); race::Sync(a, race::kRmw, mo); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { if (!race::Off()) { race::In in; race::Point(); race::Sync(a, race::kRmw, mo); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { if (race::Off()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); race::In in; race::Point(); bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); race::Sync(a, ok ? race::kRmw : race::kLoad, ok ? mo : fmo); return ok; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (race::Off()) return; auto& t = race::g_t[race::t_id]; if (race::acq(mo)) t.clk.Join(t.acq_pending); if (race::rel(mo)) { t.rel_fence = t.clk; race::Tick(); } }
void __tsan_atomic_signal_fence(int) {}
}
