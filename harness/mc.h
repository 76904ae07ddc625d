// Tiny stateless model checker.
//
// A *section* is a body that draws every nondeterministic decision (inputs,
// operations, scheduling, fault answers) from Choices::pick(n). The explorer
// runs the body once per path of the resulting choice tree, depth first,
// until the tree is exhausted: nothing is sampled. Work is split over forked
// worker processes by the first few choices of a path, so crashes, sanitizer
// reports and hangs of the code under test are contained and attributed to
// the exact path that was running. Every violation is replayed alone (fresh
// process, same choices) before it is reported.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

#include "absl/log/absl_check.h"

namespace mc {

inline uint64_t Mix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27; x *= 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t Bits(float f) { uint32_t u; std::memcpy(&u, &f, 4); return u; }
inline uint64_t Bits(double f) { uint64_t u; std::memcpy(&u, &f, 8); return u; }
template <typename T> uint64_t Word(const T& t) {
  if constexpr (std::is_floating_point_v<T>) return Bits(t);
  else if constexpr (std::is_enum_v<T>) return static_cast<uint64_t>(t);
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : std::string_view(t)) h = (h ^ c) * 1099511628211ull;
    return h;
  } else return static_cast<uint64_t>(t);
}
template <typename... A> uint64_t Hash(const A&... a) {
  uint64_t h = 0x9e3779b97f4a7c15ull;
  ((h = Mix(h ^ Word(a)) + 0x632be59bd9b4e019ull), ...);
  return h;
}

// Open-addressing set of 64-bit hashes, capped.
class HashSet {
 public:
  void Insert(uint64_t h) {
    if (h == 0) h = 1;
    if (tab_.empty()) tab_.resize(1 << 12);
    if (full_) return;
    size_t m = tab_.size() - 1, i = Mix(h) & m;
    while (tab_[i]) { if (tab_[i] == h) return; i = (i + 1) & m; }
    tab_[i] = h;
    if (++n_ * 2 > tab_.size()) {
      if (n_ >= kCap) { full_ = true; return; }
      std::vector<uint64_t> old(tab_.size() * 2);
      old.swap(tab_);
      m = tab_.size() - 1;
      for (uint64_t v : old) if (v) { size_t j = Mix(v) & m; while (tab_[j]) j = (j + 1) & m; tab_[j] = v; }
    }
  }
  size_t size() const { return n_; }
  const std::vector<uint64_t>& raw() const { return tab_; }
 private:
  static constexpr size_t kCap = size_t{1} << 22;
  std::vector<uint64_t> tab_;
  size_t n_ = 0;
  bool full_ = false;
};

struct SkipPath {};
struct StopPath {};
struct Violation { std::string section, key, what, choices; };

constexpr int kMaxDepth = 6000;
struct WorkerShm {
  std::atomic<uint64_t> leaf_start_ms;
  std::atomic<uint32_t> depth;
  uint32_t choice[kMaxDepth];
};
struct Counters {
  uint64_t paths = 0, edges = 0, ops = 0, evals = 0, raw_states = 0, raw_nontrivial = 0;
};

inline uint64_t NowMs() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return uint64_t(t.tv_sec) * 1000 + t.tv_nsec / 1000000;
}
inline bool g_thorough = false;
inline bool thorough() { return g_thorough; }
// Picks the bound for the running tier.
template <typename T> T tier(T quick, T deep) { return g_thorough ? deep : quick; }

class Choices {
 public:
  // The explored nondeterminism: returns each of 0..n-1 on some path.
  uint32_t pick(uint32_t n) {
    if (n == 0) throw SkipPath{};
    uint32_t v;
    if (pos_ < path_.size()) {
      if (!replay_ && path_[pos_].second != n) {
        std::fprintf(stderr, "mc: divergence while replaying a prefix (%u vs %u at %zu)\n", path_[pos_].second, n, pos_);
        std::_Exit(97);
      }
      v = path_[pos_].first;
      if (v >= n) { std::fprintf(stderr, "mc: replay choice out of range\n"); std::_Exit(97); }
    } else {
      v = 0;
      path_.emplace_back(0, n);
      ++cnt_.edges;
    }
    if (shm_ && pos_ < kMaxDepth) { shm_->choice[pos_] = v; shm_->depth.store(uint32_t(pos_ + 1), std::memory_order_relaxed); }
    ++pos_;
    if (!owned_ && workers_ > 1) {
      idx_ = idx_ * n + v; prod_ *= n;
      if (prod_ >= 512) {
        owned_ = true;
        if (Mix(idx_ * 0x9e3779b97f4a7c15ull + 1) % workers_ != worker_) throw SkipPath{};
      }
    }
    return v;
  }
  template <typename C> const auto& of(const C& c) { return c[pick(static_cast<uint32_t>(std::size(c)))]; }
  template <typename T> T of(std::initializer_list<T> l) { return l.begin()[pick(static_cast<uint32_t>(l.size()))]; }
  bool flag() { return pick(2) == 1; }
  // Discards this path (not a case of the space); say so before any claim.
  void assume(bool b) { if (!b) throw SkipPath{}; }

  // --- bookkeeping the evidence reports ---
  void op(uint64_t n = 1) { cnt_.ops += n; }          // calls into the code under test
  void eval(uint64_t n = 1) { cnt_.evals += n; }      // oracle comparisons
  void state(uint64_t h) { states_.Insert(Mix(h + 0x51ed270b1ull)); }       // a distinct state/input seen
  void outcome(uint64_t h) { outcomes_.Insert(Mix(h + 0x2545f4914full)); }   // a distinct observed result
  void add_states(uint64_t n) { cnt_.raw_states += n; }      // distinct by construction
  void add_nontrivial(uint64_t n) { cnt_.raw_nontrivial += n; }
  void sample(const std::string& s) { if (samples_.size() < 3) samples_.push_back(s); }

  void expect(bool ok, const char* key, const std::function<std::string()>& what) {
    ++cnt_.evals;
    if (!ok) fail(key, what());
  }
  [[noreturn]] void fail(const std::string& key, const std::string& what) {
    failed_key_ = key; failed_what_ = what;
    throw StopPath{};
  }
  // Non-throwing report (for inner loops that go on).
  std::string choices_text() const {
    std::string s;
    for (size_t i = 0; i < pos_; ++i) { if (i) s += ','; s += std::to_string(path_[i].first); }
    return s;
  }

 private:
  friend class Explorer;
  std::vector<std::pair<uint32_t, uint32_t>> path_;
  size_t pos_ = 0;
  bool replay_ = false, owned_ = false;
  uint64_t idx_ = 0, prod_ = 1;
  uint32_t workers_ = 1, worker_ = 0;
  WorkerShm* shm_ = nullptr;
  Counters cnt_;
  HashSet states_, outcomes_;
  std::vector<std::string> samples_;
  std::string failed_key_, failed_what_;
};

// True when the code under test died on a CHECK; *msg gets the message.
template <typename F> bool DiesOnCheck(F&& f, std::string* msg = nullptr) {
  try { f(); } catch (const shim::CheckFailure& e) { if (msg) *msg = e.msg; return true; }
  return false;
}

struct Section {
  std::string name, rule;
  std::function<void(Choices&)> body;
  int path_timeout_s = 60;
};
inline std::vector<Section>& Sections() { static std::vector<Section> s; return s; }
struct Add {
  Add(const char* name, const char* rule, std::function<void(Choices&)> b, int timeout_s = 60) {
    Sections().push_back({name, rule, std::move(b), timeout_s});
  }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SECTION(ident, rule)                         \
  static void MC_CAT(McBody_, ident)(::mc::Choices & c); \
  static ::mc::Add MC_CAT(mc_add_, ident)(#ident, rule, MC_CAT(McBody_, ident)); \
  static void MC_CAT(McBody_, ident)([[maybe_unused]] ::mc::Choices & c)
#define MC_EXPECT(c, cond, key, ...)                                                     \
  do {                                                                                   \
    (c).eval();                                                                          \
    if (!(cond)) {                                                                       \
      std::ostringstream mc_os; mc_os.precision(9);                                      \
      mc_os << "expected " #cond " | " << __VA_ARGS__;                                   \
      (c).fail(key, mc_os.str());                                                        \
    }                                                                                    \
  } while (0)

inline std::string Esc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
    else if (ch < 0x20 || ch >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += char(ch);
  }
  return o;
}

class Explorer {
 public:
  // Runs one path. Returns true if it ran to the end (or failed), false if skipped.
  static bool RunOne(const Section& s, Choices& c, Violation* v) {
    c.pos_ = 0; c.owned_ = false; c.idx_ = 0; c.prod_ = 1; c.failed_key_.clear();
    if (c.shm_) { c.shm_->depth.store(0); c.shm_->leaf_start_ms.store(NowMs()); }
    std::string key, what; bool bad = false;
    try { s.body(c); }
    catch (const SkipPath&) { return false; }
    catch (const StopPath&) { bad = true; key = c.failed_key_; what = c.failed_what_; }
    catch (const shim::CheckFailure& e) { bad = true; key = "check-failure"; what = "the library killed the process: " + e.msg; }
    catch (const std::exception& e) { bad = true; key = "exception"; what = std::string("exception: ") + e.what(); }
    if (!c.owned_ && c.workers_ > 1 && Mix(c.idx_ * 0x9e3779b97f4a7c15ull + 1) % c.workers_ != c.worker_ && !bad) return false;
    ++c.cnt_.paths;
    if (bad) { v->section = s.name; v->key = s.name + "/" + key; v->what = what; v->choices = c.choices_text(); }
    return true;
  }
  static bool Next(Choices& c) {
    c.path_.resize(c.pos_ < c.path_.size() ? c.pos_ : c.path_.size());
    while (!c.path_.empty()) {
      auto& [v, n] = c.path_.back();
      if (v + 1 < n) { ++v; ++c.cnt_.edges; return true; }
      c.path_.pop_back();
    }
    return false;
  }
  static void Worker(const Section& s, uint32_t w, uint32_t n, WorkerShm* shm, const std::string& out) {
    Choices c; c.workers_ = n; c.worker_ = w; c.shm_ = shm;
    std::vector<Violation> vs; std::map<std::string, int> seen;
    bool more = true;
    while (more) {
      Violation v;
      RunOne(s, c, &v);
      if (!v.key.empty() && seen[v.key]++ == 0 && vs.size() < 20) vs.push_back(v);
      if (vs.size() >= 20) break;
      more = Next(c);
    }
    std::string tmp = out + ".tmp";
    FILE* f = std::fopen(tmp.c_str(), "wb");
    std::fwrite(&c.cnt_, sizeof c.cnt_, 1, f);
    auto dump = [&](const HashSet& h) { uint64_t k = h.size(); std::fwrite(&k, 8, 1, f); for (uint64_t x : h.raw()) if (x) std::fwrite(&x, 8, 1, f); };
    auto str = [&](const std::string& t) { uint64_t k = t.size(); std::fwrite(&k, 8, 1, f); std::fwrite(t.data(), 1, k, f); };
    dump(c.states_); dump(c.outcomes_);
    uint64_t k = c.samples_.size(); std::fwrite(&k, 8, 1, f); for (auto& t : c.samples_) str(t);
    k = vs.size(); std::fwrite(&k, 8, 1, f);
    for (auto& v : vs) { str(v.section); str(v.key); str(v.what); str(v.choices); }
    std::fclose(f);
    std::rename(tmp.c_str(), out.c_str());
  }
  static std::vector<std::pair<uint32_t, uint32_t>> ParseChoices(const std::string& t) {
    std::vector<std::pair<uint32_t, uint32_t>> p;
    std::istringstream is(t); std::string tok;
    while (std::getline(is, tok, ',')) if (!tok.empty()) p.emplace_back(uint32_t(std::stoul(tok)), 0u);
    return p;
  }
  // Runs one recorded path in this process.
  static int Replay(const Section& s, const std::string& choices) {
    Choices c; c.replay_ = true; c.path_ = ParseChoices(choices);
    Violation v;
    bool ran = RunOne(s, c, &v);
    if (!v.key.empty()) { std::printf("REPLAY VIOLATION %s: %s\n", v.key.c_str(), v.what.c_str()); return 1; }
    std::printf("REPLAY ok (ran=%d)\n", ran);
    return 0;
  }
};

inline std::string ReadTail(const std::string& p, size_t n) {
  FILE* f = std::fopen(p.c_str(), "rb"); if (!f) return "";
  std::string s; char b[4096]; size_t k;
  while ((k = std::fread(b, 1, sizeof b, f)) > 0) { s.append(b, k); if (s.size() > (1u << 20)) break; }
  std::fclose(f);
  size_t at = s.find("ERROR: "); if (at == std::string::npos) at = s.find("runtime error"); 
  if (at != std::string::npos) { at = s.rfind('\n', at); s = s.substr(at == std::string::npos ? 0 : at + 1); }
  if (s.size() > n) s.resize(n);
  return s;
}

inline int Main(int argc, char** argv) {
  std::string out, replay, only, tmpdir; int jobs = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") g_thorough = nxt() == "thorough";
    else if (a == "--out") out = nxt();
    else if (a == "--jobs") jobs = std::stoi(nxt());
    else if (a == "--replay") replay = nxt();
    else if (a == "--section") only = nxt();
    else if (a == "--tmp") tmpdir = nxt();
  }
  if (!replay.empty()) {
    size_t p = replay.find(':');
    for (auto& s : Sections()) if (s.name == replay.substr(0, p)) return Explorer::Replay(s, replay.substr(p + 1));
    std::fprintf(stderr, "no such section\n"); return 2;
  }
  char tmpl[] = "/tmp/mcXXXXXX";
  bool own_tmp = tmpdir.empty();
  if (own_tmp) { if (!mkdtemp(tmpl)) return 2; tmpdir = tmpl; }
  std::string json = "{\"sections\":[";
  std::vector<Violation> all;
  bool first = true;
  for (auto& s : Sections()) {
    if (!only.empty() && s.name != only) continue;
    uint64_t t0 = NowMs();
    auto* shm = static_cast<WorkerShm*>(mmap(nullptr, sizeof(WorkerShm) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pid(jobs);
    std::vector<bool> live(jobs, true);
    auto outp = [&](int w) { return tmpdir + "/w" + std::to_string(w); };
    auto errp = [&](int w) { return tmpdir + "/e" + std::to_string(w); };
    std::fflush(nullptr);
    for (int w = 0; w < jobs; ++w) {
      unlink(outp(w).c_str());
      shm[w].leaf_start_ms.store(NowMs());
      pid[w] = fork();
      if (pid[w] == 0) {
        int fd = open(errp(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2);
        Explorer::Worker(s, w, jobs, &shm[w], outp(w));
        std::fflush(nullptr);
        _exit(0);
      }
    }
    std::vector<Violation> vs; std::map<std::string, bool> seen;
    auto shm_choices = [&](int w) { std::string t; for (uint32_t i = 0; i < shm[w].depth.load() && i < kMaxDepth; ++i) { if (i) t += ','; t += std::to_string(shm[w].choice[i]); } return t; };
    // Replays in a fresh child; returns 0 ok, 1 violation, 2 crash, 3 hang.
    auto confirm = [&](const std::string& ch, std::string* text, int limit_s) {
      std::fflush(nullptr);
      std::string ef = tmpdir + "/replay";
      pid_t p = fork();
      if (p == 0) {
        int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1);
        int r = Explorer::Replay(s, ch); std::fflush(nullptr); _exit(r);
      }
      uint64_t st = NowMs(); int status = 0;
      for (;;) {
        pid_t r = waitpid(p, &status, WNOHANG);
        if (r == p) break;
        if (NowMs() - st > uint64_t(limit_s) * 1000) { kill(p, SIGKILL); waitpid(p, &status, 0); return 3; }
        usleep(2000);
      }
      *text = ReadTail(ef, 700);
      if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return 0;
      if (WIFEXITED(status) && WEXITSTATUS(status) == 1 && text->find("REPLAY VIOLATION") != std::string::npos) return 1;
      return 2;
    };
    bool complete = true;
    for (;;) {
      bool any = false;
      for (int w = 0; w < jobs; ++w) {
        if (!live[w]) continue;
        int status = 0;
        pid_t r = waitpid(pid[w], &status, WNOHANG);
        if (r == pid[w]) {
          live[w] = false;
          if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            complete = false;
            Violation v; v.section = s.name; v.choices = shm_choices(w);
            bool diverged = WIFEXITED(status) && WEXITSTATUS(status) == 97;
            v.key = s.name + (diverged ? "/nondeterminism" : "/crash");
            v.what = (diverged ? "nondeterministic execution: " : "process died: ") + ReadTail(errp(w), 700);
            if (!seen[v.key]) { seen[v.key] = true; vs.push_back(v); }
          }
          continue;
        }
        any = true;
        if (NowMs() - shm[w].leaf_start_ms.load() > uint64_t(s.path_timeout_s) * 1000) {
          std::string ch = shm_choices(w), text;
          kill(pid[w], SIGKILL); waitpid(pid[w], &status, 0); live[w] = false; complete = false;
          if (confirm(ch, &text, s.path_timeout_s * 2) != 0) {
            Violation v; v.section = s.name; v.choices = ch; v.key = s.name + "/hang"; v.what = "execution does not terminate";
            if (!seen[v.key]) { seen[v.key] = true; vs.push_back(v); }
          } else { std::fprintf(stderr, "mc: slow path in %s, not a hang\n", s.name.c_str()); }
        }
      }
      if (!any) break;
      usleep(3000);
    }
    Counters tot; HashSet st, oc; std::vector<std::string> samples;
    for (int w = 0; w < jobs; ++w) {
      FILE* f = std::fopen(outp(w).c_str(), "rb"); if (!f) continue;
      Counters cn; if (std::fread(&cn, sizeof cn, 1, f) != 1) { std::fclose(f); continue; }
      tot.paths += cn.paths; tot.edges += cn.edges; tot.ops += cn.ops; tot.evals += cn.evals; tot.raw_states += cn.raw_states; tot.raw_nontrivial += cn.raw_nontrivial;
      auto u64 = [&] { uint64_t k = 0; if (std::fread(&k, 8, 1, f) != 1) k = 0; return k; };
      auto str = [&] { std::string t(u64(), 0); if (std::fread(t.data(), 1, t.size(), f) != t.size()) t.clear(); return t; };
      for (HashSet* h : {&st, &oc}) for (uint64_t k = u64(); k > 0; --k) h->Insert(u64());
      for (uint64_t k = u64(); k > 0; --k) { auto t = str(); if (samples.size() < 4) samples.push_back(t); }
      for (uint64_t k = u64(); k > 0; --k) {
        Violation v; v.section = str(); v.key = str(); v.what = str(); v.choices = str();
        if (!seen[v.key]) { seen[v.key] = true; vs.push_back(v); }
      }
      std::fclose(f);
    }
    for (auto& v : vs) {
      std::string text;
      int r = v.key.size() > 5 && v.key.substr(v.key.size() - 5) == "/hang" ? 1 : confirm(v.choices, &text, s.path_timeout_s * 2);
      v.what += r == 0 ? " [did not reproduce alone]" : " [reproduced]";
      all.push_back(v);
    }
    double sec = (NowMs() - t0) / 1000.0;
    std::fprintf(stderr, "mc: %-34s paths=%llu ops=%llu evals=%llu states=%llu outcomes=%llu viol=%zu %.1fs\n", s.name.c_str(), (unsigned long long)tot.paths,
                 (unsigned long long)tot.ops, (unsigned long long)tot.evals, (unsigned long long)(st.size() + tot.raw_states), (unsigned long long)(oc.size() + tot.raw_nontrivial), vs.size(), sec);
    std::ostringstream o;
    o << (first ? "" : ",") << "{\"name\":\"" << Esc(s.name) << "\",\"rule\":\"" << Esc(s.rule) << "\",\"paths\":" << tot.paths << ",\"choice_edges\":" << tot.edges
      << ",\"ops\":" << tot.ops << ",\"evals\":" << tot.evals << ",\"states\":" << st.size() + tot.raw_states << ",\"outcomes\":" << oc.size() + tot.raw_nontrivial
      << ",\"complete\":" << (complete ? "true" : "false") << ",\"wall_s\":" << sec << ",\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << '"' << Esc(samples[i]) << '"';
    o << "]}";
    json += o.str(); first = false;
    munmap(shm, sizeof(WorkerShm) * jobs);
    for (int w = 0; w < jobs; ++w) { unlink(outp(w).c_str()); unlink(errp(w).c_str()); }
  }
  unlink((tmpdir + "/replay").c_str());
  if (own_tmp) rmdir(tmpdir.c_str());
  json += "],\"violations\":[";
  for (size_t i = 0; i < all.size(); ++i) {
    auto& v = all[i];
    json += std::string(i ? "," : "") + "{\"section\":\"" + Esc(v.section) + "\",\"key\":\"" + Esc(v.key) + "\",\"what\":\"" + Esc(v.what) + "\",\"choices\":\"" + v.choices + "\"}";
  }
  json += "]}\n";
  FILE* f = out.empty() ? stdout : std::fopen(out.c_str(), "w");
  std::fputs(json.c_str(), f);
  if (!out.empty()) std::fclose(f);
  return all.empty() ? 0 : 1;
}
}  // namespace mc
#define MC_MAIN() int main(int argc, char** argv) { return ::mc::Main(argc, argv); }
