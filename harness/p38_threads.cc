// P38 (part 2): input batches sharing one storage, each used by its own thread.
#include "ink/geometry/affine_transform.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "race.h"
using namespace ink;
namespace {
StrokeInput In(float x, float t) { return {.tool_type = StrokeInput::ToolType::kStylus, .position = {x, 1}, .elapsed_time = Duration32::Seconds(t), .pressure = .5f}; }
void Do(StrokeInputBatch& b, const std::vector<int>& prog, int id, std::string& err) {
  std::vector<float> m = {1, 2};
  auto check = [&](const StrokeInputBatch& x) { if (x.Size() != m.size()) { err = "size"; return; } size_t i = 0; for (const StrokeInput& s : x) if (s.position.x != m[i++]) err = "value"; if (!m.empty() && x.Get(0).pressure != .5f) err = "pressure"; };
  StrokeInputBatch kept; int t = 10;
  for (int op : prog) {
    ++t;
    switch (op) {
      case 0: check(b); break;
      case 1: if (!b.Append(In(id * 100 + t, t)).ok()) err = "append"; m.push_back(id * 100 + t); break;
      case 2: if (!m.empty()) { StrokeInput s = b.Get(0); s.position.x = id; if (!b.Set(0, s).ok()) err = "set"; m[0] = id; } break;
      case 3: if (!m.empty()) { b.Erase(0, 1); m.erase(m.begin()); } break;
      case 4: b.Clear(); m.clear(); break;
      case 5: { StrokeInputBatch x = b; check(x); break; }
      case 6: { StrokeInputBatch x = b.MakeDeepCopy(); check(x); b = std::move(x); break; }
      case 7: b.Transform(AffineTransform::Translate({1, 0})); for (float& f : m) f += 1; break;
      case 8: kept = b; check(kept); break;
    }
  }
  check(b);
}
}  // namespace
MC_SECTION(threads, "2 threads each owning a copy of one batch of 2 inputs, every program of 2 operations (read, append, set, erase, clear, copy, deep copy, transform, keep a copy; thorough also 3 threads with 1), every schedule with up to 2 (thorough 3) preemptions: no data race, no use after free, each thread sees only its own changes") {
  int n = 2, len = 2, bound = mc::tier(2, 3);
  if (mc::thorough() && c.flag()) { n = 3; len = 1; }
  std::vector<std::vector<int>> prog(n); for (auto& p : prog) for (int i = 0; i < len; ++i) p.push_back(c.pick(9));
  bool keep = c.flag();
  race::Report rep; std::string err[3];
  {
    std::vector<StrokeInput> in = {In(1, 1), In(2, 2)};
    StrokeInputBatch main = *StrokeInputBatch::Create(in); std::vector<StrokeInputBatch> own(n, main); if (!keep) main = StrokeInputBatch();
    std::vector<std::function<void()>> bodies; for (int i = 0; i < n; ++i) bodies.push_back([&, i] { Do(own[i], prog[i], i + 1, err[i]); });
    rep = race::Run(c, bodies, bound);
    if (keep) MC_EXPECT(c, main.Size() == 2 && main.Get(0).position.x == 1 && main.Get(1).position.x == 2, "main-copy", main.Size());
  }
  MC_EXPECT(c, rep.races.empty(), "race", rep.races[0]);
  for (int i = 0; i < n; ++i) MC_EXPECT(c, err[i].empty(), "isolation", "thread " << i << ": " << err[i]);
  c.op(n * len); c.add_states(rep.points); uint64_t h = keep; for (auto& p : prog) for (int o : p) h = mc::Hash(h, o); c.outcome(h);
}
MC_MAIN()
