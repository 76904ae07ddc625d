// P41 (part 2): copies of one stroke, each used and regenerated by its own thread.
#include <memory>
#include "ink/strokes/stroke.h"
#include "race.h"
#include "strokes_util.h"
using namespace ink;
namespace {
StrokeInputBatch Inputs(int n) { StrokeInputBatch b; for (int i = 0; i < n; ++i) if (!b.Append(zoo::Raw(0, i)).ok()) std::abort(); return b; }
uint64_t Fingerprint(const Stroke& s) {
  uint64_t h = s.GetInputs().Size();
  for (const Mesh& m : s.GetShape().Meshes()) { h = mc::Hash(h, m.VertexCount(), m.TriangleCount()); for (uint32_t v = 0; v < m.VertexCount(); ++v) { Point p = m.VertexPosition(v); h = mc::Hash(h, p.x, p.y); } }
  return h;
}
void Do(Stroke& s, int op) {
  switch (op) {
    case 0: (void)s.SetBrushSize(4); break;
    case 1: s.SetInputs(Inputs(1)); break;
    case 2: s.SetBrushColor(Color::Blue()); break;
    case 3: { Stroke t = s; (void)t.SetBrushEpsilon(.5f); s = t; break; }
    case 4: s.SetBrushFamily(zoo::MakeBrush({1}, 2, .1f).GetFamily()); break;
    case 5: s.SetInputs(s.GetInputs()); break;
    case 6: (void)s.GetShape().Bounds(); break;
    case 7: { Stroke t(zoo::MakeBrush({0}, 2, .1f), Inputs(1)); s = std::move(t); break; }
  }
}
constexpr int kOps = 8;
}  // namespace
MC_SECTION(threads, "2 threads (thorough also 3 doing the same) each owning a copy of one stroke, every pair of operations out of 8 that regenerate, copy, read or replace it, the original kept or dropped, every schedule with 1 preemption (2 where neither regenerates) at atomic and mutex operations: no data race, and each copy ends as it would have alone") {
  static uint64_t want[kOps]; static bool warm = false;
  Brush brush = zoo::MakeBrush({0}, 2, .1f);
  if (!warm) { for (int o = 0; o < kOps; ++o) { Stroke s(brush, Inputs(2)); Do(s, o); want[o] = Fingerprint(s); } warm = true; }
  int n = mc::thorough() && c.flag() ? 3 : 2; std::vector<int> op; for (int i = 0; i < n; ++i) op.push_back(c.pick(kOps));
  for (int i = 1; i < n; ++i) c.assume(op[i - 1] <= op[i]);
  bool keep = c.flag(); if (n == 3) c.assume(op[0] == op[2] && !keep);
  race::Report rep; uint64_t got[3] = {};
  {
    std::optional<Stroke> main(std::in_place, brush, Inputs(2)); uint64_t before = Fingerprint(*main);
    std::vector<Stroke> own(n, *main); if (!keep) main.reset();
    std::vector<std::function<void()>> bodies; for (int i = 0; i < n; ++i) bodies.push_back([&, i] { Do(own[i], op[i]); got[i] = Fingerprint(own[i]); });
    auto light = [](int o) { return o == 2 || o == 6; };
    rep = race::Run(c, bodies, n == 2 && light(op[0]) && light(op[1]) ? 2 : 1);
    if (keep) MC_EXPECT(c, Fingerprint(*main) == before, "main-copy", "changed");
  }
  MC_EXPECT(c, rep.races.empty(), "race", rep.races[0]);
  for (int i = 0; i < n; ++i) MC_EXPECT(c, got[i] == want[op[i]], "isolation", "thread " << i << " op " << op[i]);
  c.op(n); c.add_states(rep.points); uint64_t h = keep; for (int o : op) h = mc::Hash(h, o); c.outcome(h);
}
MC_MAIN()
