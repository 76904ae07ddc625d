// P40: life cycle of an in-progress stroke.
#include <memory>
#include <optional>
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/stroke.h"
#include "mc.h"
#include "strokes_util.h"
using namespace ink;
using zoo::Geo;
#ifdef WITH_SANITIZERS
static constexpr int kLess = 1;  // one step less under the (much slower) sanitizers
#else
static constexpr int kLess = 0;
#endif
namespace {
struct BrushSpec { std::vector<int> tips; float size, eps; int model; bool winding; };
const BrushSpec kBrushes[] = {{{0}, 2, .1f, 1, false}, {{2}, 2, .1f, 0, false}, {{3}, 1, .1f, 1, false}, {{4, 1}, 3, .2f, 1, false}, {{5}, 2, .1f, 1, false},
                              {{7}, 1, .1f, 0, true}, {{6}, 3, .1f, 1, false}, {{0}, 1, 1, 1, false}, {{8, 9}, 4, .3f, 0, true}, {{3}, 2, .05f, 1, true}};
constexpr int kNumBrushes = 10;
const Brush& TheBrush(int i) { static std::vector<Brush> v = [] { std::vector<Brush> r; for (auto& b : kBrushes) r.push_back(zoo::MakeBrush(b.tips, b.size, b.eps, b.model, b.winding)); return r; }(); return v[i]; }

Geo Read(const InProgressStroke& s, uint32_t coat) { Geo g = zoo::ReadMesh(s.GetMesh(coat)); zoo::ReadOutlines(g, s.GetCoatOutlines(coat)); return g; }
bool SameInputs(const StrokeInputBatch& b, const std::vector<StrokeInput>& v) {
  if (b.Size() != v.size()) return false;
  for (size_t i = 0; i < v.size(); ++i) { StrokeInput s = b.Get(i); if (!(s.position == v[i].position) || s.elapsed_time != v[i].elapsed_time || s.pressure != v[i].pressure || s.tilt != v[i].tilt || s.orientation != v[i].orientation || s.tool_type != v[i].tool_type) return false; }
  return true;
}
// Adds to `e` the corners of every triangle present in one geometry but not (as often) in the other.
std::multiset<std::array<float, 6>> Triangles(const Geo& g) {
  std::multiset<std::array<float, 6>> m;
  for (auto& t : g.tri) m.insert({g.pos[t[0]][0], g.pos[t[0]][1], g.pos[t[1]][0], g.pos[t[1]][1], g.pos[t[2]][0], g.pos[t[2]][1]});
  return m;
}
void AddChanges(const Geo& a, const Geo& b, Envelope& e) {
  auto x = Triangles(a), y = Triangles(b);
  std::vector<std::array<float, 6>> d; std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(d));
  for (auto& t : d) for (int k = 0; k < 3; ++k) e.Add(Point{t[2 * k], t[2 * k + 1]});
}
bool Covers(const Envelope& outer, const Envelope& inner) {
  auto i = inner.AsRect(); if (!i) return true; auto o = outer.AsRect(); if (!o) return false;
  return o->XMin() <= i->XMin() && o->XMax() >= i->XMax() && o->YMin() <= i->YMin() && o->YMax() >= i->YMax();
}

struct Sim {
  mc::Choices& c; int path; bool shadows = true;
  std::unique_ptr<InProgressStroke> s = std::make_unique<InProgressStroke>();
  // Model.
  int brush = -1; bool finished = true; std::vector<StrokeInput> real, pred, qreal, qpred; float now = 0; int next = 0;
  std::vector<Geo> geo; Envelope changed;
  // A stroke started afresh that gets the same real inputs and clock but no predictions and is never moved.
  std::unique_ptr<InProgressStroke> plain;

  std::vector<StrokeInput> All() const { auto v = real; v.insert(v.end(), pred.begin(), pred.end()); return v; }
  void Start(int b, bool own = false) {
    if (own && !s->GetBrush()) { MC_EXPECT(c, brush < 0, "brush", "none after start"); return; }
    if (own) { s->Start(*s->GetBrush()); } else { s->Start(TheBrush(b)); brush = b; }
    finished = false; real.clear(); pred.clear(); qreal.clear(); qpred.clear(); now = 0; next = 0; changed.Reset(); geo.clear();
    plain = std::make_unique<InProgressStroke>(); plain->Start(TheBrush(brush));
  }
  void Clear() { s->Clear(); brush = -1; finished = true; real.clear(); pred.clear(); qreal.clear(); qpred.clear(); now = 0; changed.Reset(); geo.clear(); plain.reset(); }
  void Enqueue(int nr, int np) {
    StrokeInputBatch r, p; std::vector<StrokeInput> vr, vp;
    for (int i = 0; i < nr; ++i) { vr.push_back(zoo::Raw(path, next + i)); if (!r.Append(vr.back()).ok()) c.fail("harness", "raw"); }
    for (int i = 0; i < np; ++i) { vp.push_back(zoo::Raw(path, next + nr + i, true)); if (!p.Append(vp.back()).ok()) c.fail("harness", "raw predicted"); }
    bool ok = s->EnqueueInputs(r, p).ok();
    MC_EXPECT(c, ok == (brush >= 0 && !finished), "enqueue-status", "accepted " << ok << ", started " << (brush >= 0) << " finished " << finished);
    if (!ok) return;
    next += nr; qreal.insert(qreal.end(), vr.begin(), vr.end()); qpred = vp;
    if (plain && nr) { auto st = plain->EnqueueInputs(r, {}); MC_EXPECT(c, st.ok(), "enqueue-status", "fresh stroke rejects inputs: " << st.ToString()); }
  }
  // Inputs that must be refused: wrong tool, time going backwards, a repeat, or a prediction before the real input.
  void EnqueueBad(int kind) {
    if (brush < 0 || finished) return;
    const std::vector<StrokeInput>& last = qreal.empty() ? real : qreal;
    if (last.empty()) return;
    StrokeInput i = last.back(); i.position.x += 1;
    if (kind == 0) i.tool_type = StrokeInput::ToolType::kTouch;
    if (kind == 1) { if (i.elapsed_time.ToSeconds() <= 0) return; i.elapsed_time = Duration32::Seconds(i.elapsed_time.ToSeconds() / 2); }
    if (kind == 2) i = last.back();
    StrokeInputBatch r, p;
    if (kind == 3) { StrokeInput n = zoo::Raw(path, next); if (!r.Append(n).ok() || !p.Append(n).ok()) c.fail("harness", "bad"); }
    else if (!(c.flag() ? r : p).Append(i).ok()) c.fail("harness", "bad");
    bool ok = s->EnqueueInputs(r, p).ok();
    MC_EXPECT(c, !ok, "enqueue-status", "accepted an invalid continuation of kind " << kind);
  }
  void Update(float t) {
    bool needs = s->NeedsUpdate(); bool want_ok = brush >= 0 && t >= now;  // false for NaN
    bool dry = brush >= 0 && finished && !needs;
    std::vector<Geo> before;
    uint32_t coats = brush >= 0 ? s->BrushCoatCount() : 0;
    for (uint32_t k = 0; k < coats; ++k) before.push_back(Read(*s, k));
    bool had_pred = !pred.empty();
    bool ok = s->UpdateShape(Duration32::Seconds(t)).ok();
    MC_EXPECT(c, ok == want_ok, "update-status", "accepted " << ok << " for time " << t << " after " << now << ", started " << (brush >= 0));
    if (!ok) { for (uint32_t k = 0; k < coats; ++k) { std::string d = zoo::Diff(before[k], Read(*s, k)); MC_EXPECT(c, d.empty(), "failed-update-changed", d); } return; }
    now = t; real.insert(real.end(), qreal.begin(), qreal.end()); pred = qpred; qreal.clear(); qpred.clear();
    if (plain) { auto st = plain->UpdateShape(Duration32::Seconds(t)); MC_EXPECT(c, st.ok(), "update-status", "fresh stroke: " << st.ToString()); }
    for (uint32_t k = 0; k < coats; ++k) {
      Geo g = Read(*s, k);
      AddChanges(before[k], g, changed);
      if (dry || (!needs && !had_pred)) { std::string d = zoo::Diff(before[k], g); MC_EXPECT(c, d.empty(), dry ? "dry-changed" : "unneeded-update-changed", "coat " << k << ": " << d); }
    }
  }
  void Finish() { s->FinishInputs(); if (brush >= 0) { finished = true; qpred.clear(); } }
  void Move(int kind) {
    if (kind == 0) { auto n = std::make_unique<InProgressStroke>(std::move(*s)); s = std::move(n); }                       // old object destroyed
    else { auto n = std::make_unique<InProgressStroke>(); n->Start(TheBrush((brush + 1) % kNumBrushes)); (void)n->EnqueueInputs(BatchOf(2), {}); (void)n->UpdateShape(Duration32::Seconds(1)); *n = std::move(*s); s->Start(TheBrush(0)); (void)s->EnqueueInputs(BatchOf(1), {}); (void)s->UpdateShape(Duration32::Zero()); s = std::move(n); }  // into a used object, old one restarted
  }
  StrokeInputBatch BatchOf(int n) { StrokeInputBatch b; for (int i = 0; i < n; ++i) (void)b.Append(zoo::Raw(2, i)); return b; }

  void Check(const char* when) {
    c.eval(12);
    MC_EXPECT(c, s->InputsAreFinished() == finished, "finished", when << " " << s->InputsAreFinished());
    MC_EXPECT(c, (s->GetBrush() != nullptr) == (brush >= 0), "brush", when);
    MC_EXPECT(c, s->BrushCoatCount() == (brush >= 0 ? TheBrush(brush).CoatCount() : 0), "coat-count", when << " " << s->BrushCoatCount());
    MC_EXPECT(c, SameInputs(s->GetInputs(), All()), "inputs", when << ": " << s->GetInputs().Size() << " inputs, expected " << real.size() << "+" << pred.size());
    MC_EXPECT(c, s->InputCount() == real.size() + pred.size() && s->RealInputCount() == real.size() && s->PredictedInputCount() == pred.size(), "counts", when << " " << s->RealInputCount() << "+" << s->PredictedInputCount());
    if (brush < 0) { MC_EXPECT(c, !s->NeedsUpdate() && s->GetUpdatedRegion().IsEmpty(), "cleared", when); return; }
    if (!qreal.empty() || !qpred.empty()) MC_EXPECT(c, s->NeedsUpdate(), "needs-update", when << ": inputs are queued");
    MC_EXPECT(c, Covers(s->GetUpdatedRegion(), changed), "updated-region", when << ": region " << zoo::ShowRect(s->GetUpdatedRegion().AsRect()) << " does not cover the changes " << zoo::ShowRect(changed.AsRect()));
    for (uint32_t k = 0; k < s->BrushCoatCount(); ++k) {
      Geo g = Read(*s, k);
      c.eval(g.tri.size()); c.state(mc::Hash(brush, k, g.tri.size(), g.pos.size(), g.outlines.size()));
      std::string bad = zoo::Invalid(g); MC_EXPECT(c, bad.empty(), "invalid-geometry", when << " coat " << k << ": " << bad);
      auto b = s->GetMeshBounds(k).AsRect(), w = zoo::Bounds(g).AsRect();
      MC_EXPECT(c, zoo::SameRect(b, w), "bounds", when << " coat " << k << ": " << zoo::ShowRect(b) << " but the vertices span " << zoo::ShowRect(w));
      if (real.empty() && pred.empty()) MC_EXPECT(c, g.tri.empty() && g.outlines.empty(), "not-empty", when << " geometry without inputs");
      if (plain && pred.empty()) { std::string d = zoo::Diff(g, Read(*plain, k)); MC_EXPECT(c, d.empty(), "depends-on-history", when << " coat " << k << " differs from a fresh stroke with the same inputs: " << d); }
    }
    if (plain && pred.empty()) MC_EXPECT(c, qpred.empty() == false || s->NeedsUpdate() == plain->NeedsUpdate(), "needs-update", when << ": differs from a fresh stroke");
  }
  void Copy() {
    if (brush < 0) { MC_EXPECT(c, mc::DiesOnCheck([&] { s->CopyToStroke(); }), "copy-unstarted", ""); return; }
    for (auto keep : {InProgressStroke::RetainAttributes::kAll, InProgressStroke::RetainAttributes::kUsedByThisBrush}) {
      Stroke st = s->CopyToStroke(keep);
      MC_EXPECT(c, SameInputs(st.GetInputs(), All()), "copy-inputs", st.GetInputs().Size());
      MC_EXPECT(c, st.GetBrush().GetSize() == TheBrush(brush).GetSize() && st.GetBrush().GetEpsilon() == TheBrush(brush).GetEpsilon() && st.GetBrush().GetColor() == TheBrush(brush).GetColor() && st.GetBrush().GetCoats().size() == TheBrush(brush).GetCoats().size(), "copy-brush", "");
      MC_EXPECT(c, st.GetShape().RenderGroupCount() == s->BrushCoatCount(), "copy-groups", st.GetShape().RenderGroupCount());
      for (uint32_t k = 0; k < s->BrushCoatCount(); ++k) {
        Geo g = Read(*s, k); uint32_t tris = 0;
        for (auto& o : g.outlines) { std::vector<uint32_t> used; for (uint32_t v : o) for (auto& t : g.tri) if (t[0] == v || t[1] == v || t[2] == v) { used.push_back(v); break; } o = used; }  // vertices in no triangle are not copied
        for (const Mesh& m : st.GetShape().RenderGroupMeshes(k)) tris += m.TriangleCount();
        MC_EXPECT(c, tris == g.tri.size(), "copy-triangles", "coat " << k << ": " << tris << " of " << g.tri.size());
        MC_EXPECT(c, st.GetShape().OutlineCount(k) == g.outlines.size(), "copy-outlines", "coat " << k << ": " << st.GetShape().OutlineCount(k) << " of " << g.outlines.size());
        for (uint32_t o = 0; o < std::min<size_t>(st.GetShape().OutlineCount(k), g.outlines.size()); ++o) {
          MC_EXPECT(c, st.GetShape().OutlineVertexCount(k, o) == g.outlines[o].size(), "copy-outlines", "coat " << k << " outline " << o << ": " << st.GetShape().OutlineVertexCount(k, o) << " of " << g.outlines[o].size() << " tris " << g.tri.size() << " verts " << g.pos.size());
          auto b = zoo::Bounds(g).AsRect(); float tol = b ? 1e-3f * (1 + b->Width() + b->Height()) : 0;
          for (uint32_t v = 0; v < std::min<size_t>(st.GetShape().OutlineVertexCount(k, o), g.outlines[o].size()); ++v) {
            Point p = st.GetShape().OutlinePosition(k, o, v); auto& w = g.pos[g.outlines[o][v]];
            if (!(std::fabs(p.x - w[0]) <= tol && std::fabs(p.y - w[1]) <= tol)) { c.fail("copy-outlines", "an outline position moved"); break; }
          }
        }
        c.eval(4);
      }
    }
  }
};
}  // namespace

MC_SECTION(inputs, "all histories (one step shorter in the sanitizer build) of 4 (thorough 5) steps out of 14 (start, restart with own brush, enqueue real/predicted/both/neither/invalid, update at, after and before the last time, finish, clear, reset region, move) on 10 brushes and 5 paths, after a start: accepted calls, inputs, counts, finish state, geometry validity, bounds, updated region, independence of predictions and earlier strokes, copies") {
  Sim sim{c, c.pick(zoo::kPaths)};
  int b = c.pick(kNumBrushes); sim.Start(b); sim.Check("start");
  int n = mc::tier(4, 5) - kLess;
  for (int i = 0; i < n; ++i) {
    int op = c.pick(14); c.op(1);
    static const char* kNames[] = {"enqueue 1 real", "enqueue 2 real", "enqueue 2 predicted", "enqueue 1 real 1 predicted", "enqueue nothing", "update same time", "update later", "finish", "move", "restart own brush", "start other brush", "reset region", "clear", "move into used"};
    switch (op) {
      case 0: sim.Enqueue(1, 0); break;
      case 1: sim.Enqueue(2, 0); break;
      case 2: sim.Enqueue(0, 2); break;
      case 3: sim.Enqueue(1, 1); break;
      case 4: sim.Enqueue(0, 0); break;
      case 5: sim.Update(sim.now); break;
      case 6: sim.Update(sim.now + .035f); break;
      case 7: sim.Finish(); break;
      case 8: sim.Move(0); break;
      case 9: sim.Start(0, true); break;
      case 10: sim.Start((sim.brush + 1 + kNumBrushes) % kNumBrushes); break;
      case 11: sim.s->ResetUpdatedRegion(); sim.changed.Reset(); break;
      case 12: sim.Clear(); break;
      case 13: sim.Move(1); break;
    }
    sim.Check(kNames[op]);
  }
  sim.Copy();
  c.outcome(mc::Hash(b, sim.path, sim.real.size(), sim.pred.size(), sim.s->NeedsUpdate()));
}
MC_SECTION(refused, "all histories (one step shorter in the sanitizer build) of 4 (thorough 5) steps out of 14 on 3 brushes and 2 paths, before any start, with calls that must be refused (enqueue and update before start and after finish, wrong tool type, time going backwards, repeated input, prediction overlapping a real input, clock negative, decreasing or infinite): errors are reported and leave everything as it was") {
  Sim sim{c, c.pick(2) * 2};
  static const int kB[] = {0, 3, 5}; int b = kB[c.pick(3)];
  int n = mc::tier(4, 5) - kLess;
  for (int i = 0; i < n; ++i) {
    int op = c.pick(14); c.op(1);
    switch (op) {
      case 0: sim.Start(b); break;
      case 1: sim.Enqueue(2, 0); break;
      case 2: sim.Enqueue(1, 1); break;
      case 3: sim.Update(sim.now + .02f); break;
      case 4: case 5: case 6: case 7: sim.EnqueueBad(op - 4); break;
      case 8: sim.Update(-1); break;
      case 9: sim.Update(kInf); break;
      case 10: sim.Update(std::nextafter(sim.now, -1.f)); break;
      case 11: sim.Finish(); break;
      case 12: sim.Move(0); break;
      case 13: sim.Copy(); break;
    }
    sim.Check("step");
  }
  c.outcome(mc::Hash(b, sim.path, sim.real.size(), sim.pred.size(), sim.brush));
}
MC_SECTION(incremental, "every split of 8 (thorough 10; 3 less with sanitizers) real inputs into updates x no, one or three predicted inputs per update x inputs arriving together with or an update after the clock, on every tip of the zoo (x winding texture x 2 size/epsilon pairs x 2 input models; quick: 10 brushes) and 5 paths: geometry, attributes, bounds and outlines at the end are exactly those of one update with all inputs") {
  static const float kSize[] = {2, 5}, kEps[] = {.1f, .02f};
  int path = c.pick(zoo::kPaths), predict = c.pick(3); bool idle = c.flag();
  Brush brush = mc::thorough() ? [&] { int t = c.pick(zoo::kTips), z = c.pick(2); return zoo::MakeBrush({t}, kSize[z], kEps[z], c.pick(2), c.flag()); }() : TheBrush(c.pick(kNumBrushes));
  int n = mc::tier(8, 10) - 3 * kLess;
  auto s = std::make_unique<InProgressStroke>(), whole = std::make_unique<InProgressStroke>(); s->Start(brush); whole->Start(brush);
  StrokeInputBatch all; int i = 0; float last = 0;
  while (i < n) {
    int k = 1 + c.pick(n - i); StrokeInputBatch r, p;
    for (int j = 0; j < k; ++j) { auto in = zoo::Raw(path, i++); last = in.elapsed_time.ToSeconds(); (void)r.Append(in); (void)all.Append(in); }
    if (predict) for (int j = 0; j < predict * 2 - 1; ++j) (void)p.Append(zoo::Raw(path, i + j, true));
    c.op(1);
    if (!s->EnqueueInputs(r, p).ok() || !s->UpdateShape(Duration32::Seconds(last)).ok()) c.fail("harness", "update");
    if (idle && i < n) { if (!s->UpdateShape(Duration32::Seconds(last)).ok()) c.fail("harness", "idle update"); }
  }
  if (predict && !s->UpdateShape(Duration32::Seconds(last)).ok()) c.fail("harness", "last update");
  if (!whole->EnqueueInputs(all, {}).ok() || !whole->UpdateShape(Duration32::Seconds(last)).ok()) c.fail("harness", "whole");
  for (uint32_t k = 0; k < s->BrushCoatCount(); ++k) {
    Geo a = Read(*s, k), w = Read(*whole, k); std::string d = zoo::Diff(a, w);
    c.eval(a.pos.size() + a.tri.size()); c.state(mc::Hash(path, a.pos.size(), a.tri.size(), a.outlines.size()));
    MC_EXPECT(c, d.empty(), "incremental", "coat " << k << " differs from one update with all inputs: " << d);
    MC_EXPECT(c, zoo::SameRect(s->GetMeshBounds(k).AsRect(), whole->GetMeshBounds(k).AsRect()), "incremental-bounds", k);
    std::string bad = zoo::Invalid(a); MC_EXPECT(c, bad.empty(), "invalid-geometry", bad);
    c.outcome(mc::Hash(path, a.pos.size(), a.tri.size()));
  }
}
MC_MAIN()
