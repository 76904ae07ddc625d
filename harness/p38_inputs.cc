// P38: stroke inputs and input batches.
#include <algorithm>
#include <optional>
#include "absl/strings/str_cat.h"
#include "ink/geometry/affine_transform.h"
#include "ink/strokes/input/internal/stroke_input_validation_helpers.h"
#include "ink/strokes/input/stroke_input.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "mc.h"
#include "util.h"
using namespace ink;
using TT = StrokeInput::ToolType;
static const float kHalfPi = kQuarterTurn.ValueInRadians(), kTwoPi = kFullTurn.ValueInRadians();

static bool SameInput(const StrokeInput& a, const StrokeInput& b) {
  return a.tool_type == b.tool_type && a.position == b.position && a.elapsed_time == b.elapsed_time && a.stroke_unit_length == b.stroke_unit_length &&
         a.pressure == b.pressure && a.tilt == b.tilt && a.orientation == b.orientation;
}
// The rules of the documentation.
static bool ValidInput(const StrokeInput& i) {
  int t = static_cast<int>(i.tool_type);
  if (t < 0 || t > 3) return false;
  if (!std::isfinite(i.position.x) || !std::isfinite(i.position.y)) return false;
  float s = i.elapsed_time.ToSeconds(), u = i.stroke_unit_length.ToCentimeters(), p = i.pressure, ti = i.tilt.ValueInRadians(), o = i.orientation.ValueInRadians();
  if (!(s >= 0 && s < kInf)) return false;
  if (!(u == 0 || (u > 0 && u < kInf))) return false;
  if (!(p == -1 || (p >= 0 && p <= 1))) return false;
  if (!(ti == -1 || (ti >= 0 && ti <= kHalfPi))) return false;
  if (!(o == -1 || (o >= 0 && o < kTwoPi))) return false;
  return true;
}
static bool SameFormat(const StrokeInput& a, const StrokeInput& b) {
  return a.tool_type == b.tool_type && a.stroke_unit_length == b.stroke_unit_length && (a.pressure == -1) == (b.pressure == -1) &&
         (a.tilt.ValueInRadians() == -1) == (b.tilt.ValueInRadians() == -1) && (a.orientation.ValueInRadians() == -1) == (b.orientation.ValueInRadians() == -1);
}
static bool MayFollow(const StrokeInput& a, const StrokeInput& b) {
  return SameFormat(a, b) && a.elapsed_time <= b.elapsed_time && !(a.position == b.position && a.elapsed_time == b.elapsed_time);
}
static std::string Show(const StrokeInput& i) {
  std::ostringstream os;
  os << "{" << int(i.tool_type) << " (" << i.position.x << "," << i.position.y << ") t" << i.elapsed_time.ToSeconds() << " u" << i.stroke_unit_length.ToCentimeters() << " p" << i.pressure << " ti" << i.tilt.ValueInRadians() << " o" << i.orientation.ValueInRadians() << "}";
  return os.str();
}
// Everything a batch shows, against the model.
static void CheckBatch(mc::Choices& c, const StrokeInputBatch& b, const std::vector<StrokeInput>& m, const char* when) {
  auto fail = [&](const char* key, const std::string& what) { c.fail(key, std::string(when) + ": " + what); };
  if (b.Size() != m.size() || b.IsEmpty() != m.empty()) fail("size", absl::StrCat(b.Size(), " expected ", m.size()));
  for (size_t i = 0; i < m.size(); ++i) if (!SameInput(b.Get(i), m[i])) fail("get", absl::StrCat(i, " is ", Show(b.Get(i)), " expected ", Show(m[i])));
  size_t i = 0;
  for (const StrokeInput& s : b) { if (i >= m.size() || !SameInput(s, m[i])) fail("iteration", absl::StrCat("element ", i)); ++i; }
  if (i != m.size()) fail("iteration", "count");
  i = 0;
  for (auto it = b.begin(); it != b.end(); it++, ++i) if (!(it->position == m[i].position) || it->elapsed_time != m[i].elapsed_time || (*it).pressure != m[i].pressure) fail("iteration", "arrow");
  if (!m.empty()) { auto it = b.begin(); StrokeInput kept = *it; auto old = it++; if (!SameInput(*old, m[0]) || !SameInput(kept, m[0]) || (it == b.begin()) || (m.size() == 1) != (it == b.end())) fail("iteration", "postfix"); }
  TT tt = m.empty() ? TT::kUnknown : m[0].tool_type;
  if (b.GetToolType() != tt) fail("tool-type", absl::StrCat(int(b.GetToolType())));
  std::optional<PhysicalDistance> u;
  if (!m.empty() && m[0].stroke_unit_length != PhysicalDistance::Zero()) u = m[0].stroke_unit_length;
  if (b.GetStrokeUnitLength() != u || b.HasStrokeUnitLength() != u.has_value()) fail("unit-length", "");
  if (b.HasPressure() != (!m.empty() && m[0].pressure != -1)) fail("has-pressure", "");
  if (b.HasTilt() != (!m.empty() && m[0].tilt.ValueInRadians() != -1)) fail("has-tilt", "");
  if (b.HasOrientation() != (!m.empty() && m[0].orientation.ValueInRadians() != -1)) fail("has-orientation", "");
  float d = m.empty() ? 0 : m.back().elapsed_time.ToSeconds() - m[0].elapsed_time.ToSeconds();
  if (b.GetDuration().ToSeconds() != d) fail("duration", absl::StrCat(b.GetDuration().ToSeconds()));
  c.eval(m.size() * 4 + 8);
}
static StrokeInput In(float x, float y, float t, int fmt = 0, TT tool = TT::kStylus, float unit = 0) {
  StrokeInput s{.tool_type = tool, .position = {x, y}, .elapsed_time = Duration32::Seconds(t), .stroke_unit_length = PhysicalDistance::Centimeters(unit)};
  if (fmt & 1) s.pressure = .25f + x / 100;
  if (fmt & 2) s.tilt = Angle::Radians(.5f + y / 100);
  if (fmt & 4) s.orientation = Angle::Radians(1.5f + t / 100);
  return s;
}

MC_SECTION(single_field, "each of 7 numeric fields over every float (thorough all 2^32), tool type over all 256 values: a batch accepts the input exactly when the documented range holds") {
  int field = c.pick(8);
  if (field == 7) {
    for (int v = -128; v < 128; ++v) {
      StrokeInput s = In(1, 2, 3, 7); s.tool_type = static_cast<TT>(v);
      StrokeInputBatch b;
      MC_EXPECT(c, b.Append(s).ok() == ValidInput(s), "tool-type", v);
      MC_EXPECT(c, StrokeInputBatch::Create({s}).ok() == ValidInput(s), "tool-type", v);
    }
    c.add_states(256); c.op(512); c.eval(512); c.outcome(7); return;
  }
  TierFloatsBlock(c, [&](uint32_t bits) {
    float f = FromBits(bits);
    StrokeInput s = In(1, 2, 3, 7);
    switch (field) { case 0: s.position.x = f; break; case 1: s.position.y = f; break; case 2: s.elapsed_time = Duration32::Seconds(f); break; case 3: s.stroke_unit_length = PhysicalDistance::Centimeters(f); break;
      case 4: s.pressure = f; break; case 5: s.tilt = Angle::Radians(f); break; case 6: s.orientation = Angle::Radians(f); break; }
    StrokeInputBatch b;
    bool want = ValidInput(s);
    absl::Status st = b.Append(s);
    if (st.ok() != want) c.fail("single", "field " + std::to_string(field) + " value " + std::to_string(f) + (want ? " rejected" : " accepted"));
    if (want) { if (b.Size() != 1 || !SameInput(b.Get(0), s) || !SameInput(*b.begin(), s)) c.fail("single-readback", "field " + std::to_string(field) + " value " + std::to_string(f) + " reads back " + Show(b.Get(0))); }
    else if (b.Size() != 0 || b.HasPressure() || st.code() != absl::StatusCode::kInvalidArgument) c.fail("single-rejected", "field " + std::to_string(field));
  });
  c.op(64 * 3); c.eval(64 * 6);
  c.add_nontrivial(2);
}

MC_SECTION(pairs, "all pairs of values from 24 inputs that differ in one field each, in all formats: consecutive validity, in a batch, across a batch boundary and by Set") {
  int fa = c.pick(8), fb = c.pick(8);
  static const std::vector<std::array<float, 5>> base = {{0, 0, 0, 2, 0}, {0, 0, 1, 2, 0}, {1, 0, 0, 2, 0}, {0, 1, 0, 2, 0}, {-0.f, 0, 0, 2, 0}, {0, 0, 0, 1, 0}, {0, 0, 0, 2, 1}, {0, 0, 0, 2, 2}, {0, 0, kDenorm, 2, 0}, {1, 1, 2, 0, 1}, {kMax, 0, 0, 2, 0}, {0, 0, kMax, 2, 0}};
  auto& pa = c.of(base); auto& pb = c.of(base);
  StrokeInput a = In(pa[0], pa[1], pa[2], 0, TT(int(pa[3])), pa[4]), b = In(pb[0], pb[1], pb[2], 0, TT(int(pb[3])), pb[4]);
  auto fmt = [](StrokeInput& s, int f, float v) { if (f & 1) s.pressure = v; if (f & 2) s.tilt = Angle::Radians(v); if (f & 4) s.orientation = Angle::Radians(v); };
  fmt(a, fa, 0); fmt(b, fb, c.flag() ? 0 : 1);
  bool want = MayFollow(a, b);
  MC_EXPECT(c, stroke_input_internal::ValidateConsecutiveInputs(a, b).ok() == want, "pair", Show(a) << " then " << Show(b) << " expected " << want);
  StrokeInputBatch x;
  MC_EXPECT(c, x.Append(a).ok(), "pair", Show(a));
  MC_EXPECT(c, x.Append(b).ok() == want, "pair-append", Show(a) << " then " << Show(b) << " expected " << want);
  std::vector<StrokeInput> m = {a}; if (want) m.push_back(b);
  CheckBatch(c, x, m, "after append");
  std::vector<StrokeInput> both = {a, b};
  auto made = StrokeInputBatch::Create(both);
  MC_EXPECT(c, made.ok() == want, "pair-create", Show(a) << " then " << Show(b));
  StrokeInputBatch y; MC_EXPECT(c, y.Append(absl::MakeConstSpan(both)).ok() == want, "pair-span", Show(a) << " then " << Show(b));
  CheckBatch(c, y, want ? both : std::vector<StrokeInput>{}, "after span append");
  auto ba = StrokeInputBatch::Create({a}), bb = StrokeInputBatch::Create({b});
  StrokeInputBatch z = *ba;
  MC_EXPECT(c, z.Append(*bb).ok() == want, "pair-batch", Show(a) << " then " << Show(b));
  CheckBatch(c, z, m, "after batch append"); CheckBatch(c, *ba, {a}, "shared source"); CheckBatch(c, *bb, {b}, "appended source");
  // Replacing the only element always works; replacing one of two only with a valid neighbour.
  StrokeInputBatch w = *ba;
  MC_EXPECT(c, w.Set(0, b).ok(), "set-only", Show(b));
  CheckBatch(c, w, {b}, "set only"); CheckBatch(c, *ba, {a}, "shared source of set");
  if (want) {
    for (size_t i = 0; i < 2; ++i) for (const auto& q : base) {
      StrokeInput n = i ? b : a; n.position = {q[0], q[1]}; n.elapsed_time = Duration32::Seconds(q[2]);
      if (q[3] != 2) n.tool_type = TT::kMouse; if (q[4] == 2) fmt(n, 7, .5f); if (q[4] == 1) n.stroke_unit_length = PhysicalDistance::Centimeters(9);
      StrokeInputBatch v = z;
      bool ok = i ? MayFollow(a, n) : MayFollow(n, b);
      MC_EXPECT(c, v.Set(i, n).ok() == ok, "set-pair", i << " " << Show(n) << " in " << Show(a) << Show(b) << " expected " << ok);
      std::vector<StrokeInput> mv = m; if (ok) mv[i] = n;
      CheckBatch(c, v, mv, "after set"); CheckBatch(c, z, m, "shared source of set");
    }
  }
  c.op(12); c.state(mc::Hash(fa, fb, &pa - base.data(), &pb - base.data())); c.outcome(mc::Hash(want, fa, fb));
}

// ---- histories ----
struct World { StrokeInputBatch b[2]; std::vector<StrokeInput> m[2]; };
static bool SeqOk(const std::vector<StrokeInput>& before, const std::vector<StrokeInput>& add) {
  const StrokeInput* last = before.empty() ? nullptr : &before.back();
  for (const StrokeInput& s : add) { if (!ValidInput(s) || (last && !MayFollow(*last, s))) return false; last = &s; }
  return true;
}
MC_SECTION(histories, "all histories of 3 (thorough 4) operations on two batches that may share storage, starting empty or with 2 shared inputs: append valid/duplicate/other-format/invalid input, append span (valid, invalid second), append the other batch or itself, set, erase (all ranges), clear, copy, move, deep copy, transform") {
  World w;
  int fmt = c.of({0, 1, 6, 7});
  if (c.flag()) { for (float t : {1.f, 2.f}) { StrokeInput s = In(t, 0, t, fmt); (void)w.b[0].Append(s); w.m[0].push_back(s); } w.b[1] = w.b[0]; w.m[1] = w.m[0]; }
  int n = mc::tier(3, 4);
  uint64_t h = fmt;
  static const AffineTransform tf(0, -2, 3, 1.5, 0, -4);
  for (int step = 0; step < n; ++step) {
    int k = c.pick(2), op = c.pick(15);
    StrokeInputBatch &b = w.b[k], &o = w.b[1 - k];
    std::vector<StrokeInput> &m = w.m[k], &mo = w.m[1 - k];
    float last = m.empty() ? 0 : m.back().elapsed_time.ToSeconds();
    auto add = [&](std::vector<StrokeInput> v, bool span) {
      bool ok = SeqOk(m, v);
      bool got = span ? b.Append(absl::MakeConstSpan(v)).ok() : b.Append(v[0]).ok();
      MC_EXPECT(c, got == ok, "append", "step " << step << " " << Show(v[0]) << " expected " << ok);
      if (ok) m.insert(m.end(), v.begin(), v.end());
    };
    switch (op) {
      case 0: add({In(5, 1, last + 1, fmt)}, false); break;
      case 1: add({m.empty() ? In(0, 0, 0, fmt ^ 1) : m.back()}, false); break;                          // duplicate
      case 2: add({In(6, 2, last, fmt ^ 2)}, false); break;                                               // other format
      case 3: { StrokeInput s = In(7, 3, last + 1, fmt); s.pressure = 2; add({s}, c.flag()); break; }      // invalid
      case 4: add({In(8, 4, last, fmt), In(8, 4, last + 2, fmt)}, true); break;
      case 5: { std::vector<StrokeInput> v = {In(9, 5, last + 1, fmt), In(9, 5, last + 1, fmt)}; add(v, true); break; }  // invalid second
      case 6: { std::vector<StrokeInput> add_m = mo; bool ok = m.empty() || mo.empty() || MayFollow(m.back(), mo.front()); MC_EXPECT(c, b.Append(o).ok() == ok, "append-batch", step); if (ok) m.insert(m.end(), add_m.begin(), add_m.end()); break; }
      case 7: { std::vector<StrokeInput> add_m = m; bool ok = m.empty() || MayFollow(m.back(), m.front()); MC_EXPECT(c, b.Append(b).ok() == ok, "append-self", step); if (ok) m.insert(m.end(), add_m.begin(), add_m.end()); break; }
      case 8: { if (m.empty()) { c.assume(false); } size_t i = c.pick(m.size()); StrokeInput s = In(-3, -1, m[i].elapsed_time.ToSeconds() + (c.flag() ? .25f : 1.5f), fmt);
        bool ok = m.size() == 1 || ((i == 0 || MayFollow(m[i - 1], s)) && (i + 1 == m.size() || MayFollow(s, m[i + 1])));
        MC_EXPECT(c, b.Set(i, s).ok() == ok, "set", "step " << step << " index " << i); if (ok) m[i] = s; break; }
      case 9: { size_t start = c.pick(m.size() + 1), cnt = c.of({size_t{0}, size_t{1}, size_t{2}, std::numeric_limits<size_t>::max()});
        b.Erase(start, cnt); size_t e = cnt > m.size() - start ? m.size() : start + cnt; m.erase(m.begin() + start, m.begin() + e); break; }
      case 10: b.Clear(); m.clear(); break;
      case 11: b = o; m = mo; break;
      case 12: { StrokeInputBatch t = std::move(b); b = StrokeInputBatch(); b = std::move(t); break; }
      case 13: { StrokeInputBatch t = b.MakeDeepCopy(); CheckBatch(c, t, m, "deep copy"); b = std::move(t); break; }
      case 14: b.Transform(tf); for (StrokeInput& s : m) s.position = tf.Apply(s.position); break;
    }
    h = mc::Hash(h, k, op);
    c.op();
    CheckBatch(c, b, m, "changed batch");
    CheckBatch(c, o, mo, "other batch");
  }
  c.state(h); c.outcome(mc::Hash(w.m[0].size(), w.m[1].size(), w.b[0].HasTilt(), w.b[1].HasPressure()));
}
MC_SECTION(layout, "all 8 optional formats x batch sizes 1..6 x every erase range, every Set index and every iterator start: values never leak into other fields or elements") {
  int fmt = c.pick(8), n = 1 + c.pick(6), op = c.pick(3);
  std::vector<StrokeInput> m;
  for (int i = 0; i < n; ++i) { StrokeInput s = In(i + 1, 20 - i, i * .5f, fmt, TT::kTouch, .5f); if (fmt & 1) s.pressure = i / 8.f; if (fmt & 2) s.tilt = Angle::Radians(.1f * i); if (fmt & 4) s.orientation = Angle::Radians(1 + i * .5f); m.push_back(s); }
  auto b = StrokeInputBatch::Create(m);
  MC_EXPECT(c, b.ok(), "create", fmt);
  CheckBatch(c, *b, m, "created");
  StrokeInputBatch copy = *b;
  if (op == 0) { size_t s = c.pick(n + 1), k = c.pick(n + 2); b->Erase(s, k); std::vector<StrokeInput> r = m; r.erase(r.begin() + s, r.begin() + std::min<size_t>(n, s + k)); CheckBatch(c, *b, r, "erased"); }
  else if (op == 1) { size_t i = c.pick(n); StrokeInput s = m[i]; s.position = {100, 200}; if (fmt & 1) s.pressure = 1; if (fmt & 2) s.tilt = Angle::Radians(kHalfPi); if (fmt & 4) s.orientation = Angle::Radians(6.25f); MC_EXPECT(c, b->Set(i, s).ok(), "set", i); auto r = m; r[i] = s; CheckBatch(c, *b, r, "set"); }
  else { size_t i = c.pick(n + 1); auto it = b->begin(); for (size_t k = 0; k < i; ++k) ++it; for (size_t k = i; k < m.size(); ++k, ++it) MC_EXPECT(c, SameInput(*it, m[k]), "iterator", k); MC_EXPECT(c, it == b->end(), "iterator", "end"); }
  CheckBatch(c, copy, m, "copy");
  c.op(2); c.state(mc::Hash(fmt, n, op)); c.outcome(mc::Hash(fmt, n, b->Size()));
}
MC_SECTION(misuse, "Get, Set and Erase beyond the end are fatal for every size 0..3 and do not otherwise read memory; text names every input") {
  int n = c.pick(4), what = c.pick(4);
  std::vector<StrokeInput> m; for (int i = 0; i < n; ++i) m.push_back(In(i, 1, i, 7));
  StrokeInputBatch b; if (n) b = *StrokeInputBatch::Create(m);
  size_t i = c.of({size_t(n), size_t(n + 1), size_t(n + 100), std::numeric_limits<size_t>::max()});
  bool died = mc::DiesOnCheck([&] { if (what == 0) b.Get(i); else if (what == 1) (void)b.Set(i, In(0, 0, 99)); else if (what == 2) b.Erase(i, 1); else b.Erase(i); });
  bool want = what < 2 || i > size_t(n);
  MC_EXPECT(c, died == want, "misuse", "operation " << what << " index " << i << " of " << n);
  if (!want) CheckBatch(c, b, m, "after empty erase");
  std::string t = absl::StrCat(b), e = "StrokeInputBatch[";
  for (int k = 0; k < n; ++k) e += (k ? ", " : "") + absl::StrCat(m[k]);
  MC_EXPECT(c, t == e + "]", "text", t);
  c.op(); c.eval(2); c.state(mc::Hash(n, what, i)); c.outcome(mc::Hash(died, n));
}
MC_SECTION(transform, "all 8 formats x 1..4 inputs x 12 transforms: every position is mapped, everything else and every copy stays") {
  static const std::vector<AffineTransform> tfs = {AffineTransform(), AffineTransform::Translate({3, -4}), AffineTransform::Scale(2), AffineTransform::Scale(-1, .5), AffineTransform::Rotate(kQuarterTurn), AffineTransform::Rotate(Angle::Degrees(37)),
    AffineTransform(1, .5f, 0, 0, 1, 0), AffineTransform(0, 0, 5, 0, 0, 6), AffineTransform(1, 2, 3, 4, 5, 6), AffineTransform(0, 1, 0, 1, 0, 0), AffineTransform::Scale(1e-6f), AffineTransform(1e6, 1, -3, 2, -1e6, 9)};
  int fmt = c.pick(8), n = 1 + c.pick(4); const AffineTransform& t = c.of(tfs);
  std::vector<StrokeInput> m; for (int i = 0; i < n; ++i) m.push_back(In(i * 1.5f - 1, 3 - i, i, fmt, TT::kMouse, .25f));
  StrokeInputBatch b = *StrokeInputBatch::Create(m), copy = b;
  if (c.flag()) b.Transform(t); else b.Transform(t, StrokeInputBatch::TransformInvariant::kPreserveDuration);
  std::vector<StrokeInput> r = m; for (StrokeInput& s : r) s.position = t.Apply(s.position);
  CheckBatch(c, b, r, "transformed"); CheckBatch(c, copy, m, "copy");
  StrokeInputBatch e; e.Transform(t); CheckBatch(c, e, {}, "empty");
  c.op(2); c.state(mc::Hash(fmt, n, &t - tfs.data())); c.outcome(mc::Hash(r[0].position.x, r[n - 1].position.y));
}
MC_SECTION(text, "all 4 tool types x 8 formats x with and without unit length: text lists exactly the reported properties") {
  int tt = c.pick(4), fmt = c.pick(8), u = c.pick(2);
  StrokeInput s = In(1, 2, 3, fmt, TT(tt), u ? .5f : 0);
  static const char* kN[] = {"Unknown", "Mouse", "Touch", "Stylus"};
  std::string e = absl::StrCat("StrokeInput[", kN[tt], ", ", s.position, ", ", s.elapsed_time);
  if (u) e += absl::StrCat(", stroke_unit_length=", s.stroke_unit_length);
  if (fmt & 1) e += absl::StrCat(", pressure=", s.pressure);
  if (fmt & 2) e += absl::StrCat(", tilt=", s.tilt);
  if (fmt & 4) e += absl::StrCat(", orientation=", s.orientation);
  MC_EXPECT(c, absl::StrCat(s) == e + "]", "text", absl::StrCat(s) << " expected " << e << "]");
  MC_EXPECT(c, s.HasPressure() == bool(fmt & 1) && s.HasTilt() == bool(fmt & 2) && s.HasOrientation() == bool(fmt & 4) && s.HasStrokeUnitLength() == bool(u), "has", fmt);
  c.op(); c.eval(2); c.state(mc::Hash(tt, fmt, u)); c.outcome(mc::Hash(e));
}
MC_MAIN()
