// P43: modeling brush tips: behaviors, particles, and which tip states are final.
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <optional>
#include <string>
#include <vector>
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_tip.h"
#include "ink/brush/easing_function.h"
#include "ink/strokes/internal/brush_tip_modeler.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/stroke_input_modeler.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "mc.h"
using namespace ink;
using namespace ink::strokes_internal;
using BB = BrushBehavior;
using Src = BB::Source; using Tgt = BB::Target; using OOR = BB::OutOfRange;
using MState = StrokeInputModeler::State;
namespace {
using V = std::optional<double>;
const double kPi = std::acos(-1.0);
const float kHalfPiF = (kQuarterTurn).ValueInRadians();
// ---- the documented meaning of behaviors, in doubles -------------------------------------------------------------
struct In { double px, py, vx, vy, ax, ay, dist, time; V pressure, tilt, ori; };
In Read(const ModeledStrokeInput& m) {
  In i{m.position.x, m.position.y, m.velocity.x, m.velocity.y, m.acceleration.x, m.acceleration.y, m.traveled_distance, m.elapsed_time.ToSeconds(), {}, {}, {}};
  if (m.pressure != StrokeInput::kNoPressure) i.pressure = m.pressure;
  if (m.tilt != StrokeInput::kNoTilt) i.tilt = m.tilt.ValueInRadians();
  if (m.orientation != StrokeInput::kNoOrientation) i.ori = m.orientation.ValueInRadians();
  return i;
}
V LerpV(V a, V b, double t) { if (!a || !b) return {}; return *a + (*b - *a) * t; }
double Mod(double x, double m) { double r = std::fmod(x, m); return r < 0 ? r + m : r; }
double AboutZero(double a) { a = Mod(a, 2 * kPi); return a > kPi + 1e-9 ? a - 2 * kPi : a; }
In Mix(const In& a, const In& b, double t) {
  auto l = [&](double x, double y) { return x + (y - x) * t; };
  In r{l(a.px, b.px), l(a.py, b.py), l(a.vx, b.vx), l(a.vy, b.vy), l(a.ax, b.ax), l(a.ay, b.ay), l(a.dist, b.dist), l(a.time, b.time), LerpV(a.pressure, b.pressure, t), LerpV(a.tilt, b.tilt, t), {}};
  if (a.ori && b.ori) r.ori = Mod(*a.ori + AboutZero(*b.ori - *a.ori) * t, 2 * kPi);
  return r;
}
struct World { double real_dist, real_time, all_dist, all_time; V unit_cm; StrokeInput::ToolType tool; double size; };
V Source(Src s, const In& i, V dir, const World& w) {
  auto cm = [&](double v) -> V { if (!w.unit_cm) return {}; return v * *w.unit_cm; };
  auto tilt_xy = [&](bool y) -> V { if (!i.tilt || !i.ori) return {}; if (*i.tilt == 0) return 0.0; if (*i.tilt == (double)kHalfPiF) return {}; return std::atan((y ? std::sin(*i.ori) : std::cos(*i.ori)) * std::tan(*i.tilt)); };
  double speed = std::hypot(i.vx, i.vy), ux = speed > 0 ? i.vx / speed : 1, uy = speed > 0 ? i.vy / speed : 0, acc = std::hypot(i.ax, i.ay);
  double fwd = i.ax * ux + i.ay * uy, lat = -i.ax * uy + i.ay * ux, pd = std::max(0.0, i.dist - w.real_dist), pt = std::max(0.0, i.time - w.real_time), since = w.all_time - i.time;
  switch (s) {
    case Src::kNormalizedPressure: return i.pressure;
    case Src::kTiltInRadians: return i.tilt;
    case Src::kTiltXInRadians: return tilt_xy(false);
    case Src::kTiltYInRadians: return tilt_xy(true);
    case Src::kOrientationInRadians: if (i.tilt && *i.tilt == 0) return {}; return i.ori;
    case Src::kOrientationAboutZeroInRadians: if (!i.ori || (i.tilt && *i.tilt == 0)) return {}; return AboutZero(*i.ori);
    case Src::kSpeedInMultiplesOfBrushSizePerSecond: return speed / w.size;
    case Src::kVelocityXInMultiplesOfBrushSizePerSecond: return i.vx / w.size;
    case Src::kVelocityYInMultiplesOfBrushSizePerSecond: return i.vy / w.size;
    case Src::kDirectionInRadians: if (!dir) return {}; return Mod(*dir, 2 * kPi);
    case Src::kDirectionAboutZeroInRadians: if (!dir) return {}; return AboutZero(*dir);
    case Src::kNormalizedDirectionX: if (!dir) return {}; return std::cos(*dir);
    case Src::kNormalizedDirectionY: if (!dir) return {}; return std::sin(*dir);
    case Src::kDistanceTraveledInMultiplesOfBrushSize: return i.dist / w.size;
    case Src::kTimeOfInputInSeconds: return i.time;
    case Src::kTimeOfInputInMillis: return i.time * 1000;
    case Src::kPredictedDistanceTraveledInMultiplesOfBrushSize: return pd / w.size;
    case Src::kPredictedTimeElapsedInSeconds: return pt;
    case Src::kPredictedTimeElapsedInMillis: return pt * 1000;
    case Src::kDistanceRemainingInMultiplesOfBrushSize: return (w.all_dist - i.dist) / w.size;
    case Src::kTimeSinceInputInSeconds: return since;
    case Src::kTimeSinceInputInMillis: return since * 1000;
    case Src::kAccelerationInMultiplesOfBrushSizePerSecondSquared: return acc / w.size;
    case Src::kAccelerationXInMultiplesOfBrushSizePerSecondSquared: return i.ax / w.size;
    case Src::kAccelerationYInMultiplesOfBrushSizePerSecondSquared: return i.ay / w.size;
    case Src::kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared: return fwd / w.size;
    case Src::kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared: return lat / w.size;
    case Src::kInputSpeedInCentimetersPerSecond: return cm(speed);
    case Src::kInputVelocityXInCentimetersPerSecond: return cm(i.vx);
    case Src::kInputVelocityYInCentimetersPerSecond: return cm(i.vy);
    case Src::kInputDistanceTraveledInCentimeters: return cm(i.dist);
    case Src::kPredictedInputDistanceTraveledInCentimeters: return cm(pd);
    case Src::kInputAccelerationInCentimetersPerSecondSquared: return cm(acc);
    case Src::kInputAccelerationXInCentimetersPerSecondSquared: return cm(i.ax);
    case Src::kInputAccelerationYInCentimetersPerSecondSquared: return cm(i.ay);
    case Src::kInputAccelerationForwardInCentimetersPerSecondSquared: return cm(fwd);
    case Src::kInputAccelerationLateralInCentimetersPerSecondSquared: return cm(lat);
  }
  return {};
}
double OutOfRange(OOR o, double x) {
  if (o == OOR::kClamp) return std::clamp(x, 0.0, 1.0);
  if (o == OOR::kRepeat) return x - std::floor(x);
  double m = Mod(x, 2); return m > 1 ? 2 - m : m;
}
double Ease(const EasingFunction& f, double x) {
  if (auto* p = std::get_if<EasingFunction::Predefined>(&f.parameters); p && *p == EasingFunction::Predefined::kLinear) return x;
  if (auto* s = std::get_if<EasingFunction::Steps>(&f.parameters)) { if (x < 0) return 0; if (x >= 1) return 1; return std::floor(x * s->step_count) / s->step_count; }  // kJumpEnd only
  auto& pts = std::get<EasingFunction::Linear>(f.parameters).points; double x0 = 0, y0 = 0;
  for (size_t i = 0; i <= pts.size(); ++i) { double x1 = i < pts.size() ? pts[i].x : 1, y1 = i < pts.size() ? pts[i].y : 1; if (x < x1 || i == pts.size()) return y0 + (y1 - y0) * (x - x0) / (x1 - x0); x0 = x1; y0 = y1; }
  return 0;
}
V Finite(double v) { if (!(std::fabs(v) <= FLT_MAX)) return {}; return v; }
bool Multiplies(Tgt t) { return t == Tgt::kWidthMultiplier || t == Tgt::kHeightMultiplier || t == Tgt::kSizeMultiplier || t == Tgt::kSaturationMultiplier || t == Tgt::kOpacityMultiplier; }
struct TipModel {
  const BrushTip& tip; World w; std::vector<V> damped, modifiers;
  TipModel(const BrushTip& t, const World& ww) : tip(t), w(ww) {}
  struct Out { double px, py, width, height, radius, rot, slant, pinch, hue, sat, lum, opac; };
  // `dd`, `dt`: distance and time since the previous tip state, if any.
  Out Next(const In& i, V dir, bool first, double dd, double dt) {
    size_t nd = 0, nt = 0; std::vector<Tgt> targets; std::vector<V> st;
    auto pop = [&] { V v = st.back(); st.pop_back(); return v; };
    for (auto& b : tip.behaviors) for (auto& node : b.nodes) {
      if (auto* n = std::get_if<BB::SourceNode>(&node)) {
        V v = Source(n->source, i, dir, w); if (v) v = OutOfRange(n->source_out_of_range_behavior, (*v - n->source_value_range[0]) / ((double)n->source_value_range[1] - n->source_value_range[0])); st.push_back(v);
      } else if (auto* n = std::get_if<BB::ConstantNode>(&node)) { st.push_back(n->value);
      } else if (auto* n = std::get_if<BB::FallbackFilterNode>(&node)) {
        bool has = n->is_fallback_for == BB::kPressure ? i.pressure.has_value() : n->is_fallback_for == BB::kTilt ? i.tilt.has_value() : n->is_fallback_for == BB::kOrientation ? i.ori.has_value() : i.tilt.has_value() && i.ori.has_value();
        if (has) st.back().reset();
      } else if (auto* n = std::get_if<BB::ToolTypeFilterNode>(&node)) {
        auto& e = n->enabled_tool_types; bool on = w.tool == StrokeInput::ToolType::kMouse ? e.mouse : w.tool == StrokeInput::ToolType::kTouch ? e.touch : w.tool == StrokeInput::ToolType::kStylus ? e.stylus : e.unknown;
        if (!on) st.back().reset();
      } else if (auto* n = std::get_if<BB::DampingNode>(&node)) {
        if (nd == damped.size()) damped.push_back({});
        V& d = damped[nd++]; V in = pop();
        if (in) {
          double gap = n->damping_gap, delta = n->damping_source == BB::DampingSource::kTimeInSeconds ? dt : n->damping_source == BB::DampingSource::kDistanceInMultiplesOfBrushSize ? dd / w.size : w.unit_cm ? dd * *w.unit_cm : 0;
          if (!d || gap == 0 || (n->damping_source == BB::DampingSource::kDistanceInCentimeters && !w.unit_cm) || first) d = in;
          else d = *in + (*d - *in) * std::exp(-std::max(delta, 0.0) / gap);
        }
        st.push_back(d);
      } else if (auto* n = std::get_if<BB::ResponseNode>(&node)) { if (st.back()) st.back() = Ease(n->response_curve, *st.back());
      } else if (auto* n = std::get_if<BB::BinaryOpNode>(&node)) {
        V b2 = pop(), a = pop(); st.push_back(!a || !b2 ? V() : Finite(n->operation == BB::BinaryOp::kSum ? *a + *b2 : *a * *b2));
      } else if (auto* n = std::get_if<BB::InterpolationNode>(&node)) {
        V e = pop(), s = pop(), p = pop(); V r;
        if (p && s && e) { if (n->interpolation == BB::Interpolation::kLerp) r = Finite(*s + (*e - *s) * *p); else if (*s != *e) r = Finite((*p - *s) / (*e - *s)); }
        st.push_back(r);
      } else if (auto* n = std::get_if<BB::TargetNode>(&node)) {
        V v = pop(); if (nt == modifiers.size()) modifiers.push_back({});
        if (v) modifiers[nt] = n->target_modifier_range[0] + ((double)n->target_modifier_range[1] - n->target_modifier_range[0]) * *v;
        ++nt; targets.push_back(n->target);
      }
    }
    double wm = 1, hm = 1, sl = 0, pi = 0, ro = 0, ra = 0, x = 0, y = 0, hue = 0, sat = 1, lum = 0, op = 1;
    for (size_t k = 0; k < targets.size(); ++k) {
      if (!modifiers[k]) continue;
      double m = *modifiers[k];
      switch (targets[k]) {
        case Tgt::kWidthMultiplier: wm *= m; break;
        case Tgt::kHeightMultiplier: hm *= m; break;
        case Tgt::kSizeMultiplier: wm *= m; hm *= m; break;
        case Tgt::kSlantOffsetInRadians: sl += m; break;
        case Tgt::kPinchOffset: pi += m; break;
        case Tgt::kRotationOffsetInRadians: ro += m; break;
        case Tgt::kCornerRoundingOffset: ra += m; break;
        case Tgt::kPositionOffsetXInMultiplesOfBrushSize: x += m * w.size; break;
        case Tgt::kPositionOffsetYInMultiplesOfBrushSize: y += m * w.size; break;
        case Tgt::kPositionOffsetForwardInMultiplesOfBrushSize: if (dir) { x += m * w.size * std::cos(*dir); y += m * w.size * std::sin(*dir); } break;
        case Tgt::kPositionOffsetLateralInMultiplesOfBrushSize: if (dir) { x -= m * w.size * std::sin(*dir); y += m * w.size * std::cos(*dir); } break;
        case Tgt::kHueOffsetInRadians: hue += m; break;
        case Tgt::kSaturationMultiplier: sat *= m; break;
        case Tgt::kLuminosity: lum += m; break;
        case Tgt::kOpacityMultiplier: op *= m; break;
      }
    }
    auto cl = [](double v, double lo, double hi) { return std::clamp(v, lo, hi); };
    return {i.px + x, i.py + y, w.size * tip.scale.x * cl(wm, 0, 2), w.size * tip.scale.y * cl(hm, 0, 2), cl(tip.corner_rounding + ra, 0, 1), tip.rotation.ValueInRadians() + ro, cl(tip.slant.ValueInRadians() + sl, -kPi / 2, kPi / 2), cl(tip.pinch + pi, 0, 1), hue / (2 * kPi), cl(sat, 0, 2), cl(lum, -1, 1), cl(tip.opacity_multiplier * op, 0, 2)};
  }
};
using Out = TipModel::Out;
constexpr Out kGap{0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1};
// All tip states for `in`, continuous or as particles, with how many come from the first `k` inputs.
struct Modeled { std::vector<Out> out; std::vector<bool> gap; std::vector<size_t> upto; bool near_tie = false; };
Modeled Model(const BrushTip& tip, const World& w, const std::vector<In>& in) {
  Modeled r; TipModel m(tip, w); double gd = tip.particle_gap_distance_scale * w.size, gt = tip.particle_gap_duration.ToSeconds(); bool cont = gd == 0 && gt == 0; double ld = 0, lt = 0; bool raw = true;  // raw: the last tip state was at an input, so ties are exact
  for (size_t k = 0; k < in.size(); ++k) {
    const In &a = in[k > 0 ? k - 1 : k], &b = in[k + 1 < in.size() ? k + 1 : k]; V dir; if (a.px != b.px || a.py != b.py) dir = std::atan2(b.py - a.py, b.px - a.px);
    if (cont || k == 0) {
      r.out.push_back(m.Next(in[k], dir, k == 0, k ? in[k].dist - in[k - 1].dist : 0, k ? in[k].time - in[k - 1].time : 0)); r.gap.push_back(false); ld = in[k].dist; lt = in[k].time;
      if (!cont) { r.out.push_back(kGap); r.gap.push_back(true); }
    } else {
      const In &p = in[k - 1], &q = in[k];
      while (r.out.size() < 500) {  // the next particle: as early as both gaps allow, and not before the previous input
        double s = 0; bool never = false;
        for (auto [from, to, last, gap] : {std::tuple{p.dist, q.dist, ld, gd}, std::tuple{p.time, q.time, lt, gt}}) {
          if (gap == 0) continue;
          if (last + gap > to) never = true;
          if (std::fabs(last + gap - to) < 1e-4 && (!raw || last + gap != to)) r.near_tie = true;
          if (last + gap > from) s = std::max(s, (last + gap - from) / (to - from));
        }
        if (never) break;
        In x = Mix(p, q, s); r.out.push_back(m.Next(x, dir, false, x.dist - ld, x.time - lt)); r.gap.push_back(false); ld = x.dist; lt = x.time; raw = gt == 0;
        r.out.push_back(kGap); r.gap.push_back(true);
      }
    }
    r.upto.push_back(r.out.size());
  }
  return r;
}
World MakeWorld(const MState& s, double size) {
  World w{s.total_real_distance, s.total_real_elapsed_time.ToSeconds(), s.complete_traveled_distance, s.complete_elapsed_time.ToSeconds(), {}, s.tool_type, size};
  if (s.stroke_unit_length) w.unit_cm = s.stroke_unit_length->ToCentimeters();
  return w;
}
bool Near(double a, double b) { return std::fabs(a - b) <= 2e-4 * std::max({1.0, std::fabs(a), std::fabs(b)}); }
bool NearMod(double a, double b, double m) { double d = Mod(a - b, m); return d < 3e-4 || m - d < 3e-4; }
std::string Wrong(const BrushTipState& s, const Out& o, bool gap) {
  std::ostringstream e; if (gap) { if (s.width != 0 || s.height != 0) e << "no break between particles: " << s.width << "x" << s.height; return e.str(); }
  auto f = [&](const char* n, double got, double want) { if (!Near(got, want)) e << n << " " << got << " should be " << want << "; "; };
  f("x", s.position.x, o.px); f("y", s.position.y, o.py); f("width", s.width, o.width); f("height", s.height, o.height); f("rounding", s.percent_radius, o.radius); f("slant", s.slant.ValueInRadians(), o.slant); f("pinch", s.pinch, o.pinch);
  f("saturation", s.saturation_multiplier, o.sat); f("luminosity", s.luminosity_shift, o.lum); f("opacity", s.opacity_multiplier, o.opac);
  if (!NearMod(s.rotation.ValueInRadians(), o.rot, 2 * kPi)) e << "rotation " << s.rotation.ValueInRadians() << " should be " << o.rot << "; ";
  if (!NearMod(s.hue_offset_in_full_turns, o.hue, 1) || !(s.hue_offset_in_full_turns >= 0 && s.hue_offset_in_full_turns < 1)) e << "hue " << s.hue_offset_in_full_turns << " should be " << o.hue << "; ";
  return e.str();
}
// ---- driving the modeler -----------------------------------------------------------------------------------------
MState StateFor(const std::vector<ModeledStrokeInput>& in, size_t stable, size_t real, float now, std::optional<PhysicalDistance> unit, StrokeInput::ToolType tool = StrokeInput::ToolType::kStylus) {
  MState s; s.tool_type = tool; s.stroke_unit_length = unit; s.stable_input_count = stable; s.real_input_count = real;
  s.complete_elapsed_time = std::max(in.back().elapsed_time, Duration32::Seconds(now)); s.complete_traveled_distance = in.back().traveled_distance;
  if (real > 0) { s.total_real_elapsed_time = in[real - 1].elapsed_time; s.total_real_distance = in[real - 1].traveled_distance; }
  return s;
}
std::vector<In> ReadAll(absl::Span<const ModeledStrokeInput> v) { std::vector<In> r; for (auto& m : v) r.push_back(Read(m)); return r; }
void CheckOnce(mc::Choices& c, const BrushTip& tip, float size, const MState& s, const std::vector<ModeledStrokeInput>& in) {
  BrushTipModeler m; m.StartStroke(&tip, size); m.UpdateStroke(s, in); Modeled want = Model(tip, MakeWorld(s, size), ReadAll(in)); c.op(1);
  std::vector<BrushTipState> got(m.NewFixedTipStates().begin(), m.NewFixedTipStates().end()); got.insert(got.end(), m.VolatileTipStates().begin(), m.VolatileTipStates().end());
  MC_EXPECT(c, got.size() == want.out.size(), "number-of-states", got.size() << " tip states instead of " << want.out.size() << " for " << brush_internal::ToFormattedString(tip));
  for (size_t i = 0; i < got.size() && i < want.out.size(); ++i) { std::string e = Wrong(got[i], want.out[i], want.gap[i]); MC_EXPECT(c, e.empty(), "tip-state", "state " << i << ": " << e << " for " << brush_internal::ToFormattedString(tip)); }
  c.eval(got.size()); if (!got.empty()) c.state(mc::Hash(got.back().position.x, got.back().position.y, got.back().width, got.back().opacity_multiplier));
}
ModeledStrokeInput MI(float x, float y, float dist, float sec, float p = -1, float tilt = -1, float ori = -1, Vec v = {0, 0}, Vec a = {0, 0}) {
  ModeledStrokeInput m; m.position = {x, y}; m.velocity = v; m.acceleration = a; m.traveled_distance = dist; m.elapsed_time = Duration32::Seconds(sec);
  m.pressure = p; m.tilt = tilt < 0 ? StrokeInput::kNoTilt : Angle::Radians(tilt); m.orientation = ori < 0 ? StrokeInput::kNoOrientation : Angle::Radians(ori); return m;
}
BB Simple(Src s, OOR o, std::array<float, 2> r, Tgt t, std::array<float, 2> tr) { return {.nodes = {BB::SourceNode{s, o, r}, BB::TargetNode{t, tr}}}; }
BB Const(float v, Tgt t, std::array<float, 2> tr = {0, 1}) { return {.nodes = {BB::ConstantNode{v}, BB::TargetNode{t, tr}}}; }
constexpr int kNumSources = (int)Src::kInputAccelerationLateralInCentimetersPerSecondSquared + 1, kNumTargets = (int)Tgt::kOpacityMultiplier + 1;
bool TimeSince(Src s) { return s == Src::kTimeSinceInputInSeconds || s == Src::kTimeSinceInputInMillis; }
}  // namespace

MC_SECTION(sources, "every source with every out-of-range rule over 7 value ranges, 3 inputs in a straight line or a turn or standing still, 4 velocities and accelerations, pressure, tilt and orientation each missing or with several values including zero, upright and flat, with and without a physical unit, 3 brush sizes, real or predicted, time moving on: the modifier applied is the documented value") {
  Src s = (Src)c.pick(kNumSources); OOR o = (OOR)c.pick(3); c.assume(!TimeSince(s) || o == OOR::kClamp);
  static const std::array<float, 2> kR[] = {{0, 1}, {1, 0}, {-2, 2}, {.5f, 3.25f}, {-.25f, -1.25f}, {100, 900}, {0, 7}}; auto r = kR[c.pick(7)]; float size = c.of({1.f, .5f, 8.f});
  static const Vec kV[] = {{0, 0}, {3, 0}, {-1, 2}, {0, -.5f}}; int path = c.pick(4);
  static const float kP[4][3][3] = {{{0, 0, 0}, {1, 0, 1}, {2, 0, 2}}, {{0, 0, 0}, {-1, 2, 2.25f}, {-3, 1, 4.5f}}, {{2, 1, 0}, {2, 1, 0}, {2, -1, 2}}, {{0, 0, 0}, {-2, 0, 2}, {-1, -1, 3.5f}}};
  int group = (s <= Src::kOrientationAboutZeroInRadians) ? 0 : 1; float p = -1, tilt = -1, ori = -1; Vec v{1, 0}, a{0, 0};
  if (group == 0) { p = c.of({-1.f, 0.f, .3f, 1.f}); tilt = c.of({-1.f, 0.f, .7f, 1.2f, kHalfPiF}); ori = c.of({-1.f, 0.f, 1.f, 2.75f, 4.f, 6.f}); } else { v = kV[c.pick(4)]; a = kV[c.pick(4)]; }
  std::vector<ModeledStrokeInput> in; for (int k = 0; k < 3; ++k) in.push_back(MI(kP[path][k][0], kP[path][k][1], kP[path][k][2], .375f * k, p, tilt, ori, v, a));
  int real = 1 + c.pick(3); float now = c.of({0.f, 1.f, 3.f}); auto unit = c.flag() ? std::optional<PhysicalDistance>(PhysicalDistance::Centimeters(.25f)) : std::nullopt;
  BrushTip tip; tip.behaviors = {Simple(s, o, r, c.of({Tgt::kPositionOffsetXInMultiplesOfBrushSize, Tgt::kLuminosity}), {.25f, .75f})};
  MState st = StateFor(in, 0, real, now, unit); if (!brush_internal::ValidateBrushTip(tip).ok()) { c.fail("rejected", "the tip is not valid"); return; }
  // Stay off the places where a rounding error would be a whole period.
  World w = MakeWorld(st, size); std::vector<In> ins = ReadAll(in); bool edge = false;
  for (size_t k = 0; k < 3; ++k) { const In &x = ins[k ? k - 1 : 0], &y = ins[k < 2 ? k + 1 : 2]; V dir; if (x.px != y.px || x.py != y.py) dir = std::atan2(y.py - x.py, y.px - x.px); V val = Source(s, ins[k], dir, w); if (val) { double u = (*val - r[0]) / (r[1] - r[0]), d = std::fabs(u - std::round(u)); if (o == OOR::kRepeat && d < 1e-4 && (d != 0 || (s <= Src::kOrientationAboutZeroInRadians && s != Src::kNormalizedPressure && s != Src::kTiltInRadians) || s == Src::kTimeOfInputInMillis || s == Src::kPredictedTimeElapsedInMillis)) edge = true; } }
  c.assume(!edge);
  CheckOnce(c, tip, size, st, in);
}
MC_SECTION(repeat_edge, "repeating ranges at values just below, on and just above a multiple of the range, down to the smallest steps: the range is half-open, its end is taken as its start, and mirrored ranges have no jump") {
  OOR o = c.flag() ? OOR::kRepeat : OOR::kMirror; static const std::array<float, 2> kR[] = {{0, 1}, {1, 2}, {-1, 3}, {2, 1}, {0, .5f}}; auto r = kR[c.pick(5)]; int k = c.pick(9) - 4; float v = r[0] + k * (r[1] - r[0]);
  float step = c.of({0.f, FLT_MIN, 1e-30f, 1e-12f, 1e-8f, 1e-7f, 1e-5f}); v += c.flag() ? step : -step; c.assume(v >= -4);
  BrushTip tip; tip.behaviors = {Simple(Src::kVelocityXInMultiplesOfBrushSizePerSecond, o, r, Tgt::kPositionOffsetXInMultiplesOfBrushSize, {0, 1})};
  std::vector<ModeledStrokeInput> in{MI(0, 0, 0, 0, -1, -1, -1, {v, 0})}; BrushTipModeler m; m.StartStroke(&tip, 1); m.UpdateStroke(StateFor(in, 0, 1, 0, {}), in); float got = m.VolatileTipStates()[0].position.x; c.op(1); c.eval(2);
  double u = ((double)v - r[0]) / ((double)r[1] - r[0]), want = OutOfRange(o, u);
  if (o == OOR::kRepeat) { MC_EXPECT(c, got >= 0 && got < 1, "half-open", "value " << v << " of range " << r[0] << ".." << r[1] << " maps to " << got); MC_EXPECT(c, NearMod(got, want, 1), "tip-state", v << ": " << got << " should be " << want); if (u == std::floor(u)) MC_EXPECT(c, got == 0, "end-is-start", v << " maps to " << got); }
  else MC_EXPECT(c, Near(got, want) && got >= 0 && got <= 1, "tip-state", v << ": " << got << " should be " << want);
}
namespace {
using Nodes = std::vector<BB::Node>;
const std::vector<BB::Node>& Leaves() {
  static const std::vector<BB::Node> v = {BB::SourceNode{Src::kNormalizedPressure, OOR::kClamp, {0, 1}}, BB::SourceNode{Src::kTiltInRadians, OOR::kMirror, {.25f, 1.25f}}, BB::ConstantNode{.5f}, BB::ConstantNode{-2}, BB::ConstantNode{1e30f}};
  return v;
}
const std::vector<BB::Node>& Unary() {
  using D = BB::DampingSource;
  static const std::vector<BB::Node> v = {BB::FallbackFilterNode{BB::kPressure}, BB::FallbackFilterNode{BB::kTiltXAndY}, BB::ToolTypeFilterNode{{.touch = true}}, BB::DampingNode{D::kDistanceInCentimeters, 1}, BB::DampingNode{D::kDistanceInMultiplesOfBrushSize, .5f}, BB::DampingNode{D::kTimeInSeconds, .25f},
                                          BB::DampingNode{D::kTimeInSeconds, 0}, BB::ResponseNode{{EasingFunction::Steps{2, EasingFunction::StepPosition::kJumpEnd}}}, BB::ResponseNode{{EasingFunction::Linear{{{.25f, .75f}, {.5f, 2}}}}}, BB::ToolTypeFilterNode{{.unknown = true, .mouse = true, .stylus = true}}, BB::FallbackFilterNode{BB::kTilt}, BB::FallbackFilterNode{BB::kOrientation}};
  return v;
}
void Unaries(mc::Choices& c, Nodes& n, int upto) { int k = c.pick(upto + 1); if (k) n.push_back(Unary()[k - 1]); }
void RunNodes(mc::Choices& c, const Nodes& nodes, int tools) {
  BrushTip tip; tip.behaviors = {BB{nodes}}; tip.behaviors[0].nodes.push_back(BB::TargetNode{Tgt::kPositionOffsetXInMultiplesOfBrushSize, {1, 3}});
  // 1e30 is for overflows inside the graph only.
  std::vector<ModeledStrokeInput> in; static const float kP[] = {-1, 0, .25f, 1}, kT[] = {-1, 1}; float ori = c.of({-1.f, 2.f});
  static const float kD[2][3] = {{0, .5f, 2}, {0, 0, 1}}, kS[2][3] = {{0, .125f, .5f}, {0, .25f, .25f}}; int t = c.pick(2);
  for (int k = 0; k < 3; ++k) { float p = kP[c.pick(mc::tier(3, 4))], tl = kT[c.pick(2)]; in.push_back(MI(k, 0, kD[t][k], kS[t][k], p, tl, ori)); }
  auto unit = c.flag() ? std::optional<PhysicalDistance>(PhysicalDistance::Centimeters(.5f)) : std::nullopt; auto tool = tools == 1 ? StrokeInput::ToolType::kTouch : c.of({StrokeInput::ToolType::kTouch, StrokeInput::ToolType::kUnknown, StrokeInput::ToolType::kMouse, StrokeInput::ToolType::kStylus});
  MState st = StateFor(in, 0, 3, 0, unit, tool); CheckOnce(c, tip, 2, st, in);
}
bool Huge(const BB::Node& n) { auto* k = std::get_if<BB::ConstantNode>(&n); return k && k->value > 1e20f; }
}  // namespace
MC_SECTION(chains, "every leaf followed by up to 2 (thorough 3) of 12 filters, dampings and responses over histories of 3 inputs with pressure and tilt coming and going, with and without units, all tool types: null and damped values and the target's memory are as documented") {
  Nodes n; n.push_back(Leaves()[c.pick(4)]); Unaries(c, n, 12); Unaries(c, n, 12); if (mc::thorough()) Unaries(c, n, 12);
  RunNodes(c, n, 4);
}
MC_SECTION(graphs, "sums and products of two leaves and interpolations of three, each behind a filter, damping or response, optionally with one more on top, over the same histories: null if an input is null, if the result overflows, or if the range to inverse-interpolate is empty") {
  Nodes n; int kind = c.pick(4), leaves = kind < 2 ? 2 : 3; bool huge = false;
  for (int k = 0; k < leaves; ++k) { n.push_back(Leaves()[c.pick(5)]); huge |= Huge(n.back()); if (kind < 2 || (mc::thorough() && k == 0)) Unaries(c, n, mc::tier(4, 8)); }
  if (kind < 2) n.push_back(BB::BinaryOpNode{kind ? BB::BinaryOp::kSum : BB::BinaryOp::kProduct}); else n.push_back(BB::InterpolationNode{kind == 2 ? BB::Interpolation::kLerp : BB::Interpolation::kInverseLerp});
  if (!huge) { int k = c.pick(mc::tier(3, 7)); if (k) n.push_back(Unary()[k + 2]); }
  RunNodes(c, n, 1);
}
MC_SECTION(targets, "every ordered triple of the 15 targets with modifiers below, in and beyond their range, 3 base tips, travelling straight or turning or standing still: modifiers of one target stack as documented whatever their order, results are clamped or wrapped, everything else is the tip's own") {
  BrushTip tip; int base = c.pick(3); if (base) { tip.scale = base == 1 ? Vec{.5f, 2} : Vec{1, 0}; tip.corner_rounding = .25f; tip.slant = Angle::Radians(base == 1 ? -.5f : 1.5f); tip.pinch = .75f; tip.rotation = Angle::Radians(base == 1 ? 2 : -1); tip.opacity_multiplier = base == 1 ? .5f : 2; }
  static const float kM[] = {0, .5f, -.75f, 3, 1, -7, 2, -1}; int n = 1 + c.pick(3);
  for (int k = 0; k < n; ++k) { Tgt t = (Tgt)c.pick(kNumTargets); tip.behaviors.push_back(Const(kM[c.pick(n == 3 ? mc::tier(3, 5) : 8)], t)); }
  int path = c.pick(3); static const float kP[3][3][2] = {{{0, 0}, {1, 0}, {2, 0}}, {{0, 0}, {1, 1}, {0, 3}}, {{1, 2}, {1, 2}, {1, 2}}};
  std::vector<ModeledStrokeInput> in; for (int k = 0; k < 3; ++k) in.push_back(MI(kP[path][k][0], kP[path][k][1], path == 2 ? 0 : k, .25f * k));
  CheckOnce(c, tip, c.of({2.f, .5f}), StateFor(in, 1, 3, 0, {}), in);
}
MC_SECTION(extremes, "one source or constant of extreme size, through one operator, to every target with ordinary and extreme ranges: nothing aborts, and every tip state is finite and inside the documented ranges") {
  Nodes n; float v = c.of({0.f, -0.f, FLT_MIN, 1e-30f, 1e20f, 1e30f, FLT_MAX}); if (c.flag()) v = -v;
  int leaf = c.pick(3); OOR o = (OOR)c.pick(3); float size = c.of({1.f, .001f}); if (leaf == 0) n.push_back(BB::ConstantNode{v}); else n.push_back(BB::SourceNode{leaf == 1 ? Src::kVelocityXInMultiplesOfBrushSizePerSecond : Src::kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared, o, c.flag() ? std::array<float, 2>{0, 1} : std::array<float, 2>{-1e-30f, 1e-30f}});
  int op = c.pick(8); if (op == 1 || op == 2) { n.push_back(BB::ConstantNode{1e20f}); n.push_back(BB::BinaryOpNode{op == 1 ? BB::BinaryOp::kSum : BB::BinaryOp::kProduct}); }
  if (op == 3 || op == 4) { n.push_back(BB::ConstantNode{-1e20f}); n.push_back(BB::ConstantNode{1e20f}); n.push_back(BB::InterpolationNode{op == 3 ? BB::Interpolation::kLerp : BB::Interpolation::kInverseLerp}); }
  if (op == 5) n.push_back(BB::DampingNode{BB::DampingSource::kTimeInSeconds, 1e-30f});
  if (op == 6) n.push_back(BB::ResponseNode{{EasingFunction::Predefined::kEaseInOut}});
  if (op == 7) n.push_back(BB::ResponseNode{{EasingFunction::Linear{{{.5f, 1e20f}}}}});
  Tgt t = (Tgt)c.pick(kNumTargets); n.push_back(BB::TargetNode{t, c.flag() ? std::array<float, 2>{0, 1} : std::array<float, 2>{-10, 1e10f}});
  BrushTip tip; tip.behaviors = {BB{n}}; c.assume(brush_internal::ValidateBrushTip(tip).ok());
  std::vector<ModeledStrokeInput> in; for (int k = 0; k < 3; ++k) in.push_back(MI(k, 0, k, .25f * k, -1, -1, -1, {k == 1 ? v : 1, 0}, {k == 2 ? v : 0, 1}));
  BrushTipModeler m; m.StartStroke(&tip, size); c.op(1); m.UpdateStroke(StateFor(in, 1, 3, 0, {}), in);
  std::vector<BrushTipState> got(m.NewFixedTipStates().begin(), m.NewFixedTipStates().end()); got.insert(got.end(), m.VolatileTipStates().begin(), m.VolatileTipStates().end());
  MC_EXPECT(c, got.size() == 3, "number-of-states", got.size());
  for (auto& s : got) {
    auto in01 = [](float x, float lo, float hi) { return x >= lo && x <= hi; };
    bool ok = std::isfinite(s.position.x) && std::isfinite(s.position.y) && in01(s.width, 0, 2 * size) && in01(s.height, 0, 2 * size) && in01(s.percent_radius, 0, 1) && std::isfinite(s.rotation.ValueInRadians()) && in01(s.slant.ValueInRadians(), -1.5708f, 1.5708f) && in01(s.pinch, 0, 1) && s.hue_offset_in_full_turns >= 0 && s.hue_offset_in_full_turns < 1 && in01(s.saturation_multiplier, 0, 2) && in01(s.luminosity_shift, -1, 1) && in01(s.opacity_multiplier, 0, 2);
    MC_EXPECT(c, ok, "out-of-range", "at " << s.position.x << "," << s.position.y << " " << s.width << "x" << s.height << " rot " << s.rotation.ValueInRadians() << " slant " << s.slant.ValueInRadians() << " hue " << s.hue_offset_in_full_turns << " sat " << s.saturation_multiplier << " for " << brush_internal::ToFormattedString(tip));
  }
  c.eval(3);
}
MC_SECTION(particles, "tips that emit particles by distance, time or both (5 gaps each), over every history of 3 (thorough 4) inputs 0 to 4 apart in distance and time, with no, pressure, tilt, orientation, speed, progress, damped or direction behaviors, the optional properties present or missing: one particle at the first input, then one as soon as both gaps have passed, each made from the interpolated input, each followed by a break") {
  BrushTip tip; tip.particle_gap_distance_scale = c.of({0.f, .25f, 1.f, 1.5f, 8.f}); tip.particle_gap_duration = Duration32::Seconds(c.of({0.f, .25f, .5f, 1.25f, 8.f})); c.assume(tip.particle_gap_distance_scale > 0 || tip.particle_gap_duration.ToSeconds() > 0);
  auto add = [&](BB b) { tip.behaviors.push_back(b); }; Tgt x = Tgt::kPositionOffsetYInMultiplesOfBrushSize;
  switch (c.pick(12)) {
    case 0: break;
    case 1: add(Simple(Src::kNormalizedPressure, OOR::kClamp, {0, 1}, x, {1, 2})); break;
    case 2: add(Simple(Src::kTiltInRadians, OOR::kClamp, {0, 1.5f}, x, {1, 2})); break;
    case 3: add(Simple(Src::kOrientationInRadians, OOR::kMirror, {0, 1}, x, {1, 2})); break;
    case 4: add(Simple(Src::kSpeedInMultiplesOfBrushSizePerSecond, OOR::kMirror, {0, 3}, x, {1, 2})); break;
    case 5: add(Simple(Src::kDistanceTraveledInMultiplesOfBrushSize, OOR::kMirror, {0, 3}, x, {1, 2})); break;
    case 6: add({.nodes = {BB::SourceNode{Src::kNormalizedPressure, OOR::kClamp, {0, 1}}, BB::DampingNode{BB::DampingSource::kDistanceInMultiplesOfBrushSize, 1}, BB::TargetNode{x, {0, 4}}}}); break;
    case 7: add({.nodes = {BB::SourceNode{Src::kTimeOfInputInSeconds, OOR::kMirror, {0, 1}}, BB::DampingNode{BB::DampingSource::kTimeInSeconds, .5f}, BB::TargetNode{x, {0, 4}}}}); break;
    case 8: for (auto p : {BB::kPressure, BB::kTilt, BB::kOrientation}) add({.nodes = {BB::ConstantNode{1}, BB::FallbackFilterNode{p}, BB::TargetNode{p == BB::kPressure ? Tgt::kPinchOffset : p == BB::kTilt ? Tgt::kLuminosity : Tgt::kOpacityMultiplier, {0, .5f}}}}); break;
    case 9: add(Simple(Src::kAccelerationXInMultiplesOfBrushSizePerSecondSquared, OOR::kMirror, {0, 3}, x, {1, 2})); break;
    case 10: add(Const(1, Tgt::kPositionOffsetForwardInMultiplesOfBrushSize, {0, .5f})); break;
    case 11: add(Simple(Src::kTimeSinceInputInSeconds, OOR::kClamp, {0, 4}, x, {1, 2})); break;
  }
  bool has = c.flag(); static const float kPr[] = {0, 1, .5f, .25f}, kTi[] = {.1f, 1.3f, .7f, .2f}, kOr[] = {.5f, 6.f, 2.f, 3.f}; static const Vec kVel[] = {{0, 0}, {4, 0}, {1, 2}, {-2, 0}};
  std::vector<ModeledStrokeInput> in; float d = 0, t = 0; int n = mc::tier(3, 4);
  for (int k = 0; k < n; ++k) { if (k) { d += c.of({0.f, .5f, 1.f, 4.f}); t += c.of({0.f, .25f, 2.f}); } in.push_back(MI(d, 0, d, t, has ? kPr[k] : -1, has ? kTi[k] : -1, has ? kOr[k] : -1, kVel[k], kVel[(k + 1) % 4])); }
  MState st = StateFor(in, c.pick(2) * (n - 1), n, 0, {}); c.assume(!Model(tip, MakeWorld(st, 1), ReadAll(in)).near_tie);
  CheckOnce(c, tip, 1, st, in);
}
namespace {
const std::vector<BrushTip>& Tips() {
  static const std::vector<BrushTip> v = [] {
    std::vector<BrushTip> t; auto add = [&](std::vector<BB> b, float gd = 0, float gt = 0) { BrushTip x; x.behaviors = b; x.particle_gap_distance_scale = gd; x.particle_gap_duration = Duration32::Seconds(gt); t.push_back(x); };
    Tgt y = Tgt::kPositionOffsetYInMultiplesOfBrushSize; using D = BB::DampingSource;
    add({}); add({Simple(Src::kNormalizedPressure, OOR::kClamp, {0, 1}, Tgt::kSizeMultiplier, {.5f, 1.5f})}); add({Simple(Src::kDirectionInRadians, OOR::kClamp, {0, 7}, Tgt::kRotationOffsetInRadians, {0, 7})}); add({Simple(Src::kNormalizedDirectionY, OOR::kClamp, {-1, 1}, y, {0, 1})});
    add({Const(1, Tgt::kPositionOffsetForwardInMultiplesOfBrushSize)}); add({Const(1, Tgt::kPositionOffsetLateralInMultiplesOfBrushSize)}); add({Simple(Src::kDistanceRemainingInMultiplesOfBrushSize, OOR::kClamp, {0, 2}, Tgt::kSizeMultiplier, {0, 1})}); add({Simple(Src::kDistanceRemainingInMultiplesOfBrushSize, OOR::kClamp, {1.75f, -1}, y, {0, 1})});
    add({Simple(Src::kDistanceRemainingInMultiplesOfBrushSize, OOR::kMirror, {0, 2}, y, {0, 1})}); add({Simple(Src::kTimeSinceInputInSeconds, OOR::kClamp, {0, 1}, Tgt::kOpacityMultiplier, {1, 0})}); add({Simple(Src::kTimeSinceInputInMillis, OOR::kClamp, {900, 300}, Tgt::kOpacityMultiplier, {1, 0})});
    add({Simple(Src::kPredictedDistanceTraveledInMultiplesOfBrushSize, OOR::kClamp, {0, 2}, y, {0, 1})}); add({Simple(Src::kPredictedTimeElapsedInSeconds, OOR::kMirror, {0, 1}, y, {0, 1})}); add({{.nodes = {BB::SourceNode{Src::kNormalizedPressure, OOR::kClamp, {0, 1}}, BB::DampingNode{D::kTimeInSeconds, .5f}, BB::TargetNode{y, {0, 4}}}}});
    add({{.nodes = {BB::SourceNode{Src::kDistanceRemainingInMultiplesOfBrushSize, OOR::kClamp, {0, 2}}, BB::DampingNode{D::kDistanceInMultiplesOfBrushSize, 2}, BB::TargetNode{y, {0, 4}}}}});
    add({{.nodes = {BB::SourceNode{Src::kNormalizedPressure, OOR::kClamp, {0, 1}}, BB::ConstantNode{.25f}, BB::ConstantNode{.75f}, BB::InterpolationNode{BB::Interpolation::kInverseLerp}, BB::TargetNode{Tgt::kPinchOffset, {0, 1}}}}, Simple(Src::kDirectionAboutZeroInRadians, OOR::kClamp, {-4, 4}, y, {0, 1})});
    add({Simple(Src::kNormalizedPressure, OOR::kClamp, {0, 1}, y, {0, 1})}, .75f); add({Simple(Src::kNormalizedPressure, OOR::kClamp, {0, 1}, y, {0, 1})}, 0, .4f); add({Const(1, Tgt::kPositionOffsetLateralInMultiplesOfBrushSize)}, 1.5f, .3f);
    add({Simple(Src::kTimeSinceInputInSeconds, OOR::kClamp, {0, .5f}, Tgt::kOpacityMultiplier, {1, 0}), Simple(Src::kDistanceRemainingInMultiplesOfBrushSize, OOR::kClamp, {0, 1}, y, {0, 1})}); add({Simple(Src::kDistanceRemainingInMultiplesOfBrushSize, OOR::kClamp, {0, 2}, y, {0, 1})}, .6f);
    add({{.nodes = {BB::SourceNode{Src::kNormalizedPressure, OOR::kClamp, {0, 1}}, BB::DampingNode{D::kDistanceInMultiplesOfBrushSize, 2}, BB::TargetNode{y, {0, 4}}}}}, .6f); add({Simple(Src::kNormalizedDirectionX, OOR::kClamp, {-1, 1}, Tgt::kHueOffsetInRadians, {0, 1})}, 0, .3f);
    add({Simple(Src::kTimeSinceInputInSeconds, OOR::kClamp, {0, .5f}, Tgt::kOpacityMultiplier, {1, 0}), Simple(Src::kTimeSinceInputInMillis, OOR::kClamp, {0, 1500}, y, {0, 1})});
    return t;
  }();
  return v;
}
// What a tip state may depend on, from its sources and targets.
bool UsesNext(const BrushTip& t) { for (auto& b : t.behaviors) for (auto& n : b.nodes) { if (auto* s = std::get_if<BB::SourceNode>(&n)) if (s->source >= Src::kDirectionInRadians && s->source <= Src::kNormalizedDirectionY) return true; if (auto* g = std::get_if<BB::TargetNode>(&n)) if (g->target == Tgt::kPositionOffsetForwardInMultiplesOfBrushSize || g->target == Tgt::kPositionOffsetLateralInMultiplesOfBrushSize) return true; } return false; }
bool UsesEnd(const BrushTip& t) { for (auto& b : t.behaviors) for (auto& n : b.nodes) if (auto* s = std::get_if<BB::SourceNode>(&n)) if (TimeSince(s->source) || s->source == Src::kDistanceRemainingInMultiplesOfBrushSize) return true; return false; }
bool UsesTime(const BrushTip& t) { for (auto& b : t.behaviors) for (auto& n : b.nodes) if (auto* s = std::get_if<BB::SourceNode>(&n)) if (TimeSince(s->source)) return true; return false; }
void CheckFixed(mc::Choices& c, const char* key, const std::vector<BrushTipState>& got, const Modeled& want, const BrushTip& tip) {
  MC_EXPECT(c, got.size() <= want.out.size(), key, got.size() << " states but " << want.out.size() << " expected for " << brush_internal::ToFormattedString(tip));
  for (size_t i = 0; i < got.size() && i < want.out.size(); ++i) { std::string e = Wrong(got[i], want.out[i], want.gap[i]); MC_EXPECT(c, e.empty(), key, "state " << i << ": " << e << " for " << brush_internal::ToFormattedString(tip)); }
}
}  // namespace
MC_SECTION(histories, "all histories of 3 (thorough 4) updates in which stable, unstable and predicted inputs of two paths grow to 6 and unstable ones are replaced, with time moving on, for 24 tips: after every update the fixed states so far and the volatile ones are exactly what the whole input would give, so no fixed state is ever outdated, everything that can be fixed is, and behaviors said to be finished in time no longer change with time") {
  int ti = c.pick(Tips().size()); const BrushTip& tip = Tips()[ti]; int path = c.pick(2); BrushTipModeler m;
  if (c.flag()) { static const BrushTip other = Tips()[13]; m.StartStroke(&other, 3); std::vector<ModeledStrokeInput> x{MI(0, 0, 0, 0, 1), MI(1, 1, 2, 1, 0)}; m.UpdateStroke(StateFor(x, 1, 2, 0, {}), x); }
  m.StartStroke(&tip, 1);
  auto input = [&](size_t i, int version) {
    static const float kP[2][6][2] = {{{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0, 2}, {1, 3}}, {{0, 0}, {.5f, .5f}, {1, .25f}, {1.75f, 0}, {1.75f, -1}, {3, -1}}}; static const float kD[2][6] = {{0, 1, 2, 3, 4, 5.5f}, {0, .75f, 1.25f, 2.1f, 3.1f, 4.35f}}; static const float kPr[] = {.2f, .9f, -1, .4f, .6f, 1};
    float x = kP[path][i][0], y = kP[path][i][1], d = kD[path][i], t = .23f * i, p = path ? -1 + (i + 2) * .2f : kPr[i]; if (path) p = std::max(p, 0.f);
    if (version) { x += .3f; y -= .6f; d += .17f * version; t += .07f * version; p = p < 0 ? p : 1 - p; }
    return MI(x, y, d, t, (tip.particle_gap_distance_scale > 0 || tip.particle_gap_duration.ToSeconds() > 0) && p < 0 ? .5f : p, .5f, 1, {1, 0}, {0, 1});
  };
  size_t stable = 0, real = 0, fixed_inputs = 0; std::vector<BrushTipState> fixed; float now = 0; int updates = mc::tier(3, 4);
  for (int u = 0; u < updates; ++u) {
    stable += c.pick(3); if (stable > 5) return; real = std::max(real, stable + 1); size_t n = real + (c.flag() ? 1 : 0); if (u + 1 < updates && c.flag()) { ++real; n = std::max(n, real); } if (n > 6) return;
    int version = c.pick(2); if (c.flag()) now += .55f;
    std::vector<ModeledStrokeInput> in; for (size_t i = 0; i < n; ++i) in.push_back(input(i, i < stable ? 0 : version));
    now = std::max(now, in.back().elapsed_time.ToSeconds() - .1f);
    MState st = StateFor(in, stable, real, now, PhysicalDistance::Centimeters(.5f)); m.UpdateStroke(st, in); c.op(1);
    Modeled want = Model(tip, MakeWorld(st, 1), ReadAll(in)); if (want.near_tie) return;
    fixed.insert(fixed.end(), m.NewFixedTipStates().begin(), m.NewFixedTipStates().end());
    CheckFixed(c, "fixed-changed", fixed, want, tip);
    std::vector<BrushTipState> all = fixed; all.insert(all.end(), m.VolatileTipStates().begin(), m.VolatileTipStates().end());
    MC_EXPECT(c, all.size() == want.out.size(), "number-of-states", all.size() << " of " << want.out.size()); CheckFixed(c, "tip-state", all, want, tip);
    MC_EXPECT(c, fixed.size() <= (stable ? want.upto[stable - 1] : 0), "fixed-from-unstable", fixed.size() << " fixed states with " << stable << " stable inputs");
    if (!UsesNext(tip) && !UsesEnd(tip)) MC_EXPECT(c, fixed.size() == (stable ? want.upto[stable - 1] : 0), "not-fixed", fixed.size() << " fixed states with " << stable << " stable inputs");
    bool unfinished = m.HasUnfinishedTimeBehaviors(st);
    if (!UsesTime(tip)) MC_EXPECT(c, !unfinished, "unfinished", "a tip without time behaviors is unfinished");
    else if (real == n) {
      MState later = st; later.complete_elapsed_time = st.complete_elapsed_time + Duration32::Seconds(.8f); Modeled l = Model(tip, MakeWorld(later, 1), ReadAll(in)); bool change = false;
      for (size_t i = 0; i < want.out.size(); ++i) change |= std::fabs(want.out[i].opac - l.out[i].opac) > 1e-3 || std::fabs(want.out[i].py - l.out[i].py) > 1e-3;
      if (change) MC_EXPECT(c, unfinished, "finished-too-early", "the states still change with time");
      MState end = st; end.complete_elapsed_time = end.total_real_elapsed_time + Duration32::Seconds(1.75f); MC_EXPECT(c, !m.HasUnfinishedTimeBehaviors(end), "never-finished", "unfinished after all ranges have passed"); c.eval(2);
    }
    c.eval(4); c.state(mc::Hash(ti, stable, real, n, version, fixed.size())); (void)fixed_inputs;
  }
}
MC_SECTION(modeled, "the tip modeler behind the real input modeler: histories of up to 5 raw inputs on a small grid with 0 to 2 of them predicted at every step, both input models, for 24 tips: fixed and volatile states are those of the documented behaviors applied to the modeled inputs") {
  int ti = c.pick(Tips().size()); const BrushTip& tip = Tips()[ti]; BrushFamily::InputModel im = c.flag() ? BrushFamily::InputModel(BrushFamily::SpringModelV1{}) : BrushFamily::InputModel(BrushFamily::SpringModelV2{});
  StrokeInputModeler sm; sm.StartStroke(im, .01f); BrushTipModeler m; m.StartStroke(&tip, 1); std::vector<BrushTipState> fixed; int turn = c.pick(mc::tier(2, 4));
  static const float kP[4][7][2] = {{{0, 0}, {1, 0}, {2, 0}, {2, 1}, {1, 2}, {1, 2}, {0, 2}}, {{0, 0}, {0, 0}, {1.5f, .5f}, {0, 0}, {2, 2}, {3, 2}, {3, 4}}, {{1, 1}, {0, 1}, {-1, 0}, {-2, 2}, {0, 3}, {4, 4}, {4, 0}}, {{0, 0}, {.1f, 0}, {.2f, .1f}, {.3f, 0}, {.3f, .4f}, {1, 1}, {2, 1}}};
  auto raw = [&](int i) { return StrokeInput{.tool_type = StrokeInput::ToolType::kStylus, .position = {kP[turn][i][0], kP[turn][i][1]}, .elapsed_time = Duration32::Seconds(.11f * i), .stroke_unit_length = PhysicalDistance::Centimeters(.5f), .pressure = .1f + .13f * i, .tilt = Angle::Radians(.2f + .1f * i), .orientation = Angle::Radians(i)}; };
  int done = 0; for (int u = 0; u < 3 && done < 5; ++u) {
    int add = c.pick(3), pred = c.pick(3); if (done + add == 0) { c.assume(u > 0); } if (done + add > 5) return;
    StrokeInputBatch r, p; for (int k = 0; k < add; ++k) { auto s = r.Append(raw(done + k)); if (!s.ok()) { c.fail("append", s.ToString()); return; } }
    done += add; for (int k = 0; k < pred; ++k) { auto s = p.Append(raw(done + k)); if (!s.ok()) { c.fail("append", s.ToString()); return; } }
    sm.ExtendStroke(r, p, Duration32::Seconds(.11f * (done + (c.flag() ? 6 : 0)))); c.op(1); if (sm.GetModeledInputs().empty()) { m.UpdateStroke(sm.GetState(), sm.GetModeledInputs()); continue; }
    m.UpdateStroke(sm.GetState(), sm.GetModeledInputs()); Modeled want = Model(tip, MakeWorld(sm.GetState(), 1), ReadAll(sm.GetModeledInputs())); if (want.near_tie) return;
    fixed.insert(fixed.end(), m.NewFixedTipStates().begin(), m.NewFixedTipStates().end()); CheckFixed(c, "fixed-changed", fixed, want, tip);
    std::vector<BrushTipState> all = fixed; all.insert(all.end(), m.VolatileTipStates().begin(), m.VolatileTipStates().end());
    MC_EXPECT(c, all.size() == want.out.size(), "number-of-states", all.size() << " of " << want.out.size()); CheckFixed(c, "tip-state", all, want, tip); c.eval(2); c.state(mc::Hash(ti, done, pred, all.size()));
  }
}
MC_MAIN()
