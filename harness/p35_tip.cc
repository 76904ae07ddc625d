// P35: what counts as a valid brush tip, behavior and easing function.
#include <numbers>
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_tip.h"
#include "ink/brush/easing_function.h"
#include "util.h"
using ink::Angle; using ink::BrushBehavior; using ink::BrushTip; using ink::Duration32; using ink::EasingFunction; using ink::Point; using ink::Vec;
using BB = BrushBehavior; using EF = EasingFunction;
namespace {
std::string Str(const auto& x) { return absl::StrCat(x); }
bool Ok(const EF& f) { auto s = ink::brush_internal::ValidateEasingFunction(f); if (!s.ok() && s.code() != absl::StatusCode::kInvalidArgument) return false; return s.ok(); }
bool Ok(const BB::Node& n) { return ink::brush_internal::ValidateBrushBehaviorNode(n).ok(); }
bool Ok(const BB& b) { return ink::brush_internal::ValidateBrushBehavior(b).ok(); }
bool Ok(const BrushTip& t) { return ink::brush_internal::ValidateBrushTip(t).ok(); }
constexpr int kSources = int(BB::Source::kInputAccelerationLateralInCentimetersPerSecondSquared) + 1, kTargets = int(BB::Target::kOpacityMultiplier) + 1;
// Valid nodes, one or more of each kind, all different; arity and outputs by kind.
struct Kind { int in, out; };
struct Entry { BB::Node node; int in, out; };
const std::vector<Entry>& Nodes() {
  static const std::vector<Entry> v = {
      {BB::SourceNode{BB::Source::kNormalizedPressure, BB::OutOfRange::kClamp, {0, 1}}, 0, 1}, {BB::ConstantNode{2}, 0, 1}, {BB::FallbackFilterNode{BB::kPressure}, 1, 1},
      {BB::ToolTypeFilterNode{{.touch = true}}, 1, 1}, {BB::DampingNode{BB::DampingSource::kTimeInSeconds, 0.25f}, 1, 1}, {BB::ResponseNode{{EF::Predefined::kEase}}, 1, 1},
      {BB::BinaryOpNode{BB::BinaryOp::kSum}, 2, 1}, {BB::InterpolationNode{BB::Interpolation::kLerp}, 3, 1}, {BB::TargetNode{BB::Target::kSizeMultiplier, {0.5f, 2}}, 1, 0}};
  return v;
}
// Invalid nodes.
const std::vector<BB::Node>& BadNodes() {
  static const std::vector<BB::Node> v = {
      BB::SourceNode{static_cast<BB::Source>(100), BB::OutOfRange::kClamp, {0, 1}}, BB::SourceNode{BB::Source::kTimeSinceInputInMillis, BB::OutOfRange::kMirror, {0, 1}}, BB::ConstantNode{kInf}, BB::FallbackFilterNode{static_cast<BB::OptionalInputProperty>(7)},
      BB::ToolTypeFilterNode{}, BB::DampingNode{BB::DampingSource::kTimeInSeconds, -1}, BB::ResponseNode{{static_cast<EF::Predefined>(50)}}, BB::BinaryOpNode{static_cast<BB::BinaryOp>(9)},
      BB::InterpolationNode{static_cast<BB::Interpolation>(9)}, BB::TargetNode{BB::Target::kSizeMultiplier, {1, 1}}};
  return v;
}
bool RangeOk(float a, float b) { return std::isfinite(a) && std::isfinite(b) && a != b; }
bool In(float v, float lo, float hi) { return v >= lo && v <= hi; }
}  // namespace
MC_SECTION(easing, "validity of easing functions: predefined and step-position values -2..300; all Bezier parameter quadruples and all lists of up to 3 points of special floats; step counts around the limits and extremes") {
  static const float S[] = {0, -0.0f, 0.5f, 1, 1.0000001f, -1e-45f, 2, -3, kInf, -kInf, kNan, kMax};
  switch (c.pick(4)) {
    case 0: { int i = int(c.pick(303)) - 2; MC_EXPECT(c, Ok(EF{static_cast<EF::Predefined>(i)}) == (i >= 0 && i < 7), "predefined", i); c.add_states(1); c.outcome(i); break; }
    case 1: { float x1 = c.of(S), y1 = c.of(S), x2 = c.of(S), y2 = c.of(S); bool want = In(x1, 0, 1) && In(x2, 0, 1) && std::isfinite(y1) && std::isfinite(y2);
      MC_EXPECT(c, Ok(EF{EF::CubicBezier{x1, y1, x2, y2}}) == want, "bezier", x1 << "," << y1 << "," << x2 << "," << y2); c.add_states(1); c.outcome(want); break; }
    case 2: { int n = c.pick(4); EF::Linear l; bool want = true; float prev = 0; for (int i = 0; i < n; ++i) { float x = c.of({0.f, -0.0f, 0.5f, 1.f, 1.5f, -0.5f, kNan, kInf}), y = c.of({0.f, -4.f, 7.f, kInf, kNan}); l.points.push_back({x, y}); want = want && In(x, 0, 1) && std::isfinite(y) && !(prev > x); prev = x; }
      MC_EXPECT(c, Ok(EF{l}) == want, "linear", Str(l)); c.add_states(1); c.outcome(mc::Hash(want, n)); break; }
    case 3: { int32_t k = c.of({INT32_MIN, -1, 0, 1, 2, 3, INT32_MAX}); int p = int(c.pick(260)) - 2; bool want = p >= 0 && p < 4 && k >= (p == 3 ? 2 : 1);
      MC_EXPECT(c, Ok(EF{EF::Steps{k, static_cast<EF::StepPosition>(p)}}) == want, "steps", k << " position " << p); c.add_states(1); c.outcome(mc::Hash(want, k)); break; }
  }
  c.op(1);
}
MC_SECTION(nodes, "validity of every kind of behavior node: all 256 values of each 8-bit enum, -2..300 of the others, in all combinations with pairs of special floats, tool-type sets and gaps") {
  const auto S = SpecialFloats();
  auto check = [&](const BB::Node& n, bool want) { auto s = ink::brush_internal::ValidateBrushBehaviorNode(n); c.op(1);
    if (s.ok() != want || (!want && s.code() != absl::StatusCode::kInvalidArgument)) c.fail("node", Str(n) + (want ? " rejected" : " accepted")); c.eval(1);
    if (n.index() != 0 || want) { BB b{.nodes = {n}}; (void)b; } c.outcome(mc::Hash(n.index(), want)); c.add_states(1); };
  switch (c.pick(8)) {
    case 0: { int src = int(c.pick(256)) - 128; for (int oor = -128; oor < 128; ++oor) for (auto [a, b] : {std::pair{0.f, 1.f}, {1.f, 1.f}, {kNan, 0.f}}) {
        bool e = src >= 0 && src < kSources && oor >= 0 && oor < 3; bool since = src == int(BB::Source::kTimeSinceInputInSeconds) || src == int(BB::Source::kTimeSinceInputInMillis);
        check(BB::SourceNode{static_cast<BB::Source>(src), static_cast<BB::OutOfRange>(oor), {a, b}}, e && (!since || oor == 0) && RangeOk(a, b)); } break; }
    case 1: { int src = c.pick(kSources); float a = c.of(S); for (float b : S) check(BB::SourceNode{static_cast<BB::Source>(src), BB::OutOfRange::kClamp, {a, b}}, RangeOk(a, b)); break; }
    case 2: for (float a : S) check(BB::ConstantNode{a}, std::isfinite(a)); break;
    case 3: for (int i = -128; i < 128; ++i) check(BB::FallbackFilterNode{static_cast<BB::OptionalInputProperty>(i)}, i >= 0 && i < 4); break;
    case 4: { int m = c.pick(16); BB::EnabledToolTypes t{bool(m & 1), bool(m & 2), bool(m & 4), bool(m & 8)}; check(BB::ToolTypeFilterNode{t}, m != 0); MC_EXPECT(c, t.HasAnyTypes() == (m != 0) && t.HasAllTypes() == (m == 15), "tool-types", m); MC_EXPECT(c, (t == BB::kAllToolTypes) == (m == 15), "all-types", m); break; }
    case 5: { int d = int(c.pick(303)) - 2; for (float g : S) check(BB::DampingNode{static_cast<BB::DampingSource>(d), g}, d >= 0 && d < 3 && std::isfinite(g) && g >= 0); break; }
    case 6: { int d = int(c.pick(303)) - 2; check(BB::BinaryOpNode{static_cast<BB::BinaryOp>(d)}, d >= 0 && d < 2); check(BB::InterpolationNode{static_cast<BB::Interpolation>(d)}, d >= 0 && d < 2); check(BB::ResponseNode{{static_cast<EF::Predefined>(d)}}, d >= 0 && d < 7); break; }
    case 7: { int t = int(c.pick(256)) - 128; float a = c.of(S); for (float b : S) check(BB::TargetNode{static_cast<BB::Target>(t), {a, b}}, t >= 0 && t < kTargets && RangeOk(a, b)); break; }
  }
}
MC_SECTION(behavior_lists, "all node lists of up to 6 (thorough: 7) of the 9 kinds of node, each also with one node made invalid: valid iff every node is and, as a post-order walk, every input is there and nothing is left over") {
  int n = c.pick(mc::tier(7, 8)); BB b; int depth = 0; bool want = true; std::string s;
  for (int i = 0; i < n; ++i) { int k = c.pick(9); auto& e = Nodes()[k]; b.nodes.push_back(e.node); if (depth < e.in) want = false; depth += e.out - e.in; s += std::to_string(k); }
  if (depth != 0) want = false;
  MC_EXPECT(c, Ok(b) == want, "list", "kinds " << s); c.op(1);
  BrushTip tip; tip.behaviors = {BB{}, b}; MC_EXPECT(c, Ok(tip) == want, "tip-behaviors", "kinds " << s);
  if (want) for (int i = 0; i < n; ++i) for (auto& bad : BadNodes()) { if (bad.index() != b.nodes[i].index()) continue; BB x = b; x.nodes[i] = bad; MC_EXPECT(c, !Ok(x), "bad-node", "kinds " << s << " node " << i); tip.behaviors = {b, x}; MC_EXPECT(c, !Ok(tip), "bad-second", s); MC_EXPECT(c, x != b && !(x == b), "differs", s); c.op(2); }
  c.add_states(1); c.add_nontrivial(want); c.outcome(mc::Hash(want, depth, n));
}
MC_SECTION(tip_fields, "validity of BrushTip: every float (quick: 3 of each 65536) in each of its nine numeric fields, the others being valid") {
  TierFloatsBlock(c, [&](uint32_t bits) {
    float f = FromBits(bits); bool fin = std::isfinite(f);
    auto one = [&](const char* name, auto set, bool want) { BrushTip t; set(t); if (Ok(t) != want) c.fail("tip-field", std::string(name) + " = " + std::to_string(f) + (want ? " rejected" : " accepted")); };
    one("scale.x", [&](BrushTip& t) { t.scale.x = f; }, fin && f >= 0); one("scale.x alone", [&](BrushTip& t) { t.scale = {f, 0}; }, fin && f > 0); one("scale.y", [&](BrushTip& t) { t.scale.y = f; }, fin && f >= 0);
    one("corner_rounding", [&](BrushTip& t) { t.corner_rounding = f; }, In(f, 0, 1)); one("pinch", [&](BrushTip& t) { t.pinch = f; }, In(f, 0, 1));
    if (!(std::abs(std::abs(f) - 1.5707963f) < 1e-6f && std::abs(f) > 1.5707963f)) one("slant", [&](BrushTip& t) { t.slant = Angle::Radians(f); }, In(f, -1.5707964f, 1.5707964f));
    one("rotation", [&](BrushTip& t) { t.rotation = Angle::Radians(f); }, fin); one("opacity_multiplier", [&](BrushTip& t) { t.opacity_multiplier = f; }, In(f, 0, 2));
    one("particle_gap_distance_scale", [&](BrushTip& t) { t.particle_gap_distance_scale = f; }, fin && f >= 0); one("particle_gap_duration", [&](BrushTip& t) { t.particle_gap_duration = Duration32::Seconds(f); }, fin && f >= 0);
    c.op(10); c.eval(10);
  }); c.outcome(1);
}
MC_SECTION(tip_pairs, "all pairs of BrushTip fields set to every pair out of 8 good and bad values: valid iff both are; a tip equals another iff every field does, and prints differently if not") {
  struct V { std::function<void(BrushTip&)> set; bool ok; int id; };
  static const std::vector<std::vector<V>> F = [] { std::vector<std::vector<V>> r; int id = 0; static const float T[] = {0.25f, 0.75f, 1, 0, -1, kInf, kNan, 3};
    auto add = [&](auto set, auto ok) { std::vector<V> v; for (float t : T) v.push_back({[=](BrushTip& b) { set(b, t); }, ok(t), id++}); r.push_back(v); };
    auto unit = [](float t) { return In(t, 0, 1); }; auto nonneg = [](float t) { return std::isfinite(t) && t >= 0; };
    add([](BrushTip& b, float t) { b.scale.x = t; }, nonneg); add([](BrushTip& b, float t) { b.scale.y = t; }, nonneg); add([](BrushTip& b, float t) { b.corner_rounding = t; }, unit); add([](BrushTip& b, float t) { b.slant = Angle::Radians(t); }, [](float t) { return In(t, -1.5707964f, 1.5707964f); });
    add([](BrushTip& b, float t) { b.pinch = t; }, unit); add([](BrushTip& b, float t) { b.rotation = Angle::Radians(t); }, [](float t) { return std::isfinite(t); }); add([](BrushTip& b, float t) { b.opacity_multiplier = t; }, [](float t) { return In(t, 0, 2); });
    add([](BrushTip& b, float t) { b.particle_gap_distance_scale = t; }, nonneg); add([](BrushTip& b, float t) { b.particle_gap_duration = Duration32::Seconds(t); }, nonneg);
    add([](BrushTip& b, float t) { b.behaviors = {BB{.nodes = {BB::ConstantNode{t}, Nodes()[8].node}}}; }, [](float t) { return std::isfinite(t); }); return r; }();
  size_t i = c.pick(F.size()), j = c.pick(F.size()); c.assume(i < j); auto &a = c.of(F[i]), &b = c.of(F[j]); BrushTip base, t; a.set(t); b.set(t);
  bool want = a.ok && b.ok; if (t.scale == Vec{0, 0}) want = false; MC_EXPECT(c, Ok(t) == want, "tip-pair", Str(t)); c.op(1); c.add_states(1); c.outcome(mc::Hash(want, i, j));
  if (want) {
    BrushTip copy = t; MC_EXPECT(c, copy == t && !(copy != t) && Str(copy) == Str(t), "tip-equal", Str(t)); BrushTip ta; a.set(ta); BrushTip tb; b.set(tb);
    bool b_default = tb == base, a_default = ta == base; MC_EXPECT(c, (ta == t) == b_default && (tb == t) == a_default && (ta != t) == !b_default, "tip-compare", Str(t));
    if (!b_default) MC_EXPECT(c, Str(ta) != Str(t), "tip-text", Str(t)); if (!a_default) MC_EXPECT(c, Str(tb) != Str(t), "tip-text", Str(t)); 
    for (auto& v : F[j]) { if (!v.ok || v.id == b.id) continue; BrushTip u; a.set(u); v.set(u); if (u.scale == Vec{0, 0}) continue; MC_EXPECT(c, u != t && Str(u) != Str(t), "tip-differ", Str(t) << " and " << Str(u)); c.op(1); }
  }
}
MC_SECTION(node_equality, "all pairs out of about 90 nodes covering every enumerator and differing in one field: equal iff the same entry, in nodes and in behaviors; different entries print differently") {
  static const std::vector<BB::Node> V = [] { std::vector<BB::Node> r;
    for (int i = 0; i < kSources; ++i) r.push_back(BB::SourceNode{static_cast<BB::Source>(i), BB::OutOfRange::kClamp, {0, 1}}); for (int i = 1; i < 3; ++i) r.push_back(BB::SourceNode{BB::Source::kNormalizedPressure, static_cast<BB::OutOfRange>(i), {0, 1}});
    r.push_back(BB::SourceNode{BB::Source::kNormalizedPressure, BB::OutOfRange::kClamp, {0, 2}}); r.push_back(BB::SourceNode{BB::Source::kNormalizedPressure, BB::OutOfRange::kClamp, {-1, 1}}); r.push_back(BB::SourceNode{BB::Source::kNormalizedPressure, BB::OutOfRange::kClamp, {1, 0}});
    r.push_back(BB::ConstantNode{0}); r.push_back(BB::ConstantNode{1}); for (int i = 0; i < 4; ++i) r.push_back(BB::FallbackFilterNode{static_cast<BB::OptionalInputProperty>(i)});
    for (int m = 1; m < 16; ++m) r.push_back(BB::ToolTypeFilterNode{{bool(m & 1), bool(m & 2), bool(m & 4), bool(m & 8)}}); for (int i = 0; i < 3; ++i) for (float g : {0.f, 1.f}) r.push_back(BB::DampingNode{static_cast<BB::DampingSource>(i), g});
    for (int i = 0; i < 7; ++i) r.push_back(BB::ResponseNode{{static_cast<EF::Predefined>(i)}});
    for (auto& b : {EF::CubicBezier{0, 0, 1, 1}, {0.5f, 0, 1, 1}, {0, 0.5f, 1, 1}, {0, 0, 0.5f, 1}, {0, 0, 1, 0.5f}}) r.push_back(BB::ResponseNode{{b}});
    for (auto& l : {EF::Linear{}, EF::Linear{{{0, 0}}}, EF::Linear{{{0, 1}}}, EF::Linear{{{1, 0}}}, EF::Linear{{{0, 0}, {1, 0}}}}) r.push_back(BB::ResponseNode{{l}});
    for (int p = 0; p < 4; ++p) for (int k : {2, 3}) r.push_back(BB::ResponseNode{{EF::Steps{k, static_cast<EF::StepPosition>(p)}}}); for (int i = 0; i < 2; ++i) { r.push_back(BB::BinaryOpNode{static_cast<BB::BinaryOp>(i)}); r.push_back(BB::InterpolationNode{static_cast<BB::Interpolation>(i)}); }
    for (int i = 0; i < kTargets; ++i) r.push_back(BB::TargetNode{static_cast<BB::Target>(i), {0, 1}}); r.push_back(BB::TargetNode{BB::Target::kWidthMultiplier, {0, 2}}); r.push_back(BB::TargetNode{BB::Target::kWidthMultiplier, {2, 1}}); return r; }();
  size_t i = c.pick(V.size()), j = c.pick(V.size()); const auto &a = V[i], &b = V[j]; bool eq = i == j;
  MC_EXPECT(c, (a == b) == eq, "node-equal", Str(a) << " and " << Str(b)); MC_EXPECT(c, (Str(a) == Str(b)) == eq, "node-text", Str(a)); MC_EXPECT(c, Ok(a), "node-valid", Str(a));
  BB x{.nodes = {a}}, y{.nodes = {b}}, z{.nodes = {a, b}}, w{.nodes = {b, a}}; MC_EXPECT(c, (x == y) == eq && (x != y) == !eq && (z == w) == eq && !(x == z) && (Str(z) == Str(w)) == eq, "behavior-equal", Str(a) << " and " << Str(b));
  std::visit([&](const auto& p) { using T = std::decay_t<decltype(p)>; if (auto* q = std::get_if<T>(&b)) { MC_EXPECT(c, (p == *q) == eq && (p != *q) == !eq, "kind-equal", Str(a) << " and " << Str(b)); if constexpr (std::is_same_v<T, BB::ResponseNode>) MC_EXPECT(c, (p.response_curve == q->response_curve) == eq && (p.response_curve != q->response_curve) == !eq, "easing-equal", Str(a)); if constexpr (std::is_same_v<T, BB::ToolTypeFilterNode>) MC_EXPECT(c, (p.enabled_tool_types == q->enabled_tool_types) == eq && (p.enabled_tool_types != q->enabled_tool_types) == !eq, "tool-types-equal", Str(a)); } }, a);
  c.op(6); c.add_states(1); c.outcome(mc::Hash(i, eq));
}
MC_MAIN()
