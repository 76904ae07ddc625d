// P39: StrokeInputModeler, the incremental wrapper around the (external, here stand-in) input smoother.
#include <cmath>
#include <optional>
#include <sstream>
#include "ink/brush/brush_family.h"
#include "ink/strokes/input/stroke_input.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "ink/strokes/internal/stroke_input_modeler.h"
#include "mc.h"
#include "util.h"
using namespace ink;
using strokes_internal::ModeledStrokeInput;
using strokes_internal::StrokeInputModeler;
namespace sm = ink::stroke_model;

static BrushFamily::InputModel Model(int m) { return m ? BrushFamily::InputModel(BrushFamily::SpringModelV2{}) : BrushFamily::InputModel(BrushFamily::SpringModelV1{}); }
struct Style { StrokeInput::ToolType tool; float unit; bool props; };
static const Style kStyles[] = {{StrokeInput::ToolType::kStylus, .05f, true}, {StrokeInput::ToolType::kTouch, 0, false}, {StrokeInput::ToolType::kUnknown, 2, false}};
// Position and time of the i-th raw input of each path.
static StrokeInput Raw(int path, int i, const Style& s, bool predicted) {
  float x, y, t;
  switch (path) {
    case 0: x = 3 * i; y = (i % 3) * 2; t = .01f * i; break;             // ordinary zig-zag
    case 1: x = .02f * i; y = 0; t = .004f * i; break;                   // slower than epsilon per input
    case 2: x = i < 3 ? 1 : 6; y = i == 4 ? 9 : 1; t = .03f * i; break;  // rests, then jumps
    default: x = (i % 2) * 5; y = (i / 2) * 5; t = .01f * (i / 2); break;  // pairs at the same time
  }
  if (predicted) { y += 7.5f; t += .001f; }
  StrokeInput in{.tool_type = s.tool, .position = {x, y}, .elapsed_time = Duration32::Seconds(t), .stroke_unit_length = PhysicalDistance::Centimeters(s.unit)};
  if (s.props) { in.pressure = .1f + .05f * (i % 8); in.tilt = Angle::Radians(.2f + .1f * (i % 8)); in.orientation = Angle::Radians(1 + .5f * (i % 8)); }
  return in;
}
struct Want { std::vector<ModeledStrokeInput> in; size_t stable = 0, real = 0; bool borderline = false; };
// What the documentation promises, computed from scratch from the whole history of real inputs and the latest prediction.
static Want Model(int model, float eps, const std::vector<StrokeInput>& real, const std::vector<StrokeInput>& pred) {
  Want w;
  if (real.empty() && pred.empty()) return w;
  sm::StrokeModeler m;
  sm::StrokeModelParams p;
  p.wobble_smoother_params.is_enabled = false;
  p.sampling_params = {.min_output_rate = 180, .end_of_stroke_stopping_distance = eps};
  p.prediction_params = sm::DisabledPredictorParams();
  (void)m.Reset(p);
  bool first = true;
  auto add = [&](const StrokeInput& i, bool last) {
    std::vector<sm::Result> out;
    auto type = first ? sm::Input::EventType::kDown : last ? sm::Input::EventType::kUp : sm::Input::EventType::kMove;
    first = false;
    (void)m.Update({.event_type = type, .position = {i.position.x, i.position.y}, .time = sm::Time(i.elapsed_time.ToSeconds()), .pressure = i.pressure,
                    .tilt = i.tilt.ValueInRadians(), .orientation = i.orientation.ValueInRadians()}, out);
    for (const sm::Result& r : out) {
      float dist = 0;
      if (!w.in.empty()) {
        const ModeledStrokeInput& q = w.in.back();
        double d = std::hypot(double(r.position.x) - q.position.x, double(r.position.y) - q.position.y);
        if (std::fabs(d - eps) < 1e-5 * (eps + std::fabs(r.position.x) + std::fabs(r.position.y))) w.borderline = true;
        if (d < eps) continue;
        dist = q.traveled_distance + d;
      }
      w.in.push_back({.position = {r.position.x, r.position.y}, .velocity = {r.velocity.x, r.velocity.y}, .acceleration = {r.acceleration.x, r.acceleration.y},
                      .traveled_distance = dist, .elapsed_time = Duration32::Seconds(r.time.Value()), .pressure = r.pressure, .tilt = Angle::Radians(r.tilt), .orientation = Angle::Radians(r.orientation)});
    }
  };
  for (size_t i = 0; i + 1 < real.size(); ++i) add(real[i], false);
  w.stable = w.in.size();
  if (!real.empty()) add(real.back(), pred.empty());
  w.real = w.in.size();
  for (size_t i = 0; i < pred.size(); ++i) add(pred[i], i + 1 == pred.size());
  return w;
}
static bool SameModeled(const ModeledStrokeInput& a, const ModeledStrokeInput& b, bool exact) {
  auto n = [&](float x, float y) { return exact ? x == y : Near(x, y, 1e-5, 1e-5); };
  return a.position == b.position && a.velocity == b.velocity && a.acceleration == b.acceleration && n(a.traveled_distance, b.traveled_distance) &&
         a.elapsed_time == b.elapsed_time && a.pressure == b.pressure && a.tilt == b.tilt && a.orientation == b.orientation;
}
static std::string Show(const ModeledStrokeInput& m) {
  std::ostringstream os; os << "(" << m.position.x << "," << m.position.y << ") d" << m.traveled_distance << " t" << m.elapsed_time.ToSeconds() << " p" << m.pressure; return os.str();
}
namespace {
struct Run {
  mc::Choices& c; int path, style, model; float eps;
  StrokeInputModeler m;
  std::vector<StrokeInput> real, pred; std::vector<ModeledStrokeInput> stable;
  float now = 0, total_dist = 0; size_t last_real_count = 0; int next = 0; bool moved = false;
  std::vector<sm::StrokeModelParams> log;
  void Start(int mod, float e) {
    model = mod; eps = e; m.StartStroke(Model(mod), e); real.clear(); pred.clear(); stable.clear(); now = 0; last_real_count = 0; next = 0; Check("start");
    MC_EXPECT(c, m.GetState().complete_elapsed_time == Duration32::Zero(), "start-not-clean", "elapsed " << m.GetState().complete_elapsed_time.ToSeconds());
  }
  void Extend(int nr, int np, float advance) {
    StrokeInputBatch r, p; pred.clear();
    for (int i = 0; i < nr; ++i) { real.push_back(Raw(path, next++, kStyles[style], false)); if (!r.Append(real.back()).ok()) c.fail("harness", "bad real input"); }
    for (int i = 0; i < np; ++i) { pred.push_back(Raw(path, next + i, kStyles[style], true)); if (!p.Append(pred.back()).ok()) c.fail("harness", "bad predicted input"); }
    now += advance;
    sm::StrokeModeler::reset_log = &log;
    size_t resets = log.size();
    m.ExtendStroke(r, p, Duration32::Seconds(now));
    sm::StrokeModeler::reset_log = nullptr;
    bool first_real = nr > 0 && real.size() == size_t(nr);
    if (first_real) {
      MC_EXPECT(c, log.size() > resets, "reset", "the smoother was not configured for a new stroke");
      const sm::StrokeModelParams& q = log.back();
      const auto& l = q.position_modeler_params.loop_contraction_mitigation_params;
      bool loop = model == 1 && kStyles[style].unit > 0;
      MC_EXPECT(c, q.sampling_params.end_of_stroke_stopping_distance == eps, "params", "stopping distance is not the brush epsilon");
      MC_EXPECT(c, !q.wobble_smoother_params.is_enabled && std::holds_alternative<sm::DisabledPredictorParams>(q.prediction_params), "params", "wobble smoothing or internal prediction is on");
      MC_EXPECT(c, l.is_enabled == loop, "params", "loop mitigation " << l.is_enabled << " for model V" << model + 1 << " unit " << kStyles[style].unit);
      MC_EXPECT(c, q.stylus_state_modeler_params.use_stroke_normal_projection == (model == 1), "params", "projection");
      if (loop) MC_EXPECT(c, Near(l.speed_upper_bound * kStyles[style].unit, 25, 1e-5, 0) && l.speed_lower_bound >= 0, "params", "loop mitigation speed bounds are not physical speeds");
    } else if (!real.empty()) MC_EXPECT(c, log.size() == resets, "reset", "the smoother was reset in mid-stroke");
    Check("extend");
  }
  void Check(const char* when) {
    Want w = ::Model(model, eps, real, pred);
    const StrokeInputModeler::State& s = m.GetState(); auto in = m.GetModeledInputs();
    c.eval(10 + in.size() * 3); c.state(mc::Hash(in.size(), s.stable_input_count, s.real_input_count, ToBits(s.complete_traveled_distance)));
    MC_EXPECT(c, s.stable_input_count <= s.real_input_count && s.real_input_count <= in.size(), "counts", when << " stable " << s.stable_input_count << " real " << s.real_input_count << " of " << in.size());
    MC_EXPECT(c, s.stable_input_count >= stable.size(), "stable-shrank", when << " from " << stable.size() << " to " << s.stable_input_count);
    for (size_t i = 0; i < stable.size() && i < in.size(); ++i) MC_EXPECT(c, SameModeled(stable[i], in[i], true), "stable-changed", when << " input " << i << " was " << Show(stable[i]) << " is " << Show(in[i]));
    stable.assign(in.begin(), in.begin() + std::min(s.stable_input_count, in.size()));
    for (size_t i = 0; i < in.size(); ++i) {
      double d = i ? std::hypot(double(in[i].position.x) - in[i - 1].position.x, double(in[i].position.y) - in[i - 1].position.y) : 0;
      if (i) MC_EXPECT(c, d >= eps * (1 - 1e-5) - 1e-6, "spacing", "inputs " << i - 1 << " and " << i << " are " << d << " apart, epsilon " << eps);
      if (i) MC_EXPECT(c, in[i].elapsed_time >= in[i - 1].elapsed_time, "time-order", i);
      MC_EXPECT(c, Near(in[i].traveled_distance, i ? in[i - 1].traveled_distance + d : 0, 1e-5, 1e-5), "distance", "input " << i << " " << Show(in[i]));
    }
    if (!w.borderline) {
      MC_EXPECT(c, in.size() == w.in.size() && s.stable_input_count == w.stable && s.real_input_count == w.real, "differs-from-batch",
                when << ": " << in.size() << "/" << s.stable_input_count << "/" << s.real_input_count << " modeled, stable, real inputs; the whole history gives " << w.in.size() << "/" << w.stable << "/" << w.real);
      for (size_t i = 0; i < in.size() && i < w.in.size(); ++i) MC_EXPECT(c, SameModeled(in[i], w.in[i], false), "differs-from-batch", when << " input " << i << " is " << Show(in[i]) << " expected " << Show(w.in[i]));
    } else c.add_nontrivial(0);
    bool empty = real.empty() && pred.empty();
    MC_EXPECT(c, s.tool_type == (empty ? StrokeInput::ToolType::kUnknown : kStyles[style].tool), "tool-type", int(s.tool_type));
    std::optional<PhysicalDistance> u; if (!empty && kStyles[style].unit > 0) u = PhysicalDistance::Centimeters(kStyles[style].unit);
    MC_EXPECT(c, s.stroke_unit_length == u, "unit-length", when);
    float last = in.empty() ? 0 : in.back().elapsed_time.ToSeconds();
    MC_EXPECT(c, s.complete_elapsed_time.ToSeconds() == std::max(now, last), "complete-time", s.complete_elapsed_time.ToSeconds() << " now " << now << " last input " << last);
    MC_EXPECT(c, s.complete_traveled_distance == (in.empty() ? 0 : in.back().traveled_distance), "complete-distance", s.complete_traveled_distance);
    size_t rc = std::min(s.real_input_count, in.size());
    MC_EXPECT(c, s.total_real_distance == (rc ? in[rc - 1].traveled_distance : 0) && s.total_real_elapsed_time.ToSeconds() == (rc ? in[rc - 1].elapsed_time.ToSeconds() : 0), "real-totals",
              s.total_real_distance << " " << s.total_real_elapsed_time.ToSeconds());
  }
};
}  // namespace

MC_SECTION(histories, "all histories of 4 (thorough 5) steps on one modeler: extend with 0..2 real x 0..2 predicted inputs, restart with another model and epsilon, or move the modeler; 4 paths (zig-zag, slower than epsilon, resting and jumping, simultaneous pairs) x 3 input styles x 2 models x 2 epsilons x clock at or ahead of the inputs: the result is what modeling the whole history at once gives, stable inputs never change, state totals agree") {
  static const float kEps[] = {.05f, 2};
  Run r{c, c.pick(4), c.pick(3)};
  float eps = kEps[c.pick(2)]; int model = c.pick(2);
  r.Start(model, eps);
  int n = mc::tier(4, 5); bool late = c.flag();
  for (int i = 0; i < n; ++i) {
    int op = c.pick(11); c.op(1);
    if (op < 9) r.Extend(op % 3, op / 3, late ? .025f * (i % 3) : 0);
    else if (op == 9) { StrokeInputModeler t = std::move(r.m); r.m = std::move(t); r.Check("move"); }
    else { r.style = (r.style + 1) % 3; r.path = (r.path + 1) % 4; r.Start(1 - r.model, r.eps == kEps[0] ? kEps[1] : kEps[0]); }
  }
  c.outcome(mc::Hash(r.m.GetModeledInputs().size(), r.m.GetState().stable_input_count, ToBits(r.m.GetState().complete_traveled_distance)));
}
MC_SECTION(batching, "every way to split 8 (thorough 11) real inputs into updates, with and without a prediction in every update, on 4 paths x 2 epsilons x 2 models: stable inputs and final result do not depend on the split or on the predictions") {
  Run r{c, c.pick(4), 0};
  int model = c.pick(2); r.Start(model, c.flag() ? .05f : 2.f);
  bool predict = c.flag(); int left = mc::tier(8, 11);
  while (left) { int k = 1 + c.pick(left); c.op(1); r.Extend(k, predict ? 2 : 0, .01f); left -= k; }
  r.Extend(0, 0, 0);
  c.outcome(mc::Hash(r.path, r.m.GetModeledInputs().size()));
}
MC_SECTION(misuse, "extending before starting and starting with every non-positive or NaN epsilon are fatal; every positive float epsilon works") {
  float e = c.of(SpecialFloats()); int model = c.pick(2);
  StrokeInputModeler m;
  c.eval(2);
  MC_EXPECT(c, mc::DiesOnCheck([&] { StrokeInputModeler x; x.ExtendStroke({}, {}, Duration32::Zero()); }), "no-start", "");
  bool died = mc::DiesOnCheck([&] { m.StartStroke(Model(model), e); });
  MC_EXPECT(c, died == !(e > 0), "epsilon-check", e);
  if (e > 0 && e < kInf) {
    StrokeInputModeler g; g.StartStroke(Model(model), e); StrokeInputBatch b; (void)b.Append(Raw(0, 0, kStyles[0], false)); (void)b.Append(Raw(0, 3, kStyles[0], false));
    g.ExtendStroke(b, {}, Duration32::Zero());
    MC_EXPECT(c, g.GetModeledInputs().size() >= 1 && g.GetModeledInputs()[0].position == (Point{0, 0}), "first-input", e);
  }
}
MC_MAIN()
