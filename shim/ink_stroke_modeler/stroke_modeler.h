// Stand-in for the external ink-stroke-modeler library's StrokeModeler.
//
// It is NOT the real smoothing algorithm: it is a small deterministic second
// order lag filter with the same interface contract (protocol state machine,
// kDown -> one result, upsampling on kMove, catching up on kUp, Save/Restore,
// rejects duplicate inputs, time going backwards and non-finite values).
// google/ink is judged on what it does around this contract only.
#pragma once
#include <algorithm>
#include <cmath>
#include <optional>
#include <vector>
#include "absl/status/status.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/types.h"
namespace ink::stroke_model {
class StrokeModeler {
 public:
  // Test hook: the parameters passed to accepted Reset calls on this thread.
  static inline thread_local std::vector<StrokeModelParams>* reset_log = nullptr;
  absl::Status Reset(const StrokeModelParams& p) {
    if (!(p.sampling_params.min_output_rate > 0) ||
        !(p.sampling_params.end_of_stroke_stopping_distance > 0) ||
        !std::isfinite(p.sampling_params.end_of_stroke_stopping_distance))
      return absl::InvalidArgumentError("bad sampling params");
    const auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
    if (l.is_enabled &&
        (!(l.speed_lower_bound >= 0) || !(l.speed_upper_bound >= l.speed_lower_bound) ||
         !(l.interpolation_strength_at_speed_lower_bound >=
           l.interpolation_strength_at_speed_upper_bound) ||
         !(l.min_speed_sampling_window.Value() > 0) ||
         l.min_discrete_speed_samples <= 0))
      return absl::InvalidArgumentError("bad loop params");
    if (reset_log) reset_log->push_back(p);
    params_ = p;
    cur_ = State{};
    saved_.reset();
    return absl::OkStatus();
  }
  absl::Status Update(const Input& in, std::vector<Result>& out) {
    if (!params_) return absl::FailedPreconditionError("not initialized");
    if (!std::isfinite(in.position.x) || !std::isfinite(in.position.y) ||
        !std::isfinite(in.time.Value()) || !std::isfinite(in.pressure) ||
        !std::isfinite(in.tilt) || !std::isfinite(in.orientation))
      return absl::InvalidArgumentError("non-finite input");
    if (cur_.last) {
      if (*cur_.last == in) return absl::InvalidArgumentError("duplicate input");
      if (in.time < cur_.last->time) return absl::InvalidArgumentError("time travels backwards");
    }
    if (in.event_type == Input::EventType::kDown) {
      if (cur_.last) return absl::FailedPreconditionError("down while stroke in progress");
      cur_.px = in.position.x; cur_.py = in.position.y; cur_.vx = cur_.vy = 0;
      cur_.last = in;
      Emit(in, 0, 0, in.time.Value(), 1, in, out);
      return absl::OkStatus();
    }
    if (!cur_.last) return absl::FailedPreconditionError("no stroke in progress");
    if (cur_.up) return absl::FailedPreconditionError("stroke already ended");
    Input prev = *cur_.last;
    double dt = in.time.Value() - prev.time.Value();
    int n = std::clamp<int>(static_cast<int>(std::ceil(dt * params_->sampling_params.min_output_rate)), 1, 8);
    for (int i = 1; i <= n; ++i) {
      double t = static_cast<double>(i) / n;
      double tx = prev.position.x + t * (static_cast<double>(in.position.x) - prev.position.x);
      double ty = prev.position.y + t * (static_cast<double>(in.position.y) - prev.position.y);
      Step(tx, ty, prev.time.Value() + t * dt, t, prev, in, out);
    }
    if (in.event_type == Input::EventType::kUp) {
      double stop = params_->sampling_params.end_of_stroke_stopping_distance;
      double time = in.time.Value();
      for (int i = 0; i < params_->sampling_params.end_of_stroke_max_iterations; ++i) {
        double d = std::hypot(cur_.px - in.position.x, cur_.py - in.position.y);
        if (d < stop) break;
        time += 1.0 / params_->sampling_params.min_output_rate;
        Step(in.position.x, in.position.y, time, 1, prev, in, out);
      }
      cur_.up = true;
    }
    cur_.last = in;
    return absl::OkStatus();
  }
  void Save() { saved_ = cur_; }
  void Restore() { if (saved_) cur_ = *saved_; }

 private:
  struct State {
    double px = 0, py = 0, vx = 0, vy = 0;
    std::optional<Input> last;
    bool up = false;
  };
  void Step(double tx, double ty, double time, double t, const Input& a, const Input& b,
            std::vector<Result>& out) {
    // 3/4 of the way to the target each step: a visible but quickly decaying lag.
    double nx = cur_.px + 0.75 * (tx - cur_.px);
    double ny = cur_.py + 0.75 * (ty - cur_.py);
    double r = params_->sampling_params.min_output_rate;
    double vx = (nx - cur_.px) * r, vy = (ny - cur_.py) * r;
    double ax = (vx - cur_.vx) * r, ay = (vy - cur_.vy) * r;
    cur_.px = nx; cur_.py = ny; cur_.vx = vx; cur_.vy = vy;
    Emit(a, ax, ay, time, t, b, out);
  }
  static float Mix(float a, float b, double t) {
    if (a < 0 || b < 0) return a < 0 ? a : b;
    return static_cast<float>(a + t * (static_cast<double>(b) - a));
  }
  void Emit(const Input& a, double ax, double ay, double time, double t, const Input& b,
            std::vector<Result>& out) {
    Result res;
    res.position = {static_cast<float>(cur_.px), static_cast<float>(cur_.py)};
    res.velocity = {static_cast<float>(cur_.vx), static_cast<float>(cur_.vy)};
    res.acceleration = {static_cast<float>(ax), static_cast<float>(ay)};
    res.time = Time(time);
    res.pressure = Mix(a.pressure, b.pressure, t);
    res.tilt = Mix(a.tilt, b.tilt, t);
    res.orientation = t < 1 ? a.orientation : b.orientation;
    out.push_back(res);
  }
  std::optional<StrokeModelParams> params_;
  State cur_;
  std::optional<State> saved_;
};
}  // namespace ink::stroke_model
