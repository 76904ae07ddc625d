// Stand-in for the external ink-stroke-modeler library (not installed here).
// Types only: the public surface google/ink uses.
#pragma once
#include <ostream>
namespace ink::stroke_model {
struct Vec2 { float x = 0; float y = 0; bool operator==(const Vec2&) const = default; };
class Duration {
 public:
  constexpr Duration() = default;
  constexpr explicit Duration(double v) : v_(v) {}
  constexpr double Value() const { return v_; }
  auto operator<=>(const Duration&) const = default;
 private:
  double v_ = 0;
};
class Time {
 public:
  constexpr Time() = default;
  constexpr explicit Time(double v) : v_(v) {}
  constexpr double Value() const { return v_; }
  auto operator<=>(const Time&) const = default;
 private:
  double v_ = 0;
};
struct Input {
  enum class EventType { kDown, kMove, kUp };
  EventType event_type = EventType::kDown;
  Vec2 position;
  Time time{0};
  float pressure = -1;
  float tilt = -1;
  float orientation = -1;
  bool operator==(const Input&) const = default;
};
struct Result {
  Vec2 position;
  Vec2 velocity;
  Vec2 acceleration;
  Time time{0};
  float pressure = -1;
  float tilt = -1;
  float orientation = -1;
};
}  // namespace ink::stroke_model
