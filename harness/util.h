#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include "mc.h"
inline float FromBits(uint32_t b) { float f; std::memcpy(&f, &b, 4); return f; }
inline uint32_t ToBits(float f) { uint32_t b; std::memcpy(&b, &f, 4); return b; }
// Bitwise same, any NaN equal to any NaN.
inline bool Same(float a, float b) { return ToBits(a) == ToBits(b) || (std::isnan(a) && std::isnan(b)); }
// Numerically same, any NaN equal to any NaN (+0 == -0).
inline bool Eq(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool Near(double a, double b, double rel, double abs) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
inline const float kInf = std::numeric_limits<float>::infinity();
inline const float kNan = std::numeric_limits<float>::quiet_NaN();
inline const float kMax = std::numeric_limits<float>::max();
inline const float kMinNormal = std::numeric_limits<float>::min();
inline const float kDenorm = std::numeric_limits<float>::denorm_min();
// Special floats: every class and the boundaries between them.
inline const std::vector<float>& SpecialFloats() {
  static const std::vector<float> v = [] {
    std::vector<float> r = {0.f, -0.f, 1.f, -1.f, 2.f, -2.f, 0.5f, -0.5f, 3.f, 0.1f, -0.1f, 1.f / 3, 1e-3f, -1e-3f, 60.f, 1000.f, 1680.f, 1e6f, -1e6f,
                            1e10f, -1e10f, 1e30f, -1e30f, 1e38f, kMax, -kMax, kMinNormal, -kMinNormal, kDenorm, -kDenorm, 1e-30f, 16777216.f, 16777215.f,
                            std::nextafter(1.f, 2.f), std::nextafter(1.f, 0.f), kInf, -kInf, kNan, -kNan, 9.3e18f, -9.3e18f, 2.54f, 100.f};
    return r;
  }();
  return v;
}
// Runs `f(bits)` for each of the 2^20 floats that share the top 12 bits drawn from `c`;
// together the paths cover all 2^32 bit patterns.
template <typename F> void AllFloatsBlock(mc::Choices& c, F f) {
  uint32_t hi = c.pick(4096);
  for (uint32_t lo = 0; lo < (1u << 20); ++lo) f((hi << 20) | lo);
  c.add_states(1u << 20);
}
// Quick: the floats whose 16 low bits are 0, 1 or 0xffff (every sign, exponent and
// 7-bit mantissa prefix, with their upper neighbours). Thorough: all 2^32.
template <typename F> void TierFloatsBlock(mc::Choices& c, F f) {
  if (mc::thorough()) { AllFloatsBlock(c, f); return; }
  uint32_t hi = c.pick(1024);
  for (uint32_t mid = 0; mid < 64; ++mid)
    for (uint32_t lo : {0u, 1u, 0xffffu}) f((hi << 22) | (mid << 16) | lo);
  c.add_states(64 * 3);
}
