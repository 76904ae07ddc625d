#pragma once
// Independent oracle for colour spaces: matrices from the published primaries and white point, in double.
#include <array>
#include "ink/color/color.h"
#include "ink/color/color_space.h"
#include "util.h"
namespace colormodel {
using M3 = std::array<double, 9>;  // row-major
inline M3 Mul(const M3& a, const M3& b) { M3 r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r[i * 3 + j] += a[i * 3 + k] * b[k * 3 + j]; return r; }
inline M3 Inv(const M3& m) {
  M3 r; double det = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
  r = {m[4] * m[8] - m[5] * m[7], m[2] * m[7] - m[1] * m[8], m[1] * m[5] - m[2] * m[4], m[5] * m[6] - m[3] * m[8], m[0] * m[8] - m[2] * m[6], m[2] * m[3] - m[0] * m[5], m[3] * m[7] - m[4] * m[6], m[1] * m[6] - m[0] * m[7], m[0] * m[4] - m[1] * m[3]};
  for (double& d : r) d /= det; return r;
}
inline M3 ToXyz(ink::ColorSpace s) {
  const double w[2] = {0.31271, 0.32902};
  const double srgb[6] = {0.64, 0.33, 0.30, 0.60, 0.15, 0.06}, p3[6] = {0.680, 0.320, 0.265, 0.690, 0.150, 0.060};
  const double* p = s == ink::ColorSpace::kSrgb ? srgb : p3;
  M3 m; for (int i = 0; i < 3; ++i) { m[i] = p[2 * i] / p[2 * i + 1]; m[3 + i] = 1; m[6 + i] = (1 - p[2 * i] - p[2 * i + 1]) / p[2 * i + 1]; }
  M3 inv = Inv(m); double W[3] = {w[0] / w[1], 1, (1 - w[0] - w[1]) / w[1]};
  for (int j = 0; j < 3; ++j) { double sc = inv[j * 3] * W[0] + inv[j * 3 + 1] * W[1] + inv[j * 3 + 2] * W[2]; for (int i = 0; i < 3; ++i) m[i * 3 + j] *= sc; }
  return m;
}
inline double Decode(double x) { return x <= 0.04045 ? x / 12.92 : std::pow((x + 0.055) / 1.055, 2.4); }
inline double Encode(double y) { return y <= 0.04045 / 12.92 ? y * 12.92 : 1.055 * std::pow(y, 1 / 2.4) - 0.055; }
}  // namespace colormodel
