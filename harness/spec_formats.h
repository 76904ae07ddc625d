// The stroke mesh formats whose shaders are generated: (packed or float types) x (with/without HSL shift) x (with/without surface UV).
#pragma once
#include <vector>
#include "ink/geometry/mesh_format.h"
inline std::vector<ink::MeshFormat> SpecFormats() {
  using F = ink::MeshFormat; using T = F::AttributeType; using I = F::AttributeId;
  std::vector<F> r;
  for (int m = 0; m < 8; ++m) {
    bool packed = !(m & 4), hsl = m & 1, uv = m & 2;
    std::vector<std::pair<T, I>> a;
    if (packed) {
      a = {{T::kFloat2PackedIn3UnsignedBytes_XY12, I::kPosition}, {T::kFloat1PackedIn1UnsignedByte, I::kOpacityShift}};
      if (hsl) a.push_back({T::kFloat3PackedIn4UnsignedBytes_XYZ10, I::kColorShiftHsl});
      a.push_back({T::kFloat2PackedIn3UnsignedBytes_XY12, I::kSideDerivative}); a.push_back({T::kFloat1PackedIn1UnsignedByte, I::kSideLabel});
      a.push_back({T::kFloat2PackedIn3UnsignedBytes_XY12, I::kForwardDerivative}); a.push_back({T::kFloat1PackedIn1UnsignedByte, I::kForwardLabel});
      if (uv) a.push_back({T::kFloat2PackedIn4UnsignedBytes_X12_Y20, I::kSurfaceUv});
    } else {
      a = {{T::kFloat2Unpacked, I::kSideDerivative}, {T::kFloat1Unpacked, I::kSideLabel}};
      if (uv) a.push_back({T::kFloat2Unpacked, I::kSurfaceUv});
      a.push_back({T::kFloat2PackedIn1Float, I::kPosition}); a.push_back({T::kFloat1Unpacked, I::kOpacityShift});
      if (hsl) a.push_back({T::kFloat3Unpacked, I::kColorShiftHsl});
      a.push_back({T::kFloat2Unpacked, I::kForwardDerivative}); a.push_back({T::kFloat1Unpacked, I::kForwardLabel});
    }
    r.push_back(*F::Create(a, F::IndexFormat::k16BitUnpacked16BitPacked));
  }
  return r;
}
