// Reference tables for mesh attribute types, written from the documentation of MeshFormat.
#pragma once
#include "ink/geometry/mesh_format.h"
#include "util.h"
using ink::MeshFormat;
using AT = MeshFormat::AttributeType;
using AI = MeshFormat::AttributeId;
using IF = MeshFormat::IndexFormat;
struct TypeInfo { AT type; const char* name; std::vector<int> bits; int comps; int packed; bool as_float; };  // bits empty: unpacked
inline const std::vector<TypeInfo>& Types() {
  static const std::vector<TypeInfo> v = {
      {AT::kFloat1Unpacked, "kFloat1Unpacked", {}, 1, 4, false},
      {AT::kFloat1PackedIn1UnsignedByte, "kFloat1PackedIn1UnsignedByte", {8}, 1, 1, false},
      {AT::kFloat2Unpacked, "kFloat2Unpacked", {}, 2, 8, false},
      {AT::kFloat2PackedIn1Float, "kFloat2PackedIn1Float", {12, 12}, 2, 4, true},
      {AT::kFloat2PackedIn3UnsignedBytes_XY12, "kFloat2PackedIn3UnsignedBytes_XY12", {12, 12}, 2, 3, false},
      {AT::kFloat2PackedIn4UnsignedBytes_X12_Y20, "kFloat2PackedIn4UnsignedBytes_X12_Y20", {12, 20}, 2, 4, false},
      {AT::kFloat3Unpacked, "kFloat3Unpacked", {}, 3, 12, false},
      {AT::kFloat3PackedIn1Float, "kFloat3PackedIn1Float", {8, 8, 8}, 3, 4, true},
      {AT::kFloat3PackedIn2Floats, "kFloat3PackedIn2Floats", {16, 16, 16}, 3, 8, true},
      {AT::kFloat3PackedIn4UnsignedBytes_XYZ10, "kFloat3PackedIn4UnsignedBytes_XYZ10", {10, 10, 10}, 3, 4, false},
      {AT::kFloat4Unpacked, "kFloat4Unpacked", {}, 4, 16, false},
      {AT::kFloat4PackedIn1Float, "kFloat4PackedIn1Float", {6, 6, 6, 6}, 4, 4, true},
      {AT::kFloat4PackedIn2Floats, "kFloat4PackedIn2Floats", {12, 12, 12, 12}, 4, 8, true},
      {AT::kFloat4PackedIn3Floats, "kFloat4PackedIn3Floats", {18, 18, 18, 18}, 4, 12, true}};
  return v;
}
inline const char* const kIdNames[] = {"kPosition", "kColorShiftHsl", "kOpacityShift", "kTexture", "kSideDerivative", "kSideLabel", "kForwardDerivative", "kForwardLabel", "kSurfaceUv",
                                       "kCustom0", "kCustom1", "kCustom2", "kCustom3", "kCustom4", "kCustom5", "kCustom6", "kCustom7", "kCustom8", "kCustom9"};
constexpr int kIds = 19;
inline const TypeInfo* Find(AT t) { for (auto& i : Types()) if (i.type == t) return &i; return nullptr; }
// The packed bytes of the documented bit layout for integers `v`: floats hold 24 bits, most significant component first.
inline std::vector<uint8_t> Layout(const TypeInfo& t, const std::vector<uint32_t>& v) {
  std::vector<int> bits;  // big-endian bit stream
  for (size_t i = 0; i < v.size(); ++i) for (int b = t.bits[i] - 1; b >= 0; --b) bits.push_back(v[i] >> b & 1);
  int unit = t.as_float ? 24 : 8, n = t.as_float ? t.packed / 4 : t.packed;
  bits.resize(unit * n, 0);
  std::vector<uint8_t> out;
  for (int k = 0; k < n; ++k) {
    uint32_t w = 0;
    for (int b = 0; b < unit; ++b) w = w << 1 | uint32_t(bits[k * unit + b]);
    if (t.as_float) { float f = float(w); uint8_t q[4]; std::memcpy(q, &f, 4); out.insert(out.end(), q, q + 4); } else out.push_back(uint8_t(w));
  }
  return out;
}
