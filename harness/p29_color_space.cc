// P29: colour spaces: transfer function, matrices, conversion.
#include "color_model.h"
#include <array>
using namespace ink; using namespace colormodel;
namespace {
const ColorSpace kS[] = {ColorSpace::kSrgb, ColorSpace::kDisplayP3};
// Distance of the two branches at their joint is about 4e-9; either side of it is accepted.
const double kAbs = 2e-7, kRel = 2e-6;
}  // namespace
MC_SECTION(gamma, "every float (quick: 3 of each 65536; thorough: all 2^32) x both spaces: in [0, 1] decode and encode equal the sRGB curve, undo each other and stay in [0, 1]; no value other than NaN gives NaN; zero and one are fixed") {
  ColorSpace s = c.of({ColorSpace::kSrgb, ColorSpace::kDisplayP3});
  TierFloatsBlock(c, [&](uint32_t bits) {
    float x = FromBits(bits); if (std::isnan(x)) return; c.op(2);
    float d = GammaDecode(x, s), e = GammaEncode(x, s);
    if (std::isnan(d) || std::isnan(e)) c.fail("nan", std::to_string(x));
    if (!(x >= 0 && x <= 1)) return;
    if (!Near(d, Decode(x), kRel, 1e-8)) c.fail("decode", std::to_string(x) + " -> " + std::to_string(d) + " want " + std::to_string(Decode(x)));
    if (!Near(e, Encode(x), kRel, kAbs)) c.fail("encode", std::to_string(x) + " -> " + std::to_string(e) + " want " + std::to_string(Encode(x)));
    if (d < 0 || d > 1 || e < 0 || e > 1) c.fail("range", std::to_string(x));
    if (!Near(GammaEncode(d, s), x, kRel, 1e-6) || !Near(GammaDecode(e, s), x, 1e-5, 1e-6)) c.fail("inverse", std::to_string(x) + " -> " + std::to_string(GammaEncode(d, s)) + ", " + std::to_string(GammaDecode(e, s)));
    c.eval(4);
  });
}
MC_SECTION(monotone, "the 2^16 16-bit codes and the 256 floats to each side of both branch points: decode and encode never decrease by more than rounding, and grow strictly from code to code") {
  ColorSpace s = c.of({ColorSpace::kSrgb, ColorSpace::kDisplayP3}); int hi = c.pick(257);
  if (hi < 256) {
    for (int lo = 0; lo < 256 && hi * 256 + lo < 65535; ++lo) {
      float a = (hi * 256 + lo) / 65535.f, b = (hi * 256 + lo + 1) / 65535.f; c.op(4);
      MC_EXPECT(c, GammaDecode(b, s) > GammaDecode(a, s) && GammaEncode(b, s) > GammaEncode(a, s), "strict", a);
    }
    c.add_states(256); return;
  }
  for (float m : {0.04045f, float(0.04045 / 12.92)}) {
    float a = m; for (int i = 0; i < 256; ++i) a = std::nextafter(a, 0.f);
    for (int i = 0; i < 512; ++i) { float b = std::nextafter(a, 1.f); c.op(4); MC_EXPECT(c, GammaDecode(b, s) >= GammaDecode(a, s) - 1e-8f && GammaEncode(b, s) >= GammaEncode(a, s) - 1e-6f, "branch", a << " in " << i); a = b; }
  }
  MC_EXPECT(c, GammaDecode(0, s) == 0 && GammaEncode(0, s) == 0 && Near(GammaDecode(1, s), 1, 1e-7, 0) && Near(GammaEncode(1, s), 1, 1e-7, 0), "fixed points", int(s));
  c.add_states(1024);
}
MC_SECTION(parameters, "both spaces x 4096 encoded values: the ICC type 3 parameters are the sRGB ones and evaluate to GammaDecode") {
  ColorSpace s = c.of({ColorSpace::kSrgb, ColorSpace::kDisplayP3}); auto p = GetGammaDecodingParameters(s); c.op(1);
  const double want[] = {1 / 1.055, 0.055 / 1.055, 1 / 12.92, 0.04045, 2.4};
  for (int i = 0; i < 5; ++i) MC_EXPECT(c, Near(p[i], want[i], 1e-6, 0), "values", i << " " << p[i]);
  for (int i = 0; i <= 4096; ++i) { double x = i / 4096.0; double y = x < p[3] ? p[2] * x : std::pow(p[0] * x + p[1], p[4]); c.op(1); MC_EXPECT(c, Near(GammaDecode(x, s), y, 5e-6, 1e-8), "curve", x); }
  c.add_states(4097);
}
MC_SECTION(matrices, "both spaces x both layouts: the matrices are those of the published primaries and white point, each other's inverses, and transposed between layouts; white maps to D65") {
  ColorSpace s = c.of({ColorSpace::kSrgb, ColorSpace::kDisplayP3});
  M3 to = ToXyz(s), from = Inv(to);
  auto tc = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kColumnMajor), tr = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kRowMajor);
  auto fc = GetXyzD65ToColorSpaceMatrix(s, MatrixLayout::kColumnMajor), fr = GetXyzD65ToColorSpaceMatrix(s, MatrixLayout::kRowMajor); c.op(4);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    MC_EXPECT(c, Near(tr[i * 3 + j], to[i * 3 + j], 0, 2e-6), "to row", i << j << " " << tr[i * 3 + j] << " want " << to[i * 3 + j]);
    MC_EXPECT(c, tc[j * 3 + i] == tr[i * 3 + j] && fc[j * 3 + i] == fr[i * 3 + j], "transpose", i << j);
    MC_EXPECT(c, Near(fr[i * 3 + j], from[i * 3 + j], 0, 1e-5), "from row", i << j << " " << fr[i * 3 + j] << " want " << from[i * 3 + j]);
  }
  M3 a, b; for (int i = 0; i < 9; ++i) a[i] = tr[i], b[i] = fr[i];
  M3 I = Mul(a, b); for (int i = 0; i < 9; ++i) MC_EXPECT(c, Near(I[i], i % 4 == 0, 0, 1e-6), "inverse", i << " " << I[i]);
  c.eval(30); c.add_states(4); c.outcome(int(s));
}
MC_SECTION(convert, "all pairs of spaces x RGBA over a 13-value grid with negative, large, tiny and special values: conversion equals the product of the matrices in double, alpha passes through, the same space changes nothing, there and back is the identity") {
  static const float V[] = {0, 0.25f, 0.5f, 1, 1e-3f, -0.25f, 2, 1000, -1e30f, 1e-30f, 1e38f, 0.7f, -1};
  ColorSpace s = c.of({ColorSpace::kSrgb, ColorSpace::kDisplayP3}), t = c.of({ColorSpace::kSrgb, ColorSpace::kDisplayP3});
  std::array<float, 4> v = {V[c.pick(13)], V[c.pick(13)], V[c.pick(13)], 0.375f};
  auto r = ConvertColor(v, s, t); c.op(1);
  MC_EXPECT(c, r[3] == v[3], "alpha", r[3]);
  if (s == t) { MC_EXPECT(c, r == v, "same space", ""); }
  else {
    M3 m = Mul(Inv(ToXyz(t)), ToXyz(s));
    for (int i = 0; i < 3; ++i) { double w = 0, mag = std::max({std::fabs(v[0]), std::fabs(v[1]), std::fabs(v[2])}); for (int j = 0; j < 3; ++j) w += m[i * 3 + j] * v[j]; if (mag < 1e38) MC_EXPECT(c, std::fabs(r[i] - w) <= 1e-5 * mag + 1e-37, "value", "channel " << i << " " << r[i] << " want " << w); }
    auto b = ConvertColor(r, t, s); c.op(1); double mag = std::max({std::fabs(v[0]), std::fabs(v[1]), std::fabs(v[2])});
    if (mag < 1e37) for (int i = 0; i < 3; ++i) MC_EXPECT(c, std::fabs(b[i] - v[i]) <= 2e-6 * mag + 1e-37, "round trip", "channel " << i << " " << b[i] << " from " << v[i]);
    bool unit = true; for (int i = 0; i < 3; ++i) unit &= v[i] >= 0 && v[i] <= 1;
    if (unit && s == ColorSpace::kSrgb) for (int i = 0; i < 3; ++i) MC_EXPECT(c, r[i] >= -1e-6 && r[i] <= 1 + 1e-6, "sRGB within P3", r[i]);
  }
  for (float a : SpecialFloats()) { v[3] = a; MC_EXPECT(c, Same(ConvertColor(v, s, t)[3], a), "alpha", a); c.op(1); }
  c.add_states(1); c.outcome(mc::Hash(ToBits(r[0]), ToBits(r[1]), ToBits(r[2])));
}
MC_SECTION(names, "every enum value from -3 to 9: names of the two spaces, a readable name and a DFATAL for unknown ones") {
  int i = int(c.pick(13)) - 3; ColorSpace s = ColorSpace(i); std::string n = ToFormattedString(s); c.op(1);
  if (i == 0 || i == 1) { MC_EXPECT(c, n == (i ? "Display-P3" : "sRGB"), "name", n); }
  else {
    MC_EXPECT(c, n == "[unknown ColorSpace " + std::to_string(i) + "]", "unknown name", n);
    MC_EXPECT(c, mc::DiesOnCheck([&] { GammaDecode(0.5f, s); }) && mc::DiesOnCheck([&] { GammaEncode(0.5f, s); }) && mc::DiesOnCheck([&] { GetGammaDecodingParameters(s); }) && mc::DiesOnCheck([&] { GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kRowMajor); }) && mc::DiesOnCheck([&] { GetXyzD65ToColorSpaceMatrix(s, MatrixLayout::kRowMajor); }) && mc::DiesOnCheck([&] { ConvertColor({0, 0, 0, 1}, s, ColorSpace::kSrgb); }) && mc::DiesOnCheck([&] { ConvertColor({0, 0, 0, 1}, ColorSpace::kSrgb, s); }), "dfatal", i); c.op(7);
  }
  c.add_states(1); c.outcome(i);
}
MC_MAIN()
