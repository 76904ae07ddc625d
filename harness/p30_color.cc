// P30: Color.
#include "color_model.h"
#include <algorithm>
#include "ink/color/color_helpers.h"
#include "absl/strings/str_cat.h"
using namespace ink; using namespace colormodel; using F = Color::Format;
namespace {
const double kEps = 7.62951e-6;
const std::vector<float>& Ch() { static const std::vector<float> v = {0, -0.f, 1, 0.5f, 0.25f, -0.5f, 2, 1e-3f, 0.04f, 1e30f, -1e30f, kMax, -kMax, kDenorm, kMinNormal, kInf, -kInf, kNan}; return v; }
const std::vector<float>& Al() { static const std::vector<float> v = {0, -0.f, 1, 0.5f, 0.25f, kDenorm, 1e-20f, 0.999f, -1, 2, kInf, -kInf, kNan}; return v; }
float Z(float x) { return std::isnan(x) ? 0 : x; }
std::array<float, 4> Lin(const Color& k) { auto f = k.AsFloat(F::kLinear); return {f.r, f.g, f.b, f.a}; }
std::array<float, 4> As(const Color& k, F f) { auto v = k.AsFloat(f); return {v.r, v.g, v.b, v.a}; }
bool Sane(const Color& k) { auto l = Lin(k); return !std::isnan(l[0]) && !std::isnan(l[1]) && !std::isnan(l[2]) && l[3] >= 0 && l[3] <= 1 && k.GetAlphaFloat() == l[3]; }
std::string Str(const Color& k) { return absl::StrCat(k); }
Color Raw(std::array<float, 4> v, ColorSpace s) { return Color::FromFloat(v[0], v[1], v[2], v[3], F::kLinear, s); }
}  // namespace
MC_SECTION(from_float, "18^3 channel values x 13 alphas x 3 formats x 2 spaces, special values included: NaN counts as zero, alpha clamped, linear kept, premultiplied divided, gamma decoded; fatal exactly for premultiplied alpha 0 with a nonzero channel; no NaN through any operation; AsFloat returns the input") {
  F f = c.of({F::kLinear, F::kGammaEncoded, F::kPremultipliedAlpha}); ColorSpace s = c.of({ColorSpace::kSrgb, ColorSpace::kDisplayP3});
  float r = c.of(Ch()), g = c.of(Ch()), b = c.of(Ch());
  for (float a : Al()) {
    float wa = std::min(1.f, std::max(0.f, Z(a))); float in[3] = {Z(r), Z(g), Z(b)}; c.op(1); c.add_states(1);
    if (f == F::kPremultipliedAlpha && wa == 0 && (in[0] != 0 || in[1] != 0 || in[2] != 0)) { MC_EXPECT(c, mc::DiesOnCheck([&] { Color::FromFloat(r, g, b, a, f, s); }), "fatal", r << " " << g << " " << b << " " << a); continue; }
    Color k = Color::FromFloat(r, g, b, a, f, s); auto l = Lin(k);
    MC_EXPECT(c, Sane(k) && k.GetColorSpace() == s && l[3] == wa, "sane", Str(k) << " from alpha " << a);
    auto back = As(k, f);
    for (int i = 0; i < 3; ++i) {
      if (f == F::kLinear) MC_EXPECT(c, l[i] == in[i] && back[i] == in[i], "linear", Str(k));
      if (f == F::kPremultipliedAlpha) { MC_EXPECT(c, wa == 0 ? l[i] == 0 : l[i] == float(in[i] / wa) || Near(l[i], double(in[i]) / wa, 1e-6, 1e-44), "unpremultiplied", Str(k)); if (!std::isinf(l[i]) && std::fabs(l[i]) > 1e-30) MC_EXPECT(c, Near(back[i], in[i], 1e-6, 1e-44), "premultiplied back", back[i] << " from " << in[i]); }
      if (f == F::kGammaEncoded && in[i] >= 0 && in[i] <= 1) MC_EXPECT(c, Near(l[i], Decode(in[i]), 2e-6, 1e-8) && Near(back[i], in[i], 2e-6, 1e-6), "decoded", Str(k));
    }
    for (F o : {F::kLinear, F::kGammaEncoded, F::kPremultipliedAlpha}) {
      auto v = As(k, o); c.op(1);
      MC_EXPECT(c, !std::isnan(v[0]) && !std::isnan(v[1]) && !std::isnan(v[2]) && v[3] == wa, "AsFloat", Str(k) << " " << absl::StrCat(o));
      for (int i = 0; i < 3; ++i) {
        if (o == F::kPremultipliedAlpha) MC_EXPECT(c, wa == 0 ? v[i] == 0 : Near(v[i], double(l[i]) * wa, 1e-6, 1e-44), "premultiply", Str(k) << " " << v[i]);
        if (o == F::kGammaEncoded && l[i] >= 0 && l[i] <= 1) MC_EXPECT(c, Near(v[i], Encode(l[i]), 2e-6, 2e-7), "encode", Str(k) << " " << v[i]);
      }
      auto u = k.AsUint8(o); uint8_t uu[4] = {u.r, u.g, u.b, u.a}; bool ok = true;
      for (int i = 0; i < 4; ++i) { double x = std::min(255.0, std::max(0.0, 255.0 * double(v[i]))); ok &= std::fabs(uu[i] - x) <= 0.5001; }
      MC_EXPECT(c, ok, "AsUint8", Str(k) << " " << absl::StrCat(u));
      MC_EXPECT(c, k.AsPackedUint32RGBA(o) == (uint32_t(u.r) << 24 | uint32_t(u.g) << 16 | uint32_t(u.b) << 8 | u.a), "packed", Str(k));
    }
    for (ColorSpace t : {ColorSpace::kSrgb, ColorSpace::kDisplayP3}) {
      Color x = k.InColorSpace(t); c.op(1); MC_EXPECT(c, Sane(x) && x.GetColorSpace() == t && x.GetAlphaFloat() == wa, "InColorSpace", Str(k) << " -> " << Str(x));
      if (t == s) MC_EXPECT(c, x == k, "same space", Str(x));
      else MC_EXPECT(c, x != k, "different space", Str(x));
    }
    for (float n : {0.f, 0.5f, 1.f, 2.f, -1.f, kNan, kInf}) { Color x = k.WithAlphaFloat(n); auto y = Lin(x); c.op(1); MC_EXPECT(c, y[0] == l[0] && y[1] == l[1] && y[2] == l[2] && x.GetColorSpace() == s && y[3] == std::min(1.f, std::max(0.f, Z(n))), "WithAlphaFloat", Str(x)); }
    Color cl = k.ClampedToGamut(), sc = k.ScaledToGamut(); auto lc = Lin(cl), ls = Lin(sc); c.op(2);
    MC_EXPECT(c, Sane(cl) && Sane(sc) && lc[3] == wa && ls[3] == wa && cl.GetColorSpace() == s && sc.GetColorSpace() == s, "gamut sane", Str(k) << " scaled " << Str(sc));
    MC_EXPECT(c, cl.IsInGamut() && sc.IsInGamut() && cl.IsNearlyInGamut() && sc.IsNearlyInGamut(), "gamut in", Str(k) << " scaled " << Str(sc));
    double mx = std::max({1.f, l[0], l[1], l[2]}); bool in1 = true, in2 = true;
    for (int i = 0; i < 3; ++i) {
      MC_EXPECT(c, lc[i] == std::min(1.f, std::max(0.f, l[i])), "clamped", Str(k) << " " << Str(cl));
      double want = std::isinf(mx) ? (l[i] == kInf ? 1 : 0) : std::max(0.0, double(l[i])) / mx;
      MC_EXPECT(c, Near(ls[i], want, 1e-6, 1e-44), "scaled", Str(k) << " " << Str(sc));
      in1 &= l[i] >= 0 && l[i] <= 1; in2 &= l[i] >= -kEps && l[i] <= 1 + kEps;
    }
    MC_EXPECT(c, k.IsInGamut() == in1 && k.IsNearlyInGamut() == in2, "IsInGamut", Str(k));
    MC_EXPECT(c, k == k && !(k != k) && k.NearlyEquals(k), "reflexive", Str(k));
    c.eval(20); c.outcome(mc::Hash(ToBits(l[0]), ToBits(l[1]), int(f)));
  }
}
MC_SECTION(bytes, "every byte value x every alpha byte x each channel position x 3 formats x 2 spaces: FromUint8, FromPackedUint32RGBA and FromFloat of n/255 agree, fatal exactly for premultiplied alpha 0, and AsUint8 and the packed form give the bytes back") {
  F f = c.of({F::kLinear, F::kGammaEncoded, F::kPremultipliedAlpha}); ColorSpace s = c.of({ColorSpace::kSrgb, ColorSpace::kDisplayP3}); int ch = c.pick(3); int a = c.pick(256);
  for (int v = 0; v < 256; ++v) {
    uint8_t p[4] = {uint8_t(v / 3), uint8_t(255 - v), uint8_t(v), uint8_t(a)}; std::rotate(p, p + ch, p + 3);
    uint32_t w = uint32_t(p[0]) << 24 | uint32_t(p[1]) << 16 | uint32_t(p[2]) << 8 | p[3]; c.op(3); c.add_states(1);
    if (f == F::kPremultipliedAlpha && a == 0 && (p[0] || p[1] || p[2])) { if (v % 64 == 0) MC_EXPECT(c, mc::DiesOnCheck([&] { Color::FromUint8(p[0], p[1], p[2], p[3], f, s); }) && mc::DiesOnCheck([&] { Color::FromPackedUint32RGBA(w, f, s); }), "fatal", w); continue; }
    Color k = Color::FromUint8(p[0], p[1], p[2], p[3], f, s), q = Color::FromPackedUint32RGBA(w, f, s), fl = Color::FromFloat(p[0] / 255.f, p[1] / 255.f, p[2] / 255.f, p[3] / 255.f, f, s);
    MC_EXPECT(c, k == q && k.NearlyEquals(fl) && k.GetColorSpace() == s, "same", Str(k) << " " << Str(q));
    auto u = k.AsUint8(f);
    MC_EXPECT(c, u.r == p[0] && u.g == p[1] && u.b == p[2] && u.a == p[3] && k.AsPackedUint32RGBA(f) == w, "round trip", Str(k) << " " << absl::StrCat(u) << " from " << w);
    c.eval(3);
  }
}
MC_SECTION(argb, "each byte of a packed ARGB over 256 values x the others from 5 patterns (thorough: all 2^32): fields come from the documented bytes and packing gives the word back") {
  uint32_t hi = c.pick(mc::tier(20, 65536)); auto one = [&](uint32_t w) {
    auto u = UnpackUint32ARGB(w);
    if (u.a != w >> 24 || u.r != (w >> 16 & 255) || u.g != (w >> 8 & 255) || u.b != (w & 255) || PackUint32ARGB(u) != w) c.fail("argb", std::to_string(w)); };
  if (mc::thorough()) { for (uint32_t lo = 0; lo < 65536; ++lo) one(hi << 16 | lo); c.op(131072); c.add_states(65536); return; }
  static const uint32_t pat[] = {0, 0xffffffff, 0x12345678, 0x80808080, 0x01020304}; int sh = hi % 4 * 8; uint32_t base = pat[hi / 4] & ~(255u << sh);
  for (uint32_t v = 0; v < 256; ++v) one(base | v << sh); c.op(512); c.add_states(256);
}
MC_SECTION(equality, "all pairs of colours over 9 channel values, alphas and spaces, and offsets around the tolerance on each channel: equality is exact in channels and space, near-equality is a per-channel bound after conversion to the first colour's space") {
  static const float V[] = {0, 0.5f, 1, -1, 0.25f, 2, 0.3f, 1e-3f, 0.75f}; static const double K[] = {0, 0.5, 0.95, 1.05, 2, -0.5, -0.95, -1.05, -2};
  ColorSpace s = c.of({ColorSpace::kSrgb, ColorSpace::kDisplayP3}), t = c.of({ColorSpace::kSrgb, ColorSpace::kDisplayP3});
  std::array<float, 4> v = {V[c.pick(9)], V[c.pick(9)], V[c.pick(9)], 0.5f}; Color k = Raw(v, s); 
  for (int ch = 0; ch < 4; ++ch) for (double d : K) {
    auto w = v; w[ch] = float(w[ch] + d * kEps); double real = std::fabs(double(w[ch]) - v[ch]); Color o = Raw(w, s).InColorSpace(t); c.op(2); c.add_states(1);
    MC_EXPECT(c, (k == Raw(w, t)) == (s == t && w == v), "exact", Str(k) << " " << d);
    MC_EXPECT(c, (k != Raw(w, t)) == !(k == Raw(w, t)), "not equal", "");
    if (std::fabs(real - kEps) > 0.02 * kEps + (s == t ? 0 : 2e-6)) MC_EXPECT(c, k.NearlyEquals(o) == (real <= kEps), "near", Str(k) << " channel " << ch << " off by " << real << " as " << Str(o));
  }
  MC_EXPECT(c, k.IsNearlyInGamut() == std::all_of(v.begin(), v.begin() + 3, [](float f) { return f >= 0 && f <= 1; }), "nearly", "");
  for (int ch = 0; ch < 3; ++ch) for (float edge : {0.f, 1.f}) for (double d : K) { auto w = std::array<float, 4>{0.5f, 0.5f, 0.5f, 1}; w[ch] = float(edge + d * kEps); Color o = Raw(w, s); c.op(2); MC_EXPECT(c, o.IsInGamut() == (w[ch] >= 0 && w[ch] <= 1) && o.IsNearlyInGamut() == (w[ch] >= -kEps * 1.001 && w[ch] <= 1 + kEps * 1.001), "gamut edge", Str(o)); }
  c.eval(40);
}
MC_SECTION(convert, "conversion of all colours over an 11-value grid: equals the matrices of the primaries in double, there and back nearly equal, near-equality across spaces holds both ways") {
  static const float V[] = {0, 0.1f, 0.25f, 0.5f, 0.75f, 1, 0.9f, -0.2f, 1.5f, 0.01f, 0.33f}; ColorSpace s = c.of({ColorSpace::kSrgb, ColorSpace::kDisplayP3}), t = s == ColorSpace::kSrgb ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb;
  std::array<float, 4> v = {V[c.pick(11)], V[c.pick(11)], V[c.pick(11)], 0.25f}; Color k = Raw(v, s), x = k.InColorSpace(t), y = x.InColorSpace(s); auto l = Lin(x); c.op(2);
  M3 m = Mul(Inv(ToXyz(t)), ToXyz(s)); for (int i = 0; i < 3; ++i) { double w = m[i * 3] * v[0] + m[i * 3 + 1] * v[1] + m[i * 3 + 2] * v[2]; MC_EXPECT(c, std::fabs(l[i] - w) < 1e-5, "value", Str(k) << " -> " << Str(x) << " want " << w); }
  MC_EXPECT(c, k.NearlyEquals(y) && k.NearlyEquals(x) && x.NearlyEquals(k), "near", Str(k) << " " << Str(y)); c.eval(4); c.add_states(1); c.outcome(mc::Hash(ToBits(l[0]), ToBits(l[1])));
}
MC_SECTION(constants, "every named colour, the default colour and all format names") {
  struct N { Color k; uint32_t w; }; const N n[] = {{Color::Black(), 0x000000ff}, {Color::Gray(), 0x2a2a2aff}, {Color::White(), 0xffffffff}, {Color::Transparent(), 0}, {Color::Red(), 0xff0000ff}, {Color::Orange(), 0xffaa00ff}, {Color::Yellow(), 0xffff00ff}, {Color::Green(), 0x00ff00ff}, {Color::Cyan(), 0x00ffffff}, {Color::Blue(), 0x0000ffff}, {Color::LightBlue(), 0x7777ffff}, {Color::Purple(), 0xaa00ffff}, {Color::Magenta(), 0xff00ffff}, {Color::GoogleBlue(), 0x4285f4ff}, {Color::GoogleRed(), 0xea4335ff}, {Color::GoogleYellow(), 0xfbbc04ff}, {Color::GoogleGreen(), 0x34a853ff}, {Color::GoogleGray(), 0x9aa0a6ff}, {Color::GoogleOrange(), 0xfa7b17ff}, {Color::GooglePink(), 0xf439a0ff}, {Color::GooglePurple(), 0xa142f4ff}, {Color::GoogleCyan(), 0x24c1e0ff}, {Color::DefaultDocumentBackground(), 0xfafafaff}, {Color(), 0x000000ff}};
  const N& e = n[c.pick(24)]; c.op(1); c.add_states(1);
  MC_EXPECT(c, e.k.AsPackedUint32RGBA(F::kGammaEncoded) == e.w && e.k.GetColorSpace() == ColorSpace::kSrgb && e.k == Color::FromPackedUint32RGBA(e.w), "named", Str(e.k));
  char buf[128]; auto l = Lin(e.k); snprintf(buf, sizeof buf, "Color({%f, %f, %f, %f}, sRGB)", l[0], l[1], l[2], l[3]); MC_EXPECT(c, Str(e.k) == buf, "string", Str(e.k));
  Color mv = std::move(Color(e.k)), cp; cp = e.k; MC_EXPECT(c, mv == e.k && cp == e.k, "copy", "");
  auto u = e.k.AsUint8(F::kLinear); snprintf(buf, sizeof buf, "RgbaUint8{%d %d %d %d}", u.r, u.g, u.b, u.a); MC_EXPECT(c, absl::StrCat(u) == buf, "uint8 string", absl::StrCat(u));
  auto f = e.k.AsFloat(F::kLinear); snprintf(buf, sizeof buf, "RgbaFloat{%f %f %f %f}", f.r, f.g, f.b, f.a); MC_EXPECT(c, absl::StrCat(f) == buf, "float string", absl::StrCat(f));
  MC_EXPECT(c, absl::StrCat(F::kLinear) == "kLinear" && absl::StrCat(F::kGammaEncoded) == "kGammaEncoded" && absl::StrCat(F::kPremultipliedAlpha) == "kPremultipliedAlpha" && absl::StrCat(F(7)) == "unknown Color::Format 7", "format names", absl::StrCat(F(7)));
}
MC_MAIN()
