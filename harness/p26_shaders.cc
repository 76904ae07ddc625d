// P26: the shader helper functions, translated from the SkSL sources in the current tree, against the CPU encoders.
#include "gen_shaders.inc"
#include "ink/geometry/mesh_packing_types.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "meshmodel.h"
using namespace sksl;
using ink::strokes_internal::StrokeVertex;
namespace H = sksl::helpers;
namespace {
half4 Bytes(int a, int b, int c, int d) { return {a / 255.0f, b / 255.0f, c / 255.0f, d / 255.0f}; }
std::vector<float> Params(AI id, AT type) {  // offset, scale per component, as the stroke packer uses them
  MeshFormat f = id == AI::kPosition ? *MeshFormat::Create({{type, id}}, IF::k16BitUnpacked16BitPacked) : *MeshFormat::Create({{AT::kFloat2Unpacked, AI::kPosition}, {type, id}}, IF::k16BitUnpacked16BitPacked);
  auto p = StrokeVertex::MakeCustomPackingArray(f);
  std::vector<float> r; auto& o = p[p.Size() - 1];
  if (o.has_value()) for (int i = 0; i < o->components.Size(); ++i) { r.push_back(o->components[i].offset); r.push_back(o->components[i].scale); }
  return r;
}
double D(double x) { return x; }
}  // namespace
MC_SECTION(ubyte3, "all 2^24 byte triples of an XY12-packed pair, decoded with 3 unpacking transforms: the two 12-bit integers are recovered exactly") {
  int a = c.pick(256); bool identity = c.flag();
  float4 t = identity ? float4(0, 1, 0, 1) : float4(-7.5f, 0.25f, 100, 0.125f);
  for (int b = 0; b < 256; ++b) for (int d = 0; d < 256; ++d) {
    int x = a << 4 | b >> 4, y = (b & 15) << 8 | d;
    float2 r = H::unpackFloat2PackedIntoUByte3(t, Bytes(a, b, d, 0).xyz);
    double wx = identity ? x : -7.5 + 0.25 * x, wy = identity ? y : 100 + 0.125 * y;
    if (std::abs(r.x - wx) > 0.005 || std::abs(r.y - wy) > 0.005) c.fail("xy12-bytes", std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(d) + " -> " + std::to_string(r.x) + "," + std::to_string(r.y));
  }
  c.op(65536); c.eval(65536); c.add_states(65536); c.outcome(a);
}
MC_SECTION(one_float, "all 2^24 integers of an XY12 pair packed in one float: both 12-bit integers are recovered exactly") {
  int x = c.pick(4096); bool identity = c.flag();
  float4 t = identity ? float4(0, 1, 0, 1) : float4(-7.5f, 0.25f, 100, 0.125f);
  for (int y = 0; y < 4096; ++y) {
    float2 r = H::unpackFloat2PackedIntoFloat(t, float(x * 4096 + y));
    double wx = identity ? x : -7.5 + 0.25 * x, wy = identity ? y : 100 + 0.125 * y;
    if (r.x != float(wx) || r.y != float(wy)) c.fail("xy12-float", std::to_string(x) + "," + std::to_string(y) + " -> " + std::to_string(r.x) + "," + std::to_string(r.y));
  }
  c.op(4096); c.eval(4096); c.add_states(4096); c.outcome(x);
}
MC_SECTION(opacity_and_label, "all 256 packed opacity shifts and labels under both unpackers: decoded values equal the packer's offset + scale * integer; float versions pass values through") {
  int v = c.pick(256); auto po = Params(AI::kOpacityShift, AT::kFloat1PackedIn1UnsignedByte), ps = Params(AI::kSideLabel, AT::kFloat1PackedIn1UnsignedByte), pf = Params(AI::kForwardLabel, AT::kFloat1PackedIn1UnsignedByte);
  MC_EXPECT(c, po.size() == 2 && ps.size() == 2 && pf == ps, "params", po.size() << ps.size());
  if (po.size() != 2 || ps.size() != 2) return;
  for (int x : {0, 17, 255}) for (int y : {0, 128, 255}) {
    float3 p = H::unpackPositionAndOpacityShift(float4(0, 1, 0, 1), Bytes(x, y, 9, v));
    float3 l = H::unpackDerivativeAndLabel(float4(0, 1, 0, 1), Bytes(x, y, 9, v));
    MC_EXPECT(c, std::abs(p.z - (po[0] + D(po[1]) * v)) < 1e-5 && std::abs(p.x - (x * 16 + (y >> 4))) < .005 && std::abs(p.y - ((y & 15) * 256 + 9)) < .005, "opacity", v << " -> " << p.z);
    MC_EXPECT(c, std::abs(l.z - (ps[0] + D(ps[1]) * v)) < 1e-4 && std::abs(l.x - p.x) < .005 && std::abs(l.y - p.y) < .005, "label", v << " -> " << l.z);
    c.op(2);
  }
  float f = (v - 128) * 0.37f;
  float3 p = H::unpackPositionAndOpacityShift(float4(1, 2, 3, 4), float2(5 * 4096 + 6, f)); MC_EXPECT(c, p.x == 11 && p.y == 27 && p.z == f, "opacity-float", f);
  float3 l = H::unpackDerivativeAndLabel(float4(1, 2, 3, 4), float3(f, -f, 9)); MC_EXPECT(c, l.x == f && l.y == -f && l.z == 9, "label-float", f);
  float3 s = H::unpackHSLColorShift(float3(f, 2 * f, 3)); MC_EXPECT(c, s.x == f && s.y == 2 * f && s.z == 3, "hsl-float", f);
  float2 u = H::unpackSurfaceUv(float2(f, 2)); MC_EXPECT(c, u.x == f && u.y == 2, "uv-float", f);
  c.op(4); c.add_states(1);
}
MC_SECTION(hsl, "HSL shifts packed as XYZ10 in four bytes: every first component x second, and every second x third (quick: each third value of the two that are not swept), equals the packer's offset + scale * integer to 1e-4") {
  int x = c.pick(1024); auto p = Params(AI::kColorShiftHsl, AT::kFloat3PackedIn4UnsignedBytes_XYZ10);
  if (p.size() != 6) { c.fail("hsl-params", ""); return; }
  const int step = mc::tier(7, 1);
  for (int y = 0; y < 1024; y += 1) for (int z = (x + y) % step; z < 1024; z += mc::tier(31, 3)) {
    float3 r = H::unpackHSLColorShift(Bytes(x >> 2, (x & 3) << 6 | y >> 4, (y & 15) << 4 | z >> 6, (z & 63) << 2));
    if (std::abs(r.x - (p[0] + D(p[1]) * x)) > 1e-4 || std::abs(r.y - (p[2] + D(p[3]) * y)) > 1e-4 || std::abs(r.z - (p[4] + D(p[5]) * z)) > 1e-4)
      c.fail("hsl", std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + " -> " + std::to_string(r.x) + "," + std::to_string(r.y) + "," + std::to_string(r.z));
    c.add_states(1);
  }
  for (int z = 0; z < 1024; ++z) for (int y : {0, 1, 15, 16, 512, 1023}) {
    float3 r = H::unpackHSLColorShift(Bytes(x >> 2, (x & 3) << 6 | y >> 4, (y & 15) << 4 | z >> 6, (z & 63) << 2));
    if (std::abs(r.z - (p[4] + D(p[5]) * z)) > 1e-4) c.fail("hsl", "z " + std::to_string(z));
  }
  c.op(40000); c.eval(40000); c.outcome(x);
}
MC_SECTION(uv, "surface UV packed as X12 Y20: all u x 512 v and all 2^20 v x 3 u values equal the packer's offset + scale * integer to 1e-6") {
  int x = c.pick(4096); auto p = Params(AI::kSurfaceUv, AT::kFloat2PackedIn4UnsignedBytes_X12_Y20);
  if (p.size() != 4) { c.fail("uv-params", ""); return; }
  auto test = [&](int u, int v) {
    float2 r = H::unpackSurfaceUv(Bytes(u >> 4, (u & 15) << 4 | v >> 16, v >> 8 & 255, v & 255));
    if (std::abs(r.x - (p[0] + D(p[1]) * u)) > 1e-6 || std::abs(r.y - (p[2] + D(p[3]) * v)) > 1e-6) c.fail("uv", std::to_string(u) + "," + std::to_string(v) + " -> " + std::to_string(r.x) + "," + std::to_string(r.y));
    c.add_states(1);
  };
  for (int v = x % 2048; v < 1 << 20; v += mc::tier(2048, 64)) test(x, v);
  for (int v = x << 8; v < (x + 1) << 8; ++v) for (int u : {0, 1365, 4095}) test(u, v);
  c.op(1500); c.eval(1500); c.outcome(x);
}
MC_SECTION(margins, "every integral label from -127 to 127, in pairs: the decoded margins equal StrokeVertex's") {
  int a = int(c.pick(255)) - 127;
  for (int b = -127; b <= 127; ++b) {
    float2 m = H::decodeMargins(float2(a, b));
    double wa = StrokeVertex::Label{float(a)}.DecodeMargin(), wb = StrokeVertex::Label{float(b)}.DecodeMargin();
    MC_EXPECT(c, std::abs(m.x - wa) < 1e-5 && std::abs(m.y - wb) < 1e-5, "margins", a << "," << b << " -> " << m.x << "," << m.y << " want " << wa << "," << wb);
    c.op(1); c.add_states(1);
  }
}
MC_SECTION(small_helpers, "the matrix, rotation, opacity and pixel-outset helpers over small alphabets match their stated meaning") {
  static const float V[] = {0, 1, -1, 2, -0.5f, 3, 0.25f};
  float a = c.of(V), b = c.of(V), d = c.of(V), e = c.of(V);
  mat2 m = H::mat2FromFloat4ColumnMajor(float4(a, b, d, e));
  float2 x = m * float2(1, 0), y = m * float2(0, 1), o = H::orthogonal(float2(a, b));
  MC_EXPECT(c, x.x == a && x.y == b && y.x == d && y.y == e, "mat2", a << b << d << e);
  MC_EXPECT(c, H::matrixDeterminant(m) == a * e - b * d, "det", a << b << d << e);
  MC_EXPECT(c, o.x == -b && o.y == a, "orthogonal", a << " " << b);
  c.op(4); c.add_states(1);
  if (d == 0 && e == 0) for (int i = 0; i <= 64; ++i) {
    float shift = -1 + i / 32.0f, base = 0.125f * (i % 9);
    float w = std::min(1.0, std::max(0.0, (shift + 1.0) * base));
    MC_EXPECT(c, std::abs(H::applyOpacityShift(shift, base) - w) < 1e-6, "opacity-shift", shift << " " << base);
    float px = i / 16.0f, t = H::targetAntialiasingPixelOutset(px), prev = H::targetAntialiasingPixelOutset(px - 1 / 16.0f);
    MC_EXPECT(c, t >= 0.5f - 1e-6 && t <= 0.70711f && t >= prev && (px > 0.5f || t == 0.5f) && (px < 1 || std::abs(t - 0.70711) < 1e-5), "target-outset", px << " -> " << t);
    c.op(2);
  }
}
MC_SECTION(hsl_shift, "applyHSLAndOpacityShift over an RGB grid that includes out-of-range values x hue, saturation, luminosity and opacity shifts: no shift keeps the colour, whole turns are nothing, opposite hue mirrors chroma, saturation -1 gives grey, luminosity moves luma only, luma is kept by hue and saturation, opacity is clamped to [0,1]") {
  static const float C[] = {0, 0.25f, 0.5f, 1, 1.25f, -0.2f};
  float3 rgb(c.of(C), c.of(C), c.of(C));
  auto luma = [](float3 v) { return 0.299 * v.x + 0.587 * v.y + 0.114 * v.z; };
  auto near = [](float3 p, float3 q, double tol) { return std::abs(p.x - q.x) < tol && std::abs(p.y - q.y) < tol && std::abs(p.z - q.z) < tol; };
  auto apply = [&](float h, float s, float l, float o = 0, float a = 0.5f) { c.op(1); return H::applyHSLAndOpacityShift(float3(h, s, l), o, float4(rgb, a)); };
  auto show = [&] { return std::to_string(rgb.x) + "," + std::to_string(rgb.y) + "," + std::to_string(rgb.z); };
  float4 z = apply(0, 0, 0); const double L = luma(rgb);
  MC_EXPECT(c, near(z.rgb, rgb, 0.01) && std::abs(z.a - 0.5) < 1e-6, "no-shift", show() << " -> " << z.x << "," << z.y << "," << z.z << "," << z.w);
  for (float h : {-1.0f, 1.0f}) MC_EXPECT(c, near(apply(h, 0, 0).rgb, z.rgb, 1e-4), "whole-turn", show());
  for (float h : {-0.75f, -0.5f, -0.25f, 0.1f, 0.25f, 0.5f}) {
    float4 r = apply(h, 0, 0), back = apply(h + 1, 0, 0), s2 = apply(h, 1, 0), s0 = apply(h, -1, 0), up = apply(h, 0, 0.25f);
    MC_EXPECT(c, std::abs(luma(r.rgb) - L) < 0.006 && std::abs(luma(s2.rgb) - L) < 0.012, "luma-kept", show() << " hue " << h << ": " << luma(r.rgb) << " want " << L);
    MC_EXPECT(c, near(r.rgb, back.rgb, 1e-4), "hue-periodic", show());
    MC_EXPECT(c, near(s0.rgb, float3(L), 1e-3), "grey", show() << " -> " << s0.x << "," << s0.y << "," << s0.z);
    MC_EXPECT(c, near(up.rgb, float3(r.rgb) + float3(0.25f), 1e-4), "luminosity", show());
    MC_EXPECT(c, near(s2.rgb, float3(L) + 2 * (float3(r.rgb) - float3(L)), 2e-3), "saturation-doubles", show());
    c.eval(4);
  }
  // A third of a turn forward moves a pure primary towards the next one (red to green to blue, hue measured forward).
  if (rgb.x == 1 && rgb.y == 0 && rgb.z == 0) { float4 g = apply(1 / 3.0f, 0, 0); MC_EXPECT(c, g.y > g.x && g.y > g.z, "hue-direction", g.x << "," << g.y << "," << g.z); }
  float3 q = apply(0.5f, 0, 0).rgb; MC_EXPECT(c, near(q, float3(2 * L) - float3(z.rgb), 0.01), "opposite", show());
  for (int i = 0; i <= 16; ++i) for (float base : {0.0f, 0.3f, 1.0f}) { float o = -1 + i / 8.0f; float w = std::min(1.0, std::max(0.0, (o + 1.0) * base)); float4 r = apply(0, 0, 0, o, base); MC_EXPECT(c, std::abs(r.a - w) < 1e-6 && near(r.rgb, z.rgb, 1e-6), "opacity", o << " " << base << " -> " << r.a); }
  c.add_states(100);
}
MC_SECTION(outset, "calculateAntialiasingAndPositionOutset over derivative vectors (magnitudes 1/16 to 64 at 8 directions), labels in every class and margin, and 6 object-to-canvas matrices: pixels per dimension are the transformed edge distances, exterior flags follow the labels, outsets stay within the target and the margin, positions move outward only") {
  static const int dirs[8][2] = {{1, 0}, {3, 4}, {0, 1}, {-3, 4}, {-1, 0}, {-4, -3}, {0, -1}, {4, -3}};
  static const float mats[6][4] = {{1, 0, 0, 1}, {2, 0, 0, 2}, {0, 1, -1, 0}, {1, 0, 0.5f, 1}, {-1, 0, 0, 3}, {0.05f, 0.02f, -0.02f, 0.05f}};
  static const float mags[6] = {0.0625f, 0.3f, 0.75f, 1, 3, 64};
  static const float labels[9] = {0, 1, -1, 2, -32, 64, -64, 127, -127};
  auto& M = mats[c.pick(6)]; int ds = c.pick(8); float ms = mags[c.pick(6)];
  mat2 m = H::mat2FromFloat4ColumnMajor(float4(M[0], M[1], M[2], M[3]));
  auto unit = [](int d) { double n = std::hypot(dirs[d][0], dirs[d][1]); return float2(dirs[d][0] / n, dirs[d][1] / n); };
  auto px = [&](float2 v) { double ox = -v.y, oy = v.x; double tx = M[0] * ox + M[2] * oy, ty = M[1] * ox + M[3] * oy; return std::abs(double(M[0]) * M[3] - double(M[2]) * M[1]) * (double(v.x) * v.x + double(v.y) * v.y) / std::hypot(tx, ty); };
  float2 s = unit(ds) * ms;
  for (int df = 0; df < 8; ++df) for (float mf : mags) {
    float2 f = unit(df) * mf; double ps = px(s), pf = px(f);
    for (float ls : labels) for (float lf : labels) {
      float2 ppd; float4 edge, out;
      float2 move = H::calculateAntialiasingAndPositionOutset(float3(s, ls), float3(f, lf), m, ppd, edge, out);
      c.op(1); c.eval(5);
      auto ctx = [&] { char b[300]; snprintf(b, 300, "side (%g,%g) label %g forward (%g,%g) label %g matrix %g,%g,%g,%g: ppd %g,%g want %g,%g edge %g %g %g %g out %g %g %g %g move %g,%g", s.x, s.y, ls, f.x, f.y, lf, M[0], M[1], M[2], M[3], ppd.x, ppd.y, ps, pf, edge.x, edge.y, edge.z, edge.w, out.x, out.y, out.z, out.w, move.x, move.y); return std::string(b); };
      MC_EXPECT(c, Near(ppd.x, ps, 1e-4, 1e-6) && Near(ppd.y, pf, 1e-4, 1e-6), "pixels-per-dimension", ctx());
      MC_EXPECT(c, edge.x == (ls >= 0) && edge.y == (ls <= 0) && edge.z == (lf >= 0) && edge.w == (lf <= 0), "exterior-flags", ctx());
      double target = H::targetAntialiasingPixelOutset(ppd.x), marg_s = StrokeVertex::Label{ls}.DecodeMargin(), marg_f = StrokeVertex::Label{lf}.DecodeMargin();
      double side_lo = std::min(target, marg_s * ps), side = ps >= 0.5 ? side_lo : ps <= 0.25 ? target : -1, fwd = std::min(target, marg_f * pf), tol = 1e-4 + 1e-4 * target;
      double os = ls < 0 ? out.x : ls > 0 ? out.y : 0, of = lf < 0 ? out.z : lf > 0 ? out.w : 0;
      MC_EXPECT(c, (ls < 0 || std::abs(out.x) < 1e-6) && (ls > 0 || std::abs(out.y) < 1e-6) && (lf < 0 || std::abs(out.z) < 1e-6) && (lf > 0 || std::abs(out.w) < 1e-6), "outset-on-interior-side", ctx());
      MC_EXPECT(c, ls == 0 || (os <= target + tol && os >= side_lo - tol && (side < 0 || std::abs(os - side) < tol)), "side-outset", ctx());
      MC_EXPECT(c, lf == 0 || std::abs(of - fwd) < tol, "forward-outset", ctx());
      // The displacement: the side outset plus the part of the forward outset that the side outset does not already cover.
      double ks = ls == 0 ? 0 : (ls > 0 ? 1 : -1) * os / ps, kf = lf == 0 ? 0 : (lf > 0 ? 1 : -1) * of / pf;
      double sx = ks * s.x, sy = ks * s.y, fx = kf * f.x, fy = kf * f.y, ff = fx * fx + fy * fy, common = ff > 1e-6 ? std::min(1., std::max(0., (sx * fx + sy * fy) / ff)) : -1;
      if (common >= 0 || ff == 0) {
        double k = ff == 0 ? 0 : 1 - common, wx = sx + k * fx, wy = sy + k * fy, t2 = 1e-3 + 1e-3 * (std::hypot(sx, sy) + std::hypot(fx, fy));
        MC_EXPECT(c, std::abs(move.x - wx) < t2 && std::abs(move.y - wy) < t2, "displacement", ctx() << " want " << wx << "," << wy);
      } else MC_EXPECT(c, std::hypot(move.x - sx, move.y - sy) < 2e-3 + 1e-3 * std::hypot(sx, sy), "displacement", ctx());
      MC_EXPECT(c, (ls != 0 || lf != 0) || (move.x == 0 && move.y == 0), "interior-moves", ctx());
    }
  }
  c.add_states(48 * 81); c.add_nontrivial(1);
}
MC_SECTION(coverage, "simulated pixel coverage across strips of widths 0 to 16 px, every position, with full, partial and no outset on each side: between 0 and 1, the anti-aliasing ramp of the documented width at each edge, one in the interior, symmetric and non-decreasing in width") {
  int w16 = c.pick(mc::tier(129, 513)); float W = w16 * mc::tier(0.125f, 0.03125f); bool along = c.flag(); float mul = c.of({1.0f, 0.5f, 0.0f});
  float side = along ? 3.0f : W, T = H::targetAntialiasingPixelOutset(side), P = mul * T; float prev = -1;
  auto cov = [&](float u, bool swap) {
    float4 edge(1, 1, 1, 1), out(0, 0, 0, 0); int k = along ? 2 : 0;
    float uu = swap ? 1 - u : u;
    edge[k] = uu; edge[k + 1] = 1 - uu; out[k] = P * (1 - uu); out[k + 1] = P * uu;
    // The other dimension is interior.
    c.op(1);
    return H::simulatedPixelCoverage(along ? float2(3.0f, W) : float2(W, 3.0f), edge, out);
  };
  for (int i = 0; i <= 256; ++i) {
    float u = i / 256.0f, v = cov(u, false), r = cov(u, true);
    double total = W + 2 * P, dl = total * u / (2 * T), dr = total * (1 - u) / (2 * T), want = std::max(0., std::min(1., dl) + std::min(1., dr) - 1);
    MC_EXPECT(c, v >= 0 && v <= 1, "range", W << " " << u << " -> " << v);
    if (i > 0 && i < 256) MC_EXPECT(c, std::abs(v - want) < 2e-3, "ramp", "width " << W << " along " << along << " outset x" << mul << " at " << u << ": " << v << " want " << want);
    MC_EXPECT(c, std::abs(v - r) < 1e-4, "symmetric", W << " " << u);
    if (i <= 128) { MC_EXPECT(c, v >= prev - 1e-4, "monotone", W << " " << u); prev = v; }
  }
  // All-interior fragments are fully covered at any size, and the two dimensions multiply.
  MC_EXPECT(c, std::abs(H::simulatedPixelCoverage(float2(W, W), float4(1.0f), float4(0.0f)) - 1) < 1e-6, "interior", W);
  float4 e(0.25f, 0.75f, 0.5f, 0.5f), eo(T * .75f, T * .25f, T * .5f, T * .5f);
  float ab = H::simulatedPixelCoverage(float2(side, 5), e, eo), a1 = H::simulatedPixelCoverage(float2(side, 5), float4(0.25f, 0.75f, 1, 1), float4(T * .75f, T * .25f, 0, 0)), b1 = H::simulatedPixelCoverage(float2(side, 5), float4(1, 1, 0.5f, 0.5f), float4(0, 0, T * .5f, T * .5f));
  MC_EXPECT(c, std::abs(ab - a1 * b1) < 1e-4, "product", W << ": " << ab << " " << a1 << " " << b1);
  c.eval(1000); c.add_states(257); c.outcome(mc::Hash(w16, along));
}
MC_MAIN()
