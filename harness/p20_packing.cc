// P20: packing and unpacking of vertex attributes.
#include <set>
#include "ink/geometry/internal/mesh_packing.h"
#include "ink/geometry/mesh_packing_types.h"
#include "meshmodel.h"
using namespace ink::mesh_internal;
using ink::MeshAttributeBounds; using ink::MeshAttributeCodingParams; using ink::SmallArray;
namespace {
const std::vector<TypeInfo>& Packed() { static const std::vector<TypeInfo> v = [] { std::vector<TypeInfo> r; for (auto& t : Types()) if (!t.bits.empty()) r.push_back(t); return r; }(); return v; }
MeshAttributeCodingParams Params(int n, float off, float scale) { MeshAttributeCodingParams p; p.components = SmallArray<MeshAttributeCodingParams::ComponentCodingParams, 4>(n, {off, scale}); return p; }
SmallArray<float, 4> Floats(const std::vector<float>& v) { return SmallArray<float, 4>(absl::MakeSpan(v.data(), v.size())); }
std::string Show(const std::vector<uint32_t>& v) { std::string s; for (auto x : v) s += std::to_string(x) + " "; return s; }
bool RoundTrip(const TypeInfo& t, const std::vector<uint32_t>& v, const MeshAttributeCodingParams& one) {
  std::vector<float> f(v.begin(), v.end());
  std::vector<std::byte> bytes(t.packed, std::byte{0xAA});
  PackAttribute(t.type, one, Floats(f), absl::MakeSpan(bytes));
  auto want = Layout(t, v);
  if (std::memcmp(bytes.data(), want.data(), t.packed) != 0) return false;
  auto ints = UnpackIntegersFromPackedAttribute(t.type, bytes);
  auto fl = UnpackAttribute(t.type, one, bytes);
  if (ints.Size() != t.comps || fl.Size() != t.comps) return false;
  for (int i = 0; i < t.comps; ++i) if (ints[i] != v[i] || fl[i] != f[i]) return false;
  return true;
}
}
MC_SECTION(every_component_value, "every packed type, every component, every integer that component can hold, the other components at zero, all ones and two bit patterns: bytes follow the documented layout and unpack to the same integers and values") {
  auto& t = c.of(Packed()); int k = c.pick(t.comps); int pat = c.pick(4);
  uint32_t n = 1u << t.bits[k], step = 1024, blk = c.pick((n + step - 1) / step);
  auto one = Params(t.comps, 0, 1);
  for (uint32_t x = blk * step; x < std::min(n, (blk + 1) * step); ++x) {
    std::vector<uint32_t> v(t.comps);
    for (int i = 0; i < t.comps; ++i) { uint32_t m = (1u << t.bits[i]) - 1; v[i] = i == k ? x : (pat == 0 ? 0 : pat == 1 ? m : pat == 2 ? 0xA5A5A5u & m : 0x39C6B1u & m); }
    if (!RoundTrip(t, v, one)) c.fail("layout", std::string(t.name) + " " + Show(v));
    c.op(3); c.eval(3); c.add_states(1); c.add_nontrivial(1);
  }
}
MC_SECTION(component_pairs, "every packed type with components of at most 12 bits (quick: at most 8): all pairs of values of each two components") {
  auto& t = c.of(Packed()); int i = c.pick(t.comps), j = c.pick(t.comps); c.assume(i < j);
  c.assume(t.bits[i] <= mc::tier(8, 12) && t.bits[j] <= mc::tier(8, 12));
  uint32_t x = c.pick(1u << t.bits[i]); auto one = Params(t.comps, 0, 1);
  for (uint32_t y = 0; y < 1u << t.bits[j]; ++y) {
    std::vector<uint32_t> v(t.comps, 1); v[i] = x; v[j] = y;
    if (!RoundTrip(t, v, one)) c.fail("layout", std::string(t.name) + " " + Show(v));
  }
  c.op(3u << t.bits[j]); c.eval(3u << t.bits[j]); c.add_states(1u << t.bits[j]);
}
MC_SECTION(unpacked_bits, "every unpacked type, all float patterns of the tier in each component: stored and read back bit for bit") {
  TierFloatsBlock(c, [&](uint32_t b) {
    float f = FromBits(b); if (!std::isfinite(f)) return;
    for (auto& t : Types()) if (t.bits.empty()) {
      std::vector<float> v(t.comps, 1.5f); v[b % t.comps] = f;
      std::vector<std::byte> bytes(t.packed);
      PackAttribute(t.type, Params(t.comps, 0, 1), Floats(v), absl::MakeSpan(bytes));
      bool ok = std::memcmp(bytes.data(), v.data(), t.packed) == 0;
      auto r = UnpackAttribute(t.type, Params(t.comps, 0, 1), bytes), q = ReadFloatsFromUnpackedAttribute(t.type, bytes);
      for (int i = 0; i < t.comps; ++i) ok = ok && ToBits(r[i]) == ToBits(v[i]) && ToBits(q[i]) == ToBits(v[i]);
      if (!ok) c.fail("unpacked", std::string(t.name) + " " + std::to_string(f));
    }
    c.op(12); c.eval(12);
  });
}
MC_SECTION(coding_params, "all ordered pairs of bounds from 40 floats (all magnitudes, subnormals, extremes) for every packed type: an error exactly when the range overflows, otherwise a valid transform under which bounds and values between survive packing within half a step") {
  static const std::vector<float> a = [] { std::vector<float> r; for (float f : SpecialFloats()) if (std::isfinite(f)) r.push_back(f); for (float f : {1e-40f, 3e-42f, 1e-44f, 5e-39f, 1e-37f, 4e-36f, -1e-40f, 1000.5f, 1000.25f}) r.push_back(f); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }();
  auto& t = c.of(Packed()); float lo = c.of(a), hi = c.of(a); c.assume(lo <= hi);
  c.state(mc::Hash(t.name, lo, hi)); c.op();
  MeshAttributeBounds b; b.minimum = Floats(std::vector<float>(t.comps, lo)); b.maximum = Floats(std::vector<float>(t.comps, hi));
  auto p = ComputeCodingParams(t.type, b);
  float range = hi - lo;
  MC_EXPECT(c, p.ok() == std::isfinite(range), "range", t.name << " " << lo << ".." << hi);
  if (!p.ok()) return;
  MC_EXPECT(c, p->components.Size() == t.comps, "size", t.name);
  for (int i = 0; i < t.comps; ++i) MC_EXPECT(c, std::isfinite(p->components[i].offset) && std::isfinite(p->components[i].scale) && p->components[i].scale > 0, "params", t.name << " " << lo << ".." << hi << " scale " << p->components[i].scale);
  if (lo == hi) for (int i = 0; i < t.comps; ++i) MC_EXPECT(c, p->components[i].offset == lo, "offset", lo);
  for (int k = 0; k <= 16; ++k) {
    float v = k == 0 ? lo : k == 16 ? hi : std::clamp(float(lo + double(range) * k / 16), lo, hi);
    std::vector<std::byte> bytes(t.packed);
    PackAttribute(t.type, *p, Floats(std::vector<float>(t.comps, v)), absl::MakeSpan(bytes)); c.op(2);
    auto r = UnpackAttribute(t.type, *p, bytes);
    auto ints = UnpackIntegersFromPackedAttribute(t.type, bytes);
    for (int i = 0; i < t.comps; ++i) {
      double step = double(range) / double((1u << t.bits[i]) - 1);
      double slop = 4e-7 * std::max(std::fabs(double(lo)), std::fabs(double(hi))) + 3e-45;
      MC_EXPECT(c, std::fabs(double(r[i]) - v) <= .5001 * step + slop, "error", t.name << " " << lo << ".." << hi << " value " << v << " component " << i << " got " << r[i]);
      if (k == 0) MC_EXPECT(c, ints[i] == 0, "minimum", t.name << " " << lo << ".." << hi << " got " << ints[i]);
    }
  }
  c.outcome(mc::Hash(p->components[0].scale));
}
MC_SECTION(custom_affine, "every packed type, offsets x scales x integer values including the extremes: values within half a step pack to the nearest integer") {
  auto& t = c.of(Packed()); float off = c.of({0.f, 1.f, -3.5f, 1000.f, -1e-3f}), sc = c.of({1.f, .5f, 2.f, 1.f / 1024, 64.f}); int k = c.pick(t.comps);
  uint32_t m = (1u << t.bits[k]) - 1;
  uint32_t x = c.of(std::vector<uint32_t>{0, 1, 2, 3, m / 3, m / 2, m / 2 + 1, m - 2, m - 1, m}); double frac = c.of({-.375, 0., .375});
  double v = off + (double(x) + frac) * sc; float vf = float(v);
  c.assume(double(vf) == v);
  auto p = Params(t.comps, off, sc);
  bool in = !(x == 0 && frac < 0) && !(x == m && frac > 0);
  c.assume(in);
  std::vector<float> f(t.comps, off); f[k] = vf;
  c.assume(double(float(vf - off)) == v - off);
  std::vector<std::byte> bytes(t.packed);
  PackAttribute(t.type, p, Floats(f), absl::MakeSpan(bytes)); c.op();
  auto ints = UnpackIntegersFromPackedAttribute(t.type, bytes);
  for (int i = 0; i < t.comps; ++i) MC_EXPECT(c, ints[i] == (i == k ? x : 0), "nearest", t.name << " off " << off << " scale " << sc << " value " << vf << " got " << ints[i]);
  c.state(mc::Hash(t.name, off, sc, k, x, frac)); c.outcome(mc::Hash(x));
}
MC_SECTION(params_array, "formats of 1..3 attributes x custom transforms (absent, valid, too few components, zero/negative/NaN/infinite scale or offset, unable to reach the bounds) x bounds: documented errors, custom transforms used as given") {
  int n = 1 + c.pick(mc::tier(2, 3));
  std::vector<std::pair<AT, AI>> at; std::vector<std::optional<MeshAttributeCodingParams>> cu; bool ok = true;
  AttributeBoundsArray b(n); std::vector<int> kind(n);
  for (int i = 0; i < n; ++i) {
    AT t = i == 0 ? c.of({AT::kFloat2Unpacked, AT::kFloat2PackedIn1Float, AT::kFloat2PackedIn4UnsignedBytes_X12_Y20}) : c.of({AT::kFloat1Unpacked, AT::kFloat1PackedIn1UnsignedByte, AT::kFloat3PackedIn4UnsignedBytes_XYZ10, AT::kFloat4PackedIn3Floats});
    at.push_back({t, AI(i)}); int nc = Find(t)->comps; bool packed = !Find(t)->bits.empty();
    int bk = c.pick(3); float lo = bk == 0 ? 0 : bk == 1 ? -kMax : 5, hi = bk == 0 ? 10 : bk == 1 ? kMax : 5;
    b[i].minimum = Floats(std::vector<float>(nc, lo)); b[i].maximum = Floats(std::vector<float>(nc, hi));
    kind[i] = c.pick(8); std::optional<MeshAttributeCodingParams> q;
    int maxv = 1 << 30; if (packed) for (int w : Find(t)->bits) maxv = std::min(maxv, (1 << w) - 1);
    switch (kind[i]) {
      case 1: q = Params(nc, -1, 1); break;
      case 2: q = Params(nc == 1 ? 2 : nc - 1, 0, 1); break;
      case 3: q = Params(nc, 0, 1); q->components[nc - 1].scale = 0; break;
      case 4: q = Params(nc, 0, 1); q->components[nc - 1].scale = -1; break;
      case 5: q = Params(nc, kNan, 1); break;
      case 6: q = Params(nc, 0, kInf); break;
      case 7: q = Params(nc, 4.9f, 1); break;
    }
    if (q) {
      if (!packed) ok = false;
      else if (kind[i] >= 2 && kind[i] <= 6) ok = false;
      else { double off = kind[i] == 1 ? -1 : 4.9; ok = ok && std::round(lo - off) >= 0 && std::round(hi - off) <= maxv; }
    } else if (packed && bk == 1) ok = false;
    cu.push_back(q);
  }
  int sz = c.pick(3);
  auto f = *MeshFormat::Create(at, IF::k32BitUnpacked16BitPacked);
  if (sz == 1) { cu.push_back(std::nullopt); ok = false; }
  if (sz == 2) { if (n < 3) { AttributeBoundsArray b2(n + 1); for (int i = 0; i < n; ++i) b2[i] = b[i]; b = b2; } else b.Resize(n - 1); ok = false; }
  auto r = ComputeCodingParamsArray(f, b, cu); c.op();
  std::string d; for (int i = 0; i < n; ++i) d += std::string(Find(at[i].first)->name) + " kind " + std::to_string(kind[i]) + " ";
  MC_EXPECT(c, r.ok() == ok, "accepts", d << " accepted=" << r.ok() << " sz " << sz);
  if (r.ok()) { MC_EXPECT(c, r->Size() == n, "size", d); for (int i = 0; i < n; ++i) for (int k = 0; k < Find(at[i].first)->comps; ++k) {
      auto& q = (*r)[i].components[k];
      if (cu[i]) MC_EXPECT(c, q.offset == cu[i]->components[k].offset && q.scale == cu[i]->components[k].scale, "custom", d);
      else if (Find(at[i].first)->bits.empty()) MC_EXPECT(c, q.offset == 0 && q.scale == 1, "identity", d);
      else MC_EXPECT(c, q.offset == b[i].minimum[k] && q.scale > 0, "default", d);
    } }
  c.state(mc::Hash(d, sz)); c.outcome(mc::Hash(r.ok()));
}
MC_SECTION(triangle_indices, "both strides, buffers of 1..3 triangles, each written at each place with each triple from 6 index values: reads return exactly what was last written and neighbours are untouched") {
  int stride = c.flag() ? 2 : 4, n = 1 + c.pick(3); uint32_t at = c.pick(n);
  std::vector<uint32_t> alpha = {0, 1, 255, 256, 65535}; if (stride == 4) alpha.push_back(0xFFFFFFFEu), alpha.push_back(65536);
  std::vector<std::byte> data(size_t(3) * stride * n);
  for (int i = 0; i < n; ++i) { std::vector<uint32_t> v = {uint32_t(10 + i), uint32_t(20 + i), uint32_t(30 + i)}; WriteTriangleIndicesToByteArray(i, stride, v, data); }
  std::vector<uint32_t> w = {c.of(alpha), c.of(alpha), c.of(alpha)};
  WriteTriangleIndicesToByteArray(at, stride, w, data); c.op(n + 1);
  for (uint32_t i = 0; i < uint32_t(n); ++i) { auto r = ReadTriangleIndicesFromByteArray(i, stride, data); for (int k = 0; k < 3; ++k) MC_EXPECT(c, r[k] == (i == at ? w[k] : uint32_t(10 * (k + 1) + i)), "indices", "stride " << stride << " triangle " << i << " got " << r[k]); }
  c.state(mc::Hash(stride, n, at, w[0], w[1], w[2]));
}
MC_SECTION(partitions, "all lists of up to 3 (thorough: 4) triangles over 5 vertices, at most 3..5 vertices per partition: partitions hold distinct vertices within the limit, all used, and their triangles are the input triangles in order") {
  int n = c.pick(mc::tier(4, 5)); uint64_t lim = 3 + c.pick(3); IF x = c.flag() ? IF::k16BitUnpacked16BitPacked : IF::k32BitUnpacked16BitPacked;
  int stride = x == IF::k16BitUnpacked16BitPacked ? 2 : 4;
  std::vector<std::byte> data(size_t(3) * stride * n); std::vector<std::array<uint32_t, 3>> in;
  for (int i = 0; i < n; ++i) { uint32_t q = c.pick(60); // distinct ordered triples of 5 vertices
    uint32_t a = q / 12, b = q / 3 % 4, d = q % 3; std::vector<uint32_t> pool = {0, 1, 2, 3, 4}; std::vector<uint32_t> v;
    v.push_back(pool[a]); pool.erase(pool.begin() + a); v.push_back(pool[b]); pool.erase(pool.begin() + b); v.push_back(pool[d]);
    if (n == mc::tier(3, 4) && i == 0) c.assume(v[0] == 0 && v[1] == 1 && v[2] == 2);  // up to renaming of vertices
    WriteTriangleIndicesToByteArray(i, stride, v, data); in.push_back({v[0], v[1], v[2]}); }
  auto parts = PartitionTriangles(data, x, lim); c.op();
  size_t k = 0;
  for (auto& p : parts) {
    MC_EXPECT(c, p.vertex_indices.size() <= lim, "limit", p.vertex_indices.size());
    std::set<uint32_t> s(p.vertex_indices.begin(), p.vertex_indices.end()), used;
    MC_EXPECT(c, s.size() == p.vertex_indices.size(), "distinct", "");
    MC_EXPECT(c, n == 0 || !p.triangles.empty(), "empty-partition", "");
    for (auto& t : p.triangles) { for (int i = 0; i < 3; ++i) { MC_EXPECT(c, k < in.size() && t[i] < p.vertex_indices.size() && p.vertex_indices[t[i]] == in[k][i], "triangle", k); used.insert(t[i]); } ++k; }
    MC_EXPECT(c, used.size() == s.size(), "unused", "");
  }
  MC_EXPECT(c, k == in.size(), "all", k);
  c.state(mc::Hash(n, lim, stride, in.size() ? in.back()[0] * 25 + in.back()[1] * 5 + in.back()[2] : 0, n > 1 ? in[1][0] * 25 + in[1][1] * 5 + in[1][2] : 0));
  c.outcome(mc::Hash(parts.size(), parts[0].vertex_indices.size()));
}
MC_MAIN()
