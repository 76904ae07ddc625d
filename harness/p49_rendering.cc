// P49: bitmaps, and the mesh specification handed to the Java canvas renderer.
#include "fakejvm.h"
#include "spec_formats.h"
#include "ink/brush/brush_paint.h"
#include "ink/rendering/bitmap.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "mc.h"
using namespace fakejvm; using namespace ink; using Spec = skia_common_internal::MeshSpecificationData; using PF = Bitmap::PixelFormat;
extern "C" {
void Java_androidx_ink_rendering_android_canvas_internal_CanvasMeshRenderer_fillSkiaMeshSpecData(JNIEnv*, jclass, jlong, jboolean, jintArray, jintArray, jobjectArray, jintArray, jintArray, jobjectArray, jintArray, jintArray, jobjectArray, jobjectArray, jobjectArray);
jboolean Java_androidx_ink_rendering_android_canvas_internal_CanvasMeshRenderer_nativeIsMeshFormatRenderable(JNIEnv*, jclass, jlong, jboolean);
}
#define FILL Java_androidx_ink_rendering_android_canvas_internal_CanvasMeshRenderer_fillSkiaMeshSpecData
#define RENDERABLE Java_androidx_ink_rendering_android_canvas_internal_CanvasMeshRenderer_nativeIsMeshFormatRenderable
// A bitmap that claims any amount of pixel data without having it.
struct Claim : Bitmap { size_t n; static inline uint8_t byte; Claim(int w, int h, PF f, size_t n) : Bitmap(w, h, f, Color::Format::kLinear, ColorSpace::kDisplayP3), n(n) {} absl::Span<const uint8_t> GetPixelData() const override { return {&byte, n}; } };
MC_SECTION(bitmaps, "every width and height of 14 values including negative and huge ones, valid and invalid pixel formats, and data of the exact size, next to it, of a quarter or fourfold, or of the size truncated to 32 bits: a bitmap is valid exactly if its dimensions are positive, its format is known and its data are four bytes for each pixel; the first thing wrong is reported with its value") {
  static const int D[] = {1, 2, 3, 7, 0, -1, -2, 255, 32768, 46341, 65536, 1 << 30, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}; int w = c.of(D), h = c.of(D), f = c.pick(3) - 1;
  long long ww = w, hh = h; unsigned __int128 want = w > 0 && h > 0 ? (unsigned __int128)(ww) * hh * 4 : 0; size_t exact = (size_t)want; int k = c.pick(7); size_t n = k == 0 ? exact : k == 1 ? exact + 1 : k == 2 ? exact - 1 : k == 3 ? exact / 4 : k == 4 ? exact * 4 : k == 5 ? (uint32_t)exact : 0; if (w <= 0 || h <= 0) c.assume(k == 0 || k == 6 || k == 1);
  Claim b(w, h, static_cast<PF>(f), n); auto s = rendering_internal::ValidateBitmap(b); c.op(1); c.eval(4); std::string m(s.message());
  MC_EXPECT(c, s.ok() == (w > 0 && h > 0 && f == 0 && n == exact), "valid", w << "x" << h << " format " << f << " with " << n << " bytes: " << m);
  if (!s.ok()) {
    MC_EXPECT(c, s.code() == absl::StatusCode::kInvalidArgument, "code", m); auto has = [&](auto x) { return m.find(std::to_string(x)) != std::string::npos; };
    MC_EXPECT(c, w <= 0 ? m.find("width") != std::string::npos && has(w) : h <= 0 ? m.find("height") != std::string::npos && has(h) : f != 0 ? m.find("pixel_format") != std::string::npos && has(f) : has(exact) && has(n) && has(w) && has(h) && m.find("kRgba8888") != std::string::npos, "message", m);
  }
  MC_EXPECT(c, b.width() == w && b.height() == h && b.pixel_format() == static_cast<PF>(f) && b.color_format() == Color::Format::kLinear && b.color_space() == ColorSpace::kDisplayP3, "fields", "");
  c.outcome(mc::Hash(s.ok(), w > 0, h > 0, f));
}
MC_SECTION(pixel_data, "every bitmap of up to 3x3 pixels with data of up to 40 bytes in each colour space and format: it returns the data it was given, also as a copy, and is valid exactly with four bytes for each pixel; unknown formats are printed by number and have no size") {
  int w = 1 + c.pick(3), h = 1 + c.pick(3), n = c.pick(41); auto cf = static_cast<Color::Format>(c.pick(3)); auto cs = static_cast<ColorSpace>(c.pick(2)); std::vector<uint8_t> d; for (int i = 0; i < n; ++i) d.push_back(uint8_t(i * 37 + w));
  VectorBitmap b(w, h, PF::kRgba8888, cf, cs, d), e = b; c.op(1); c.eval(5);
  auto same = [&](const Bitmap& x) { auto p = x.GetPixelData(); return std::vector<uint8_t>(p.begin(), p.end()) == d && x.width() == w && x.height() == h && x.pixel_format() == PF::kRgba8888 && x.color_format() == cf && x.color_space() == cs; };
  MC_EXPECT(c, same(b) && same(e), "data", n); VectorBitmap m = std::move(e); MC_EXPECT(c, same(m), "moved", n);
  MC_EXPECT(c, rendering_internal::ValidateBitmap(b).ok() == (n == w * h * 4), "valid", w << "x" << h << " with " << n);
  int f = int(c.pick(5)) - 2; if (f == 0) MC_EXPECT(c, PixelFormatBytesPerPixel(PF::kRgba8888) == 4 && absl::StrCat(PF::kRgba8888) == "kRgba8888", "format", "");
  else MC_EXPECT(c, mc::DiesOnCheck([&] { PixelFormatBytesPerPixel(static_cast<PF>(f)); }) && absl::StrCat(static_cast<PF>(f)) == "PixelFormat(" + std::to_string(f) + ")", "unknown-format", f);
}
static std::vector<MeshFormat> Formats() {
  using T = MeshFormat::AttributeType; using I = MeshFormat::AttributeId; std::vector<MeshFormat> r = SpecFormats(); r.push_back(strokes_internal::StrokeVertex::FullMeshFormat());
  for (int packed = 0; packed < 2; ++packed) for (int m = 0; m < 128; ++m) {
    std::vector<std::pair<T, I>> all = packed ? std::vector<std::pair<T, I>>{{T::kFloat1PackedIn1UnsignedByte, I::kOpacityShift}, {T::kFloat3PackedIn4UnsignedBytes_XYZ10, I::kColorShiftHsl}, {T::kFloat2PackedIn3UnsignedBytes_XY12, I::kSideDerivative}, {T::kFloat1PackedIn1UnsignedByte, I::kSideLabel}, {T::kFloat2PackedIn3UnsignedBytes_XY12, I::kForwardDerivative}, {T::kFloat1PackedIn1UnsignedByte, I::kForwardLabel}, {T::kFloat2PackedIn4UnsignedBytes_X12_Y20, I::kSurfaceUv}}
      : std::vector<std::pair<T, I>>{{T::kFloat1Unpacked, I::kOpacityShift}, {T::kFloat3Unpacked, I::kColorShiftHsl}, {T::kFloat2Unpacked, I::kSideDerivative}, {T::kFloat1Unpacked, I::kSideLabel}, {T::kFloat2Unpacked, I::kForwardDerivative}, {T::kFloat1Unpacked, I::kForwardLabel}, {T::kFloat2Unpacked, I::kSurfaceUv}};
    std::vector<std::pair<T, I>> a{{packed ? T::kFloat2PackedIn3UnsignedBytes_XY12 : T::kFloat2Unpacked, I::kPosition}}; for (int k = 0; k < 7; ++k) if (m >> k & 1) a.push_back(all[k]);
    if (m % 3 == 1) std::rotate(a.begin(), a.begin() + 1, a.end()); else if (m % 3 == 2) std::reverse(a.begin(), a.end());
    auto f = MeshFormat::Create(a, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked); if (f.ok()) r.push_back(*f);
  }
  return r;
}
MC_SECTION(canvas, "every mesh format of the position and any of the seven other stroke attributes, packed or not and in three orders, the stroke's own formats and the full one, as a packed stroke or a stroke in progress, with every two calls in a row into fresh arrays: Java receives exactly the specification C++ computes, unused types, offsets, ids and indices are -1 and unused names stay empty, whatever was computed before; a format that cannot be drawn throws its error and writes nothing") {
  static const std::vector<MeshFormat> fs = Formats(); constexpr int A = Spec::kMaxAttributes, V = Spec::kMaxVaryings, U = Spec::kMaxUniforms; int calls = 1 + c.pick(2);
  for (int k = 0; k < calls; ++k) {
    const MeshFormat& f = calls == 2 && !mc::thorough() ? fs[k ? c.pick(9) : c.pick((unsigned)fs.size())] : fs[c.pick((unsigned)fs.size())]; bool packed = calls == 2 && k == 0 ? true : c.flag(); jboolean flag = packed ? (k ? 1 : 255) : 0;
    if (calls == 2 && mc::thorough()) c.assume(k == 0 || packed);
    Vm vm; auto ints = [&](int n) { Obj* o = vm.make("[I"); o->i.assign(n, 12345); return o; }; auto strs = [&](int n) { Obj* o = vm.make("[Ljava/lang/String;"); o->o.assign(n, nullptr); return o; };
    Obj *at = ints(A), *ao = ints(A), *an = strs(A), *vs = ints(1), *vt = ints(V), *vn = strs(V), *ui = ints(U), *uu = ints(U), *un = strs(U), *vsh = strs(1), *fsh = strs(1);
    auto I = [&](Obj* o) { return static_cast<jintArray>(vm.ref(o)); }; auto O = [&](Obj* o) { return static_cast<jobjectArray>(vm.ref(o)); };
    auto want = packed ? Spec::CreateForStroke(f) : Spec::CreateForInProgressStroke(f); jlong p = reinterpret_cast<jlong>(&f);
    jboolean ok = RENDERABLE(&vm.env, nullptr, p, flag); MC_EXPECT(c, (ok != 0) == want.ok() && !vm.pending, "renderable", int(ok));
    FILL(&vm.env, nullptr, p, flag, I(at), I(ao), O(an), I(vs), I(vt), O(vn), I(ui), I(uu), O(un), O(vsh), O(fsh)); c.op(2); c.eval(12);
    MC_EXPECT(c, vm.errors.empty(), "jni-rules", vm.all_errors()); auto text = [&](Obj* a, int i) { jobject o = a->o[i]; return o ? vm.get(o)->utf : std::string("<null>"); };
    if (!want.ok()) {
      bool clean = true; for (Obj* o : {at, ao, vs, vt, ui, uu}) for (int x : o->i) clean &= x == 12345; for (Obj* o : {an, vn, un, vsh, fsh}) for (size_t i = 0; i < o->o.size(); ++i) clean &= o->o[i] == nullptr;
      MC_EXPECT(c, vm.pending && vm.pending->cls == "java/lang/IllegalArgumentException" && vm.pending->utf == want.status().ToString(), "exception", (vm.pending ? vm.pending->cls + ": " + vm.pending->utf : "none")); MC_EXPECT(c, clean, "written-on-error", ""); continue;
    }
    MC_EXPECT(c, !vm.pending, "unexpected-exception", (vm.pending ? vm.pending->utf : ""));
    for (int i = 0; i < A; ++i) { bool in = i < want->attributes.Size(); MC_EXPECT(c, at->i[i] == (in ? int(want->attributes[i].type) : -1), "attribute-type", i << ": " << at->i[i]); MC_EXPECT(c, ao->i[i] == (in ? want->attributes[i].offset : -1), "attribute-offset", i << " of " << want->attributes.Size() << ": " << ao->i[i]); MC_EXPECT(c, text(an, i) == (in ? std::string(want->attributes[i].name) : "<null>"), "attribute-name", i << ": " << text(an, i)); }
    MC_EXPECT(c, vs->i[0] == want->vertex_stride, "stride", vs->i[0]);
    for (int i = 0; i < V; ++i) { bool in = i < want->varyings.Size(); MC_EXPECT(c, vt->i[i] == (in ? int(want->varyings[i].type) : -1) && text(vn, i) == (in ? std::string(want->varyings[i].name) : "<null>"), "varying", i << ": " << vt->i[i] << " " << text(vn, i)); }
    for (int i = 0; i < U; ++i) { bool in = i < want->uniforms.Size(); MC_EXPECT(c, ui->i[i] == (in ? int(want->uniforms[i].id) : -1) && uu->i[i] == (in ? want->uniforms[i].unpacking_attribute_index.value_or(-1) : -1) && text(un, i) == (in ? std::string(Spec::GetUniformName(want->uniforms[i].id)) : "<null>"), "uniform", i << ": " << ui->i[i] << " " << uu->i[i] << " " << text(un, i)); }
    MC_EXPECT(c, text(vsh, 0) == want->vertex_shader_source && text(fsh, 0) == want->fragment_shader_source && !want->vertex_shader_source.empty(), "shaders", "");
    c.state(mc::Hash(want->vertex_stride, want->attributes.Size(), packed));
  }
}
MC_MAIN()
