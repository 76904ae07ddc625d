// P45: brush JNI bindings.
extern "C" unsigned long __sanitizer_get_current_allocated_bytes();
#include "fakejvm.h"
#include "strokes_util.h"
#include "ink/brush/easing_function.h"
#include "ink/color/internal/jni/color_jni_helper.h"
#include "mc.h"
using namespace fakejvm; using namespace ink; using EF = EasingFunction; using BP = BrushPaint; using Layer = BP::TextureLayer;
#define J(ret, name, ...) ret Java_androidx_ink_brush_##name(JNIEnv*, jobject __VA_OPT__(,) __VA_ARGS__);
#define JF(name) Java_androidx_ink_brush_##name
extern "C" {
J(jlong, BrushBehavior_nativeCreateEmptyBrushBehavior) J(jlong, BrushBehavior_nativeValidateOrDeleteAndThrow, jlong) J(void, BrushBehavior_nativeFreeBrushBehavior, jlong)
J(void, BrushBehavior_00024SourceNode_nativeAppendSourceNode, jlong, jint, jfloat, jfloat, jint) J(void, BrushBehavior_00024ConstantNode_nativeAppendConstantNode, jlong, jfloat) J(void, BrushBehavior_00024FallbackFilterNode_nativeAppendFallbackFilterNode, jlong, jint)
J(void, BrushBehavior_00024ToolTypeFilterNode_nativeAppendToolTypeFilterNode, jlong, jboolean, jboolean, jboolean, jboolean) J(void, BrushBehavior_00024DampingNode_nativeAppendDampingNode, jlong, jint, jfloat)
J(void, BrushBehavior_00024ResponseNode_nativeAppendResponseNodePredefined, jlong, jint) J(void, BrushBehavior_00024ResponseNode_nativeAppendResponseNodeCubicBezier, jlong, jfloat, jfloat, jfloat, jfloat) J(void, BrushBehavior_00024ResponseNode_nativeAppendResponseNodeSteps, jlong, jint, jint) J(void, BrushBehavior_00024ResponseNode_nativeAppendResponseNodeLinear, jlong, jfloatArray)
J(void, BrushBehavior_00024BinaryOpNode_nativeAppendBinaryOpNode, jlong, jint) J(void, BrushBehavior_00024InterpolationNode_nativeAppendInterpolationNode, jlong, jint) J(void, BrushBehavior_00024TargetNode_nativeAppendTargetNode, jlong, jint, jfloat, jfloat)
J(jlong, BrushTip_nativeCreateBrushTip, jfloat, jfloat, jfloat, jfloat, jfloat, jfloat, jfloat, jfloat, jlong, jint) J(void, BrushTip_nativeAppendBehavior, jlong, jlong) J(void, BrushTip_nativeFreeBrushTip, jlong)
J(jlong, BrushPaint_nativeCreateBrushPaint, jint) J(void, BrushPaint_nativeAppendTextureLayer, jlong, jlong) J(void, BrushPaint_nativeFreeBrushPaint, jlong)
J(jlong, BrushPaint_00024TextureLayer_nativeCreateTextureLayer, jstring, jfloat, jfloat, jfloat, jfloat, jfloat, jfloat, jint, jint, jint, jint, jint, jint) J(void, BrushPaint_00024TextureLayer_nativeFreeTextureLayer, jlong)
J(jlong, BrushCoat_nativeCreateBrushCoat, jlongArray, jlong) J(void, BrushCoat_nativeFreeBrushCoat, jlong) J(jlong, BrushFamily_nativeCreateBrushFamily, jlongArray, jstring, jboolean) J(void, BrushFamily_nativeFreeBrushFamily, jlong)
J(jlong, Brush_nativeCreateBrush, jlong, jfloat, jfloat, jfloat, jfloat, jint, jfloat, jfloat) J(void, Brush_nativeFreeBrush, jlong)
}
namespace {
using zoo::BB;

std::string Str(const auto& x) { return absl::StrCat(x); }
bool Same(const auto& a, const auto& b) { return Str(a) == Str(b); }
template <typename T> T& At(jlong p) { return *reinterpret_cast<T*>(p); }
// Runs `f` twice and returns how many more bytes are in use after the second time than before it.
template <typename F> long Leaked(F f) { f(); long before = __sanitizer_get_current_allocated_bytes(); f(); return (long)__sanitizer_get_current_allocated_bytes() - before; }
jlongArray Longs(Vm& vm, const std::vector<jlong>& v) { Obj* o = vm.make("[J"); o->l = v; return static_cast<jlongArray>(vm.ref(o)); }
jfloatArray Floats(Vm& vm, const std::vector<float>& v) { Obj* o = vm.make("[F"); o->f = v; return static_cast<jfloatArray>(vm.ref(o)); }
// Judges how a call that should give `want` left the VM.
std::string Judge(Vm& vm, const absl::Status& want) {
  if (!vm.errors.empty()) return "JNI rules: " + vm.all_errors(); if (!vm.acquired.empty()) return "elements or characters not released";
  if (want.ok()) return vm.pending ? "unexpected exception " + vm.pending->utf : "";
  if (!vm.pending) return "no exception, expected " + want.ToString(); if (!vm.is_a(vm.pending->cls, "java/lang/IllegalArgumentException")) return "exception is a " + vm.pending->cls; if (vm.pending->utf != want.ToString()) return "message is " + vm.pending->utf; return "";
}
// One way to append a node: the call, and the node it describes.
struct NodeCall { std::function<void(Vm&, jlong)> call; BB::Node node; };
const std::vector<NodeCall>& NodeCalls() {
  static const std::vector<NodeCall> v = [] { std::vector<NodeCall> r; auto add = [&](std::function<void(Vm&, jlong)> f, BB::Node n) { r.push_back({f, n}); };
    for (int s = -1; s < 36; ++s) add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024SourceNode_nativeAppendSourceNode)(&vm.env, nullptr, p, s, .25f, 4, s % 3); }, BB::SourceNode{static_cast<BB::Source>(s), static_cast<BB::OutOfRange>(s % 3), {.25f, 4}});
    for (auto [a, b] : std::vector<std::pair<float, float>>{{4, .25f}, {1, 1}, {kNan, 1}, {0, kInf}, {-2, 0}}) for (int o : {0, 2, 3}) add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024SourceNode_nativeAppendSourceNode)(&vm.env, nullptr, p, 2, a, b, o); }, BB::SourceNode{static_cast<BB::Source>(2), static_cast<BB::OutOfRange>(o), {a, b}});
    for (float x : {0.f, -3.5f, kNan, kInf, 1e30f}) add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024ConstantNode_nativeAppendConstantNode)(&vm.env, nullptr, p, x); }, BB::ConstantNode{x});
    for (int i = -1; i < 6; ++i) add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024FallbackFilterNode_nativeAppendFallbackFilterNode)(&vm.env, nullptr, p, i); }, BB::FallbackFilterNode{static_cast<BB::OptionalInputProperty>(i)});
    for (int m = 0; m < 16; ++m) for (int t : {1, 2, 255}) add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024ToolTypeFilterNode_nativeAppendToolTypeFilterNode)(&vm.env, nullptr, p, m & 1 ? t : 0, m & 2 ? t : 0, m & 4 ? t : 0, m & 8 ? t : 0); }, BB::ToolTypeFilterNode{{.unknown = bool(m & 8), .mouse = bool(m & 1), .touch = bool(m & 2), .stylus = bool(m & 4)}});
    for (int i = -1; i < 4; ++i) for (float g : {0.f, .5f, -1.f, kNan}) add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024DampingNode_nativeAppendDampingNode)(&vm.env, nullptr, p, i, g); }, BB::DampingNode{static_cast<BB::DampingSource>(i), g});
    for (int i = -1; i < 9; ++i) add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024ResponseNode_nativeAppendResponseNodePredefined)(&vm.env, nullptr, p, i); }, BB::ResponseNode{{static_cast<EF::Predefined>(i)}});
    for (auto [x1, y1, x2, y2] : std::vector<std::array<float, 4>>{{.1f, -.5f, .75f, 2}, {0, 0, 1, 1}, {1, 2, 0, 4}, {-.1f, 0, .5f, 1}, {.5f, kNan, .5f, 1}, {.5f, 0, 1.5f, 1}, {0, 0, 1, kInf}}) add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024ResponseNode_nativeAppendResponseNodeCubicBezier)(&vm.env, nullptr, p, x1, y1, x2, y2); }, BB::ResponseNode{{EF::CubicBezier{x1, y1, x2, y2}}});
    for (int k : {-1, 0, 1, 2, 7}) for (int q = -1; q < 5; ++q) add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024ResponseNode_nativeAppendResponseNodeSteps)(&vm.env, nullptr, p, k, q); }, BB::ResponseNode{{EF::Steps{k, static_cast<EF::StepPosition>(q)}}});
    for (auto& f : std::vector<std::vector<float>>{{}, {.5f, 2}, {.25f, 1, .75f, -1}, {.25f, 1, .25f, 2, 1, 3}, {.75f, 1, .25f, 2}, {.5f, kNan}, {2, 0}, {0, 1, 0, 2, .5f, 3, 1, 4, 1, 5}}) add([=](Vm& vm, jlong p) { jfloatArray a = Floats(vm, f); JF(BrushBehavior_00024ResponseNode_nativeAppendResponseNodeLinear)(&vm.env, nullptr, p, a); for (size_t i = 0; i < f.size(); ++i) if (!(vm.get(a)->f[i] == f[i]) && f[i] == f[i]) vm.err("array changed"); },
        BB::ResponseNode{{[&] { EF::Linear l; for (size_t i = 0; i + 1 < f.size(); i += 2) l.points.push_back({f[i], f[i + 1]}); return l; }()}});
    for (int i = -1; i < 4; ++i) { add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024BinaryOpNode_nativeAppendBinaryOpNode)(&vm.env, nullptr, p, i); }, BB::BinaryOpNode{static_cast<BB::BinaryOp>(i)}); add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024InterpolationNode_nativeAppendInterpolationNode)(&vm.env, nullptr, p, i); }, BB::InterpolationNode{static_cast<BB::Interpolation>(i)}); }
    for (int i = -1; i < 20; ++i) add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024TargetNode_nativeAppendTargetNode)(&vm.env, nullptr, p, i, -.5f, 1.5f); }, BB::TargetNode{static_cast<BB::Target>(i), {-.5f, 1.5f}});
    for (auto [a, b] : std::vector<std::pair<float, float>>{{2, .5f}, {1, 1}, {kNan, 1}, {0, kInf}}) add([=](Vm& vm, jlong p) { JF(BrushBehavior_00024TargetNode_nativeAppendTargetNode)(&vm.env, nullptr, p, 0, a, b); }, BB::TargetNode{static_cast<BB::Target>(0), {a, b}});
    return r; }();
  return v;
}
const char* kUris[] = {"", "ink://ink/texture:paper", "/texture:canvas-b", "not a uri", "ink://ink/brush-family:pen:2", "/texture:\xc3\xa9", "ink:///texture:x"};
struct LayerArgs { const char* uri = "ink://ink/texture:paper"; float f[6] = {2, 3, .25f, .5f, 1, .75f}; int e[6] = {1, 1, 0, 1, 2, 3}; };
jlong CreateLayer(Vm& vm, const LayerArgs& a) { auto& f = a.f; auto& e = a.e; return JF(BrushPaint_00024TextureLayer_nativeCreateTextureLayer)(&vm.env, nullptr, vm.str(a.uri), f[0], f[1], f[2], f[3], f[4], f[5], e[0], e[1], e[2], e[3], e[4], e[5]); }
absl::StatusOr<Layer> WantLayer(const LayerArgs& a) {
  auto uri = Uri::Parse(a.uri); if (!uri.ok()) return uri.status(); auto& f = a.f; auto& e = a.e; Layer l; l.color_texture_uri = *uri; l.size = {f[0], f[1]}; l.offset = {f[2], f[3]}; l.rotation = Angle::Radians(f[4]); l.opacity = f[5];
  l.size_unit = static_cast<BP::TextureSizeUnit>(e[0]); l.origin = static_cast<BP::TextureOrigin>(e[1]); l.mapping = static_cast<BP::TextureMapping>(e[2]); l.wrap_x = static_cast<BP::TextureWrap>(e[3]); l.wrap_y = static_cast<BP::TextureWrap>(e[4]); l.blend_mode = static_cast<BP::BlendMode>(e[5]);
  if (auto s = brush_internal::ValidateBrushPaintTextureLayer(l); !s.ok()) return s; return l;
}
struct TipArgs { float f[8] = {.5f, 2, .25f, -.5f, .75f, 2.5f, .6f, 0}; jlong ms = 0; };
jlong CreateTip(Vm& vm, const TipArgs& a, int count) { auto& f = a.f; return JF(BrushTip_nativeCreateBrushTip)(&vm.env, nullptr, f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], a.ms, count); }
BrushTip WantTip(const TipArgs& a) { auto& f = a.f; BrushTip t; t.scale = {f[0], f[1]}; t.corner_rounding = f[2]; t.slant = Angle::Radians(f[3]); t.pinch = f[4]; t.rotation = Angle::Radians(f[5]); t.opacity_multiplier = f[6]; t.particle_gap_distance_scale = f[7]; t.particle_gap_duration = Duration32::Millis(a.ms); return t; }
}  // namespace

MC_SECTION(tips, "every pair of the 9 numbers of a tip set to every pair of 10 values in, at and out of their ranges: a tip with exactly those fields or an IllegalArgumentException with the message of the C++ rule; nothing leaks") {
  TipArgs a; static const std::vector<float> k = {0, 1, .5f, -.25f, 2, 2.5f, 1.5707964f, kNan, kInf, -kInf}; int i = c.pick(9), j = c.pick(9); c.assume(i < j); auto set = [&](int w, float x) { if (w == 8) a.ms = std::isfinite(x) ? (jlong)(x * 1000) : x > 0 ? INT64_MAX : -5; else a.f[w] = x; }; set(i, c.of(k)); set(j, c.of(k));
  BrushTip want = WantTip(a); auto st = brush_internal::ValidateBrushTip(want); std::string bad; c.op(1);
  long leak = Leaked([&] { Vm vm; jlong p = CreateTip(vm, a, 2); bad = Judge(vm, st); if (st.ok() && bad.empty()) { if (!(At<BrushTip>(p) == want)) bad = "tip is " + Str(At<BrushTip>(p)); JF(BrushTip_nativeFreeBrushTip)(&vm.env, nullptr, p); } });
  MC_EXPECT(c, bad.empty(), "tip", Str(want) << ": " << bad); MC_EXPECT(c, leak == 0, "tip-leak", Str(want) << ": " << leak << " bytes"); c.eval(2); c.state(mc::Hash(i, j, st.ok()));
}
MC_SECTION(nodes, "every node call (about 260: all kinds, enumerators and two beyond, ranges, curves), alone and followed by each other one: the behavior holds exactly the nodes described in order, validation keeps it or deletes it and throws with the message of the C++ rule") {
  auto& N = NodeCalls(); int n = N.size(), i = c.pick(n), j = (int)c.pick(n + 1) - 1; if (j >= 0 && !mc::thorough()) c.assume((i * 31 + j) % 5 == 0);
  std::vector<const NodeCall*> v{&N[i]}; if (j >= 0) v.push_back(&N[j]); BB want; for (auto* x : v) want.nodes.push_back(x->node); std::string bad; c.op(v.size() + 2); auto st = brush_internal::ValidateBrushBehavior(want);
  long leak = Leaked([&] { Vm vm; jlong p = JF(BrushBehavior_nativeCreateEmptyBrushBehavior)(&vm.env, nullptr); if (!At<BB>(p).nodes.empty()) bad = "new behavior is not empty"; for (auto* x : v) x->call(vm, p);
    if (!Same(At<BB>(p), want) || At<BB>(p).nodes.size() != want.nodes.size()) bad = "behavior is " + Str(At<BB>(p)); if (bad.empty()) bad = Judge(vm, absl::OkStatus()); jlong q = JF(BrushBehavior_nativeValidateOrDeleteAndThrow)(&vm.env, nullptr, p); if (bad.empty()) bad = Judge(vm, st); if (st.ok()) { if (q != p) bad = "other pointer"; JF(BrushBehavior_nativeFreeBrushBehavior)(&vm.env, nullptr, p); } });
  MC_EXPECT(c, bad.empty(), "behavior", Str(want) << ": " << bad); MC_EXPECT(c, leak == 0, "behavior-leak", Str(want) << ": " << leak << " bytes"); c.eval(2); c.state(mc::Hash(i, j, st.ok()));
}
MC_SECTION(behaviors, "all sequences of up to 4 calls that append nodes of a valid program (a source, a curve, an operator, a target, a constant, an interpolation) to a behavior, and up to 3 behaviors appended to a tip and freed before or after: the behavior is valid when the C++ rule says so, and the tip holds copies in order") {
  auto& N = NodeCalls(); static const std::vector<int> pickable = [&] { std::vector<int> r; std::set<size_t> kinds; for (int pass = 0; pass < 2; ++pass) for (size_t i = 0; i < N.size(); ++i) if (brush_internal::ValidateBrushBehaviorNode(N[i].node).ok()) { size_t key = N[i].node.index() * 2 + pass; if (pass == 1 && (r.empty() || i == (size_t)r[std::min(r.size() - 1, N[i].node.index())])) continue; if (kinds.insert(key).second) r.push_back(i); } return r; }();
  std::vector<int> prog; int n = 1 + c.pick(mc::tier(3, 4)); for (int i = 0; i < n; ++i) prog.push_back(pickable[c.pick(std::min<int>(pickable.size(), mc::tier(12, 18)))]); BB want; for (int i : prog) want.nodes.push_back(N[i].node); auto st = brush_internal::ValidateBrushBehavior(want); int copies = c.pick(3); bool early = c.flag(); std::string bad; c.op(n + copies);
  TipArgs ta; BrushTip wt = WantTip(ta); long leak = Leaked([&] { Vm vm; jlong p = JF(BrushBehavior_nativeCreateEmptyBrushBehavior)(&vm.env, nullptr); for (int i : prog) N[i].call(vm, p); JF(BrushBehavior_nativeValidateOrDeleteAndThrow)(&vm.env, nullptr, p); bad = Judge(vm, st); if (!st.ok() || !bad.empty()) return;
    jlong e = JF(BrushBehavior_nativeCreateEmptyBrushBehavior)(&vm.env, nullptr); NodeCalls()[2].call(vm, e); jlong t = CreateTip(vm, ta, copies); wt.behaviors.clear(); for (int i = 0; i < copies; ++i) { JF(BrushTip_nativeAppendBehavior)(&vm.env, nullptr, t, i == 1 ? e : p); wt.behaviors.push_back(i == 1 ? At<BB>(e) : want); }
    if (early) { JF(BrushBehavior_nativeFreeBrushBehavior)(&vm.env, nullptr, p); JF(BrushBehavior_nativeFreeBrushBehavior)(&vm.env, nullptr, e); } if (!(At<BrushTip>(t) == wt)) bad = "tip is " + Str(At<BrushTip>(t)); JF(BrushTip_nativeFreeBrushTip)(&vm.env, nullptr, t); if (!early) { if (!(At<BB>(p) == want)) bad = "behavior changed"; JF(BrushBehavior_nativeFreeBrushBehavior)(&vm.env, nullptr, p); JF(BrushBehavior_nativeFreeBrushBehavior)(&vm.env, nullptr, e); } if (bad.empty()) bad = Judge(vm, absl::OkStatus()); });
  MC_EXPECT(c, bad.empty(), "behavior", Str(want) << ": " << bad); MC_EXPECT(c, leak == 0, "behavior-leak", Str(want) << ": " << leak << " bytes"); c.eval(2); c.state(mc::Hash(st.ok(), copies, early, n));
}
MC_SECTION(layers, "7 URIs, every pair of the 6 numbers of a layer set to every pair of 8 values, and every pair of the 6 enumerations set to every pair of values up to two beyond the last: a layer with exactly those fields, or an IllegalArgumentException with the message of the C++ rule; nothing leaks") {
  LayerArgs a; int mode = c.pick(3); static const std::vector<float> k = {0, 1, .5f, -.25f, 2, kNan, kInf, 1e30f};
  if (mode == 0) { a.uri = kUris[c.pick(7)]; a.f[c.pick(6)] = c.of(k); a.e[c.pick(6)] = c.pick(3); } else { int i = c.pick(6), j = c.pick(6); c.assume(i < j); if (mode == 1) { a.f[i] = c.of(k); a.f[j] = c.of(k); } else { a.e[i] = (int)c.pick(15) - 1; a.e[j] = (int)c.pick(15) - 1; } }
  auto want = WantLayer(a); std::string bad; c.op(1); std::string show = absl::StrCat(a.uri, " ", a.f[0], ",", a.f[1], " ", a.f[2], ",", a.f[3], " ", a.f[4], " ", a.f[5], " enums ", a.e[0], a.e[1], a.e[2], a.e[3], a.e[4], " ", a.e[5]);
  long leak = Leaked([&] { Vm vm; jlong p = CreateLayer(vm, a); bad = Judge(vm, want.status()); if (want.ok() && bad.empty()) { if (!(At<Layer>(p) == *want)) bad = "layer is " + Str(At<Layer>(p)); JF(BrushPaint_00024TextureLayer_nativeFreeTextureLayer)(&vm.env, nullptr, p); } });
  MC_EXPECT(c, bad.empty(), "layer", show << ": " << bad); MC_EXPECT(c, leak == 0, "layer-leak", show << ": " << leak << " bytes"); c.eval(2); c.state(mc::Hash(mode, want.ok()));
}
MC_SECTION(assemble, "all paints of up to 3 out of 4 layers, coats of up to 3 out of 3 tips, families of up to 3 coats with 4 URIs and both input models: each holds copies of its parts in order, or the C++ rule's exception is thrown, also when the parts are freed first; nothing leaks") {
  std::vector<int> ls, ts, cs; for (int i = c.pick(4); i > 0; --i) ls.push_back(c.pick(4)); for (int i = c.pick(3); i > 0; --i) ts.push_back(c.pick(3)); for (int i = c.pick(4); i > 0; --i) cs.push_back(c.pick(2)); int hint = c.pick(2) * 3, uri = c.pick(mc::tier(2, 4)); bool v2 = c.flag(), early = c.flag(); static const char* kFam[] = {"", "ink://ink/brush-family:pen:2", "/texture:x", "bad uri"}; if (!mc::thorough() && uri == 1) uri = 1 + (ls.size() + cs.size()) % 3; c.op(4);
  static const LayerArgs kL[4] = {{}, {.uri = "/texture:canvas-b", .f = {1, 1, 0, 0, 0, 1}, .e = {0, 0, 0, 0, 0, 5}}, {.e = {2, 2, 1, 2, 1, 0}}, {.f = {4, 1, 1, 0, -1, 0}}}; static const TipArgs kT[3] = {{}, {.f = {1, 1, 1, 0, 0, 0, 1, 0}}, {.f = {1, .5f, 0, 1, 0, -1, 2, 1.5f}, .ms = 40}};
  for (auto& l : kL) if (!WantLayer(l).ok()) { c.fail("bad-test-layer", WantLayer(l).status().ToString()); return; }
  BP wp; absl::Status pst; for (int l : ls) { wp.texture_layers.push_back(*WantLayer(kL[l])); } std::vector<BrushCoat> coats; BrushCoat wc; for (int t : ts) wc.tips.push_back(WantTip(kT[t])); wc.paint = wp; BrushCoat plain{.tips = {WantTip(kT[1])}}; for (int k : cs) coats.push_back(k ? plain : wc);
  BrushFamily::InputModel model = BrushFamily::SpringModelV1(); if (v2) model = BrushFamily::SpringModelV2(); auto wf = BrushFamily::Create(coats, kFam[uri], model); std::string bad;
  long leak = Leaked([&] { Vm vm; std::vector<jlong> lp, tp; bad = ""; auto flag = [&](std::string s) { if (bad.empty()) bad = s; }; for (auto& l : kL) lp.push_back(CreateLayer(vm, l)); for (auto& t : kT) tp.push_back(CreateTip(vm, t, 0)); flag(Judge(vm, absl::OkStatus()));
    jlong p = JF(BrushPaint_nativeCreateBrushPaint)(&vm.env, nullptr, hint); BP so_far; for (size_t i = 0; i < ls.size(); ++i) { JF(BrushPaint_nativeAppendTextureLayer)(&vm.env, nullptr, p, lp[ls[i]]); so_far.texture_layers.push_back(wp.texture_layers[i]); flag(Judge(vm, brush_internal::ValidateBrushPaint(so_far))); vm.pending = nullptr; } if (!(At<BP>(p) == wp)) flag("paint is " + Str(At<BP>(p)));
    auto free_parts = [&] { for (jlong l : lp) JF(BrushPaint_00024TextureLayer_nativeFreeTextureLayer)(&vm.env, nullptr, l); for (jlong t : tp) JF(BrushTip_nativeFreeBrushTip)(&vm.env, nullptr, t); };
    std::vector<jlong> tv; for (int t : ts) tv.push_back(tp[t]); jlongArray ta = Longs(vm, tv); jlong q = JF(BrushPaint_nativeCreateBrushPaint)(&vm.env, nullptr, 0), k0 = JF(BrushCoat_nativeCreateBrushCoat)(&vm.env, nullptr, ta, p), k1 = JF(BrushCoat_nativeCreateBrushCoat)(&vm.env, nullptr, Longs(vm, {tp[1]}), q); flag(Judge(vm, absl::OkStatus())); if (vm.get(ta)->l != tv) flag("array of tips changed");
    auto free_paints = [&] { JF(BrushPaint_nativeFreeBrushPaint)(&vm.env, nullptr, p); JF(BrushPaint_nativeFreeBrushPaint)(&vm.env, nullptr, q); }; if (early) { free_parts(); free_paints(); }
    auto eq = [](const BrushCoat& a, const BrushCoat& b) { return a.tips == b.tips && a.paint == b.paint; }; if (!eq(At<BrushCoat>(k0), wc) || !eq(At<BrushCoat>(k1), plain)) flag("coat is " + Str(At<BrushCoat>(k0)));
    std::vector<jlong> cv; for (int k : cs) cv.push_back(k ? k1 : k0); jlong f = JF(BrushFamily_nativeCreateBrushFamily)(&vm.env, nullptr, Longs(vm, cv), vm.str(kFam[uri]), v2 ? 1 : 0); flag(Judge(vm, wf.status())); vm.pending = nullptr;
    if (early) { JF(BrushCoat_nativeFreeBrushCoat)(&vm.env, nullptr, k0); JF(BrushCoat_nativeFreeBrushCoat)(&vm.env, nullptr, k1); }
    if (wf.ok()) { auto& g = At<BrushFamily>(f); if (g.GetCoats().size() != coats.size() || g.GetUri() != wf->GetUri() || g.GetInputModel().index() != (v2 ? 1u : 0u)) flag("family is " + Str(g)); else for (size_t i = 0; i < coats.size(); ++i) if (!eq(g.GetCoats()[i], coats[i])) flag("coat of family is " + Str(g.GetCoats()[i]));
      JF(BrushFamily_nativeFreeBrushFamily)(&vm.env, nullptr, f); }
    if (!early) { free_parts(); free_paints(); JF(BrushCoat_nativeFreeBrushCoat)(&vm.env, nullptr, k0); JF(BrushCoat_nativeFreeBrushCoat)(&vm.env, nullptr, k1); } flag(Judge(vm, absl::OkStatus())); });
  std::string show = absl::StrCat("layers ", ls.size(), " tips ", ts.size(), " coats ", cs.size(), " uri '", kFam[uri], "'"); MC_EXPECT(c, bad.empty(), "assemble", show << ": " << bad); MC_EXPECT(c, leak == 0, "assemble-leak", show << ": " << leak << " bytes"); c.eval(8); c.state(mc::Hash(wf.ok(), ls.size(), ts.size(), cs.size()));
}
MC_SECTION(brushes, "every pair of the color components, size and epsilon set to every pair of 9 values, both color spaces and 3 unknown ones: a brush with exactly the family, color, size and epsilon, or the C++ rule's exception; unknown color spaces are fatal") {
  static const std::vector<float> k = {0, 1, .5f, .25f, -.25f, 2, 1e-9f, kNan, kInf}; float f[6] = {.2f, .4f, .6f, .8f, 5, .125f}; int i = c.pick(6), j = c.pick(6); c.assume(i < j); f[i] = c.of(k); f[j] = c.of(k); int cs = c.of({0, 1, 2, -1, 7}), tip = c.pick(2); c.op(1);
  auto fam = BrushFamily::Create(zoo::Tip(tip), {}, "ink://ink/brush-family:pen:2"); auto run = [&](Vm& vm) { return JF(Brush_nativeCreateBrush)(&vm.env, nullptr, reinterpret_cast<jlong>(&*fam), f[0], f[1], f[2], f[3], cs, f[4], f[5]); };
  if (cs != 0 && cs != 1) { Vm vm; MC_EXPECT(c, mc::DiesOnCheck([&] { run(vm); }), "unknown-color-space", cs); c.eval(); return; }
  Color color = Color::FromFloat(f[0], f[1], f[2], f[3], Color::Format::kGammaEncoded, cs ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb); auto want = Brush::Create(*fam, color, f[4], f[5]); std::string bad;
  long leak = Leaked([&] { Vm vm; jlong p = run(vm); bad = Judge(vm, want.status()); if (want.ok() && bad.empty()) { auto& b = At<Brush>(p); if (b.GetSize() != f[4] || b.GetEpsilon() != f[5] || !(b.GetColor() == color) || b.CoatCount() != 1 || !(b.GetCoats()[0].tips[0] == zoo::Tip(tip)) || b.GetFamily().GetUri() != fam->GetUri()) bad = "brush is " + Str(b); JF(Brush_nativeFreeBrush)(&vm.env, nullptr, p); } });
  MC_EXPECT(c, bad.empty(), "brush", "color " << f[0] << "," << f[1] << "," << f[2] << "," << f[3] << " space " << cs << " size " << f[4] << " epsilon " << f[5] << ": " << bad); MC_EXPECT(c, leak == 0, "brush-leak", leak); c.eval(2); c.state(mc::Hash(want.ok(), cs));
}
MC_MAIN()
