// P46: strokes JNI bindings.
#include <jni.h>
#include <cmath>
#include <cstring>
extern "C" unsigned long __sanitizer_get_current_allocated_bytes();
#include "fakejvm.h"
#include "strokes_util.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/internal/jni/stroke_input_jni_helper.h"
#include "ink/strokes/stroke.h"
#include "mc.h"
using namespace fakejvm; using namespace ink;
#define J(ret, name, ...) ret Java_androidx_ink_strokes_##name(JNIEnv*, jobject __VA_OPT__(,) __VA_ARGS__);
#define JF(name) Java_androidx_ink_strokes_##name
#define SB(name) Java_androidx_ink_strokes_StrokeInputBatchNative_##name
#define MB(name) Java_androidx_ink_strokes_MutableStrokeInputBatchNative_##name
#define IP(name) Java_androidx_ink_strokes_InProgressStroke_native##name
extern "C" {
J(jlong, StrokeInputBatchNative_createNativePeer) J(void, StrokeInputBatchNative_freeNativePeer, jlong) J(jint, StrokeInputBatchNative_getSize, jlong) J(void, StrokeInputBatchNative_populate, jlong, jint, jobject, jclass) J(jlong, StrokeInputBatchNative_getDurationMillis, jlong) J(jint, StrokeInputBatchNative_getToolType, jlong)
J(jfloat, StrokeInputBatchNative_getStrokeUnitLengthCm, jlong) J(jboolean, StrokeInputBatchNative_hasStrokeUnitLength, jlong) J(jboolean, StrokeInputBatchNative_hasPressure, jlong) J(jboolean, StrokeInputBatchNative_hasTilt, jlong) J(jboolean, StrokeInputBatchNative_hasOrientation, jlong)
J(jstring, MutableStrokeInputBatchNative_appendSingle, jlong, jint, jfloat, jfloat, jlong, jfloat, jfloat, jfloat, jfloat) J(jstring, MutableStrokeInputBatchNative_appendBatch, jlong, jlong) J(void, MutableStrokeInputBatchNative_clear, jlong) J(jlong, MutableStrokeInputBatchNative_copy, jlong)
J(jlong, InProgressStroke_nativeCreateInProgressStroke) J(void, InProgressStroke_nativeFreeInProgressStroke, jlong) J(void, InProgressStroke_nativeClear, jlong) J(void, InProgressStroke_nativeStart, jlong, jlong) J(jstring, InProgressStroke_nativeEnqueueInputs, jlong, jlong, jlong) J(jstring, InProgressStroke_nativeUpdateShape, jlong, jlong) J(void, InProgressStroke_nativeFinishInput, jlong)
J(jboolean, InProgressStroke_nativeIsInputFinished, jlong) J(jboolean, InProgressStroke_nativeNeedsUpdate, jlong) J(jlong, InProgressStroke_nativeCopyToStroke, jlong) J(jint, InProgressStroke_nativeInputCount, jlong) J(jint, InProgressStroke_nativeRealInputCount, jlong) J(jint, InProgressStroke_nativePredictedInputCount, jlong)
J(jint, InProgressStroke_nativeFillInputs, jlong, jlong, jint, jint) J(void, InProgressStroke_nativeGetAndOverwriteInput, jlong, jobject, jint, jclass) J(jint, InProgressStroke_nativeBrushCoatCount, jlong) J(void, InProgressStroke_nativeGetMeshBounds, jlong, jint, jobject) J(void, InProgressStroke_nativeFillUpdatedRegion, jlong, jobject) J(void, InProgressStroke_nativeResetUpdatedRegion, jlong)
J(jint, InProgressStroke_nativeGetOutlineCount, jlong, jint) J(jint, InProgressStroke_nativeGetOutlineVertexCount, jlong, jint, jint) J(void, InProgressStroke_nativeFillOutlinePosition, jlong, jint, jint, jint, jobject) J(jint, InProgressStroke_nativeGetMeshPartitionCount, jlong, jint) J(jint, InProgressStroke_nativeGetVertexCount, jlong, jint, jint)
J(jobject, InProgressStroke_nativeGetRawVertexData, jlong, jint, jint) J(jobject, InProgressStroke_nativeGetRawTriangleIndexData, jlong, jint, jint) J(jint, InProgressStroke_nativeGetTriangleIndexStride, jlong, jint) J(jlong, InProgressStroke_nativeAllocMeshFormatCopy, jlong, jint, jint)
J(jlong, StrokeJni_createWithBrushAndInputs, jlong, jlong) J(jlong, StrokeJni_createWithBrushInputsAndShape, jlong, jlong, jlong) J(jlong, StrokeJni_allocShallowCopyOfInputs, jlong) J(jlong, StrokeJni_allocShallowCopyOfShape, jlong) J(void, StrokeJni_free, jlong)
}
namespace {
const std::string kTool = "androidx/ink/brush/InputToolType", kInput = "androidx/ink/strokes/StrokeInput", kBox = "androidx/ink/geometry/BoxAccumulator", kVec = "androidx/ink/geometry/MutableVec";
// One input as Java knows it: whole milliseconds, plain floats.
struct In { int tool; float x, y; jlong ms; float unit_cm, pressure, tilt, orientation; };
StrokeInput Native(const In& i) { return {.tool_type = static_cast<StrokeInput::ToolType>(i.tool), .position = {i.x, i.y}, .elapsed_time = Duration32::Millis(i.ms), .stroke_unit_length = PhysicalDistance::Centimeters(i.unit_cm), .pressure = i.pressure, .tilt = Angle::Radians(i.tilt), .orientation = Angle::Radians(i.orientation)}; }
std::string Show(const In& i) { return absl::StrCat("tool ", i.tool, " (", i.x, ",", i.y, ") ", i.ms, " ms unit ", i.unit_cm, " pressure ", i.pressure, " tilt ", i.tilt, " orientation ", i.orientation); }
bool EqIn(const In& a, const In& b) { return a.tool == b.tool && Eq(a.x, b.x) && Eq(a.y, b.y) && a.ms == b.ms && Eq(a.unit_cm, b.unit_cm) && Eq(a.pressure, b.pressure) && Eq(a.tilt, b.tilt) && Eq(a.orientation, b.orientation); }
struct Java { Vm vm; Java() {
  vm.has_method = [](const std::string& c, const std::string& n, const std::string& s) { static const std::set<std::string> k = {kTool + ".from(I)L" + kTool + ";", kTool + ".valueI", kInput + ".update(FFJL" + kTool + ";FFFF)V", kInput + ".getToolType()L" + kTool + ";", kInput + ".getX()F", kInput + ".getY()F", kInput + ".getElapsedTimeMillis()J", kInput + ".getStrokeUnitLengthCm()F", kInput + ".getPressure()F", kInput + ".getTiltRadians()F", kInput + ".getOrientationRadians()F",
      kBox + ".reset()L" + kBox + ";", kBox + ".overwriteFrom(FFFF)L" + kBox + ";", kVec + ".setX(F)V", kVec + ".setY(F)V"}; return k.count(c + "." + n + s) > 0; };
  vm.handler = [this](Call& c) { jvalue r{}; Obj* o = c.self; auto v = [&](int i) { return c.args[i].f; };
    if (c.name == "from") { Obj* t = vm.make(kTool); t->num["value"] = c.args[0].i; r.l = vm.ref(t); }
    else if (c.name == "update") { Obj* t = vm.get(c.args[3].l); o->num = {{"x", v(0)}, {"y", v(1)}, {"ms", (double)c.args[2].j}, {"tool", t ? t->num["value"] : -99}, {"unit", v(4)}, {"pressure", v(5)}, {"tilt", v(6)}, {"orientation", v(7)}}; ++updates; }
    else if (c.name == "getToolType") { Obj* t = vm.make(kTool); t->num["value"] = o->num["tool"]; r.l = vm.ref(t); } else if (c.name == "getX") r.f = o->num["x"]; else if (c.name == "getY") r.f = o->num["y"]; else if (c.name == "getElapsedTimeMillis") r.j = (jlong)o->num["ms"]; else if (c.name == "getStrokeUnitLengthCm") r.f = o->num["unit"]; else if (c.name == "getPressure") r.f = o->num["pressure"]; else if (c.name == "getTiltRadians") r.f = o->num["tilt"]; else if (c.name == "getOrientationRadians") r.f = o->num["orientation"];
    else if (c.name == "setX") o->num["x"] = v(0); else if (c.name == "setY") o->num["y"] = v(0);
    else if (c.name == "reset") { o->num = {{"empty", 1}}; r.l = vm.ref(o); } else if (c.name == "overwriteFrom") { o->num = {{"x0", v(0)}, {"y0", v(1)}, {"x1", v(2)}, {"y1", v(3)}}; r.l = vm.ref(o); }
    return r; };
  }
  int updates = 0;
  Obj* input(const In& i) { Obj* o = vm.make(kInput); o->num = {{"x", i.x}, {"y", i.y}, {"ms", (double)i.ms}, {"tool", i.tool}, {"unit", i.unit_cm}, {"pressure", i.pressure}, {"tilt", i.tilt}, {"orientation", i.orientation}}; return o; }
  static In read(Obj* o) { auto& n = o->num; return {(int)n["tool"], (float)n["x"], (float)n["y"], (jlong)n["ms"], (float)n["unit"], (float)n["pressure"], (float)n["tilt"], (float)n["orientation"]}; }
  // The text of a returned string, or "" for null.
  std::string text(jstring s) { return s ? vm.get(s)->utf : ""; }
  std::string state() { if (!vm.errors.empty()) return "JNI rules: " + vm.all_errors(); if (vm.pending) return "exception " + vm.pending->cls; if (!vm.acquired.empty()) return "elements not released"; return ""; }
};
std::string Want(const absl::Status& s) { return s.ok() ? "" : s.ToString(); }
// Compares everything Java can see of a batch with a list of inputs; "" or what differs.
std::string Compare(Java& j, jlong p, const std::vector<In>& want) {
  auto& e = j.vm.env; if (SB(getSize)(&e, nullptr, p) != (jint)want.size()) return absl::StrCat("size ", SB(getSize)(&e, nullptr, p), " instead of ", want.size());
  bool any = !want.empty(); jlong dur = any ? want.back().ms - want.front().ms : 0; if (SB(getDurationMillis)(&e, nullptr, p) != dur) return absl::StrCat("duration ", SB(getDurationMillis)(&e, nullptr, p), " ms instead of ", dur);
  if (any && SB(getToolType)(&e, nullptr, p) != want[0].tool) return absl::StrCat("tool ", SB(getToolType)(&e, nullptr, p)); if (!any && SB(getToolType)(&e, nullptr, p) != 0) return "tool of an empty batch";
  float u = any ? want[0].unit_cm : 0; if (!Eq(SB(getStrokeUnitLengthCm)(&e, nullptr, p), u)) return absl::StrCat("unit length ", SB(getStrokeUnitLengthCm)(&e, nullptr, p), " instead of ", u);
  if (SB(hasStrokeUnitLength)(&e, nullptr, p) != (jboolean)(u != 0)) return "hasStrokeUnitLength"; if (SB(hasPressure)(&e, nullptr, p) != (jboolean)(any && want[0].pressure != -1)) return "hasPressure"; if (SB(hasTilt)(&e, nullptr, p) != (jboolean)(any && want[0].tilt != -1)) return "hasTilt"; if (SB(hasOrientation)(&e, nullptr, p) != (jboolean)(any && want[0].orientation != -1)) return "hasOrientation";
  for (size_t i = 0; i < want.size(); ++i) { Obj* o = j.input({9, -7, -7, -7, -7, -7, -7, -7}); int before = j.updates; SB(populate)(&e, nullptr, p, i, j.vm.ref(o), j.vm.jcls(kTool)); if (j.updates != before + 1) return "populate did not update the input once"; if (!EqIn(Java::read(o), want[i])) return absl::StrCat("input ", i, " is ", Show(Java::read(o)), " instead of ", Show(want[i])); }
  return j.state();
}
// The inputs Java can append: three of a plain stroke, three of a stroke with every property, some that break a rule.
const std::vector<In>& Pool() {
  static const std::vector<In> v = {{3, 1, 2, 0, 0, -1, -1, -1}, {3, 4, -2, 16, 0, -1, -1, -1}, {3, 5, 8, 33, 0, -1, -1, -1}, {2, 0, 0, 0, .1f, .5f, .25f, 6}, {2, 1.5f, 7, 7, .1f, 0, 1.5f, 0}, {2, -3, 2, 49, .1f, 1, 0, 3.25f}, {1, 2, 2, 5, 0, -1, -1, -1}, {0, 2, 2, 1, 0, -1, -1, -1},
                                    {3, kInf, 2, 40, 0, -1, -1, -1}, {3, 1, kNan, 40, 0, -1, -1, -1}, {3, 1, 2, -1, 0, -1, -1, -1}, {2, 1, 2, 60, -.1f, .5f, .25f, 6}, {2, 1, 2, 60, .1f, 1.5f, .25f, 6}, {2, 1, 2, 60, .1f, .5f, 2, 6}, {2, 1, 2, 60, .1f, .5f, .25f, 7}, {2, 9, 2, 60, .2f, .5f, .25f, 6}};
  return v;
}
}  // namespace

#ifndef MANY
MC_SECTION(inputs, "every tool type with every pair of 7 numbers of an input set to every pair of 9 values: the native input read from the Java object has exactly those fields, and writing it back updates the object once with the same fields") {
  In in{(int)c.pick(4), 1, 2, 40, .1f, .5f, .25f, 3}; static const std::vector<float> k = {0, 1, -1, .125f, -2.5f, 1e30f, kNan, kInf, 16777217}; int a = c.pick(7), b = c.pick(7); c.assume(a < b); auto set = [&](int w, float x) { switch (w) { case 0: in.x = x; break; case 1: in.y = x; break; case 2: in.ms = std::isfinite(x) ? (jlong)std::lround(std::fmin(x, 4000) * 1000) : 77; break; case 3: in.unit_cm = x; break; case 4: in.pressure = x; break; case 5: in.tilt = x; break; default: in.orientation = x; } }; set(a, c.of(k)); set(b, c.of(k)); c.op(2);
  Java j; Obj* o = j.input(in); StrokeInput n = JObjectToStrokeInput(&j.vm.env, j.vm.ref(o)), w = Native(in); MC_EXPECT(c, j.state().empty(), "read-state", Show(in) << ": " << j.state()); MC_EXPECT(c, n.tool_type == w.tool_type && Eq(n.position.x, w.position.x) && Eq(n.position.y, w.position.y) && Eq(n.elapsed_time.ToSeconds(), w.elapsed_time.ToSeconds()) && Eq(n.stroke_unit_length.ToCentimeters(), w.stroke_unit_length.ToCentimeters()) && Eq(n.pressure, w.pressure) && Eq(n.tilt.ValueInRadians(), w.tilt.ValueInRadians()) && Eq(n.orientation.ValueInRadians(), w.orientation.ValueInRadians()), "read", Show(in) << " read as " << absl::StrCat(n));
  Java j2; Obj* q = j2.input({}); UpdateJObjectInput(&j2.vm.env, n, j2.vm.ref(q), j2.vm.jcls(kTool)); MC_EXPECT(c, j2.state().empty() && j2.updates == 1, "write-state", Show(in) << ": " << j2.state()); MC_EXPECT(c, EqIn(Java::read(q), in), "write", Show(in) << " written as " << Show(Java::read(q)));
  MC_EXPECT(c, ToolTypeToJInt(static_cast<StrokeInput::ToolType>(in.tool)) == in.tool && JIntToToolType(in.tool) == static_cast<StrokeInput::ToolType>(in.tool), "tool", in.tool); c.eval(5); c.state(mc::Hash(in.tool, a, b));
}
MC_SECTION(times, "all pairs of whole milliseconds up to a bound, plus pairs around 12 larger times up to 33 minutes: each input comes back at its time, and the duration of the batch is exactly the difference") {
  static const jlong kBase[] = {1000, 4095, 16383, 16384, 32768, 60000, 262143, 524288, 999999, 1500000, 1800000, 1999000}; bool big = c.flag(); jlong a, b; if (big) { jlong base = kBase[c.pick(12)]; a = c.flag() ? (jlong)c.pick(40) : base + (jlong)c.pick(40); b = base + 40 + c.pick(mc::tier(40, 200)); } else { a = c.pick(mc::tier(260, 1200)); b = c.pick(mc::tier(260, 1200)); c.assume(a <= b); }
  Java j; auto& e = j.vm.env; jlong p = SB(createNativePeer)(&e, nullptr); std::vector<In> want = {{3, 1, 2, a, 0, -1, -1, -1}, {3, 2, 2, b, 0, -1, -1, -1}}; std::string bad; for (auto& i : want) if (auto s = j.text(MB(appendSingle)(&e, nullptr, p, i.tool, i.x, i.y, i.ms, i.unit_cm, i.pressure, i.tilt, i.orientation)); !s.empty()) bad = s; if (bad.empty()) bad = Compare(j, p, want); SB(freeNativePeer)(&e, nullptr, p);
  c.op(3); MC_EXPECT(c, bad.empty(), "times", a << " ms and " << b << " ms: " << bad); c.eval(8); c.state(mc::Hash(big, b - a));
}
MC_SECTION(batches, "all sequences of up to 4 calls on two batches: append one of 16 inputs, append a batch to the other or to itself, clear, copy: null or the exact C++ error comes back, and after each call everything readable matches the inputs accepted so far in both batches; nothing leaks") {
  int depth = 4; std::vector<int> ops; for (int i = 0; i < depth; ++i) ops.push_back(c.pick(16 + 5)); std::string bad; c.op(depth);
  auto run = [&] { Java j; auto& e = j.vm.env; jlong p[2] = {SB(createNativePeer)(&e, nullptr), SB(createNativePeer)(&e, nullptr)}; std::vector<In> model[2]; StrokeInputBatch twin[2]; bad = "";
    for (size_t s = 0; s < ops.size() && bad.empty(); ++s) { int o = ops[s]; std::string got, want;
      if (o < 16) { const In& i = Pool()[o]; absl::Status st = twin[0].Append(Native(i)); got = j.text(MB(appendSingle)(&e, nullptr, p[0], i.tool, i.x, i.y, i.ms, i.unit_cm, i.pressure, i.tilt, i.orientation)); want = Want(st); if (st.ok()) model[0].push_back(i); }
      else if (o == 16) { MB(clear)(&e, nullptr, p[0]); model[0].clear(); twin[0].Clear(); }
      else if (o == 17) { SB(freeNativePeer)(&e, nullptr, p[1]); p[1] = MB(copy)(&e, nullptr, p[0]); model[1] = model[0]; twin[1] = twin[0]; if (p[1] == p[0]) bad = "copy is the batch itself"; }
      else if (o == 18) { std::swap(p[0], p[1]); std::swap(model[0], model[1]); std::swap(twin[0], twin[1]); }
      else { int from = o - 19; absl::Status st = twin[0].Append(StrokeInputBatch(twin[from])); got = j.text(MB(appendBatch)(&e, nullptr, p[0], p[from])); want = Want(st); if (st.ok()) { auto add = model[from]; model[0].insert(model[0].end(), add.begin(), add.end()); } }
      if (got != want && bad.empty()) bad = absl::StrCat("call ", s, " returned '", got, "' instead of '", want, "'"); for (int k = 0; k < 2 && bad.empty(); ++k) if (auto d = Compare(j, p[k], model[k]); !d.empty()) bad = absl::StrCat("after call ", s, " batch ", k, ": ", d); }
    for (jlong q : p) SB(freeNativePeer)(&e, nullptr, q); };
  run(); long before = __sanitizer_get_current_allocated_bytes(); std::string first = bad; bad = std::string(); before = __sanitizer_get_current_allocated_bytes(); if (first.empty()) { run(); bad = std::string(); } long leak = (long)__sanitizer_get_current_allocated_bytes() - before;
  auto show = [&] { std::string s; for (int o : ops) s += absl::StrCat(o, " "); return s; }; MC_EXPECT(c, first.empty(), "batch", show() << ": " << first); MC_EXPECT(c, leak <= 0, "batch-leak", show() << ": " << leak << " bytes"); c.eval(2 * depth); c.state(mc::Hash(ops[0], ops[1]));
}
#endif
namespace {
// Compares everything Java can see of a stroke in progress with a native one driven by the same calls; "" or what differs.
std::string CompareStroke(Java& j, jlong p, const InProgressStroke& t, int first_input) {
  auto& e = j.vm.env; auto num = [&](const char* what, long got, long want) { return got == want ? std::string() : absl::StrCat(what, " ", got, " instead of ", want); }; std::string s;
#define MUST(x) if (s = (x); !s.empty()) return s;
  MUST(num("input count", IP(InputCount)(&e, nullptr, p), t.InputCount())) MUST(num("real inputs", IP(RealInputCount)(&e, nullptr, p), t.RealInputCount())) MUST(num("predicted inputs", IP(PredictedInputCount)(&e, nullptr, p), t.PredictedInputCount())) MUST(num("coats", IP(BrushCoatCount)(&e, nullptr, p), t.BrushCoatCount())) MUST(num("finished", IP(IsInputFinished)(&e, nullptr, p), t.InputsAreFinished())) MUST(num("needs update", IP(NeedsUpdate)(&e, nullptr, p), t.NeedsUpdate()))
  auto box = [&](Obj* o, const Envelope& want) { auto& n = o->num; if (want.IsEmpty()) return n.count("empty") > 0; Rect r = *want.AsRect(); return !n.count("empty") && (float)n["x0"] == r.XMin() && (float)n["y0"] == r.YMin() && (float)n["x1"] == r.XMax() && (float)n["y1"] == r.YMax(); };
  Obj* region = j.vm.make(kBox); IP(FillUpdatedRegion)(&e, nullptr, p, j.vm.ref(region)); if (!box(region, t.GetUpdatedRegion())) return "updated region";
  auto millis = [](StrokeInput i) { return In{(int)i.tool_type, i.position.x, i.position.y, (jlong)std::llround((double)i.elapsed_time.ToSeconds() * 1000), i.stroke_unit_length.ToCentimeters(), i.pressure, i.tilt.ValueInRadians(), i.orientation.ValueInRadians()}; };
  int n = t.GetInputs().Size(); std::vector<In> all; for (int i = 0; i < n; ++i) { Obj* o = j.vm.make(kInput); IP(GetAndOverwriteInput)(&e, nullptr, p, j.vm.ref(o), i, j.vm.jcls(kTool)); all.push_back(millis(t.GetInputs().Get(i))); if (!EqIn(Java::read(o), all.back())) return absl::StrCat("input ", i, " is ", Show(Java::read(o)), " instead of ", Show(all.back())); }
  int from = std::min(first_input, n), to = n - (first_input > 1 && n > from); jlong b = SB(createNativePeer)(&e, nullptr); MUST(num("result of fillInputs", IP(FillInputs)(&e, nullptr, p, b, from, to), n)) s = Compare(j, b, std::vector<In>(all.begin() + from, all.begin() + to)); SB(freeNativePeer)(&e, nullptr, b); if (!s.empty()) return "filled batch: " + s;
  for (uint32_t k = 0; k < t.BrushCoatCount(); ++k) {
    const MutableMesh& m = t.GetMesh(k); Obj* bounds = j.vm.make(kBox); IP(GetMeshBounds)(&e, nullptr, p, k, j.vm.ref(bounds)); if (!box(bounds, t.GetMeshBounds(k))) return "mesh bounds";
    MUST(num("partitions", IP(GetMeshPartitionCount)(&e, nullptr, p, k), 1)) MUST(num("vertices", IP(GetVertexCount)(&e, nullptr, p, k, 0), m.VertexCount())) MUST(num("index stride", IP(GetTriangleIndexStride)(&e, nullptr, p, 0), 2))
    auto raw = m.RawVertexData(); jobject vb = IP(GetRawVertexData)(&e, nullptr, p, k, 0); Obj* vo = j.vm.get(vb); if (raw.empty() ? (vo && vo->cap != 0) : (!vo || vo->cap != (jlong)raw.size() || std::memcmp(vo->addr, raw.data(), raw.size()))) return "vertex data";
    std::vector<uint16_t> idx; for (uint32_t q = 0; q < m.TriangleCount(); ++q) { auto tr = m.TriangleIndices(q); if (tr[0] > 65535 || tr[1] > 65535 || tr[2] > 65535) break; for (uint32_t v : tr) idx.push_back(v); }
    for (int twice = 0; twice < 2; ++twice) { Obj* io = j.vm.get(IP(GetRawTriangleIndexData)(&e, nullptr, p, k, 0)); if (idx.empty() ? (io && io->cap != 0) : (!io || io->cap != (jlong)idx.size() * 2 || std::memcmp(io->addr, idx.data(), idx.size() * 2))) return absl::StrCat("triangle data: ", io ? io->cap : -1, " bytes, expected ", idx.size() * 2); }
    auto* f = reinterpret_cast<MeshFormat*>(IP(AllocMeshFormatCopy)(&e, nullptr, p, k, 0)); bool same = *f == m.Format(); delete f; if (!same) return "mesh format";
    auto outs = t.GetCoatOutlines(k); MUST(num("outlines", IP(GetOutlineCount)(&e, nullptr, p, k), outs.size())) for (size_t o = 0; o < outs.size(); o += std::max<size_t>(1, outs.size() / 8)) { MUST(num("outline vertices", IP(GetOutlineVertexCount)(&e, nullptr, p, k, o), outs[o].size())) size_t step = std::max<size_t>(1, outs[o].size() / 6); for (size_t v = 0; v < outs[o].size(); v += v + step < outs[o].size() || v + 1 == outs[o].size() ? step : outs[o].size() - 1 - v) { Obj* vec = j.vm.make(kVec); IP(FillOutlinePosition)(&e, nullptr, p, k, o, v, j.vm.ref(vec)); Point want = m.VertexPosition(outs[o][v]); if ((float)vec->num["x"] != want.x || (float)vec->num["y"] != want.y) return absl::StrCat("position ", v, " of outline ", o); } }
  }
#undef MUST
  return j.state();
}
const Brush& TheBrush(int k) { static const std::vector<Brush> b = {zoo::MakeBrush({0}, 5, .1f), zoo::MakeBrush({2, 1}, 8, .2f), zoo::MakeBrush({3}, 4, .1f, 0), zoo::MakeBrush({}, 5, .1f)}; return b[k]; }
std::string SameStroke(const Stroke& a, const Stroke& b) {
  if (a.GetInputs().Size() != b.GetInputs().Size()) return "input count"; for (int i = 0; i < a.GetInputs().Size(); ++i) if (absl::StrCat(a.GetInputs().Get(i)) != absl::StrCat(b.GetInputs().Get(i))) return "inputs"; if (absl::StrCat(a.GetBrush()) != absl::StrCat(b.GetBrush())) return "brush";
  auto &x = a.GetShape(), &y = b.GetShape(); if (x.RenderGroupCount() != y.RenderGroupCount()) return "render groups"; for (uint32_t g = 0; g < x.RenderGroupCount(); ++g) { if (x.OutlineCount(g) != y.OutlineCount(g) || x.RenderGroupMeshes(g).size() != y.RenderGroupMeshes(g).size()) return "shape"; for (size_t m = 0; m < x.RenderGroupMeshes(g).size(); ++m) { auto &p = x.RenderGroupMeshes(g)[m], &q = y.RenderGroupMeshes(g)[m]; if (p.VertexCount() != q.VertexCount() || p.TriangleCount() != q.TriangleCount()) return "mesh"; for (uint32_t v = 0; v < p.VertexCount(); ++v) if (p.VertexPosition(v).x != q.VertexPosition(v).x || p.VertexPosition(v).y != q.VertexPosition(v).y) return "vertex"; for (uint32_t t = 0; t < p.TriangleCount(); ++t) if (p.TriangleIndices(t) != q.TriangleIndices(t)) return "triangle"; } }
  return "";
}
}  // namespace
#ifndef MANY
MC_SECTION(in_progress, "all sequences of up to 4 calls (5 when thorough) after starting one of 4 brushes: enqueue 0 to 2 real and 0 to 2 predicted inputs of 2 paths or inputs out of order, update at one of 3 times, finish, reset the region, start another brush, clear: null or the exact C++ error, and after each call everything Java can read (counts, inputs, bounds, raw vertex and index data, outlines, formats) equals a native stroke driven by the same calls; copies to a stroke are equal") {
  int first = c.pick(4), depth = mc::tier(4, 5); std::vector<int> ops; for (int i = 0; i < depth; ++i) ops.push_back(c.pick(mc::thorough() ? 11 : i == 0 ? 6 : 10)); c.op(depth); std::string bad; Java j; auto& e = j.vm.env; jlong p = IP(CreateInProgressStroke)(&e, nullptr); InProgressStroke t; auto make = [&](const std::vector<In>& v) { jlong b = SB(createNativePeer)(&e, nullptr); for (auto& i : v) (void)MB(appendSingle)(&e, nullptr, b, i.tool, i.x, i.y, i.ms, i.unit_cm, i.pressure, i.tilt, i.orientation); return b; };
  bad = CompareStroke(j, p, t, 0); IP(Start)(&e, nullptr, p, reinterpret_cast<jlong>(&TheBrush(first))); t.Start(TheBrush(first)); int sent = 0; jlong now = 0;
  static const int kReal[] = {1, 2, 0, 2, 0}, kPred[] = {0, 1, 2, 0, 0};
  for (int s = 0; s < depth && bad.empty(); ++s) { int o = ops[s]; std::string got, want;
    if (o < 5) { std::vector<In> r, q; jlong at = 17 * sent; auto in = [&](int i, bool pr) { return In{3, (float)(6 * i), (float)(i % 3 * 4 + (pr ? 2 : 0)), (jlong)17 * i + (pr ? 3 : 0), 0, .25f * (i % 4), -1, -1}; }; int nr = kReal[o]; if (o == 3) { r = {in(sent, false)}; r[0].ms = at - 40; if (sent < 3) r[0].pressure = sent ? -1 : .5f; } else for (int i = 0; i < nr; ++i) r.push_back(in(sent + i, false)); int base = sent + (o == 3 ? 0 : nr); for (int i = 0; i < kPred[o]; ++i) q.push_back(in(base + i, true));
      jlong rb = make(r), qb = make(q); auto &R = *reinterpret_cast<StrokeInputBatch*>(rb), &Q = *reinterpret_cast<StrokeInputBatch*>(qb); absl::Status st = t.EnqueueInputs(R, Q); want = Want(st); got = j.text(IP(EnqueueInputs)(&e, nullptr, p, rb, qb)); if (st.ok()) sent = base; SB(freeNativePeer)(&e, nullptr, rb); SB(freeNativePeer)(&e, nullptr, qb); }
    else if (o == 5 || o == 6) { now += o == 5 ? 40 : 1000; want = Want(t.UpdateShape(Duration32::Millis(now))); got = j.text(IP(UpdateShape)(&e, nullptr, p, now)); }
    else if (o == 7) { t.FinishInputs(); IP(FinishInput)(&e, nullptr, p); }
    else if (o == 8) { t.ResetUpdatedRegion(); IP(ResetUpdatedRegion)(&e, nullptr, p); }
    else if (o == 9) { int k = (first + 1) % 4; t.Start(TheBrush(k)); IP(Start)(&e, nullptr, p, reinterpret_cast<jlong>(&TheBrush(k))); sent = 0; now = 0; }
    else { want = Want(t.UpdateShape(Duration32::Millis(now - 30))); got = j.text(IP(UpdateShape)(&e, nullptr, p, now - 30)); }
    if (got != want) bad = absl::StrCat("call ", s, " returned '", got, "' instead of '", want, "'"); else if (auto d = CompareStroke(j, p, t, s); !d.empty()) bad = absl::StrCat("after call ", s, ": ", d); }
  if (bad.empty() && t.GetBrush()) { jlong sp = IP(CopyToStroke)(&e, nullptr, p); if (auto d = SameStroke(*reinterpret_cast<Stroke*>(sp), t.CopyToStroke()); !d.empty()) bad = "copied stroke: " + d; if (auto d = CompareStroke(j, p, t, 1); bad.empty() && !d.empty()) bad = "after copying: " + d; JF(StrokeJni_free)(&e, nullptr, sp); }
  t.Clear(); IP(Clear)(&e, nullptr, p); if (auto d = CompareStroke(j, p, t, 0); bad.empty() && !d.empty()) bad = "after clearing: " + d; IP(FreeInProgressStroke)(&e, nullptr, p);
  auto show = [&] { std::string s; for (int o : ops) s += absl::StrCat(o, " "); return s; }; MC_EXPECT(c, bad.empty(), "in-progress", "brush " << first << " calls " << show() << ": " << bad); c.eval(depth + 3); c.state(mc::Hash(first, ops[0], ops[1], ops[2]));
}
#else
MC_SECTION(many_vertices, "strokes of particles of 3 shapes and 6 sizes with more vertices than 16-bit indices can reach: the index data are all whole triangles before the first one with an index above 65535, again after more input, and for a small coat beside it") {
  int shape = c.pick(3), k = c.pick(mc::tier(3, 6)); BrushTip tip; tip.particle_gap_distance_scale = .1f; if (shape == 1) tip.corner_rounding = .25f; if (shape == 2) tip.corner_rounding = .5f; std::vector<BrushCoat> coats = {BrushCoat{.tips = {tip}}, BrushCoat{.tips = {BrushTip{}}}}; auto fam = BrushFamily::Create(coats, ""); Brush brush = *Brush::Create(*fam, Color::Red(), 400 + 20 * k, .002f);
  Java j; auto& e = j.vm.env; jlong p = IP(CreateInProgressStroke)(&e, nullptr); InProgressStroke t; t.Start(brush); IP(Start)(&e, nullptr, p, reinterpret_cast<jlong>(&brush)); std::string bad; StrokeInputBatch none; jlong now = 0; float x = 0; int steps = 0; bool over = false; c.op(1);
  for (; steps < 60 && bad.empty(); ++steps) { jlong b = SB(createNativePeer)(&e, nullptr); for (int i = 0; i < 4; ++i) { now += 5; x += 100 + k; auto s = j.text(MB(appendSingle)(&e, nullptr, b, 3, x, float(i), now, 0, -1, -1, -1)); if (!s.empty()) bad = s; } auto& B = *reinterpret_cast<StrokeInputBatch*>(b); std::string w = Want(t.EnqueueInputs(B, none)); if (j.text(IP(EnqueueInputs)(&e, nullptr, p, b, reinterpret_cast<jlong>(&none))) != w) bad = "enqueue"; w = Want(t.UpdateShape(Duration32::Millis(now))); if (j.text(IP(UpdateShape)(&e, nullptr, p, now)) != w) bad = "update"; SB(freeNativePeer)(&e, nullptr, b); if (over || t.GetMesh(0).VertexCount() > 65000 || steps % 16 == 0) if (auto d = CompareStroke(j, p, t, 0); !d.empty() && bad.empty()) bad = d; if (over) break; over = t.GetMesh(0).VertexCount() > 65536; }
  uint32_t cut = 0; auto& m = t.GetMesh(0); int where = 3; for (; cut < m.TriangleCount() && where == 3; ++cut) for (int q = 0; q < 3 && where == 3; ++q) if (m.TriangleIndices(cut)[q] > 65535) where = q; IP(FreeInProgressStroke)(&e, nullptr, p);
  MC_EXPECT(c, bad.empty(), "many-vertices", "shape " << shape << " size " << 400 + 20 * k << " after " << steps << " steps and " << m.VertexCount() << " vertices: " << bad); MC_EXPECT(c, over, "too-few-vertices", "the test stroke has only " << m.VertexCount() << " vertices"); c.eval(steps); c.state(mc::Hash(where, cut, m.VertexCount())); c.outcome(where);
}
#endif
#ifndef MANY
MC_SECTION(strokes, "4 brushes, up to 6 inputs, with and without a given shape, and all orders of copying and freeing: a stroke with equal brush, inputs and shape; its copies live on after it is freed; null pointers are fatal") {
  int b = c.pick(4), n = c.pick(6), path = c.pick(3), shape = c.pick(3), order = c.pick(3); StrokeInputBatch in; for (int i = 0; i < n; ++i) (void)in.Append(zoo::Raw(path, i)); Java j; auto& e = j.vm.env; c.op(3); Stroke made(TheBrush(b), in); PartitionedMesh other = Stroke(TheBrush((b + 1) % 3), in).GetShape(); auto L = [](const auto& x) { return reinterpret_cast<jlong>(&x); };
  if (b == 0 && n == 0 && order == 0) { MC_EXPECT(c, mc::DiesOnCheck([&] { JF(StrokeJni_allocShallowCopyOfInputs)(&e, nullptr, 0); }) && mc::DiesOnCheck([&] { JF(StrokeJni_allocShallowCopyOfShape)(&e, nullptr, 0); }) && mc::DiesOnCheck([&] { JF(StrokeJni_free)(&e, nullptr, 0); }) && mc::DiesOnCheck([&] { SB(getSize)(&e, nullptr, 0); }) && mc::DiesOnCheck([&] { SB(freeNativePeer)(&e, nullptr, 0); }) && mc::DiesOnCheck([&] { MB(clear)(&e, nullptr, 0); }) && mc::DiesOnCheck([&] { IP(FreeInProgressStroke)(&e, nullptr, 0); }) && mc::DiesOnCheck([&] { IP(InputCount)(&e, nullptr, 0); }), "null", "a null pointer was accepted"); }
  StrokeInputBatch src = in; PartitionedMesh ms = shape == 2 ? other : made.GetShape(); c.assume(!shape || ms.RenderGroupCount() == TheBrush(b).CoatCount()); Stroke want = shape ? Stroke(TheBrush(b), in, ms) : made;
  jlong s = shape ? JF(StrokeJni_createWithBrushInputsAndShape)(&e, nullptr, L(TheBrush(b)), L(src), L(ms)) : JF(StrokeJni_createWithBrushAndInputs)(&e, nullptr, L(TheBrush(b)), L(src)); src.Clear(); std::string bad = SameStroke(*reinterpret_cast<Stroke*>(s), want);
  if (order == 2) { JF(StrokeJni_free)(&e, nullptr, s); } else { jlong ci = JF(StrokeJni_allocShallowCopyOfInputs)(&e, nullptr, s), cs = JF(StrokeJni_allocShallowCopyOfShape)(&e, nullptr, s); if (order == 0) JF(StrokeJni_free)(&e, nullptr, s); auto *I = reinterpret_cast<StrokeInputBatch*>(ci); auto* M = reinterpret_cast<PartitionedMesh*>(cs); Stroke again(TheBrush(b), *I, *M); if (auto d = SameStroke(again, want); bad.empty() && !d.empty()) bad = "copies: " + d; if (order == 1) { I->Clear(); if (auto d = SameStroke(*reinterpret_cast<Stroke*>(s), want); bad.empty() && !d.empty()) bad = "after clearing the copy: " + d; JF(StrokeJni_free)(&e, nullptr, s); } delete I; delete M; }
  MC_EXPECT(c, bad.empty() && j.state().empty(), "stroke", "brush " << b << " path " << path << " inputs " << n << " shape " << shape << " order " << order << ": " << bad << j.state()); c.eval(3); c.state(mc::Hash(b, n, shape, order));
}
#endif
MC_MAIN()
