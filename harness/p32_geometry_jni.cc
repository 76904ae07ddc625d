// P32: geometry JNI bindings.
extern "C" unsigned long __sanitizer_get_current_allocated_bytes();
#include <tuple>
#include "fakejvm.h"
#include "pmesh.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/triangle.h"
using namespace fakejvm; using namespace ink;
#define F2 jfloat, jfloat
#define F4 F2, F2
#define F6 F4, F2
#define J(ret, name, ...) ret Java_androidx_ink_geometry_##name(JNIEnv*, jclass, __VA_ARGS__);
extern "C" {
J(jboolean, Intersection_nativeVecSegmentIntersects, F2, F4) J(jboolean, Intersection_nativeVecTriangleIntersects, F2, F6) J(jboolean, Intersection_nativeVecBoxIntersects, F2, F4) J(jboolean, Intersection_nativeVecParallelogramIntersects, F2, F6)
J(jboolean, Intersection_nativeSegmentSegmentIntersects, F4, F4) J(jboolean, Intersection_nativeSegmentTriangleIntersects, F4, F6) J(jboolean, Intersection_nativeSegmentBoxIntersects, F4, F4) J(jboolean, Intersection_nativeSegmentParallelogramIntersects, F4, F6)
J(jboolean, Intersection_nativeTriangleTriangleIntersects, F6, F6) J(jboolean, Intersection_nativeTriangleBoxIntersects, F6, F4) J(jboolean, Intersection_nativeTriangleParallelogramIntersects, F6, F6) J(jboolean, Intersection_nativeBoxBoxIntersects, F4, F4) J(jboolean, Intersection_nativeBoxParallelogramIntersects, F4, F6) J(jboolean, Intersection_nativeParallelogramParallelogramIntersects, F6, F6)
J(jboolean, Intersection_nativeMeshVecIntersects, jlong, F2, F6) J(jboolean, Intersection_nativeMeshSegmentIntersects, jlong, F4, F6) J(jboolean, Intersection_nativeMeshTriangleIntersects, jlong, F6, F6) J(jboolean, Intersection_nativeMeshBoxIntersects, jlong, F4, F6) J(jboolean, Intersection_nativeMeshParallelogramIntersects, jlong, F6, F6) J(jboolean, Intersection_nativeMeshPartitionedMeshIntersects, jlong, jlong, F6, F6)
J(jfloat, PartitionedMeshNative_partitionedMeshTriangleCoverage, jlong, F6, F6) J(jfloat, PartitionedMeshNative_partitionedMeshBoxCoverage, jlong, F4, F6) J(jfloat, PartitionedMeshNative_partitionedMeshParallelogramCoverage, jlong, F6, F6) J(jfloat, PartitionedMeshNative_partitionedMeshPartitionedMeshCoverage, jlong, jlong, F6)
J(jboolean, PartitionedMeshNative_partitionedMeshTriangleCoverageIsGreaterThan, jlong, F6, jfloat, F6) J(jboolean, PartitionedMeshNative_partitionedMeshBoxCoverageIsGreaterThan, jlong, F4, jfloat, F6) J(jboolean, PartitionedMeshNative_partitionedMeshParallelogramCoverageIsGreaterThan, jlong, F6, jfloat, F6) J(jboolean, PartitionedMeshNative_partitionedMeshPartitionedMeshCoverageIsGreaterThan, jlong, jlong, jfloat, F6)
J(void, PartitionedMeshNative_free, jlong) J(jlongArray, PartitionedMeshNative_getNativeAddressesOfMeshes, jlong, jint) J(jint, PartitionedMeshNative_getRenderGroupCount, jlong) J(jlong, PartitionedMeshNative_getRenderGroupFormat, jlong, jint) J(jint, PartitionedMeshNative_getOutlineCount, jlong, jint) J(jint, PartitionedMeshNative_getOutlineVertexCount, jlong, jint, jint) J(void, PartitionedMeshNative_fillOutlineMeshIndexAndMeshVertexIndex, jlong, jint, jint, jint, jintArray) J(void, PartitionedMeshNative_initializeSpatialIndex, jlong) J(jboolean, PartitionedMeshNative_isSpatialIndexInitialized, jlong)
jlong Java_androidx_ink_geometry_PartitionedMeshNative_alloc(JNIEnv*, jclass);
J(void, MeshNative_freeNative, jlong) J(jobject, MeshNative_createRawVertexBuffer, jlong) J(jint, MeshNative_getVertexStride, jlong) J(jint, MeshNative_getVertexCount, jlong) J(jobject, MeshNative_createRawTriangleIndexBuffer, jlong) J(jint, MeshNative_getTriangleCount, jlong) J(jint, MeshNative_getAttributeCount, jlong) J(void, MeshNative_fillBounds, jlong, jobject) J(jint, MeshNative_fillAttributeUnpackingParams, jlong, jint, jfloatArray, jfloatArray) J(jlong, MeshNative_allocCopyOfFormat, jlong) J(void, MeshNative_fillPosition, jlong, jint, jobject)
jlong Java_androidx_ink_geometry_MeshNative_allocNativeNewEmptyMesh(JNIEnv*, jclass);
jboolean Java_androidx_ink_geometry_MeshFormat_nativeIsPackedEquivalent(JNIEnv*, jobject, jlong, jlong); jboolean Java_androidx_ink_geometry_MeshFormat_nativeIsUnpackedEquivalent(JNIEnv*, jobject, jlong, jlong); void Java_androidx_ink_geometry_MeshFormat_nativeFree(JNIEnv*, jobject, jlong);
J(jboolean, TriangleNative_nativeContains, F6, F2)
J(void, BoxAccumulatorNative_nativeAddSegment, jboolean, F4, F4, jobject) J(void, BoxAccumulatorNative_nativeAddTriangle, jboolean, F4, F6, jobject) J(void, BoxAccumulatorNative_nativeAddParallelogram, jboolean, F4, F6, jobject) J(void, BoxAccumulatorNative_nativeAddPoint, jboolean, F4, F2, jobject) J(void, BoxAccumulatorNative_nativeAddOptionalBox, jboolean, F4, jboolean, F4, jobject)
J(jobject, internal_BoxNative_createCenter, F4, jclass) J(void, internal_BoxNative_populateCenter, F4, jobject) J(jboolean, internal_BoxNative_containsPoint, F4, F2) J(jboolean, internal_BoxNative_containsBox, F4, F4)
J(jobject, internal_ParallelogramNative_createBoundingBox, F6, jclass, jclass) J(void, internal_ParallelogramNative_populateBoundingBox, F6, jobject) J(jobjectArray, internal_ParallelogramNative_createSemiAxes, F6, jclass) J(void, internal_ParallelogramNative_populateSemiAxes, F6, jobject, jobject) J(jobjectArray, internal_ParallelogramNative_createCorners, F6, jclass) J(void, internal_ParallelogramNative_populateCorners, F6, jobject, jobject, jobject, jobject) J(jboolean, internal_ParallelogramNative_contains, F6, F2)
J(jobject, internal_VecNative_unitVec, F2, jclass) J(void, internal_VecNative_populateUnitVec, F2, jobject) J(jfloat, internal_VecNative_absoluteAngleBetween, F4) J(jfloat, internal_VecNative_signedAngleBetween, F4)
J(jobject, internal_AffineTransformNative_createFromApplyParallelogram, F6, F6, jclass, jclass) J(void, internal_AffineTransformNative_populateFromApplyParallelogram, F6, F6, jobject)
}
#define JF(name) Java_androidx_ink_geometry_##name
namespace {
template <size_t N> using A = std::array<float, N>;
const std::string P = "androidx/ink/geometry/";
// Calls a binding with arguments given as scalars and arrays of floats.
template <typename T> auto Tup(const T& t) { return std::make_tuple(t); }
template <size_t N> auto Tup(const A<N>& a) { return a; }
template <typename Fn, typename... X> auto Go(Vm& vm, Fn f, const X&... x) { return std::apply(f, std::tuple_cat(std::make_tuple(&vm.env, jclass(nullptr)), Tup(x)...)); }
const std::vector<A<2>>& Points() { static const auto v = [] { std::vector<A<2>> r; for (float x : {-1.f, 0.f, 0.5f, 1.f, 2.f, 3.25f}) for (float y : {-1.f, 0.f, 0.75f, 1.f, 2.f}) r.push_back({x, y}); return r; }(); return v; }
const std::vector<A<4>>& Segs() { static const std::vector<A<4>> v = {{0, 0, 2, 1}, {2, 1, 0, 0}, {0, 1, 3, -1}, {-1, 2, 0.5f, 0.25f}, {1, 1, 1, 1}, {0.75f, -2, 1, 4}, {-2, -2, -1, 5}, {3, 0.5f, 2.5f, 3}, {0, -1, 5, -1.5f}}; return v; }
const std::vector<A<4>>& Boxes() { static const std::vector<A<4>> v = {{0, 0, 2, 1}, {-1, 0.5f, 0.5f, 3}, {1, -2, 4, 0}, {3, 2, 1, 0.25f}, {0.75f, 0.75f, 0.75f, 0.75f}, {-3, -3, -2, 4}, {-2, 1.5f, 4, 2}}; return v; }
const std::vector<A<6>>& Tris() { static const std::vector<A<6>> v = {{0, 0, 3, 0, 1, 2}, {0, 0, 1, 2, 3, 0}, {-1, 1, 0.5f, 0.25f, 2, 2}, {2, -1, 2.5f, 3, 4, 1}, {-2, -1, -2.5f, 2, -0.25f, 0}, {1, 1, 1, 1, 2, 2}, {0, 2, 0.5f, 4, 1, 3}}; return v; }
const std::vector<A<6>>& Quads() { static const std::vector<A<6>> v = {{0, 0, 2, 1, 0, 0}, {1, 0.5f, 2, 3, 0.5f, 0}, {2, 1, 1, 2, 0, 0.75f}, {-1, 1, 3, 0.5f, 2, -0.5f}, {0.5f, 2, -2, 1, 1, 0.25f}, {3, 0, 0.5f, 4, -0.75f, 1}, {1, 1, 0, 2, 0.25f, 0}}; return v; }
const std::vector<A<6>>& Xforms() { static const std::vector<A<6>> v = {{1, 0, 0, 0, 1, 0}, {1, 0, 1.5f, 0, 1, -0.5f}, {0, -1, 2, 1, 0, 0.25f}, {2, 0.5f, 0, 0, 0.5f, 1}, {-1, 0, 3, 0.25f, 1, 0}, {0.5f, 0, 0, 0, 3, -1}}; return v; }
Point Pt(const A<2>& a) { return {a[0], a[1]}; }
Segment Sg(const A<4>& a) { return {{a[0], a[1]}, {a[2], a[3]}}; }
Rect Rc(const A<4>& a) { return Rect::FromTwoPoints({a[0], a[1]}, {a[2], a[3]}); }
Triangle Tr(const A<6>& a) { return {{a[0], a[1]}, {a[2], a[3]}, {a[4], a[5]}}; }
Quad Qd(const A<6>& a) { return Quad::FromCenterDimensionsRotationAndShear({a[0], a[1]}, a[2], a[3], Angle::Radians(a[4]), a[5]); }
AffineTransform Xt(const A<6>& a) { return AffineTransform(a[0], a[1], a[2], a[3], a[4], a[5]); }
// The Java classes: method tables, and a handler that runs constructors and setters.
struct Java { Vm vm; Java() {
  vm.super[P + "ImmutableVec"] = P + "Vec"; vm.super[P + "MutableVec"] = P + "Vec";
  vm.has_method = [](const std::string& c, const std::string& n, const std::string& s) {
    std::string G = "L" + P; static const std::set<std::string> k = {
      P + "ImmutableVec.<init>(FF)V", P + "MutableVec.setX(F)V", P + "MutableVec.setY(F)V", P + "ImmutableBox.fromTwoPoints(L" + P + "Vec;L" + P + "Vec;)L" + P + "ImmutableBox;", P + "MutableBox.setXBounds(FF)L" + P + "MutableBox;", P + "MutableBox.setYBounds(FF)L" + P + "MutableBox;",
      P + "BoxAccumulator.reset()L" + P + "BoxAccumulator;", P + "BoxAccumulator.overwriteFrom(FFFF)L" + P + "BoxAccumulator;", P + "ImmutableParallelogram.fromCenterDimensionsRotationAndShear(L" + P + "ImmutableVec;FFFF)L" + P + "ImmutableParallelogram;", P + "MutableParallelogram.setCenterDimensionsRotationAndShear(FFFFFF)V"};
    return k.count(c + "." + n + s) > 0; };
  vm.handler = [this](Call& c) { jvalue r{}; Obj* o = c.self; auto v = [&](int i) { return c.args[i].f; };
    if (c.name == "<init>") { o->num["x"] = v(0); o->num["y"] = v(1); }
    else if (c.name == "setX") o->num["x"] = v(0); else if (c.name == "setY") o->num["y"] = v(0);
    else if (c.name == "setXBounds") { o->num["x0"] = v(0); o->num["x1"] = v(1); r.l = vm.ref(o); } else if (c.name == "setYBounds") { o->num["y0"] = v(0); o->num["y1"] = v(1); r.l = vm.ref(o); }
    else if (c.name == "reset") { o->num.clear(); o->num["empty"] = 1; r.l = vm.ref(o); } else if (c.name == "overwriteFrom") { o->num = {{"x0", v(0)}, {"y0", v(1)}, {"x1", v(2)}, {"y1", v(3)}}; r.l = vm.ref(o); }
    else if (c.name == "fromTwoPoints") { Obj* b = vm.make(P + "ImmutableBox"); Obj *p = vm.get(c.args[0].l), *q = vm.get(c.args[1].l); b->num = {{"x0", p->num["x"]}, {"y0", p->num["y"]}, {"x1", q->num["x"]}, {"y1", q->num["y"]}}; r.l = vm.ref(b); }
    else if (c.name == "fromCenterDimensionsRotationAndShear") { Obj* b = vm.make(P + "ImmutableParallelogram"); Obj* p = vm.get(c.args[0].l); b->num = {{"x", p->num["x"]}, {"y", p->num["y"]}, {"w", v(1)}, {"h", v(2)}, {"r", v(3)}, {"s", v(4)}}; r.l = vm.ref(b); }
    else if (c.name == "setCenterDimensionsRotationAndShear") o->num = {{"x", v(0)}, {"y", v(1)}, {"w", v(2)}, {"h", v(3)}, {"r", v(4)}, {"s", v(5)}};
    return r; };
  }
  Obj* obj(const std::string& c) { return vm.make(P + c); }
};
std::string Show(Obj* o) { std::string s = o ? o->cls : "null"; if (o) for (auto& k : o->num) s += " " + k.first + "=" + std::to_string(k.second); return s; }
using Num = std::map<std::string, double>;
bool Is(Obj* o, const Num& n) { return o && o->num == n; }
Num VecNum(float x, float y) { return {{"x", x}, {"y", y}}; }
Num RectNum(const Rect& r) { return {{"x0", r.XMin()}, {"y0", r.YMin()}, {"x1", r.XMax()}, {"y1", r.YMax()}}; }
Num EnvNum(const Envelope& e) { return e.IsEmpty() ? Num{{"empty", 1}} : RectNum(*e.AsRect()); }
Num QuadNum(const Quad& q) { return {{"x", q.Center().x}, {"y", q.Center().y}, {"w", q.Width()}, {"h", q.Height()}, {"r", q.Rotation().ValueInRadians()}, {"s", q.ShearFactor()}}; }
#define CLEAN(j) MC_EXPECT(c, (j.vm.finish(), j.vm.errors.empty() && !j.vm.pending), "jni rules", j.vm.all_errors() << j.vm.pending_message)
}  // namespace
MC_SECTION(intersections, "every pair of shape kinds x all pairs of shapes of the palettes (30 points, 9 segments, 7 boxes, 7 triangles, 7 parallelograms): the binding answers as Intersects on the same shapes") {
  Java j; auto& vm = j.vm; int kind = c.pick(14); c.op(1); int got = -1, want = -2;
#define PAIR(k, fn, PA, FA, PB, FB) if (kind == k) { auto a = c.of(PA()); auto b = c.of(PB()); got = Go(vm, JF(Intersection_##fn), a, b); want = Intersects(FA(a), FB(b)); }
  PAIR(0, nativeVecSegmentIntersects, Points, Pt, Segs, Sg) PAIR(1, nativeVecTriangleIntersects, Points, Pt, Tris, Tr) PAIR(2, nativeVecBoxIntersects, Points, Pt, Boxes, Rc) PAIR(3, nativeVecParallelogramIntersects, Points, Pt, Quads, Qd)
  PAIR(4, nativeSegmentSegmentIntersects, Segs, Sg, Segs, Sg) PAIR(5, nativeSegmentTriangleIntersects, Segs, Sg, Tris, Tr) PAIR(6, nativeSegmentBoxIntersects, Segs, Sg, Boxes, Rc) PAIR(7, nativeSegmentParallelogramIntersects, Segs, Sg, Quads, Qd)
  PAIR(8, nativeTriangleTriangleIntersects, Tris, Tr, Tris, Tr) PAIR(9, nativeTriangleBoxIntersects, Tris, Tr, Boxes, Rc) PAIR(10, nativeTriangleParallelogramIntersects, Tris, Tr, Quads, Qd) PAIR(11, nativeBoxBoxIntersects, Boxes, Rc, Boxes, Rc) PAIR(12, nativeBoxParallelogramIntersects, Boxes, Rc, Quads, Qd) PAIR(13, nativeParallelogramParallelogramIntersects, Quads, Qd, Quads, Qd)
  MC_EXPECT(c, got == want, "answer", "kind " << kind << " " << got << " want " << want); CLEAN(j); c.add_states(1); c.outcome(kind * 2 + got);
}
MC_SECTION(mesh_queries, "four target meshes x six transforms x every palette shape and every other target: intersection, coverage and coverage thresholds on either side answer as the C++ calls") {
  static const auto pms = [] { std::vector<PartitionedMesh> v; for (auto& t : Targets()) v.push_back(MakePm(t)); return v; }();
  Java j; auto& vm = j.vm; const PartitionedMesh& m = pms[c.pick(pms.size())]; jlong h = reinterpret_cast<jlong>(&m); A<6> x = c.of(Xforms()); AffineTransform t = Xt(x); int kind = c.pick(6); c.op(1); c.add_states(1);
  auto th = [&](float cov, auto isgt, auto direct) { for (float d : {-0.25f, 0.f, 0.25f}) { float k = std::isnan(cov) ? 0.5f : cov + d; MC_EXPECT(c, isgt(k) == direct(k), "threshold", k << " coverage " << cov); c.op(1); } };
#define COV(fn, sh, obj) { float g = Go(vm, JF(PartitionedMeshNative_partitionedMesh##fn##Coverage), h, sh, x), w = m.Coverage(obj, t); MC_EXPECT(c, Same(g, w), "coverage", #fn << " " << g << " want " << w); th(w, [&](float k) { return bool(Go(vm, JF(PartitionedMeshNative_partitionedMesh##fn##CoverageIsGreaterThan), h, sh, k, x)); }, [&](float k) { return m.CoverageIsGreaterThan(obj, k, t); }); c.outcome(mc::Hash(kind, ToBits(g))); }
#define HIT(fn, sh, obj) MC_EXPECT(c, bool(Go(vm, JF(Intersection_nativeMesh##fn##Intersects), h, sh, x)) == Intersects(obj, m, t), "intersects", #fn)
  if (kind == 0) { auto a = c.of(Points()); HIT(Vec, a, Pt(a)); }
  if (kind == 1) { auto a = c.of(Segs()); HIT(Segment, a, Sg(a)); }
  if (kind == 2) { auto a = c.of(Tris()); HIT(Triangle, a, Tr(a)); COV(Triangle, a, Tr(a)); }
  if (kind == 3) { auto a = c.of(Boxes()); HIT(Box, a, Rc(a)); COV(Box, a, Rc(a)); }
  if (kind == 4) { auto a = c.of(Quads()); HIT(Parallelogram, a, Qd(a)); COV(Parallelogram, a, Qd(a)); }
  if (kind == 5) { const PartitionedMesh& o = pms[c.pick(pms.size())]; jlong oh = reinterpret_cast<jlong>(&o); COV(PartitionedMesh, oh, o); for (auto& y : Xforms()) { MC_EXPECT(c, bool(Go(vm, JF(Intersection_nativeMeshPartitionedMeshIntersects), h, oh, x, y)) == Intersects(m, t, o, Xt(y)), "intersects mesh", ""); c.op(1); } }
  CLEAN(j);
}
MC_SECTION(shapes, "vector, box, triangle, parallelogram and transform bindings over all palette combinations: each result object or filled object holds exactly the C++ values") {
  Java j; auto& vm = j.vm; int kind = c.pick(8); c.op(1); c.add_states(1); jclass vec = vm.jcls(P + "ImmutableVec"), box = vm.jcls(P + "ImmutableBox"), par = vm.jcls(P + "ImmutableParallelogram");
  auto mut = [&](const char* k) { return vm.make(P + k); };
  if (kind == 0) { auto a = c.of(Points()); auto b = c.of(Points()); Vec v{a[0], a[1]}, w{b[0], b[1]}, u = v.AsUnitVec(); Obj* o = mut("MutableVec");
    MC_EXPECT(c, Is(vm.get(Go(vm, JF(internal_VecNative_unitVec), a, vec)), VecNum(u.x, u.y)), "unit vec", ""); Go(vm, JF(internal_VecNative_populateUnitVec), a, vm.ref(o)); MC_EXPECT(c, Is(o, VecNum(u.x, u.y)), "populate unit vec", Show(o));
    MC_EXPECT(c, Same(Go(vm, JF(internal_VecNative_absoluteAngleBetween), a, b), Vec::AbsoluteAngleBetween(v, w).ValueInRadians()) && Same(Go(vm, JF(internal_VecNative_signedAngleBetween), a, b), Vec::SignedAngleBetween(v, w).ValueInRadians()), "angles", ""); }
  if (kind == 1) { auto a = c.of(Boxes()); auto b = c.of(Boxes()); auto p = c.of(Points()); Rect r = Rc(a); Obj* o = mut("MutableVec");
    MC_EXPECT(c, Is(vm.get(Go(vm, JF(internal_BoxNative_createCenter), a, vec)), VecNum(r.Center().x, r.Center().y)), "center", ""); Go(vm, JF(internal_BoxNative_populateCenter), a, vm.ref(o)); MC_EXPECT(c, Is(o, VecNum(r.Center().x, r.Center().y)), "populate center", Show(o));
    MC_EXPECT(c, bool(Go(vm, JF(internal_BoxNative_containsPoint), a, p)) == r.Contains(Pt(p)) && bool(Go(vm, JF(internal_BoxNative_containsBox), a, b)) == r.Contains(Rc(b)), "contains", ""); }
  if (kind == 2) { auto a = c.of(Tris()); auto p = c.of(Points()); MC_EXPECT(c, bool(Go(vm, JF(TriangleNative_nativeContains), a, p)) == Tr(a).Contains(Pt(p)), "triangle", ""); }
  if (kind == 3) { auto a = c.of(Quads()); auto p = c.of(Points()); Quad q = Qd(a); MC_EXPECT(c, bool(Go(vm, JF(internal_ParallelogramNative_contains), a, p)) == q.Contains(Pt(p)), "parallelogram contains", ""); }
  if (kind == 4) { auto a = c.of(Quads()); Quad q = Qd(a); Rect r = *Envelope(q).AsRect(); Obj* o = mut("MutableBox"); Obj* made = vm.get(Go(vm, JF(internal_ParallelogramNative_createBoundingBox), a, box, vec)); MC_EXPECT(c, Is(made, RectNum(r)) && made->cls == P + "ImmutableBox", "bounding box", Show(made)); Go(vm, JF(internal_ParallelogramNative_populateBoundingBox), a, vm.ref(o)); MC_EXPECT(c, Is(o, RectNum(r)), "populate bounding box", Show(o)); }
  if (kind == 5) { auto a = c.of(Quads()); Quad q = Qd(a); auto ax = q.SemiAxes(); Obj *o = mut("MutableVec"), *o2 = mut("MutableVec"); Obj* arr = vm.get(Go(vm, JF(internal_ParallelogramNative_createSemiAxes), a, vec));
    MC_EXPECT(c, arr && arr->o.size() == 2 && Is(vm.get(arr->o[0]), VecNum(ax.first.x, ax.first.y)) && Is(vm.get(arr->o[1]), VecNum(ax.second.x, ax.second.y)), "semi axes", ""); Go(vm, JF(internal_ParallelogramNative_populateSemiAxes), a, vm.ref(o), vm.ref(o2)); MC_EXPECT(c, Is(o, VecNum(ax.first.x, ax.first.y)) && Is(o2, VecNum(ax.second.x, ax.second.y)), "populate semi axes", Show(o) << Show(o2)); }
  if (kind == 6) { auto a = c.of(Quads()); auto co = Qd(a).Corners(); Obj* o[4]; for (auto& k : o) k = mut("MutableVec"); Obj* arr = vm.get(Go(vm, JF(internal_ParallelogramNative_createCorners), a, vec)); MC_EXPECT(c, arr && arr->o.size() == 4, "corner count", ""); Go(vm, JF(internal_ParallelogramNative_populateCorners), a, vm.ref(o[0]), vm.ref(o[1]), vm.ref(o[2]), vm.ref(o[3]));
    for (int i = 0; i < 4; ++i) MC_EXPECT(c, Is(vm.get(arr->o[i]), VecNum(co[i].x, co[i].y)) && Is(o[i], VecNum(co[i].x, co[i].y)), "corners", i); }
  if (kind == 7) { auto a = c.of(Quads()); auto x = c.of(Xforms()); Quad q = Xt(x).Apply(Qd(a)); Obj* o = mut("MutableParallelogram"); Obj* made = vm.get(Go(vm, JF(internal_AffineTransformNative_createFromApplyParallelogram), x, a, par, vec)); MC_EXPECT(c, Is(made, QuadNum(q)) && made->cls == P + "ImmutableParallelogram", "transformed", Show(made)); Go(vm, JF(internal_AffineTransformNative_populateFromApplyParallelogram), x, a, vm.ref(o)); MC_EXPECT(c, Is(o, QuadNum(q)), "populate transformed", Show(o)); }
  CLEAN(j); c.outcome(kind);
}
MC_SECTION(accumulate, "every box or none as the start x every palette shape: the accumulator is filled with the envelope of both; an absent optional box leaves it untouched") {
  Java j; auto& vm = j.vm; bool has = c.flag(); A<4> b = c.of(Boxes()); Envelope e = has ? Envelope(Rc(b)) : Envelope(); Obj* o = vm.make(P + "BoxAccumulator"); o->num["before"] = 1; Num before = o->num; jboolean hb = has; jobject out = vm.ref(o); int kind = c.pick(6); c.op(1); c.add_states(1);
  if (kind == 0) { auto a = c.of(Segs()); Go(vm, JF(BoxAccumulatorNative_nativeAddSegment), hb, b, a, out); e.Add(Sg(a)); } if (kind == 1) { auto a = c.of(Tris()); Go(vm, JF(BoxAccumulatorNative_nativeAddTriangle), hb, b, a, out); e.Add(Tr(a)); }
  if (kind == 2) { auto a = c.of(Quads()); Go(vm, JF(BoxAccumulatorNative_nativeAddParallelogram), hb, b, a, out); e.Add(Qd(a)); } if (kind == 3) { auto a = c.of(Points()); Go(vm, JF(BoxAccumulatorNative_nativeAddPoint), hb, b, a, out); e.Add(Pt(a)); }
  if (kind == 4) { auto a = c.of(Boxes()); Go(vm, JF(BoxAccumulatorNative_nativeAddOptionalBox), hb, b, jboolean(1), a, out); e.Add(Rc(a)); }
  if (kind == 5) { Go(vm, JF(BoxAccumulatorNative_nativeAddOptionalBox), hb, b, jboolean(0), Boxes()[0], out); MC_EXPECT(c, Is(o, before), "untouched", Show(o)); } else MC_EXPECT(c, Is(o, EnvNum(e)), "accumulated", Show(o) << " want " << absl::StrCat(e));
  CLEAN(j); c.outcome(kind);
}
MC_SECTION(meshes, "the four targets and an empty mesh: every mesh handle gives the mesh's own buffers, counts, strides, bounds, positions and unpacking parameters for every attribute type; formats are equivalent copies") {
  Java j; auto& vm = j.vm; int k = c.pick(2 + Types().size()); Mesh m;
  if (k >= 1) { AT t = k == 1 ? AT::kFloat2Unpacked : Types()[k - 2].type; bool pos = k == 1; std::vector<std::pair<AT, AI>> a = {{AT::kFloat2PackedIn1Float, AI::kPosition}}; if (!pos) a.insert(a.begin() + 1, {t, AI::kCustom0}); auto f = MeshFormat::Create(a, IF::k16BitUnpacked16BitPacked); if (!f.ok()) { c.assume(false); return; }
    MutableMesh mm(*f); for (Point p : {Point{0, 0}, Point{4, 0}, Point{1, 3}}) mm.AppendVertex(p); if (!pos) for (int v = 0; v < 3; ++v) { SmallArray<float, 4> val(MeshFormat::ComponentCount(t)); for (int i = 0; i < val.Size(); ++i) val[i] = v + 10 * i; mm.SetFloatVertexAttribute(v, 1, val); } mm.AppendTriangleIndices({0, 1, 2}); auto r = mm.AsMeshes(); if (!r.ok() || r->size() != 1) { c.fail("mesh", std::string(r.status().message())); return; } m = (*r)[0]; }
  jlong h = reinterpret_cast<jlong>(&m); c.op(10); c.add_states(1);
  MC_EXPECT(c, Go(vm, JF(MeshNative_getVertexStride), h) == m.VertexStride() && Go(vm, JF(MeshNative_getVertexCount), h) == int(m.VertexCount()) && Go(vm, JF(MeshNative_getTriangleCount), h) == int(m.TriangleCount()) && Go(vm, JF(MeshNative_getAttributeCount), h) == int(m.Format().Attributes().size()), "counts", k);
  Obj *vb = vm.get(Go(vm, JF(MeshNative_createRawVertexBuffer), h)), *ib = vm.get(Go(vm, JF(MeshNative_createRawTriangleIndexBuffer), h));
  auto same = [](Obj* o, absl::Span<const std::byte> s) { return s.data() == nullptr ? o == nullptr : o && o->addr == s.data() && o->cap == jlong(s.size()); }; MC_EXPECT(c, same(vb, m.RawVertexData()) && same(ib, m.RawIndexData()), "buffers", k);
  Obj* bo = vm.make(P + "BoxAccumulator"); Go(vm, JF(MeshNative_fillBounds), h, vm.ref(bo)); MC_EXPECT(c, Is(bo, EnvNum(m.Bounds())), "bounds", Show(bo));
  for (int a = 0; a < int(m.Format().Attributes().size()); ++a) { Obj *of = vm.make("[F"), *sc = vm.make("[F"); of->f.assign(4, -7); sc->f.assign(4, -7); int n = Go(vm, JF(MeshNative_fillAttributeUnpackingParams), h, jint(a), jfloatArray(vm.ref(of)), jfloatArray(vm.ref(sc))); auto& cp = m.VertexAttributeUnpackingParams(a).components; MC_EXPECT(c, n == cp.Size(), "parameter count", n); for (int i = 0; i < 4; ++i) MC_EXPECT(c, i < n ? Same(of->f[i], cp[i].offset) && Same(sc->f[i], cp[i].scale) : of->f[i] == -7 && sc->f[i] == -7, "parameters", a << " " << i); }
  for (uint32_t v = 0; v < m.VertexCount(); ++v) { Obj* o = vm.make(P + "MutableVec"); Go(vm, JF(MeshNative_fillPosition), h, jint(v), vm.ref(o)); MC_EXPECT(c, Is(o, VecNum(m.VertexPosition(v).x, m.VertexPosition(v).y)), "position", v); }
  jlong f = Go(vm, JF(MeshNative_allocCopyOfFormat), h), d = reinterpret_cast<jlong>(new MeshFormat()); auto* fp = reinterpret_cast<MeshFormat*>(f); MC_EXPECT(c, *fp == m.Format() && fp != &m.Format(), "format copy", ""); auto* dp = reinterpret_cast<MeshFormat*>(d);
  MC_EXPECT(c, bool(JF(MeshFormat_nativeIsPackedEquivalent)(&vm.env, nullptr, f, d)) == MeshFormat::IsPackedEquivalent(*fp, *dp) && bool(JF(MeshFormat_nativeIsUnpackedEquivalent)(&vm.env, nullptr, f, d)) == MeshFormat::IsUnpackedEquivalent(*fp, *dp), "equivalence", "");
  MC_EXPECT(c, JF(MeshFormat_nativeIsPackedEquivalent)(&vm.env, nullptr, f, f) && JF(MeshFormat_nativeIsUnpackedEquivalent)(&vm.env, nullptr, d, d), "self equivalence", ""); JF(MeshFormat_nativeFree)(&vm.env, nullptr, f); JF(MeshFormat_nativeFree)(&vm.env, nullptr, d);
  CLEAN(j); c.outcome(k);
}
MC_SECTION(handles, "all histories of 5 (thorough 6) steps over handles of one target with outlines: take mesh copies and formats of each group, free each of them and the owner in any order, read through what remains; contents stay right, no use after free, and at the end everything is returned to the allocator") {
  static const PartitionedMesh src = [] {
    std::vector<Mesh> m = {MakeMesh({{IP{0, 0}, IP{3, 0}, IP{1, 2}}}, 0), MakeMesh({{IP{5, 5}, IP{6, 5}, IP{5, 7}}, {IP{1, 1}, IP{2, 1}, IP{1, 2}}}, 1), MakeMesh({{IP{2, 2}, IP{3, 2}, IP{2, 4}}}, 1)}; using V = PartitionedMesh::VertexIndexPair;
    static const std::vector<V> o1 = {{0, 0}, {0, 1}, {0, 2}}, o2 = {{0, 3}, {1, 1}, {1, 2}, {0, 0}}, o3 = {{1, 0}}; std::vector<absl::Span<const V>> l1 = {o1}, l2 = {o2, o3};
    std::vector<PartitionedMesh::MeshGroup> g = {{.meshes = absl::MakeConstSpan(m).subspan(0, 1), .outlines = l1}, {.meshes = absl::MakeConstSpan(m).subspan(1, 2), .outlines = l2}}; return *PartitionedMesh::FromMeshGroups(g); }();
  int script[6]; int D = mc::tier(5, 6); bool freed = false; int held = 0, fmts = 0;
  for (int d = 0; d < D; ++d) { int o = script[d] = c.pick(8); bool ok = o == 6 || (o < 3 || o == 5 || o == 7 ? !freed : held > 0); if (!ok) { c.assume(false); return; } if (o == 0) ++held; if (o == 1) held += 2; if (o == 3 || o == 4) --held; if (o == 2) ++fmts; if (o == 5) freed = true; }
  size_t before[2], after[2];
  for (int rep = 0; rep < 2; ++rep) {
    before[rep] = __sanitizer_get_current_allocated_bytes();
    {
      Java j; auto& vm = j.vm; auto* pm = new PartitionedMesh(src); jlong owner = reinterpret_cast<jlong>(pm); std::vector<std::pair<jlong, int>> ms; std::vector<std::pair<jlong, int>> fs; bool gone = false, index = false; (void)index;
      auto take = [&](int g) { Obj* a = vm.get(Go(vm, JF(PartitionedMeshNative_getNativeAddressesOfMeshes), owner, jint(g))); MC_EXPECT(c, a && a->l.size() == (g ? 2u : 1u), "handles", g); for (size_t i = 0; i < a->l.size(); ++i) ms.push_back({a->l[i], g + int(i)}); };
      auto read = [&] {
        for (auto& [h, k] : ms) { const Mesh& want = k == 0 ? src.RenderGroupMeshes(0)[0] : src.RenderGroupMeshes(1)[k - 1]; MC_EXPECT(c, Go(vm, JF(MeshNative_getVertexCount), h) == int(want.VertexCount()) && Go(vm, JF(MeshNative_getAttributeCount), h) == int(want.Format().Attributes().size()), "mesh", k); Obj* o = vm.make(P + "MutableVec"); for (uint32_t v = 0; v < want.VertexCount(); ++v) { Go(vm, JF(MeshNative_fillPosition), h, jint(v), vm.ref(o)); MC_EXPECT(c, Is(o, VecNum(want.VertexPosition(v).x, want.VertexPosition(v).y)), "mesh position", v); } }
        for (auto& [h, g] : fs) MC_EXPECT(c, *reinterpret_cast<MeshFormat*>(h) == src.RenderGroupFormat(g), "format", g);
        if (!gone) { MC_EXPECT(c, Go(vm, JF(PartitionedMeshNative_getRenderGroupCount), owner) == 2, "groups", "");
          for (int g = 0; g < 2; ++g) { MC_EXPECT(c, Go(vm, JF(PartitionedMeshNative_getOutlineCount), owner, jint(g)) == int(src.OutlineCount(g)), "outlines", g);
            for (uint32_t o = 0; o < src.OutlineCount(g); ++o) { auto ol = src.Outline(g, o); MC_EXPECT(c, Go(vm, JF(PartitionedMeshNative_getOutlineVertexCount), owner, jint(g), jint(o)) == int(ol.size()), "outline size", o); Obj* a = vm.make("[I"); a->i.resize(2); for (size_t v = 0; v < ol.size(); ++v) { Go(vm, JF(PartitionedMeshNative_fillOutlineMeshIndexAndMeshVertexIndex), owner, jint(g), jint(o), jint(v), jintArray(vm.ref(a))); MC_EXPECT(c, a->i[0] == ol[v].mesh_index && a->i[1] == ol[v].vertex_index, "outline vertex", v); } } } } };
      for (int d = 0; d < D; ++d) {
        c.op(1);
        switch (script[d]) {
          case 0: take(0); break; case 1: take(1); break; case 2: { int g = fs.size() % 2; fs.push_back({Go(vm, JF(PartitionedMeshNative_getRenderGroupFormat), owner, jint(g)), g}); break; }
          case 3: Go(vm, JF(MeshNative_freeNative), ms.front().first); ms.erase(ms.begin()); break; case 4: Go(vm, JF(MeshNative_freeNative), ms.back().first); ms.pop_back(); break;
          case 5: Go(vm, JF(PartitionedMeshNative_free), owner); gone = true; break; case 6: read(); break;
          case 7: Go(vm, JF(PartitionedMeshNative_initializeSpatialIndex), owner); MC_EXPECT(c, Go(vm, JF(PartitionedMeshNative_isSpatialIndexInitialized), owner), "index", ""); break; }
      }
      read();
      for (auto& m : ms) Go(vm, JF(MeshNative_freeNative), m.first); for (auto& f : fs) JF(MeshFormat_nativeFree)(&vm.env, nullptr, f.first); if (!gone) Go(vm, JF(PartitionedMeshNative_free), owner);
      jlong em = JF(MeshNative_allocNativeNewEmptyMesh)(&vm.env, nullptr), ep = JF(PartitionedMeshNative_alloc)(&vm.env, nullptr); MC_EXPECT(c, Go(vm, JF(MeshNative_getVertexCount), em) == 0 && Go(vm, JF(PartitionedMeshNative_getRenderGroupCount), ep) == 0, "empty", ""); Go(vm, JF(MeshNative_freeNative), em); Go(vm, JF(PartitionedMeshNative_free), ep);
      CLEAN(j);
    }
    after[rep] = __sanitizer_get_current_allocated_bytes();
  }
  MC_EXPECT(c, after[1] == before[1], "leak", int64_t(after[1] - before[1]) << " bytes"); c.add_states(D); uint64_t h = 0; for (int d = 0; d < D; ++d) h = mc::Hash(h, script[d]); c.state(h);
}
MC_MAIN()
