#pragma once
// A small Java VM stand-in behind a real JNIEnv function table. It models objects, classes (with a
// super class each), strings, arrays, references, method calls and pending exceptions, and records
// every breach of the JNI rules that the code under test commits (use of dead references, calls
// while an exception is pending, unbalanced acquire/release, wrong method for a class...).
#include <jni.h>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace fakejvm {
struct Obj { std::string cls; std::string name; /* for classes */ std::string utf; std::vector<float> f; std::vector<jlong> l; std::vector<jint> i; std::vector<jobject> o; std::vector<signed char> b; std::map<std::string, double> num; std::map<std::string, std::string> str; bool null_str = false; void* addr = nullptr; jlong cap = 0; };
struct Ref { Obj* obj; bool global, alive; };
struct Method { std::string cls, name, sig; bool is_static, field; };
struct Call { std::string cls, name, sig; Obj* self; std::vector<jvalue> args; };
struct Vm {
  std::list<Obj> objs; std::list<Ref> refs; std::list<Method> methods; std::map<std::string, Obj*> classes; std::map<std::string, std::string> super;
  std::vector<std::string> errors; std::vector<Call> calls; Obj* pending = nullptr; std::string pending_message; std::map<const void*, std::pair<Obj*, void*>> acquired;
  std::vector<std::unique_ptr<char[]>> bufs; int global_refs = 0; std::set<std::string> known;  // "cls.name sig"
  std::function<jvalue(Call&)> handler; std::function<bool(const std::string&, const std::string&, const std::string&)> has_method;
  JNINativeInterface_ table{}; JNIEnv env{};
  static Vm* self;
  void err(const std::string& s) { errors.push_back(s); }
  void check_pending(const char* f) { if (pending) err(std::string(f) + " called with an exception pending"); }
  Obj* make(const std::string& cls) { objs.push_back({}); objs.back().cls = cls; return &objs.back(); }
  jobject ref(Obj* o, bool global = false) { if (!o) return nullptr; refs.push_back({o, global, true}); if (global) ++global_refs; return reinterpret_cast<jobject>(&refs.back()); }
  Obj* get(jobject r) {
    if (!r) return nullptr; for (Ref& x : refs) if (reinterpret_cast<jobject>(&x) == r) { if (!x.alive) err("use of a deleted reference"); return x.obj; }
    err("not a reference"); return nullptr;
  }
  Obj* cls(const std::string& n) { auto& c = classes[n]; if (!c) { c = make("java/lang/Class"); c->name = n; } return c; }
  jclass jcls(const std::string& n) { return static_cast<jclass>(ref(cls(n))); }
  jstring str(const std::string& s) { Obj* o = make("java/lang/String"); o->utf = s; return static_cast<jstring>(ref(o)); }
  bool is_a(std::string c, const std::string& of) { for (int i = 0; i < 20 && !c.empty(); ++i) { if (c == of) return true; auto it = super.find(c); c = it == super.end() ? (c == "java/lang/Object" ? "" : "java/lang/Object") : it->second; } return false; }
  // Ends a native call: local references die, and everything acquired must have been released.
  void finish() { for (auto& a : acquired) err("not released: characters or elements of " + a.second.first->cls); acquired.clear(); if (global_refs) err("global references leaked: " + std::to_string(global_refs)); }
  std::string all_errors() { std::string s; for (auto& e : errors) s += e + "; "; return s; }
  jvalue invoke(jobject self_ref, Obj* o, jmethodID m, va_list ap, bool is_static) {
    check_pending("Call<Type>Method"); Method* me = reinterpret_cast<Method*>(m); jvalue none{}; if (!me || !o) { err("call on null"); return none; }
    if (me->is_static != is_static) err("static mismatch for " + me->name);
    if (!is_a(is_static ? o->name : o->cls, me->cls)) err("method " + me->name + " of " + me->cls + " called on " + (is_static ? o->name : o->cls));
    Call c{me->cls, me->name, me->sig, o, {}}; 
    for (size_t i = 1; i < me->sig.size() && me->sig[i] != ')'; ++i) {
      jvalue v{}; switch (me->sig[i]) {
        case 'F': v.f = float(va_arg(ap, double)); break; case 'D': v.d = va_arg(ap, double); break; case 'J': v.j = va_arg(ap, jlong); break;
        case 'Z': v.z = jboolean(va_arg(ap, int)); break; case 'I': case 'S': case 'B': case 'C': v.i = va_arg(ap, int); break;
        case 'L': v.l = va_arg(ap, jobject); while (me->sig[i] != ';') ++i; break;
        case '[': v.l = va_arg(ap, jobject); ++i; if (me->sig[i] == 'L') while (me->sig[i] != ';') ++i; break; }
      c.args.push_back(v); if (me->sig[i] == ';' || true) { /* object arguments must be live */ }
    }
    size_t k = 0; for (size_t i = 1; i < me->sig.size() && me->sig[i] != ')'; ++i, ++k) { if (me->sig[i] == 'L' || me->sig[i] == '[') { if (c.args[k].l) get(c.args[k].l); if (me->sig[i] == '[') ++i; if (me->sig[i] == 'L') while (me->sig[i] != ';') ++i; } }
    calls.push_back(c); (void)self_ref; return handler ? handler(calls.back()) : none;
  }
  jmethodID method(jclass c, const char* n, const char* s, bool st, bool field = false) {
    check_pending("Get<..>ID"); Obj* o = get(c); if (!o || o->cls != "java/lang/Class") { err("not a class"); return nullptr; }
    if (has_method && !has_method(o->name, n, s)) { pending = make("java/lang/NoSuchMethodError"); pending_message = n; return nullptr; }
    methods.push_back({o->name, n, s, st, field}); return reinterpret_cast<jmethodID>(&methods.back());
  }
  template <typename T, typename V> T* elems(jobject a, std::vector<V> Obj::*m, jboolean* copy, const char* f) {
    check_pending(f); Obj* o = get(a); if (!o) return nullptr; auto& v = o->*m; bufs.emplace_back(new char[v.size() * sizeof(T) + 1]); T* p = reinterpret_cast<T*>(bufs.back().get()); std::memcpy(p, v.data(), v.size() * sizeof(T)); acquired[p] = {o, p}; if (copy) *copy = JNI_TRUE; return p;
  }
  template <typename T, typename V> void release(jobject a, std::vector<V> Obj::*m, T* p, jint mode, const char* f) {
    Obj* o = get(a); auto it = acquired.find(p); if (it == acquired.end() || it->second.first != o) { err(std::string(f) + " of something not acquired"); return; }
    if (mode != JNI_ABORT) std::memcpy((o->*m).data(), p, (o->*m).size() * sizeof(T));
    if (mode != JNI_COMMIT) { std::memset(const_cast<void*>(static_cast<const void*>(p)), 0x5a, (o->*m).size() * sizeof(T)); acquired.erase(it); }
  }
  template <typename T, typename V> void set_region(jobject a, std::vector<V> Obj::*m, jsize s, jsize n, const T* p) {
    check_pending("Set<..>ArrayRegion"); Obj* o = get(a); if (!o) { err("null array"); return; } if (s < 0 || n < 0 || size_t(s) + n > (o->*m).size()) { pending = make("java/lang/ArrayIndexOutOfBoundsException"); return; } for (jsize i = 0; i < n; ++i) (o->*m)[s + i] = p[i];
  }
  template <typename T, typename V> void get_region(jobject a, std::vector<V> Obj::*m, jsize s, jsize n, T* p) {
    check_pending("Get<..>ArrayRegion"); Obj* o = get(a); if (!o) { err("null array"); return; } if (s < 0 || n < 0 || size_t(s) + n > (o->*m).size()) { pending = make("java/lang/ArrayIndexOutOfBoundsException"); return; } for (jsize i = 0; i < n; ++i) p[i] = (o->*m)[s + i];
  }
  Vm() {
    self = this; auto& t = table; env.functions = &table;
    super = {{"java/lang/IllegalStateException", "java/lang/RuntimeException"}, {"java/lang/IllegalArgumentException", "java/lang/RuntimeException"}, {"java/lang/NumberFormatException", "java/lang/IllegalArgumentException"}, {"java/util/NoSuchElementException", "java/lang/RuntimeException"}, {"java/util/InputMismatchException", "java/util/NoSuchElementException"},
             {"java/lang/IndexOutOfBoundsException", "java/lang/RuntimeException"}, {"java/lang/ArrayIndexOutOfBoundsException", "java/lang/IndexOutOfBoundsException"}, {"java/lang/UnsupportedOperationException", "java/lang/RuntimeException"}, {"java/lang/NullPointerException", "java/lang/RuntimeException"}, {"java/lang/RuntimeException", "java/lang/Exception"}, {"java/lang/Exception", "java/lang/Throwable"}, {"java/lang/OutOfMemoryError", "java/lang/Error"}, {"java/lang/Error", "java/lang/Throwable"}, {"java/util/concurrent/CancellationException", "java/lang/IllegalStateException"}};
    t.GetVersion = [](JNIEnv*) -> jint { return JNI_VERSION_1_8; };
    t.NewGlobalRef = [](JNIEnv*, jobject o) -> jobject { return self->ref(self->get(o), true); };
    t.DeleteGlobalRef = [](JNIEnv*, jobject o) { if (!o) return; Ref* r = reinterpret_cast<Ref*>(o); self->get(o); if (!r->global) self->err("DeleteGlobalRef of a local reference"); else if (r->alive) --self->global_refs; r->alive = false; };
    t.NewLocalRef = [](JNIEnv*, jobject o) -> jobject { return self->ref(self->get(o)); };
    t.DeleteLocalRef = [](JNIEnv*, jobject o) { if (!o) return; Ref* r = reinterpret_cast<Ref*>(o); self->get(o); if (r->global) self->err("DeleteLocalRef of a global reference"); r->alive = false; };
    t.IsSameObject = [](JNIEnv*, jobject a, jobject b) -> jboolean { return self->get(a) == self->get(b); };
    t.EnsureLocalCapacity = [](JNIEnv*, jint) -> jint { return 0; };
    t.PushLocalFrame = [](JNIEnv*, jint) -> jint { return 0; };
    t.PopLocalFrame = [](JNIEnv*, jobject o) -> jobject { return o; };
    t.FindClass = [](JNIEnv*, const char* n) -> jclass { self->check_pending("FindClass"); return self->jcls(n); };
    t.GetObjectClass = [](JNIEnv*, jobject o) -> jclass { self->check_pending("GetObjectClass"); Obj* x = self->get(o); return x ? self->jcls(x->cls) : nullptr; };
    t.GetSuperclass = [](JNIEnv*, jclass c) -> jclass { Obj* x = self->get(c); auto it = self->super.find(x->name); return it == self->super.end() ? nullptr : self->jcls(it->second); };
    t.IsInstanceOf = [](JNIEnv*, jobject o, jclass c) -> jboolean { self->check_pending("IsInstanceOf"); Obj* x = self->get(o); Obj* k = self->get(c); return !x || (k && self->is_a(x->cls, k->name)); };
    t.ExceptionOccurred = [](JNIEnv*) -> jthrowable { return static_cast<jthrowable>(self->ref(self->pending)); };
    t.ExceptionCheck = [](JNIEnv*) -> jboolean { return self->pending != nullptr; };
    t.ExceptionClear = [](JNIEnv*) { self->pending = nullptr; };
    t.ExceptionDescribe = [](JNIEnv*) {};
    t.Throw = [](JNIEnv*, jthrowable o) -> jint { self->check_pending("Throw"); self->pending = self->get(o); return 0; };
    t.ThrowNew = [](JNIEnv*, jclass c, const char* m) -> jint { self->check_pending("ThrowNew"); Obj* k = self->get(c); if (!k) { self->err("ThrowNew of null"); return -1; } if (!self->is_a(k->name, "java/lang/Throwable")) self->err("ThrowNew of " + k->name); self->pending = self->make(k->name); self->pending->utf = m ? m : ""; self->pending->null_str = !m; self->pending_message = m ? m : ""; return 0; };
    t.GetMethodID = [](JNIEnv*, jclass c, const char* n, const char* s) -> jmethodID { return self->method(c, n, s, false); };
    t.GetStaticMethodID = [](JNIEnv*, jclass c, const char* n, const char* s) -> jmethodID { return self->method(c, n, s, true); };
    t.GetFieldID = [](JNIEnv*, jclass c, const char* n, const char* s) -> jfieldID { return reinterpret_cast<jfieldID>(self->method(c, n, s, false, true)); };
#define FJ_CALL(T, R, member) \
    t.Call##T##MethodV = [](JNIEnv*, jobject o, jmethodID m, va_list ap) -> R { return self->invoke(o, self->get(o), m, ap, false).member; }; \
    t.CallStatic##T##MethodV = [](JNIEnv*, jclass c, jmethodID m, va_list ap) -> R { return self->invoke(c, self->get(c), m, ap, true).member; };
    FJ_CALL(Object, jobject, l) FJ_CALL(Int, jint, i) FJ_CALL(Long, jlong, j) FJ_CALL(Float, jfloat, f) FJ_CALL(Boolean, jboolean, z) FJ_CALL(Double, jdouble, d)
#undef FJ_CALL
    t.CallVoidMethodV = [](JNIEnv*, jobject o, jmethodID m, va_list ap) { self->invoke(o, self->get(o), m, ap, false); };
    t.CallStaticVoidMethodV = [](JNIEnv*, jclass o, jmethodID m, va_list ap) { self->invoke(o, self->get(o), m, ap, true); };
    t.NewObjectV = [](JNIEnv*, jclass c, jmethodID m, va_list ap) -> jobject {
      Obj* k = self->get(c); if (!k) { self->err("NewObject of null class"); return nullptr; } Obj* o = self->make(k->name); if (reinterpret_cast<Method*>(m)->name != "<init>") self->err("NewObject with " + reinterpret_cast<Method*>(m)->name); self->invoke(nullptr, o, m, ap, false); return self->ref(o); };
    t.GetIntField = [](JNIEnv*, jobject o, jfieldID f) -> jint { self->check_pending("GetIntField"); Obj* x = self->get(o); auto* m = reinterpret_cast<Method*>(f); if (!x || !x->num.count(m->name)) { self->err("no field " + m->name); return 0; } return jint(x->num[m->name]); };
    t.GetLongField = [](JNIEnv*, jobject o, jfieldID f) -> jlong { self->check_pending("GetLongField"); Obj* x = self->get(o); auto* m = reinterpret_cast<Method*>(f); if (!x || !x->num.count(m->name)) { self->err("no field " + m->name); return 0; } return jlong(x->num[m->name]); };
    t.GetFloatField = [](JNIEnv*, jobject o, jfieldID f) -> jfloat { self->check_pending("GetFloatField"); Obj* x = self->get(o); auto* m = reinterpret_cast<Method*>(f); if (!x || !x->num.count(m->name)) { self->err("no field " + m->name); return 0; } return jfloat(x->num[m->name]); };
    t.NewStringUTF = [](JNIEnv*, const char* s) -> jstring { self->check_pending("NewStringUTF"); return s ? self->str(s) : nullptr; };
    t.GetStringUTFLength = [](JNIEnv*, jstring s) -> jsize { self->check_pending("GetStringUTFLength"); Obj* o = self->get(s); if (!o) { self->err("GetStringUTFLength(null)"); return 0; } return o->utf.size(); };
    t.GetStringLength = [](JNIEnv*, jstring s) -> jsize { self->check_pending("GetStringLength"); Obj* o = self->get(s); jsize n = 0; for (unsigned char ch : o->utf) n += (ch & 0xc0) != 0x80; return n; };
    t.GetStringUTFChars = [](JNIEnv*, jstring s, jboolean* copy) -> const char* { self->check_pending("GetStringUTFChars"); Obj* o = self->get(s); if (!o) { self->err("GetStringUTFChars(null)"); return nullptr; }
      size_t n = o->utf.size(); char* p = static_cast<char*>(malloc(n + 1)); std::memcpy(p, o->utf.c_str(), n + 1); self->acquired[p] = {o, p}; if (copy) *copy = JNI_TRUE; return p; };
    t.ReleaseStringUTFChars = [](JNIEnv*, jstring s, const char* p) { Obj* o = self->get(s); auto it = self->acquired.find(p); if (it == self->acquired.end() || it->second.first != o) { self->err("ReleaseStringUTFChars of something not acquired from that string"); return; } self->acquired.erase(it); free(const_cast<char*>(p)); };
    t.GetStringUTFRegion = [](JNIEnv*, jstring s, jsize, jsize, char* b) { Obj* o = self->get(s); std::memcpy(b, o->utf.c_str(), o->utf.size() + 1); };
    t.GetArrayLength = [](JNIEnv*, jarray a) -> jsize { self->check_pending("GetArrayLength"); Obj* o = self->get(a); if (!o) { self->err("GetArrayLength(null)"); return 0; } return o->cls == "[F" ? o->f.size() : o->cls == "[J" ? o->l.size() : o->cls == "[I" ? o->i.size() : o->cls == "[B" ? o->b.size() : o->o.size(); };
#define FJ_ARR(T, J, m, C) \
    t.New##T##Array = [](JNIEnv*, jsize n) -> J##Array { self->check_pending("New" #T "Array"); Obj* o = self->make(C); o->m.resize(n); return static_cast<J##Array>(self->ref(o)); }; \
    t.Get##T##ArrayElements = [](JNIEnv*, J##Array a, jboolean* c) -> J* { return self->elems<J>(a, &Obj::m, c, "Get" #T "ArrayElements"); }; \
    t.Release##T##ArrayElements = [](JNIEnv*, J##Array a, J* p, jint mode) { self->release<J>(a, &Obj::m, p, mode, "Release" #T "ArrayElements"); }; \
    t.Set##T##ArrayRegion = [](JNIEnv*, J##Array a, jsize s, jsize n, const J* p) { self->set_region<J>(a, &Obj::m, s, n, p); }; \
    t.Get##T##ArrayRegion = [](JNIEnv*, J##Array a, jsize s, jsize n, J* p) { self->get_region<J>(a, &Obj::m, s, n, p); };
    FJ_ARR(Float, jfloat, f, "[F") FJ_ARR(Long, jlong, l, "[J") FJ_ARR(Int, jint, i, "[I") FJ_ARR(Byte, jbyte, b, "[B")
#undef FJ_ARR
    t.GetPrimitiveArrayCritical = [](JNIEnv*, jarray a, jboolean* c) -> void* { Obj* o = self->get(a); if (o->cls == "[F") return self->elems<jfloat>(a, &Obj::f, c, "critical"); if (o->cls == "[J") return self->elems<jlong>(a, &Obj::l, c, "critical"); return self->elems<jint>(a, &Obj::i, c, "critical"); };
    t.ReleasePrimitiveArrayCritical = [](JNIEnv*, jarray a, void* p, jint mode) { Obj* o = self->get(a); if (o->cls == "[F") self->release<jfloat>(a, &Obj::f, static_cast<jfloat*>(p), mode, "critical"); else if (o->cls == "[J") self->release<jlong>(a, &Obj::l, static_cast<jlong*>(p), mode, "critical"); else self->release<jint>(a, &Obj::i, static_cast<jint*>(p), mode, "critical"); };
    t.NewObjectArray = [](JNIEnv*, jsize n, jclass c, jobject init) -> jobjectArray { self->check_pending("NewObjectArray"); Obj* k = self->get(c); if (!k) self->err("NewObjectArray of null class"); Obj* o = self->make("[L" + (k ? k->name : "?") + ";"); o->o.assign(n, init); return static_cast<jobjectArray>(self->ref(o)); };
    t.SetObjectArrayElement = [](JNIEnv*, jobjectArray a, jsize i, jobject v) { self->check_pending("SetObjectArrayElement"); Obj* o = self->get(a); if (!o || i < 0 || size_t(i) >= o->o.size()) { self->pending = self->make("java/lang/ArrayIndexOutOfBoundsException"); return; } Obj* e = self->get(v); if (e && "[L" + e->cls + ";" != o->cls) self->err("array store of " + e->cls + " in " + o->cls); o->o[i] = v; };
    t.GetObjectArrayElement = [](JNIEnv*, jobjectArray a, jsize i) -> jobject { self->check_pending("GetObjectArrayElement"); Obj* o = self->get(a); if (!o || i < 0 || size_t(i) >= o->o.size()) { self->pending = self->make("java/lang/ArrayIndexOutOfBoundsException"); return nullptr; } return self->ref(self->get(o->o[i])); };
    t.NewDirectByteBuffer = [](JNIEnv*, void* a, jlong n) -> jobject { self->check_pending("NewDirectByteBuffer"); if (!a) self->err("NewDirectByteBuffer(null)"); Obj* o = self->make("java/nio/ByteBuffer"); o->addr = a; o->cap = n; return self->ref(o); };
    t.GetDirectBufferAddress = [](JNIEnv*, jobject o) -> void* { Obj* x = self->get(o); return x ? x->addr : nullptr; };
    t.GetDirectBufferCapacity = [](JNIEnv*, jobject o) -> jlong { Obj* x = self->get(o); return x ? x->cap : -1; };
  }
  ~Vm() { for (auto& a : acquired) if (a.second.first->cls == "java/lang/String") free(a.second.second); self = nullptr; }
  Vm(const Vm&) = delete;
};
inline Vm* Vm::self = nullptr;
}  // namespace fakejvm
