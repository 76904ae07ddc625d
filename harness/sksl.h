// A small C++ meaning for the SkSL that the generated shaders use: float vectors with swizzles, 2x2 matrices, intrinsics.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
namespace sksl {
struct float2; struct float3; struct float4;
template <int K> struct VecOf; template <> struct VecOf<2> { using T = float2; }; template <> struct VecOf<3> { using T = float3; }; template <> struct VecOf<4> { using T = float4; };
template <int N, int... I> struct Sw {
  float d[N];
  using V = typename VecOf<sizeof...(I)>::T;
  operator V() const;
  Sw& operator=(const V& o); Sw& operator=(const Sw& o) { return *this = V(o); }
  Sw& operator+=(const V& o); Sw& operator-=(const V& o); Sw& operator*=(const V& o); Sw& operator/=(const V& o); Sw& operator*=(float f); Sw& operator/=(float f); Sw& operator+=(float f); Sw& operator-=(float f);
};
#define SKSL_COMMON(T, N) \
  explicit T(float s) { for (int i = 0; i < N; ++i) d[i] = s; } \
  T() { for (int i = 0; i < N; ++i) d[i] = 0; } \
  T(const T& o) { std::memcpy(d, o.d, sizeof d); } \
  T& operator=(const T& o) { std::memcpy(d, o.d, sizeof d); return *this; } \
  float& operator[](int i) { return d[i]; } float operator[](int i) const { return d[i]; }
struct float2 { union { float d[2]; struct { float x, y; }; struct { float r, g; }; SKSL_SWIZZLES_2 };
  SKSL_COMMON(float2, 2) float2(float a, float b) { d[0] = a; d[1] = b; } };
struct float3 { union { float d[3]; struct { float x, y, z; }; struct { float r, g, b; }; SKSL_SWIZZLES_3 };
  SKSL_COMMON(float3, 3) float3(float p, float q, float s) { d[0] = p; d[1] = q; d[2] = s; } float3(const float2& v, float s) : float3(v.d[0], v.d[1], s) {} float3(float s, const float2& v) : float3(s, v.d[0], v.d[1]) {} };
struct float4 { union { float d[4]; struct { float x, y, z, w; }; struct { float r, g, b, a; }; SKSL_SWIZZLES_4 };
  SKSL_COMMON(float4, 4) float4(float p, float q, float s, float t) { d[0] = p; d[1] = q; d[2] = s; d[3] = t; }
  float4(const float3& v, float s) : float4(v.d[0], v.d[1], v.d[2], s) {} float4(float s, const float3& v) : float4(s, v.d[0], v.d[1], v.d[2]) {}
  float4(const float2& v, const float2& w) : float4(v.d[0], v.d[1], w.d[0], w.d[1]) {} float4(const float2& v, float s, float t) : float4(v.d[0], v.d[1], s, t) {} };
using half = float; using half2 = float2; using half3 = float3; using half4 = float4;
using vec2 = float2; using vec3 = float3; using vec4 = float4;
#define SKSL_SW template <int N, int... I>
SKSL_SW Sw<N, I...>::operator V() const { V v; int k = 0; ((v.d[k++] = d[I]), ...); return v; }
SKSL_SW Sw<N, I...>& Sw<N, I...>::operator=(const V& o) { int k = 0; ((d[I] = o.d[k++]), ...); return *this; }
#define SKSL_ASSIGN(OP) SKSL_SW Sw<N, I...>& Sw<N, I...>::operator OP##=(const V& o) { V t = o; int k = 0; ((d[I] OP##= t.d[k++]), ...); return *this; } \
  SKSL_SW Sw<N, I...>& Sw<N, I...>::operator OP##=(float f) { ((d[I] OP##= f), ...); return *this; }
SKSL_ASSIGN(+) SKSL_ASSIGN(-) SKSL_ASSIGN(*) SKSL_ASSIGN(/)
#define SKSL_EACH(T, N, E) { T r; for (int i = 0; i < N; ++i) r.d[i] = (E); return r; }
#define SKSL_OP(T, N, OP) \
  inline T operator OP(const T& a, const T& b) SKSL_EACH(T, N, a.d[i] OP b.d[i]) \
  inline T operator OP(const T& a, float b) SKSL_EACH(T, N, a.d[i] OP b) \
  inline T operator OP(float a, const T& b) SKSL_EACH(T, N, a OP b.d[i]) \
  inline T& operator OP##=(T& a, const T& b) { return a = a OP b; } inline T& operator OP##=(T& a, float b) { return a = a OP b; }
#define SKSL_F1(T, N, F) inline T F(const T& a) SKSL_EACH(T, N, F(a.d[i]))
#define SKSL_F2(T, N, F) inline T F(const T& a, const T& b) SKSL_EACH(T, N, F(a.d[i], b.d[i])) inline T F(const T& a, float b) SKSL_EACH(T, N, F(a.d[i], b))
inline float abs(float a) { return std::fabs(a); } inline float floor(float a) { return std::floor(a); } inline float ceil(float a) { return std::ceil(a); } inline float round(float a) { return std::round(a); }
inline float fract(float a) { return a - std::floor(a); } inline float saturate(float a) { return a > 0 ? (a < 1 ? a : 1) : (a == a ? 0 : a); }
inline float sqrt(float a) { return std::sqrt(a); } inline float inversesqrt(float a) { return 1 / std::sqrt(a); } inline float cos(float a) { return std::cos(a); } inline float sin(float a) { return std::sin(a); } inline float tan(float a) { return std::tan(a); }
inline float exp(float a) { return std::exp(a); } inline float log(float a) { return std::log(a); } inline float exp2(float a) { return std::exp2(a); } inline float log2(float a) { return std::log2(a); }
inline float atan(float a) { return std::atan(a); } inline float atan(float a, float b) { return std::atan2(a, b); } inline float radians(float a) { return a * 0.017453292519943295f; } inline float degrees(float a) { return a * 57.29577951308232f; }
inline float sign(float a) { return (a > 0) - (a < 0); } inline float min(float a, float b) { return b < a ? b : a; } inline float max(float a, float b) { return a < b ? b : a; }
inline float pow(float a, float b) { return std::pow(a, b); } inline float mod(float a, float b) { return a - b * std::floor(a / b); } inline float step(float e, float a) { return a < e ? 0 : 1; }
inline float mix(float a, float b, float t) { return a * (1 - t) + b * t; } inline float clamp(float a, float lo, float hi) { return min(max(a, lo), hi); }
inline float smoothstep(float e0, float e1, float a) { float t = saturate((a - e0) / (e1 - e0)); return t * t * (3 - 2 * t); }
inline float fma(float a, float b, float c) { return a * b + c; }
#define SKSL_ALL(T, N) \
  SKSL_OP(T, N, +) SKSL_OP(T, N, -) SKSL_OP(T, N, *) SKSL_OP(T, N, /) inline T operator-(const T& a) SKSL_EACH(T, N, -a.d[i]) \
  SKSL_F1(T, N, abs) SKSL_F1(T, N, floor) SKSL_F1(T, N, ceil) SKSL_F1(T, N, round) SKSL_F1(T, N, fract) SKSL_F1(T, N, saturate) SKSL_F1(T, N, sqrt) SKSL_F1(T, N, inversesqrt) SKSL_F1(T, N, cos) SKSL_F1(T, N, sin) SKSL_F1(T, N, sign) SKSL_F1(T, N, radians) SKSL_F1(T, N, exp) SKSL_F1(T, N, log) \
  SKSL_F2(T, N, min) SKSL_F2(T, N, max) SKSL_F2(T, N, mod) SKSL_F2(T, N, pow) SKSL_F2(T, N, step) inline T step(float e, const T& a) SKSL_EACH(T, N, step(e, a.d[i])) \
  inline T mix(const T& a, const T& b, const T& t) SKSL_EACH(T, N, mix(a.d[i], b.d[i], t.d[i])) inline T mix(const T& a, const T& b, float t) SKSL_EACH(T, N, mix(a.d[i], b.d[i], t)) \
  inline T clamp(const T& a, float lo, float hi) SKSL_EACH(T, N, clamp(a.d[i], lo, hi)) inline T clamp(const T& a, const T& lo, const T& hi) SKSL_EACH(T, N, clamp(a.d[i], lo.d[i], hi.d[i])) \
  inline float dot(const T& a, const T& b) { float r = 0; for (int i = 0; i < N; ++i) r += a.d[i] * b.d[i]; return r; } \
  inline float length(const T& a) { return std::sqrt(dot(a, a)); } inline float distance(const T& a, const T& b) { return length(a - b); } inline T normalize(const T& a) { return a / length(a); } \
  inline bool operator==(const T& a, const T& b) { for (int i = 0; i < N; ++i) if (a.d[i] != b.d[i]) return false; return true; } inline bool operator!=(const T& a, const T& b) { return !(a == b); }
SKSL_ALL(float2, 2) SKSL_ALL(float3, 3) SKSL_ALL(float4, 4)
struct mat2 { float2 c[2]; mat2() {} mat2(const float2& a, const float2& b) : c{a, b} {} mat2(float a, float b, float p, float q) : c{{a, b}, {p, q}} {}
  explicit mat2(const float4& v) : c{{v.d[0], v.d[1]}, {v.d[2], v.d[3]}} {} float2& operator[](int i) { return c[i]; } const float2& operator[](int i) const { return c[i]; } };
using float2x2 = mat2; using half2x2 = mat2;
inline float2 operator*(const mat2& m, const float2& v) { return m.c[0] * v.d[0] + m.c[1] * v.d[1]; }
inline float2 operator*(const float2& v, const mat2& m) { return {dot(v, m.c[0]), dot(v, m.c[1])}; }
inline mat2 operator*(const mat2& m, const mat2& n) { return {m * n.c[0], m * n.c[1]}; } inline mat2 operator*(float f, const mat2& m) { return {f * m.c[0], f * m.c[1]}; } inline mat2 operator*(const mat2& m, float f) { return f * m; }
inline mat2 transpose(const mat2& m) { return {m.c[0].d[0], m.c[1].d[0], m.c[0].d[1], m.c[1].d[1]}; }
inline float determinant(const mat2& m) { return m.c[0].d[0] * m.c[1].d[1] - m.c[1].d[0] * m.c[0].d[1]; }
inline mat2 inverse(const mat2& m) { float k = 1 / determinant(m); return {k * m.c[1].d[1], -k * m.c[0].d[1], -k * m.c[1].d[0], k * m.c[0].d[0]}; }
// Attribute fetch: float types are read as they are, kUByte4 is four bytes normalised by 255 (and is the only half4).
inline void Fetch(float2& a, const uint8_t* p) { std::memcpy(a.d, p, 8); }
inline void Fetch(float3& a, const uint8_t* p) { std::memcpy(a.d, p, 12); }
inline void Fetch(float4& a, const uint8_t* p) { for (int i = 0; i < 4; ++i) a.d[i] = p[i] / 255.0f; }
}  // namespace sksl
