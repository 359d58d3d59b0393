// OpenCL C kernels as C++: the kernel files are compiled with this header in front of them
#ifndef CL_SHIM_H
#define CL_SHIM_H
#include "cl_device.h"
#include <cmath>
#include <cfloat>
#include <climits>
#include <cstddef>
#include <cstdint>
typedef unsigned int uint; typedef unsigned char uchar; typedef unsigned short ushort; typedef unsigned long ulong;
#define __kernel extern "C"
#define kernel extern "C"
#define __global
#define global
#define __constant const
#define __private
#define __read_only
#define __write_only
#define __read_write
#define read_only
#define write_only
#define restrict __restrict
extern "C" size_t get_global_id(uint); extern "C" size_t get_global_size(uint); extern "C" size_t get_global_offset(uint); extern "C" size_t get_local_id(uint); extern "C" size_t get_local_size(uint); extern "C" size_t get_group_id(uint); extern "C" size_t get_num_groups(uint); extern "C" uint get_work_dim();
struct float2 { float x, y; float2(double v = 0) : x((float)v), y((float)v) {} float2(float a, float b) : x(a), y(b) {} };
struct float4 { float x, y, z, w; float4(double v = 0) : x((float)v), y((float)v), z((float)v), w((float)v) {} float4(float a, float b, float c, float d) : x(a), y(b), z(c), w(d) {} };
#define OP(o) inline float4 operator o(float4 a, float4 b) { return float4(a.x o b.x, a.y o b.y, a.z o b.z, a.w o b.w); } inline float4& operator o##=(float4& a, float4 b) { return a = a o b; } inline float2 operator o(float2 a, float2 b) { return float2(a.x o b.x, a.y o b.y); } inline float2& operator o##=(float2& a, float2 b) { return a = a o b; }
OP(+) OP(-) OP(*) OP(/)
#undef OP
inline float dot(float4 a, float4 b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; } inline float dot(float2 a, float2 b) { return a.x * b.x + a.y * b.y; }
inline float4 vload4(size_t i, const float* p) { return float4(p[i * 4], p[i * 4 + 1], p[i * 4 + 2], p[i * 4 + 3]); } inline void vstore4(float4 v, size_t i, float* p) { p[i * 4] = v.x; p[i * 4 + 1] = v.y; p[i * 4 + 2] = v.z; p[i * 4 + 3] = v.w; }
inline float2 vload2(size_t i, const float* p) { return float2(p[i * 2], p[i * 2 + 1]); } inline void vstore2(float2 v, size_t i, float* p) { p[i * 2] = v.x; p[i * 2 + 1] = v.y; }
template <class A, class B> inline auto min(A a, B b) -> decltype(a + b) { typedef decltype(a + b) T; return (T)a < (T)b ? (T)a : (T)b; }
template <class A, class B> inline auto max(A a, B b) -> decltype(a + b) { typedef decltype(a + b) T; return (T)a > (T)b ? (T)a : (T)b; }
template <class A, class B, class C> inline auto clamp(A a, B b, C c) -> decltype(a + b + c) { return min(max(a, b), c); }
template <class A, class B, class C> inline auto mad(A a, B b, C c) -> decltype(a * b + c) { return a * b + c; }
template <class T> inline T select(T a, T b, int c) { return c ? b : a; }
inline int mul24(int a, int b) { return a * b; } inline uint mul24(uint a, uint b) { return a * b; } inline int mad24(int a, int b, int c) { return a * b + c; } inline uint mad24(uint a, uint b, uint c) { return a * b + c; }
#define F1(n) inline float n(float x) { return ::n##f(x); }
#define N1(n) inline float native_##n(float x) { return ::n##f(x); }
N1(exp) N1(log) N1(sqrt) N1(sin) N1(cos) inline float native_recip(float x) { return 1 / x; } inline float native_divide(float a, float b) { return a / b; } inline float rsqrt(float x) { return 1 / sqrtf(x); } inline float native_rsqrt(float x) { return 1 / sqrtf(x); }
namespace clmath { F1(tanh) F1(exp) F1(log) F1(sqrt) F1(fabs) F1(floor) F1(ceil) inline float pow(float a, float b) { return powf(a, b); } inline float fmax(float a, float b) { return fmaxf(a, b); } inline float fmin(float a, float b) { return fminf(a, b); } inline float fma(float a, float b, float c) { return fmaf(a, b, c); } }
#define tanh clmath::tanh
#define exp clmath::exp
#define log clmath::log
#define sqrt clmath::sqrt
#define fabs clmath::fabs
#define floor clmath::floor
#define ceil clmath::ceil
#define pow clmath::pow
#define fmax clmath::fmax
#define fmin clmath::fmin
#define fma clmath::fma
#define barrier(x)
#define mem_fence(x)
#define CLK_LOCAL_MEM_FENCE 1
#define CLK_GLOBAL_MEM_FENCE 2
#endif
