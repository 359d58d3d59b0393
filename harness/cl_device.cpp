// The OpenCL entry points the library uses, served by the host. Device memory is separate from host memory. Every access
// of a kernel is checked: it has to lie in one of the buffers given to the kernel, and no two work items of a launch
// may touch the same byte when one of them writes. Without such conflicts every order and interleaving of the work
// items is equivalent to the one executed.
#define CL_TARGET_OPENCL_VERSION 120
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#include <CL/cl.h>
#include "cl_device.h"
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <deque>
#include <functional>
#ifdef BUILD_CLBLAS
#include <clBLAS.h>
#endif
namespace cld {
State& state() { static State s; return s; }
std::map<std::string, Kernel>& kernels() { static std::map<std::string, Kernel> k; return k; }
struct Shadow { uint64_t launch = 0; uint32_t w = 0, r = 0; };
static const size_t ZONE = 256;
struct Mem { uint32_t magic = 0x4D454D21; char* raw; size_t size; std::vector<Shadow> shadow; int refs = 1; char* data() { return raw + ZONE; } };
static void release(Mem* m) { if (--m->refs == 0) { m->magic = 0; free(m->raw); delete m; } }
struct Kern { const Kernel* k; std::vector<std::string> arg; std::vector<bool> set; };
struct Command { std::function<void()> job; int kind; Mem* mem; size_t offset, size; void* host; const Kernel* k; std::vector<std::string> arg; std::vector<Mem*> mems; size_t n[3]; unsigned dim; };
static std::deque<Command> pending; static std::set<Mem*> live;
static bool inside; static uint32_t item; static uint64_t launch; static Command* cur; static size_t id[3]; static char* base; static jmp_buf out;
extern "C" char __executable_start, _end;
void enter() { inside = true; }
static void problem(const std::string& s) { if (state().problem.empty()) state().problem = s; }
static std::string dbg(void* p, void* b) { char t[200]; snprintf(t, 200, " access %p base %p frame %p", p, b, __builtin_frame_address(0)); for (Mem* m : cur->mems) snprintf(t + strlen(t), 200 - strlen(t), " mem %p+%zu", m->data(), m->size); return t; }
static std::string where() { return cur->k->name + " of " + std::to_string(cur->n[0]) + "x" + std::to_string(cur->n[1]) + "x" + std::to_string(cur->n[2]) + " work items, at (" + std::to_string(id[0]) + "," + std::to_string(id[1]) + "," + std::to_string(id[2]) + ")"; }
__attribute__((no_sanitize("address"))) static void access(void* p, size_t n, bool write) {
  if (!inside) return; char* a = (char*)p; state().accesses++; if (a < base && a > (char*)__builtin_frame_address(0)) return;
  for (size_t b = 0; b < cur->mems.size(); b++) { Mem* m = cur->mems[b]; if (a + n <= m->data() || a >= m->data() + m->size) continue; if (a < m->data() || a + n > m->data() + m->size) break;
    for (size_t i = a - m->data(); i < (size_t)(a - m->data()) + n; i++) { Shadow& s = m->shadow[i]; if (s.launch != launch) { s.launch = launch; s.w = s.r = 0; }
      if ((s.w && s.w != item) || (write && s.r && s.r != item)) { problem("conflict: " + where() + (write ? " writes" : " reads") + " element " + std::to_string(i / 4) + " of buffer " + std::to_string(b) + ", which another work item " + (s.w && s.w != item ? "writes" : "reads")); inside = false; longjmp(out, 1); }
      if (write) s.w = item; else s.r = s.r && s.r != item ? 0xffffffffu : item; } return; }
  if (!write && a >= &__executable_start && a < &_end) return;
  std::string w = where(); for (size_t b = 0; b < cur->mems.size(); b++) { Mem* m = cur->mems[b]; long e = (a - m->data()); if (e >= -(long)ZONE && e < (long)(m->size + ZONE)) w += ", element " + std::to_string(e >= 0 ? e / 4 : -((3 - e) / 4)) + " of buffer " + std::to_string(b) + " of " + std::to_string(m->size / 4); }
  problem("bounds: " + w + (write ? " writes" : " reads") + " outside of its buffers" + (getenv("CLD_DEBUG") ? dbg(p, base) : "")); inside = false; longjmp(out, 1); }
static void exec(Command& c) { State& s = state(); if (c.kind == 3) { c.job(); for (Mem* m : c.mems) release(m); return; }
  if (c.kind == 0) { memcpy(c.mem->data() + c.offset, c.host, c.size); release(c.mem); s.transfers++; return; } if (c.kind == 1) { memcpy(c.host, c.mem->data() + c.offset, c.size); release(c.mem); s.transfers++; return; }
  size_t total = c.n[0] * c.n[1] * c.n[2]; std::vector<uint32_t> ord(total); for (size_t i = 0; i < total; i++) ord[i] = i; if (s.order == 1) std::reverse(ord.begin(), ord.end()); else if (s.order > 1) { if (total <= 4) for (unsigned i = 1; i < s.order; i++) std::next_permutation(ord.begin(), ord.end()); else std::rotate(ord.begin(), ord.begin() + s.order % total, ord.end()); }
  s.launches++; s.kernels[c.k->name]++; launch++; cur = &c; base = (char*)__builtin_frame_address(0); volatile size_t at = 0;
  if (!setjmp(out)) for (; at < total; at = at + 1) { uint32_t i = ord[at]; item = i + 1; id[0] = i % c.n[0]; id[1] = i / c.n[0] % c.n[1]; id[2] = i / c.n[0] / c.n[1]; s.items++; c.k->run(c.k->fn, c.arg); inside = false; }
  cur = nullptr; for (Mem* m : c.mems) release(m); }
static void drain() { while (!pending.empty()) { Command c = pending.front(); pending.pop_front(); exec(c); } }
static int give(Command c, bool blocking) { pending.push_back(c); if (blocking || !state().late) drain(); return CL_SUCCESS; }
}
using namespace cld;
extern "C" {
size_t get_global_id(unsigned d) { return d < 3 ? cld::id[d] : 0; } size_t get_global_size(unsigned d) { return d < 3 ? cur->n[d] : 1; } size_t get_global_offset(unsigned) { return 0; } size_t get_local_id(unsigned) { return 0; } size_t get_local_size(unsigned) { return 1; } size_t get_group_id(unsigned d) { return get_global_id(d); } size_t get_num_groups(unsigned d) { return get_global_size(d); } unsigned get_work_dim() { return cur->dim; }
// every call may be told to fail
#define FAILS(error) { State& st = state(); if (++st.calls == st.fail_at) { st.failed = __func__; return error; } }
#define FAILS0(e) { State& st = state(); if (++st.calls == st.fail_at) { st.failed = __func__; if (e) *e = st.code; return 0; } }
static long platform(const void* p) { long i = (long)(intptr_t)p - 0x100; return i >= 0 && i < (long)state().machine.size() ? i : -1; }
static bool device(const void* d, unsigned& p, unsigned& i) { long v = (long)(intptr_t)d; p = v / 0x1000 - 1; i = v % 0x1000; return v >= 0x1000 && p < state().machine.size() && i < state().machine[p].size(); }
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id* p, cl_uint* c) { FAILS(st.code) auto& m = state().machine; if ((p && !n) || (!p && !c)) return CL_INVALID_VALUE; for (unsigned i = 0; p && i < n && i < m.size(); i++) p[i] = (cl_platform_id)(intptr_t)(0x100 + i); if (c) *c = m.size(); return m.size() ? CL_SUCCESS : -1001; }
cl_int clGetDeviceIDs(cl_platform_id q, cl_device_type, cl_uint n, cl_device_id* p, cl_uint* c) { FAILS(st.code) long k = platform(q); if (k < 0) return CL_INVALID_PLATFORM; auto& m = state().machine[k]; if ((p && !n) || (!p && !c)) return CL_INVALID_VALUE; if (m.empty()) return CL_DEVICE_NOT_FOUND; for (unsigned i = 0; p && i < n && i < m.size(); i++) p[i] = (cl_device_id)(intptr_t)(0x1000 * (k + 1) + i); if (c) *c = m.size(); return CL_SUCCESS; }
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info i, size_t n, void* p, size_t* r) { FAILS(st.code) unsigned a, b; if (!device(d, a, b)) return CL_INVALID_DEVICE; size_t need = i == CL_DEVICE_NAME ? state().machine[a][b].size() + 1 : 4; if (r) *r = need; if (!p) return CL_SUCCESS; if (n < need) return CL_INVALID_VALUE; if (i == CL_DEVICE_NAME) memcpy(p, state().machine[a][b].c_str(), need); else memset(p, 0, need); return CL_SUCCESS; }
cl_context clCreateContext(const cl_context_properties* q, cl_uint n, const cl_device_id* d, void (CL_CALLBACK*)(const char*, const void*, size_t, void*), void*, cl_int* e) { FAILS0(e) State& s = state(); unsigned a, b; for (; q && q[0]; q += 2) if (q[0] == CL_CONTEXT_PLATFORM && platform((void*)q[1]) < 0) { if (e) *e = CL_INVALID_PLATFORM; return 0; } else if (q[0] == CL_CONTEXT_PLATFORM) s.context_platform = platform((void*)q[1]); if (n != 1 || !d || !device(*d, a, b)) { if (e) *e = CL_INVALID_DEVICE; return 0; } s.context_device = {a, b}; if (e) *e = CL_SUCCESS; return (cl_context)0x300; }
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties, cl_int* e) { FAILS0(e) unsigned a, b; if (c != (cl_context)0x300 || !device(d, a, b)) { if (e) *e = c ? CL_INVALID_DEVICE : CL_INVALID_CONTEXT; return 0; } state().queue_device = {a, b}; if (e) *e = CL_SUCCESS; return (cl_command_queue)0x400; }
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char** s, const size_t* l, cl_int* e) { FAILS0(e) if (c != (cl_context)0x300) { if (e) *e = CL_INVALID_CONTEXT; return 0; } std::string* t = new std::string; for (unsigned i = 0; i < n; i++) *t += l && l[i] ? std::string(s[i], l[i]) : std::string(s[i]); state().sources.push_back(*t); if (e) *e = CL_SUCCESS; return (cl_program)t; }
cl_int clBuildProgram(cl_program p, cl_uint n, const cl_device_id* d, const char*, void (CL_CALLBACK*)(cl_program, void*), void*) { FAILS(CL_BUILD_PROGRAM_FAILURE) if (!p) return CL_INVALID_PROGRAM; for (unsigned i = 0; i < n; i++) { unsigned a, b; if (!device(d[i], a, b)) return CL_INVALID_DEVICE; state().build_devices.insert({a, b}); } return CL_SUCCESS; }
cl_int clGetProgramBuildInfo(cl_program, cl_device_id, cl_program_build_info, size_t n, void* p, size_t* r) { FAILS(st.code) size_t need = state().log.size() + 1; if (r) *r = need; if (!p) return CL_SUCCESS; if (n < need) return CL_INVALID_VALUE; memcpy(p, state().log.c_str(), need); return CL_SUCCESS; }
cl_kernel clCreateKernel(cl_program p, const char* name, cl_int* e) { FAILS0(e) auto it = kernels().find(name); bool ok = it != kernels().end() && p && ((std::string*)p)->find(name) != std::string::npos; if (e) *e = ok ? CL_SUCCESS : CL_INVALID_KERNEL_NAME; if (!ok) return 0; Kern* k = new Kern; k->k = &it->second; k->arg.resize(k->k->size.size()); k->set.resize(k->arg.size()); return (cl_kernel)k; }
cl_int clSetKernelArg(cl_kernel kk, cl_uint i, size_t n, const void* v) { FAILS(st.code) Kern* k = (Kern*)kk; if (!k) return CL_INVALID_KERNEL; if (i >= k->arg.size()) return CL_INVALID_ARG_INDEX; if (n != k->k->size[i]) return CL_INVALID_ARG_SIZE; if (!v) return CL_INVALID_ARG_VALUE; if (k->k->buffer[i]) { Mem* m; memcpy(&m, v, sizeof m); if (!live.count(m)) return CL_INVALID_MEM_OBJECT; } k->arg[i] = std::string((const char*)v, n); k->set[i] = true; return CL_SUCCESS; }
cl_mem clCreateBuffer(cl_context, cl_mem_flags f, size_t n, void* host, cl_int* e) { FAILS0(e) if (!n) { if (e) *e = CL_INVALID_BUFFER_SIZE; return 0; } Mem* m = new Mem; m->size = n; m->raw = (char*)malloc(n + 2 * ZONE); memset(m->raw, 0xFF, n + 2 * ZONE); m->shadow.resize(n); if (host && (f & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR))) memcpy(m->data(), host, n); live.insert(m); if (e) *e = CL_SUCCESS; return (cl_mem)m; }
cl_int clReleaseMemObject(cl_mem p) { FAILS(st.code) Mem* m = (Mem*)p; if (!live.count(m)) { problem("memory: a buffer is released twice"); return CL_INVALID_MEM_OBJECT; } live.erase(m); release(m); return CL_SUCCESS; }
static int transfer(int kind, cl_mem p, cl_bool b, size_t o, size_t n, void* h) { Mem* m = (Mem*)p; if (!live.count(m)) { problem("memory: a transfer uses a released buffer"); return CL_INVALID_MEM_OBJECT; } if (!n || !h || o > m->size || n > m->size - o) { problem("memory: a transfer of " + std::to_string(n) + " bytes at " + std::to_string(o) + " of a buffer of " + std::to_string(m->size)); return CL_INVALID_VALUE; } m->refs++; Command c{}; c.kind = kind; c.mem = m; c.offset = o; c.size = n; c.host = h; return give(c, b); }
cl_int clEnqueueWriteBuffer(cl_command_queue, cl_mem p, cl_bool b, size_t o, size_t n, const void* h, cl_uint, const cl_event*, cl_event*) { FAILS(st.code) return transfer(0, p, b, o, n, (void*)h); }
cl_int clEnqueueReadBuffer(cl_command_queue, cl_mem p, cl_bool b, size_t o, size_t n, void* h, cl_uint, const cl_event*, cl_event*) { FAILS(st.code) return transfer(1, p, b, o, n, h); }
cl_int clEnqueueNDRangeKernel(cl_command_queue, cl_kernel kk, cl_uint dim, const size_t* off, const size_t* g, const size_t*, cl_uint, const cl_event*, cl_event*) { FAILS(st.code) Kern* k = (Kern*)kk; if (!k) return CL_INVALID_KERNEL; if (dim < 1 || dim > 3) return CL_INVALID_WORK_DIMENSION; if (off) return CL_INVALID_GLOBAL_OFFSET; Command c{}; c.kind = 2; c.k = k->k; c.dim = dim; for (unsigned i = 0; i < 3; i++) { c.n[i] = i < dim ? g[i] : 1; if (!c.n[i] || c.n[i] > 1000000) return CL_INVALID_GLOBAL_WORK_SIZE; }
  for (size_t i = 0; i < k->arg.size(); i++) { if (!k->set[i]) { problem("arguments: " + k->k->name + " is started without argument " + std::to_string(i)); return CL_INVALID_KERNEL_ARGS; } c.arg.push_back(k->arg[i]); if (k->k->buffer[i]) { Mem* m; memcpy(&m, k->arg[i].data(), sizeof m); if (!live.count(m)) { problem("memory: " + k->k->name + " uses a released buffer"); return CL_INVALID_MEM_OBJECT; } m->refs++; c.mems.push_back(m); void* d = m->data(); c.arg.back() = std::string((char*)&d, sizeof d); } } return give(c, false); }
cl_int clFinish(cl_command_queue) { FAILS(st.code) drain(); return CL_SUCCESS; } cl_int clFlush(cl_command_queue) { FAILS(st.code) return CL_SUCCESS; }
#ifdef BUILD_CLBLAS
static bool setup; clblasStatus clblasSetup(void) { FAILS((clblasStatus)st.code) setup = true; return CL_SUCCESS; } void clblasTeardown(void) { setup = false; }
// one element of a matrix of r x k values with leading dimension ld, transposed and in column order as wanted; false when it lies outside of the buffer
struct Matrix { Mem* m; size_t off, ld; bool row, trans; float* at(size_t i, size_t j) const { if (trans) std::swap(i, j); size_t e = off + (row ? i * ld + j : j * ld + i); if (e * 4 + 4 > m->size) { problem("bounds: a matrix operation uses element " + std::to_string(e) + " of a buffer of " + std::to_string(m->size / 4)); return 0; } return (float*)m->data() + e; } };
static int blas(std::vector<Mem*> mems, std::function<void()> f) { FAILS(st.code) if (!setup) return CL_INVALID_OPERATION; Command c{}; c.kind = 3; for (Mem* m : mems) { if (!live.count(m)) { problem("memory: a matrix operation uses a released buffer"); return CL_INVALID_MEM_OBJECT; } m->refs++; c.mems.push_back(m); } c.job = f; state().kernels["matrix operations"]++; state().launches++; return give(c, false); }
clblasStatus clblasSgemm(clblasOrder o, clblasTranspose ta, clblasTranspose tb, size_t M, size_t N, size_t K, cl_float al, const cl_mem a, size_t oa, size_t la, const cl_mem b, size_t ob, size_t lb, cl_float be, cl_mem cc, size_t oc, size_t lc, cl_uint q, cl_command_queue* qs, cl_uint, const cl_event*, cl_event* e) { if (q != 1 || !qs) return CL_INVALID_COMMAND_QUEUE; if (!M || !N || !K) return CL_INVALID_VALUE; bool row = o == clblasRowMajor, A = ta != clblasNoTrans, B = tb != clblasNoTrans; if (la < ((A != row) ? K : M) || lb < ((B != row) ? N : K) || lc < (row ? N : M)) return CL_INVALID_VALUE; if (e) *e = 0; Matrix ma{(Mem*)a, oa, la, row, A}, mb{(Mem*)b, ob, lb, row, B}, mc{(Mem*)cc, oc, lc, row, false};
  return blas({(Mem*)a, (Mem*)b, (Mem*)cc}, [=] { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { float s = 0; for (size_t k = 0; k < K; k++) { float *x = ma.at(i, k), *y = mb.at(k, j); if (!x || !y) return; s += *x * *y; } float* z = mc.at(i, j); if (!z) return; *z = al * s + (be == 0 ? 0 : be * *z); } }); }
clblasStatus clblasSgemv(clblasOrder o, clblasTranspose ta, size_t M, size_t N, cl_float al, const cl_mem a, size_t oa, size_t la, const cl_mem xx, size_t ox, int ix, cl_float be, cl_mem yy, size_t oy, int iy, cl_uint q, cl_command_queue* qs, cl_uint, const cl_event*, cl_event* e) { if (q != 1 || !qs) return CL_INVALID_COMMAND_QUEUE; if (!M || !N || !ix || !iy) return CL_INVALID_VALUE; bool row = o == clblasRowMajor, A = ta != clblasNoTrans; if (la < (row ? N : M)) return CL_INVALID_VALUE; if (e) *e = 0; Matrix ma{(Mem*)a, oa, la, row, A}, mx{(Mem*)xx, ox, (size_t)ix, true, false}, my{(Mem*)yy, oy, (size_t)iy, true, false}; size_t R = A ? N : M, C = A ? M : N;
  return blas({(Mem*)a, (Mem*)xx, (Mem*)yy}, [=] { for (size_t i = 0; i < R; i++) { float s = 0; for (size_t k = 0; k < C; k++) { float *u = ma.at(i, k), *v = mx.at(k, 0); if (!u || !v) return; s += *u * *v; } float* z = my.at(i, 0); if (!z) return; *z = al * s + (be == 0 ? 0 : be * *z); } }); }
#endif
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); } void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
}
