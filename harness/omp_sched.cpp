// Serves the OpenMP entry points GCC generates (GOMP_*, omp_*) and its memory access callbacks (__tsan_*).
// Threads of a region are coroutines: they run one after another in a chosen order, switching at barriers. Every access
// inside a region is recorded per thread; two accesses to one byte from different threads of which one writes, not
// separated by a barrier and not both atomic or in critical sections, are a conflict. Without conflicts all
// interleavings of the region are equivalent to the executed one.
#include "omp_sched.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <unistd.h>
#include <new>
#include <vector>
#include <algorithm>
namespace omp {
State& state() { static State s; return s; }
struct Thread { ucontext_t ctx; char* lo = nullptr; bool done = false, locked = false; unsigned loops = 0, singles = 0; long next = 0; };
static const size_t STACK = 512 << 10; static const unsigned MAXT = 256;
static Thread T[MAXT]; static ucontext_t home; static unsigned team = 1, me = 0; static bool inside = false; static void (*body)(void*); static void* arg; static std::vector<void*>* later; static void* region;
struct Loop { long start, end, incr, chunk; }; static std::vector<Loop>* loops; static Loop preset; static bool has_preset; static unsigned singles_taken; static unsigned sections_n;
// per byte: 0 nobody, else thread+1; readers 255: several
struct Cell { uint64_t key; uint32_t gen; uint8_t w[8], r[8], aw[8]; }; static Cell* table; static const size_t TN = 1 << 20; static uint32_t gen = 1; static size_t used;
static std::string where(void* pc) { Dl_info i; if (!dladdr(pc, &i) || !i.dli_sname) return "?"; int st; char* d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st); std::string s = d ? d : i.dli_sname; free(d); return s; }
__attribute__((noinline)) static void conflict(uintptr_t a, bool write, unsigned other, void* pc) { State& s = state(); if (!s.conflict.empty()) return; inside = false; char b[200]; snprintf(b, 200, "iterations %u and %u of %u both access byte %p, %s by the latter, in ", other, me, team, (void*)a, write ? "written" : "read"); s.conflict = b + where(pc) + ", region " + where((void*)body); inside = true; }
static inline void byte(Cell& c, unsigned k, bool write, bool atomic, uintptr_t a, void* pc) { uint8_t id = (uint8_t)(me + 1);
  if (write) { if (c.w[k] && c.w[k] != id && !(atomic && c.aw[k])) conflict(a, true, c.w[k] - 1, pc); if (c.r[k] && c.r[k] != id && !(atomic && c.aw[k])) conflict(a, true, c.r[k] == 255 ? 0 : c.r[k] - 1, pc); c.w[k] = id; c.aw[k] = atomic; }
  else { if (c.w[k] && c.w[k] != id && !(atomic && c.aw[k])) conflict(a, false, c.w[k] - 1, pc); c.r[k] = c.r[k] && c.r[k] != id ? 255 : id; if (!c.w[k]) c.aw[k] = atomic && (c.aw[k] || c.r[k] == id); } }
static void access(uintptr_t a, size_t n, bool write, bool atomic, void* pc) { if (!inside || !state().record) return; uintptr_t lo = (uintptr_t)T[me].lo; if (a >= lo && a < lo + STACK) return; atomic |= T[me].locked; state().accesses++;
  for (uintptr_t p = a; p < a + n;) { uint64_t key = p >> 3; size_t h = (key * 0x9E3779B97F4A7C15ull) >> 44; h &= TN - 1; while (table[h].gen == gen && table[h].key != key) h = (h + 1) & (TN - 1); Cell& c = table[h]; if (c.gen != gen) { if (++used > TN / 2) { fprintf(stderr, "omp_sched: table full\n"); _exit(3); } memset(&c, 0, sizeof c); c.gen = gen; c.key = key; } for (unsigned k = p & 7; k < 8 && p < a + n; k++, p++) byte(c, k, write, atomic, p, pc); } }
static void clear() { gen++; used = 0; }
static void entry() { body(arg); T[me].done = true; swapcontext(&T[me].ctx, &home); }
static void run(void (*fn)(void*), void* data, unsigned n) {
  State& s = state(); if (inside) { unsigned t = team, m = me; void (*b)(void*) = body; void* a = arg; (void)t; (void)m; fn(data); body = b; arg = a; return; } // nested regions run in the encountering thread
  if (!table) { table = (Cell*)mmap(0, TN * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); later = new std::vector<void*>; loops = new std::vector<Loop>; }
  s.regions++; s.fns.insert((void*)fn); team = n ? n : s.threads; if (team > 250) team = 250; body = fn; arg = data; clear(); loops->clear(); singles_taken = 0; std::vector<unsigned> ord(team); for (unsigned i = 0; i < team; i++) ord[i] = i; if (team <= 4) for (unsigned k = 0; k < s.order; k++) std::next_permutation(ord.begin(), ord.end()); else if (s.order) std::reverse(ord.begin(), ord.end());
  for (unsigned i = 0; i < team; i++) { Thread& t = T[i]; if (!t.lo) t.lo = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.lo; t.ctx.uc_stack.ss_size = STACK; t.ctx.uc_link = &home; makecontext(&t.ctx, entry, 0); t.done = t.locked = false; t.loops = t.singles = 0; if (has_preset) { t.loops = 1; t.next = i; } }
  if (has_preset) { loops->push_back(preset); has_preset = false; }
  inside = true; for (bool any = true; any;) { any = false; for (unsigned i : ord) if (!T[i].done) { any = true; me = i; s.schedules++; swapcontext(&home, &T[i].ctx); } clear(); } inside = false; team = 1; me = 0; for (void* p : *later) free(p); later->clear(); }
}
using namespace omp;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { omp::run(fn, data, n); }
int omp_get_num_threads() { return inside ? team : 1; } int omp_get_thread_num() { return inside ? me : 0; } int omp_get_max_threads() { return state().threads; } int omp_get_num_procs() { return 4; } int omp_in_parallel() { return inside; } void omp_set_num_threads(int) {} double omp_get_wtime() { return 0; } int omp_get_level() { return inside; } void omp_set_dynamic(int) {} void omp_set_nested(int) {}
void GOMP_barrier() { if (inside) swapcontext(&T[me].ctx, &home); }
bool GOMP_cancel(int, bool) { return false; }
// critical sections and atomic blocks: a thread never switches inside one
void GOMP_critical_start() { T[me].locked = true; } void GOMP_critical_end() { T[me].locked = false; } void GOMP_critical_name_start(void**) { T[me].locked = true; } void GOMP_critical_name_end(void**) { T[me].locked = false; } void GOMP_atomic_start() { T[me].locked = true; } void GOMP_atomic_end() { T[me].locked = false; }
bool GOMP_single_start() { if (!inside) return true; if (T[me].singles++ == singles_taken) { singles_taken++; return true; } return false; }
// dynamic and guided loops: chunks are dealt out in turn
static bool loop_next(long* s, long* e) { if (!inside) return false; Thread& t = T[me]; Loop& l = (*loops)[t.loops - 1]; long n = l.incr > 0 ? (l.end - l.start + l.incr - 1) / l.incr : (l.start - l.end - l.incr - 1) / -l.incr; long a = t.next * l.chunk; if (a >= n) return false; long b = std::min(n, a + l.chunk); *s = l.start + a * l.incr; *e = l.start + b * l.incr; t.next += team; return true; }
static bool loop_start(long start, long end, long incr, long chunk, long* s, long* e) { if (!inside) { if (incr > 0 ? start >= end : start <= end) return false; *s = start; *e = end; return true; } Thread& t = T[me]; if (t.loops++ == loops->size()) loops->push_back(Loop{start, end, incr, chunk > 0 ? chunk : 1}); t.next = me; return loop_next(s, e); }
#define LOOP(K) bool GOMP_loop_##K##_start(long a, long b, long i, long c, long* s, long* e) { return loop_start(a, b, i, c, s, e); } bool GOMP_loop_##K##_next(long* s, long* e) { return loop_next(s, e); } \
  void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) { if (!inside) { preset = Loop{a, b, i, c > 0 ? c : 1}; has_preset = true; } omp::run(fn, d, n); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long a, long b, long i, long* s, long* e) { return loop_start(a, b, i, 1, s, e); } bool GOMP_loop_runtime_next(long* s, long* e) { return loop_next(s, e); } bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return loop_start(a, b, i, 1, s, e); } bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return loop_next(s, e); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned) { if (!inside) { preset = Loop{a, b, i, 1}; has_preset = true; } omp::run(fn, d, n); } void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned f) { GOMP_parallel_loop_runtime(fn, d, n, a, b, i, f); }
typedef unsigned long long ull;
static bool ull_start(bool up, ull a, ull b, ull i, ull c, ull* s, ull* e) { long x, y; (void)up; bool r = loop_start((long)a, (long)b, (long)i, (long)c, &x, &y); if (r) { *s = x; *e = y; } return r; } static bool ull_next(ull* s, ull* e) { long x, y; bool r = loop_next(&x, &y); if (r) { *s = x; *e = y; } return r; }
#define ULOOP(K) bool GOMP_loop_ull_##K##_start(bool up, ull a, ull b, ull i, ull c, ull* s, ull* e) { return ull_start(up, a, b, i, c, s, e); } bool GOMP_loop_ull_##K##_next(ull* s, ull* e) { return ull_next(s, e); }
ULOOP(static) ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
void GOMP_loop_end() { GOMP_barrier(); } void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) { sections_n = n; T[me].next = me + 1; return T[me].next <= n ? T[me].next : 0; } unsigned GOMP_sections_next() { T[me].next += team; return T[me].next <= sections_n ? T[me].next : 0; } void GOMP_sections_end() { GOMP_barrier(); } void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { sections_n = count; static Loop l{1, 0, 1, 1}; (void)l; if (!inside) { preset = Loop{0, 0, 1, 1}; has_preset = true; } omp::run(fn, d, n); }
void GOMP_ordered_start() {} void GOMP_ordered_end() {}
// memory accesses
#define PC __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, false, PC); } void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); } void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, false, PC); } void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); } void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false, false, PC); } void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false, false, PC); } void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v) { (void)v; access((uintptr_t)p, 8, true, false, PC); } void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, false, PC); }
#define AT(b, t) t __tsan_atomic##b##_load(const volatile t* p, int) { access((uintptr_t)p, b / 8, false, true, PC); return *p; } void __tsan_atomic##b##_store(volatile t* p, t v, int) { access((uintptr_t)p, b / 8, true, true, PC); *p = v; } t __tsan_atomic##b##_exchange(volatile t* p, t v, int) { access((uintptr_t)p, b / 8, true, true, PC); t o = *p; *p = v; return o; } \
  t __tsan_atomic##b##_fetch_add(volatile t* p, t v, int) { access((uintptr_t)p, b / 8, true, true, PC); t o = *p; *p = o + v; return o; } t __tsan_atomic##b##_fetch_sub(volatile t* p, t v, int) { access((uintptr_t)p, b / 8, true, true, PC); t o = *p; *p = o - v; return o; } t __tsan_atomic##b##_fetch_or(volatile t* p, t v, int) { access((uintptr_t)p, b / 8, true, true, PC); t o = *p; *p = o | v; return o; } t __tsan_atomic##b##_fetch_and(volatile t* p, t v, int) { access((uintptr_t)p, b / 8, true, true, PC); t o = *p; *p = o & v; return o; } t __tsan_atomic##b##_fetch_xor(volatile t* p, t v, int) { access((uintptr_t)p, b / 8, true, true, PC); t o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t* p, t* e, t v, int, int) { access((uintptr_t)p, b / 8, true, true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile t* p, t* e, t v, int, int) { access((uintptr_t)p, b / 8, true, true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } t __tsan_atomic##b##_compare_exchange_val(volatile t* p, t e, t v, int, int) { access((uintptr_t)p, b / 8, true, true, PC); t o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (inside) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (inside) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { if (inside) access((uintptr_t)d, n, true, false, PC); return __real_memset(d, v, n); }
}
// memory given back inside a region is not given out again before its end
void operator delete(void* p) noexcept { if (inside && p) later->push_back(p); else free(p); }
void operator delete[](void* p) noexcept { if (inside && p) later->push_back(p); else free(p); }
void operator delete(void* p, size_t) noexcept { if (inside && p) later->push_back(p); else free(p); }
void operator delete[](void* p, size_t) noexcept { if (inside && p) later->push_back(p); else free(p); }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
