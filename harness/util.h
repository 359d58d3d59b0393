// helpers shared by the drivers that exercise the cn24 library
#ifndef UTIL_H
#define UTIL_H
#include "mc.h"
#include <cn24.h>
#include <memory>
#include <limits>
using namespace Conv;
typedef std::vector<CombinedTensor*> CTs;

inline void sys_init() { static bool done = false; if (!done) { System::Init(0); done = true; } }
inline void fresh_stats() { sys_init(); delete System::stat_aggregator; System::stat_aggregator = new StatAggregator(); }
struct Shape { size_t s, w, h, m; size_t n() const { return s * w * h * m; } bool operator==(const Shape& o) const { return s == o.s && w == o.w && h == o.h && m == o.m; }
  std::string str() const { std::ostringstream o; o << "(" << s << "s " << w << "x" << h << " " << m << "m)"; return o.str(); } };
inline Shape shape(const Tensor& t) { return Shape{t.samples(), t.width(), t.height(), t.maps()}; }
inline std::string fmt(double v) { std::ostringstream o; o.precision(9); o << v; return o.str(); }
template <class V> std::string show(const V& v, size_t n) { std::string s = "["; for (size_t i = 0; i < n && i < 64; i++) s += (i ? " " : "") + fmt(v[i]); return s + (n > 64 ? " ...]" : "]"); }
inline std::string show(const std::vector<float>& v) { return show(v, v.size()); }
inline std::string show(const Tensor& t) { return show(t.data_ptr_const(), t.elements()); }

// plain 4-D array used by the reference models: sample > map > y > x
struct A4 {
  Shape sh; std::vector<double> v;
  A4() : sh{0, 0, 0, 0} {}
  A4(size_t s, size_t w, size_t h, size_t m, double x = 0) : sh{s, w, h, m}, v(s * w * h * m, x) {}
  explicit A4(const Shape& q, double x = 0) : sh(q), v(q.n(), x) {}
  explicit A4(const Tensor& t) : sh(shape(t)), v(t.data_ptr_const(), t.data_ptr_const() + t.elements()) {}
  size_t idx(size_t s, size_t x, size_t y, size_t m) const { return ((s * sh.m + m) * sh.h + y) * sh.w + x; }
  double& operator()(size_t s, size_t x, size_t y, size_t m) { return v[idx(s, x, y, m)]; }
  double operator()(size_t s, size_t x, size_t y, size_t m) const { return v[idx(s, x, y, m)]; }
  double get0(size_t s, long x, long y, size_t m) const { return (x < 0 || y < 0 || x >= (long)sh.w || y >= (long)sh.h) ? 0.0 : (*this)(s, x, y, m); }
  std::string str() const { return sh.str() + show(v, v.size()); }
};
inline void put(Tensor& t, const A4& a) { for (size_t i = 0; i < t.elements(); i++) t[i] = (float)a.v[i]; }
inline void fill(Tensor& t, float x) { for (size_t i = 0; i < t.elements(); i++) t[i] = x; }
// small integers without short period, different for every salt: sums of products of them are exact in float
inline double smallint(size_t i, unsigned salt, int amp = 3) { uint64_t h = mc::mix(mc::mix(0x1234567, i + 1), salt + 17); return (double)((long)(h % (2 * amp + 1)) - amp); }
inline void fill_int(Tensor& t, unsigned salt, int amp = 3) { for (size_t i = 0; i < t.elements(); i++) t[i] = (float)smallint(i, salt, amp); }
inline uint64_t hash(const Tensor& t) { uint64_t h = mc::mix(t.samples() * 31 + t.width(), t.height() * 131 + t.maps()); return mc::hash_bytes(t.data_ptr_const(), t.elements() * sizeof(datum), h); }
inline bool same_bits(float a, float b) { return memcmp(&a, &b, 4) == 0; }

// exact comparison of a tensor with a reference array
inline void expect(mc::Ctx& c, const Tensor& t, const A4& ref, const std::string& key, const std::string& ctx, double tol = 0) {
  if (!(shape(t) == ref.sh)) c.fail(key, ctx + ": shape " + shape(t).str() + " expected " + ref.sh.str());
  for (size_t i = 0; i < ref.v.size(); i++) { double a = t.data_ptr_const()[i], b = ref.v[i];
    bool ok = tol == 0 ? (float)a == (float)b || (std::isnan(a) && std::isnan(b)) : (std::fabs(a - b) <= tol * std::max(1.0, std::fabs(b)) || (std::isnan(a) && std::isnan(b)) || a == b);
    if (!ok) { size_t x = i % ref.sh.w, y = i / ref.sh.w % ref.sh.h, m = i / ref.sh.w / ref.sh.h % ref.sh.m, s = i / ref.sh.w / ref.sh.h / ref.sh.m; std::ostringstream o; o.precision(9);
      o << ctx << ": at x=" << x << " y=" << y << " map=" << m << " sample=" << s << " got " << a << " expected " << b << "\n got      " << shape(t).str() << show(t) << "\n expected " << ref.str(); c.fail(key, o.str()); } }
}

// a layer with its inputs and outputs
struct Rig {
  NetStatus st; CTs in, out; Layer* L = nullptr; bool own_in = true;
  explicit Rig(Layer* l) : L(l) { sys_init(); }
  Rig(const Rig&) = delete;
  ~Rig() { delete L; for (auto* t : out) delete t; if (own_in) for (auto* t : in) delete t; }
  CombinedTensor* input(size_t s, size_t w, size_t h, size_t m) { CombinedTensor* t = new CombinedTensor(s, w, h, m); t->data.Clear(); t->delta.Clear(); in.push_back(t); return t; }
  CombinedTensor* input(const Shape& q) { return input(q.s, q.w, q.h, q.m); }
  bool create() { return L->CreateOutputs(in, out); }
  bool connect() { return L->Connect(in, out, &st); }
  bool up() { if (!create()) return false; return connect(); }
};
// sizes for bodies that let one dimension grow: around powers of two and typical block sizes, and past the range of a byte
inline std::vector<unsigned> sizes(const mc::Ctx& c) { std::vector<unsigned> v; for (unsigned i = 5; i <= (c.thorough() ? 300u : 40u); i++) v.push_back(i); static const unsigned q[] = {48, 63, 64, 65, 96, 100, 127, 128, 129, 192, 255, 256, 257, 300}, t[] = {511, 512, 513, 1000, 1023, 1024, 1025}; if (!c.thorough()) v.insert(v.end(), q, q + 14); else v.insert(v.end(), t, t + 7); return v; }
static const std::vector<unsigned> PAIRS{7, 8, 9, 16, 17, 32, 33};
// one dimension of n takes every size, or two of them take every pair; the others keep what they have. Two dimensions of an
// image (wide) also grow together past 2^16 elements, and all but the first of them alone
inline std::string grow(mc::Ctx& c, std::vector<unsigned*> d, bool pairs = true, std::vector<unsigned*> wide = {}) { unsigned n = d.size(), np = pairs && n > 1 ? n * (n - 1) / 2 : 0, i = c.choose(n + np + wide.size(), "dimension"); if (i < n) { *d[i] = c.pick(sizes(c), "size"); return std::to_string(i); }
  i -= n; if (i >= np) { if (i == np) { *wide[0] = 300; if (wide.size() > 1) *wide[1] = 257; } else *wide[i - np] = 65793; return "wide"; }
  for (unsigned a = 0; a < n; a++) for (unsigned b = a + 1; b < n; b++) if (i-- == 0) { *d[a] = c.pick(PAIRS, "size"); *d[b] = c.pick(PAIRS, "size"); return std::to_string(a) + "," + std::to_string(b); } return ""; }
inline std::string kv(const char* k, long v) { return std::string(" ") + k + "=" + std::to_string(v); }
inline bool exists(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }
inline void spit(const std::string& p, const std::string& d) { std::ofstream f(p, std::ios::binary); f.write(d.data(), d.size()); }
// TensorStream has no virtual destructor
struct StreamDel { void operator()(TensorStream* s) const { if (!s) return; if (auto* f = dynamic_cast<FloatTensorStream*>(s)) delete f; else if (auto* q = dynamic_cast<CompressedTensorStream*>(s)) delete q; else if (auto* l = dynamic_cast<ListTensorStream*>(s)) delete l; } };
typedef std::unique_ptr<TensorStream, StreamDel> StreamPtr;
#endif
