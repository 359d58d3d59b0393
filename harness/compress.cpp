// C03: lossless compression of every data pattern
#include "util.h"
static float fb(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static const uint32_t SYM[] = {0, 0x80000000, 0x58585858, 0x3f800000, 0x59585958, 0x7fc00001, 0x585958fd, 0x00000058, 0x5859fd58};
static void roundtrip(mc::Ctx& c, const Shape& q, const std::vector<uint32_t>& v, const std::string& ctx, bool file) {
  Tensor t(q.s, q.w, q.h, q.m); memcpy(t.data_ptr(), v.data(), 4 * v.size()); CompressedTensor ct; c.site("Compress " + ctx); ct.Compress(t); c.trans(); CK(memcmp(t.data_ptr(), v.data(), 4 * v.size()) == 0, "compress:input", ctx + ": compressing changed the tensor");
  CK(ct.samples() == q.s && ct.width() == q.w && ct.height() == q.h && ct.maps() == q.m && ct.elements() == q.n(), "compress:shape", ctx); CK(ct.compressed_length() <= 8 * v.size() + 2, "compress:length", ctx + ": compressed length " + std::to_string(ct.compressed_length()));
  auto verify = [&](CompressedTensor& k, const std::string& how) { Tensor o; c.site("Decompress " + how + " " + ctx); k.Decompress(o); c.trans(); CK(shape(o) == q, "compress:shape", ctx + how + ": decompressed to " + shape(o).str()); for (size_t i = 0; i < v.size(); i++) if (memcmp(&o[i], &v[i], 4)) { uint32_t g; memcpy(&g, &o[i], 4); char b[80]; snprintf(b, 80, " element %zu is %08x, was %08x", i, g, v[i]); c.fail("compress:content", ctx + how + b); }
    float* buf = new float[v.size()]; Tensor p; k.Decompress(p, buf); CK(p.data_ptr() == buf && memcmp(buf, v.data(), 4 * v.size()) == 0, "compress:preallocated", ctx + how); };
  verify(ct, ""); if (!file) return;
  { std::ofstream f("c.bin", std::ios::binary); f << "xyz"; ct.Serialize(f); ct.Serialize(f); } size_t len = 40 + ct.compressed_length();
  for (int mode = 0; mode < 3; mode++) { std::ifstream in("c.bin", std::ios::binary); in.seekg(3); int fd = open("c.bin", O_RDONLY); CompressedTensor k; for (int i = 0; i < 2; i++) { c.site("Deserialize " + ctx); bool head = mode == 2 && i == 0; k.Deserialize(in, head, mode == 1, mode == 1 ? fd : 0); c.trans(); CK(k.samples() == q.s && k.width() == q.w && k.height() == q.h && k.maps() == q.m && k.compressed_length() == ct.compressed_length(), "compress:file-shape", ctx); CK((size_t)in.tellg() == 3 + (i + 1) * len, "compress:position", ctx + " mode " + std::to_string(mode)); if (!head) verify(k, " from file mode " + std::to_string(mode)); } close(fd); } }
static uint64_t hv(const std::vector<uint32_t>& v) { return mc::hash_bytes(v.data(), 4 * v.size()); }
// every sequence over the symbol alphabet
static void sequences(mc::Ctx& c) { sys_init(); unsigned n = c.range(1, c.thorough() ? 7 : 6, "length"), al = n <= 4 ? 9 : n == 5 ? 7 : c.thorough() ? 6 : 5; std::vector<uint32_t> v(n); for (unsigned i = 0; i < n; i++) { v[i] = SYM[c.choose(al, "symbol")]; if (i + 1 == std::min(n, 2u)) c.shard(); }
  roundtrip(c, Shape{1, n, 1, 1}, v, "sequence " + [&] { std::string s; char b[16]; for (auto x : v) { snprintf(b, 16, "%08x ", x); s += b; } return s; }(), n <= 4); c.state(hv(v)); c.validated(); if (n > 2) c.nontrivial(); if (c.want_sample()) c.sample("length " + std::to_string(n)); }
// runs of every length around the encoder's limits, of every symbol, followed by every other
static void runs(mc::Ctx& c) { sys_init(); unsigned a = c.choose(9, "first symbol"), b = c.choose(9, "second symbol"); c.require(a != b); unsigned la = c.range(0, c.thorough() ? 1030 : 520, "length"); c.shard(); static const unsigned LB[] = {0, 1, 2, 3, 252, 253, 254, 255, 256, 257, 506, 507}; for (unsigned lb : LB) { if (la + lb == 0) continue; std::vector<uint32_t> v(la, SYM[a]); v.insert(v.end(), lb, SYM[b]); roundtrip(c, Shape{1, v.size(), 1, 1}, v, "run of " + std::to_string(la) + " then " + std::to_string(lb) + kv("symbols", a * 10 + b), false); v.insert(v.end(), 2, SYM[a]); roundtrip(c, Shape{1, v.size(), 1, 1}, v, "run of " + std::to_string(la) + " then " + std::to_string(lb) + " then 2" + kv("symbols", a * 10 + b), false); c.state(hv(v)); }
  c.validated(12); c.nontrivial(); if (c.want_sample()) c.sample("runs of " + std::to_string(la) + kv("symbols", a * 10 + b)); }
// every byte value in every position of an element, alone and doubled
static void bytes(mc::Ctx& c) { sys_init(); unsigned pos = c.choose(4, "byte"), val = c.choose(256, "value"), pos2 = c.choose(4, "byte2"); c.shard(); static const unsigned V2[] = {0, 'X', 'Y', 1, 253, 255}; for (unsigned v2 : V2) { uint32_t e = ((uint32_t)val << (8 * pos)) | ((uint32_t)v2 << (8 * pos2)); for (unsigned k = 1; k <= 3; k++) { std::vector<uint32_t> v(k, e); v.push_back(0x58585958); v.push_back(e); roundtrip(c, Shape{1, v.size(), 1, 1}, v, "element " + std::to_string(e) + " x " + std::to_string(k), k == 2); c.state(hv(v)); } } c.validated(18); c.nontrivial(); if (c.want_sample()) c.sample("byte " + std::to_string(val) + " at " + std::to_string(pos)); }
static void shapes(mc::Ctx& c) { sys_init(); Shape q; q.s = c.range(1, 3, "n"); q.w = c.range(1, 4, "w"); q.h = c.range(1, 4, "h"); q.m = c.range(1, 3, "m"); unsigned p = c.choose(4, "pattern"); c.shard(); std::vector<uint32_t> v(q.n()); for (size_t i = 0; i < v.size(); i++) v[i] = p == 0 ? SYM[3] : p == 1 ? SYM[i % 9] : p == 2 ? SYM[(i / q.w) % 9] : SYM[(i / 3) % 2]; roundtrip(c, q, v, q.str(), true); c.validated(); c.state(hv(v)); if (q.n() > 2) c.nontrivial(); if (c.want_sample()) c.sample(q.str());
  // an object reused for another tensor; an empty tensor
  CompressedTensor ct; Tensor a(1, 3), b(q.s, q.w, q.h, q.m), o, e; a.Clear(2); memcpy(b.data_ptr(), v.data(), 4 * v.size()); ct.Compress(a); ct.Compress(b); ct.Decompress(o); CK(shape(o) == q && memcmp(o.data_ptr(), v.data(), 4 * v.size()) == 0, "compress:reuse", q.str()); ct.Compress(e); ct.Decompress(o); CK(o.elements() == 0, "compress:empty", "empty tensor decompressed to " + shape(o).str()); }
// long contents without runs: every alternation of two or three symbols, which is where the encoding grows most
static void dense(mc::Ctx& c) { sys_init(); static const uint32_t D[] = {0x58585858, 0x5858585a, 0x58585a58, 0x585a5858, 0x5a585858, 0, 0x3f800000}; unsigned p = c.range(2, 3, "period"), n = c.range(1, c.thorough() ? 300 : 90, "length") ; std::vector<uint32_t> q(p); for (auto& x : q) x = D[c.choose(7, "symbol")]; for (unsigned i = 0; i < p; i++) c.require(q[i] != q[(i + 1) % p]); c.shard(); for (unsigned rep = 0; rep < 3; rep++) { unsigned len = rep == 0 ? n : rep == 1 ? 2 * n + 90 : 3 * n + 240; std::vector<uint32_t> v(len); for (unsigned i = 0; i < len; i++) v[i] = q[i % p]; roundtrip(c, Shape{1, len, 1, 1}, v, "alternation" + kv("length", len), false); c.state(hv(v)); } c.validated(3); c.nontrivial(); if (c.want_sample()) c.sample("alternation" + kv("length", n)); }
// shapes that grow; runs and alternations longer than 16 bits count
static void large(mc::Ctx& c) { sys_init(); unsigned k = c.choose(2, "kind"); std::vector<uint32_t> v; Shape q{2, 3, 2, 2}; if (k == 0) { unsigned w = 3, h = 2, m = 2, n = 2; grow(c, {&w, &h, &m, &n}, true, {&w, &h, &m, &n}); q = Shape{n, w, h, m}; } else { static const unsigned L[] = {4095, 4096, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 65791, 131072, 200000}; q = Shape{1, L[c.choose(12, "length")], 1, 1}; } unsigned a = c.choose(9, "symbol"), b = c.choose(3, "pattern"); c.shard(); for (size_t i = 0; i < q.n(); i++) v.push_back(b == 0 ? SYM[a] : b == 1 ? SYM[(a + i) % 9] : i % 300 ? SYM[a] : SYM[(a + 1) % 9]); roundtrip(c, q, v, q.str() + kv("symbol", a) + kv("pattern", b), k == 0 && a == 4); c.state(hv(v)); c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(q.str()); }
MC_MAIN({"large", large}, {"sequences", sequences}, {"runs", runs}, {"bytes", bytes}, {"shapes", shapes}, {"dense", dense})
