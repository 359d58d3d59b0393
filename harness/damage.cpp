// C37: tensor files in which bytes were changed
#include "util.h"
#include <new>
// allocations beyond a megabyte fail, like on a machine without overcommitment
static bool limited;
static void* get(size_t n) { if (limited && n > (1ull << 20)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return get(n); } void* operator new[](size_t n) { return get(n); } void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
static std::vector<Shape> SH{{1, 2, 2, 1}, {1, 1, 1, 1}, {2, 1, 1, 3}, {1, 9, 1, 1}};
struct File { std::vector<std::unique_ptr<Tensor>> ts; std::vector<size_t> begin, end; std::string bytes, ctx; bool comp; };
static void add(File& f, const Shape& q, unsigned salt) { std::unique_ptr<Tensor> t(new Tensor(q.s, q.w, q.h, q.m)); for (size_t i = 0; i < t->elements(); i++) (*t)[i] = salt == 1 ? 1.f : salt == 2 ? 0.f : (float)smallint(i, salt, 2); std::ostringstream o; if (f.comp) { CompressedTensor ct; ct.Compress(*t); ct.Serialize(o); } else t->Serialize(o); f.begin.push_back(f.bytes.size()); f.bytes += o.str(); f.end.push_back(f.bytes.size()); f.ts.push_back(std::move(t)); f.ctx += " " + q.str() + (salt == 1 ? "of ones" : salt == 2 ? "of zeros" : ""); }
static bool same(const Tensor& a, const Tensor& b) { return shape(a) == shape(b) && memcmp(a.data_ptr_const(), b.data_ptr_const(), 4 * a.elements()) == 0; }
template <class T> static bool product(const T& t) { unsigned __int128 p = 1; bool zero = false; for (uint64_t v : {(uint64_t)t.samples(), (uint64_t)t.width(), (uint64_t)t.height(), (uint64_t)t.maps()}) { if (!v) zero = true; if (p < ((unsigned __int128)1 << 64)) p *= v; } return zero ? t.elements() == 0 : p == t.elements(); }
// the compressed text as the format defines it: X X is an X, X Y n v is n times the four byte value v, everything else is itself; false if it is none or not of exactly n elements
static bool decode(const char* p, size_t n, unsigned __int128 elements, std::string& out) { out.clear(); for (size_t i = 0; i < n;) { if (p[i] != 'X') out += p[i++]; else if (i + 1 < n && p[i + 1] == 'X') { out += 'X'; i += 2; } else if (i + 6 < n && p[i + 1] == 'Y') { for (unsigned r = 0; r < (unsigned char)p[i + 2]; r++) out.append(p + i + 3, 4); i += 7; } else return false; } return (unsigned __int128)out.size() == elements * 4; }
// everything a reader can do with the damaged file; first = first damaged byte, last = last damaged byte
static void examine(mc::Ctx& c, const File& f, const std::string& bytes, size_t first, size_t last, const std::string& ctx) {
  struct L { L() { limited = true; } ~L() { limited = false; } } lim; spit("d.bin", bytes); size_t intact = 0; while (intact < f.end.size() && f.end[intact] <= first) intact++; bool payload = !f.comp && intact < f.end.size() && first >= f.begin[intact] + 32 && last < f.end[intact]; size_t wide = 11, high = 5; for (auto& t : f.ts) wide = std::max(wide, t->width() + 2), high = std::max(high, t->height() + 3); c.trans();
  { c.site("FromFile " + ctx); StreamPtr s; bool refused = false; try { s.reset(TensorStream::FromFile("d.bin")); } catch (std::exception&) { refused = true; c.count("files refused"); }
    if (refused && !f.comp) c.fail("damage:refused", ctx + ": a file of plain tensors is refused as a whole"); if (!refused) { size_t n = s->GetTensorCount(); CK(f.comp || n >= intact, "damage:lost", ctx + ": " + std::to_string(n) + " tensors, " + std::to_string(intact) + " are intact"); CK(n < 100, "damage:count", ctx + ": " + std::to_string(n) + " tensors"); if (payload) CK(n == f.ts.size(), "damage:count", ctx + ": " + std::to_string(n) + " tensors");
      for (int round = 0; round < 2; round++) for (size_t i = 0; i < n; i++) { // the second round comes after all failures of the first
        for (int way = 0; way < 2; way++) { size_t W = s->GetWidth(i), H = s->GetHeight(i), M = s->GetMaps(i), S = s->GetSamples(i); bool fits = i < f.ts.size() && way == 0 && shape(*f.ts[i]) == (Shape{S, W, H, M}); if (way == 0 && !fits && (W > 1100 || H > 1100 || M > 1100 || W * H * M > 10000 || !W || !H || !M)) continue; if (way == 1 && M < 1101 && wide * high * M > 60000) continue; Tensor t(2, way == 0 ? W : wide, way == 0 ? H : high, M > 1100 || !M ? 1 : M); t.Clear(7); for (size_t k = 0; k < 3; k++) { c.site("CopySample " + ctx); bool ok = false, thrown = false; try { ok = s->CopySample(i, k, t, 0); } catch (std::exception&) { thrown = true; c.count("copies refused"); } CK(!ok || k < S, "damage:sample", ctx + ": sample " + std::to_string(k) + " of " + std::to_string(S) + " copied"); size_t each = t.elements() / 2; for (size_t e = each; e < 2 * each; e++) CK(t[e] == 7, "damage:other", ctx + ": copying changes another sample");
              if (i < intact && k < f.ts[i]->samples()) { CK(ok && !thrown, "damage:before", ctx + ": an intact tensor cannot be read"); for (size_t y = 0; y < f.ts[i]->height(); y++) for (size_t x = 0; x < f.ts[i]->width(); x++) for (size_t m = 0; m < f.ts[i]->maps(); m++) CK(same_bits(*t.data_ptr_const(x, y, m, 0), *f.ts[i]->data_ptr_const(x, y, m, k)), "damage:content", ctx + ": an intact tensor is read as " + show(t)); } } } } } }
  for (int mode = 0; mode < 3; mode++) { // copying, memory mapped, headers only
    std::ifstream in("d.bin", std::ios::binary); int fd = open("d.bin", O_RDONLY); size_t got = 0; unsigned __int128 room = 0; if (f.comp) in.seekg(8); in.peek(); size_t iter = 0; bool over = false;
    while (!in.eof()) { CK(++iter < 100, "damage:loop", ctx + ": the reading loop does not end"); c.site("Deserialize mode " + std::to_string(mode) + " " + ctx); Tensor t; CompressedTensor ct; size_t el = 0; try { if (f.comp) ct.Deserialize(in, mode == 2, mode == 1, mode == 1 ? fd : 0); else t.Deserialize(in, mode == 2, mode == 1, mode == 1 ? fd : 0); } catch (std::exception& e) { c.fail("damage:exception", ctx + " mode " + std::to_string(mode) + ": reading fails with " + e.what()); } el = f.comp ? ct.elements() : t.elements();
      CK(f.comp ? product(ct) : product(t), "damage:dimensions", ctx + " mode " + std::to_string(mode) + ": a tensor of " + (f.comp ? std::to_string(ct.samples()) + "x" + std::to_string(ct.width()) + "x" + std::to_string(ct.height()) + "x" + std::to_string(ct.maps()) : shape(t).str()) + " is said to have " + std::to_string(el) + " elements"); if (el == 0) { over = true; break; }
      room += f.comp ? 40 + (unsigned __int128)ct.compressed_length() : 32 + (unsigned __int128)el * 4; CK(room <= bytes.size(), "damage:invented", ctx + " mode " + std::to_string(mode) + ": the tensors presented do not fit into the file");
      bool ok = true; if (f.comp && mode < 2) { try { ct.Decompress(t); } catch (std::exception&) { ok = false; c.count("decompressions refused"); } if (ok) CK(t.elements() == el && t.samples() == ct.samples() && t.width() == ct.width() && t.height() == ct.height() && t.maps() == ct.maps(), "damage:shape", ctx + ": decompressed to another shape"); size_t from = (size_t)(room + 8 - ct.compressed_length()); std::string want; bool valid = decode(bytes.data() + from, ct.compressed_length(), el, want); CK(ok == valid || el > (1u << 17), "damage:decoded", ctx + " mode " + std::to_string(mode) + ": decompression " + (ok ? "accepts" : "refuses") + " a text which " + (valid ? "encodes" : "does not encode") + " the declared " + std::to_string(el) + " elements"); if (ok) CK(!memcmp(want.data(), t.data_ptr_const(), want.size()), "damage:decoded", ctx + ": decompressed to other values, " + show(t)); }
      if (mode < 2 && ok) { volatile float sum = 0; for (size_t e = 0; e < t.elements(); e++) sum = sum + t[e]; } if (got < intact) { CK(ok, "damage:before", ctx + ": an intact tensor cannot be read"); if (mode < 2) CK(same(t, *f.ts[got]), "damage:content", ctx + " mode " + std::to_string(mode) + ": an intact tensor is read as " + show(t)); }
      if (payload && mode < 2 && got < f.ts.size()) { CK(shape(t) == shape(*f.ts[got]), "damage:shape", ctx); std::string want = bytes.substr(f.begin[got] + 32, f.end[got] - f.begin[got] - 32); CK(!memcmp(want.data(), t.data_ptr_const(), want.size()), "damage:content", ctx + ": values differ from those in the file"); }
      got++; in.peek(); }
    close(fd); CK(got >= intact, "damage:lost", ctx + " mode " + std::to_string(mode) + ": " + std::to_string(got) + " tensors read, " + std::to_string(intact) + " are intact"); (void)over; }
  c.state(mc::hash_bytes(bytes.data(), bytes.size())); c.validated(); c.nontrivial(); }
static File draw(mc::Ctx& c, unsigned maxn) { File f; f.comp = c.flip("compressed"); if (f.comp) { uint64_t m = CN24_CTS_MAGIC; f.bytes.append((char*)&m, 8); } unsigned n = c.range(1, maxn, "tensors"); for (unsigned i = 0; i < n; i++) { bool few = i && !c.thorough(); Shape q = SH[c.choose(few ? 2 : (unsigned)SH.size(), "shape")]; add(f, q, few ? 3 : c.choose(3, "pattern")); } return f; }
// every byte of every file changed to other values
static void single(mc::Ctx& c) { sys_init(); File f = draw(c, c.thorough() ? 3 : 2); c.shard(); std::string d = std::string(f.comp ? "compressed" : "float") + " file of" + f.ctx; size_t from = f.comp ? 8 : 0; for (size_t p = from; p < f.bytes.size(); p++) { std::set<unsigned> vals; unsigned char o = f.bytes[p]; if (c.thorough() && f.ts.size() < 3) for (unsigned v = 0; v < 256; v++) vals.insert(v); else { for (unsigned b = 0; b < 8; b++) vals.insert(o ^ (1u << b)); vals.insert({0, 1, 2, 255, 127, o + 1u, o - 1u}); bool payload = !f.comp; for (size_t i = 0; i < f.begin.size(); i++) if (p >= f.begin[i] && p < f.begin[i] + 32) payload = false; if (payload && !c.thorough()) vals = {0, o ^ 128u, 255}; } vals.erase(o); for (unsigned v : vals) { std::string b = f.bytes; b[p] = (char)v; examine(c, f, b, p, p, d + " byte " + std::to_string(p) + " changed from " + std::to_string(o) + " to " + std::to_string(v & 255)); } } if (c.want_sample()) c.sample(d + " with every byte changed"); }
// two bytes of a header, which multiply to sizes beyond 64 bits
static void headers(mc::Ctx& c) { sys_init(); File f = draw(c, 1); size_t h = f.comp ? 48 : 32, from = f.comp ? 8 : 0; size_t p = from + c.choose(h - from - 1, "first byte"); c.shard(); std::string d = std::string(f.comp ? "compressed" : "float") + " file of" + f.ctx; for (size_t q = p + 1; q < h; q++) for (unsigned v : {1u, 128u, 255u}) for (unsigned w : {1u, 64u, 255u}) { std::string b = f.bytes; b[p] = (char)v; b[q] = (char)w; if (b == f.bytes) continue; examine(c, f, b, p, q, d + " byte " + std::to_string(p) + " changed to " + std::to_string(v) + ", byte " + std::to_string(q) + " to " + std::to_string(w)); } if (c.want_sample()) c.sample(d + " with byte " + std::to_string(p) + " and every other header byte changed"); }
// every short compressed text, with every number of elements
static void words(mc::Ctx& c) { sys_init(); static std::vector<unsigned char> A; if (A.empty()) { Tensor t(1, 300, 1, 1), one(1, 1); t.Clear(0); CompressedTensor k; k.Compress(t); std::ostringstream o; k.Serialize(o); std::string b = o.str().substr(40); std::set<unsigned char> s(b.begin(), b.end()); s.insert(0); s.insert(1); s.insert(0x42); A.assign(s.begin(), s.end()); }
  unsigned n = c.range(0, c.thorough() ? 7 : 6, "length"); std::string w; for (unsigned i = 0; i < n; i++) { w += (char)A[c.choose((unsigned)A.size(), "byte")]; if (i == 2) c.shard(); } if (!c.sharded) c.shard(); for (uint64_t el : {1, 2, 3}) { std::ostringstream o; uint64_t h[5] = {1, el, 1, 1, n}; o.write((char*)h, 40); o << w; std::istringstream in(o.str()); CompressedTensor ct; c.site("words"); c.trans(); ct.Deserialize(in); if (n == 0 || ct.compressed_length() != n) { CK(ct.elements() == 0 && ct.compressed_length() == 0, "words:read", "a complete compressed tensor is not read"); continue; } Tensor t; std::string want; bool ok = true, valid = decode(w.data(), n, el, want); try { ct.Decompress(t); } catch (std::exception&) { ok = false; c.count("words refused"); } CK(ok == valid, "words:decoded", std::string("decompression ") + (ok ? "accepts" : "refuses") + " a text which " + (valid ? "encodes" : "does not encode") + " the declared " + std::to_string(el) + " elements"); if (!ok) continue; CK(!memcmp(want.data(), t.data_ptr_const(), want.size()), "words:decoded", "decompressed to other values"); CK(t.elements() == (n ? el : 0), "words:elements", "decompressed to " + std::to_string(t.elements()) + " elements, declared " + std::to_string(el)); volatile float s = 0; for (size_t e = 0; e < t.elements(); e++) s = s + t[e]; c.validated(); c.nontrivial(); }
  c.state(mc::hash_bytes(w.data(), w.size())); if (c.want_sample()) c.sample("text of " + std::to_string(n) + " bytes"); }
// larger tensors between two small ones: every header byte of all three, and the payload's ends and bytes around multiples of 64
static void large(mc::Ctx& c) { sys_init(); File f; f.comp = c.flip("compressed"); if (f.comp) { uint64_t m = CN24_CTS_MAGIC; f.bytes.append((char*)&m, 8); } unsigned s = 1, w = 2, h = 1, m = 2, pat = c.choose(3, "pattern"); if (c.thorough()) grow(c, {&s, &w, &h, &m}, false); else { unsigned* x[4] = {&s, &w, &h, &m}; *x[c.choose(4, "dimension")] = c.pick(std::vector<unsigned>{8, 17, 32, 33, 64, 65, 128, 255, 256, 257, 300}, "size"); } c.shard(); add(f, SH[0], 3); add(f, Shape{s, w, h, m}, pat); add(f, SH[2], 3); std::string d = std::string(f.comp ? "compressed" : "float") + " file of" + f.ctx; size_t from = f.comp ? 8 : 0, hs = f.comp ? 40 : 32, n = 0;
  for (size_t p = from; p < f.bytes.size(); p++) { bool head = false; for (size_t i = c.thorough() ? 0 : 1; i < f.begin.size(); i++) head |= p >= f.begin[i] && p < f.begin[i] + hs; size_t q = p - f.begin[1] - hs; bool in1 = p >= f.begin[1] + hs && p < f.end[1]; if (!head && !(in1 && (q < 9 || p + 9 >= f.end[1] || q % 64 < 2 || q % 64 > 62))) continue; unsigned char o = f.bytes[p]; std::set<unsigned> vals; if (head) { for (unsigned b = 0; b < 8; b += c.thorough() ? 1 : 3) vals.insert(o ^ (1u << b)); vals.insert({0, 255, (o + 1u) & 255, (o - 1u) & 255}); } else vals = {0, o ^ 1u, 'X', 'Y'}; vals.erase(o); for (unsigned v : vals) { std::string b = f.bytes; b[p] = (char)v; n++; examine(c, f, b, p, p, d + " byte " + std::to_string(p) + " changed from " + std::to_string(o) + " to " + std::to_string(v & 255)); } } if (c.want_sample()) c.sample(d + " with " + std::to_string(n) + " changes"); }
MC_MAIN({"single", single}, {"headers", headers}, {"words", words}, {"large", large})
