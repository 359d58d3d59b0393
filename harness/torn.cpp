// C32: files whose writing was cut off at any byte
#include "util.h"
static void special(Tensor& t, unsigned salt) { for (size_t i = 0; i < t.elements(); i++) t[i] = salt == 1 ? 1.f : (float)smallint(i, salt, 2); }
static std::vector<Shape> SH{{1, 2, 2, 1}, {2, 1, 1, 3}, {1, 1, 1, 1}, {1, 3, 1, 2}};
struct File { std::vector<std::unique_ptr<Tensor>> ts; std::vector<size_t> end; std::string bytes; std::string ctx; };
static void make(mc::Ctx& c, File& f, bool comp) { unsigned n = c.range(1, c.thorough() ? 4 : 3, "tensors"); if (comp) { uint64_t m = CN24_CTS_MAGIC; f.bytes.append((char*)&m, 8); }
  for (unsigned i = 0; i < n; i++) { Shape q = c.pick(SH, "shape"); unsigned salt = c.choose(2, "pattern"); std::unique_ptr<Tensor> t(new Tensor(q.s, q.w, q.h, q.m)); special(*t, salt); std::ostringstream o; if (comp) { CompressedTensor ct; ct.Compress(*t); ct.Serialize(o); } else t->Serialize(o); f.bytes += o.str(); f.end.push_back(f.bytes.size()); f.ts.push_back(std::move(t)); f.ctx += " " + q.str(); } }
static bool same(const Tensor& a, const Tensor& b) { return shape(a) == shape(b) && memcmp(a.data_ptr_const(), b.data_ptr_const(), 4 * a.elements()) == 0; }
static void cut(mc::Ctx& c) {
  sys_init(); bool comp = c.flip("compressed"); File f; make(c, f, comp); c.shard(); size_t header = comp ? 40 : 32; (void)header;
  for (size_t len = 0; len <= f.bytes.size(); len++) { spit("t.bin", f.bytes.substr(0, len)); size_t whole = 0; while (whole < f.end.size() && f.end[whole] <= len) whole++; std::string ctx = std::string(comp ? "compressed" : "float") + " file of" + f.ctx + " cut to " + std::to_string(len) + " of " + std::to_string(f.bytes.size()) + " bytes"; c.trans();
    { c.site("FromFile " + ctx); StreamPtr s; bool refused = false; try { s.reset(TensorStream::FromFile("t.bin")); } catch (std::runtime_error&) { refused = true; }
      if (!refused) { CK(s->GetTensorCount() == whole, "torn:count", ctx + ": reader presents " + std::to_string(s->GetTensorCount()) + " tensors, " + std::to_string(whole) + " are complete"); for (size_t i = 0; i < whole; i++) { Tensor& e = *f.ts[i]; Tensor t; t.Resize(e); t.Clear(7); c.site("CopySample " + ctx); for (size_t k = 0; k < e.samples(); k++) CK(s->CopySample(i, k, t, k), "torn:copy", ctx); CK(same(t, e), "torn:content", ctx + ": tensor " + std::to_string(i) + " read " + show(t)); } }
      else if (whole || !comp) { c.count("clean refusals"); } }
    for (int mode = 0; mode < 3; mode++) { // direct reading with the usual loop: copy, mmap, header only
      std::ifstream in("t.bin", std::ios::binary); int fd = open("t.bin", O_RDONLY); size_t got = 0, iter = 0; if (comp) in.seekg(std::min<size_t>(8, len)); bool first = len > (comp ? 8u : 0u);
      if (first) in.peek(); while (first && !in.eof()) { CK(++iter < 20, "torn:loop", ctx + ": the reading loop does not end"); c.site("Deserialize mode " + std::to_string(mode) + " " + ctx); size_t el = 0; Tensor t(1, 2, 1, 1); t.Clear(5); CompressedTensor ct; ct.Compress(t); if (comp) { ct.Deserialize(in, mode == 2, mode == 1, mode == 1 ? fd : 0); el = ct.elements(); } else { t.Deserialize(in, mode == 2, mode == 1, mode == 1 ? fd : 0); el = t.elements(); }
        if (el == 0) break; CK(got < whole, "torn:invented", ctx + " mode " + std::to_string(mode) + ": presents a tensor that is not completely in the file"); if (mode < 2) { if (comp) ct.Decompress(t); CK(same(t, *f.ts[got]), "torn:content", ctx + " mode " + std::to_string(mode)); } else CK(el == f.ts[got]->elements(), "torn:head", ctx); got++; in.peek(); }
      close(fd); CK(got == whole, "torn:lost", ctx + " mode " + std::to_string(mode) + ": " + std::to_string(got) + " of " + std::to_string(whole) + " complete tensors read"); }
    c.validated(); if (len != f.bytes.size()) c.nontrivial(); c.state(mc::hash_bytes(f.bytes.data(), len)); }
  if (c.want_sample()) c.sample(std::string(comp ? "compressed" : "float") + f.ctx + " cut at each of " + std::to_string(f.bytes.size()) + " bytes"); }
// the same for a parameter file larger than a page: cut at every 16 bytes and around page boundaries, memory mapped
static void pages(mc::Ctx& c) {
  sys_init(); bool comp = c.flip("compressed"); unsigned a = c.choose(3, "first"), b = c.choose(3, "second"); c.shard(); size_t N[] = {1010, 1016, 2040}; std::string bytes; std::vector<size_t> end; if (comp) { uint64_t m = CN24_CTS_MAGIC; bytes.append((char*)&m, 8); } std::vector<std::unique_ptr<Tensor>> ts; for (unsigned k : {a, b}) { std::unique_ptr<Tensor> t(new Tensor(1, N[k])); for (size_t i = 0; i < N[k]; i++) (*t)[i] = (float)i; std::ostringstream o; if (comp) { CompressedTensor ct; ct.Compress(*t); ct.Serialize(o); } else t->Serialize(o); bytes += o.str(); end.push_back(bytes.size()); ts.push_back(std::move(t)); }
  for (size_t len = 0; len <= bytes.size(); len += (len % 4096 < 48 || len % 4096 > 4040 || bytes.size() - len < 64 ? 1 : 31)) { spit("p.bin", bytes.substr(0, len)); size_t whole = (len >= end[0]) + (len >= end[1]); std::string ctx = "file cut to " + std::to_string(len) + " of " + std::to_string(bytes.size()); c.trans(); c.site("FromFile " + ctx); StreamPtr s; try { s.reset(TensorStream::FromFile("p.bin")); } catch (std::runtime_error&) { continue; }
    CK(s->GetTensorCount() == whole, "torn:count", ctx + ": presents " + std::to_string(s->GetTensorCount()) + " tensors"); for (size_t i = 0; i < whole; i++) { Tensor t; t.Resize(*ts[i]); c.site("CopySample " + ctx); s->CopySample(i, 0, t, 0); CK(same(t, *ts[i]), "torn:content", ctx); } c.validated(); c.nontrivial(); }
  c.state(mc::hash_bytes(bytes.data(), bytes.size())); if (c.want_sample()) c.sample("two tensors of " + std::to_string(N[a]) + " and " + std::to_string(N[b]) + " elements"); }
MC_MAIN({"cut", cut}, {"pages", pages})
