// C04: one dataset in every storage format, every copy request
#include "util.h"
static std::vector<Shape> SH{{1, 2, 3, 2}, {2, 3, 1, 2}, {1, 2, 3, 1}, {1, 1, 1, 2}, {1, 3, 3, 2}};
typedef std::vector<std::unique_ptr<Tensor>> TV;
static void content(Tensor& t, unsigned salt) { for (size_t i = 0; i < t.elements(); i++) { uint32_t b[] = {0, 0x3f800000, 0x80000000, 0x58585858, 0x3f800000, 0x7fc00001}; uint32_t v = salt % 3 == 0 ? (uint32_t)(0x40000000 + salt * 4096 + i) : salt % 3 == 1 ? 0x3f000000 : b[(i * 5 + salt) % 6]; memcpy(&t[i], &v, 4); } }
static void make(mc::Ctx& c, TV& ts, unsigned n, std::string& ctx) { for (unsigned i = 0; i < n; i++) { Shape q = c.pick(SH, "shape"); ts.emplace_back(new Tensor(q.s, q.w, q.h, q.m)); content(*ts.back(), i + (n > 1 ? 0 : 2)); ctx += " " + q.str(); } }
static void write_float(const TV& ts, const std::string& p) { std::ofstream f(p, std::ios::binary); for (auto& t : ts) t->Serialize(f); }
static void write_comp(const TV& ts, const std::string& p) { std::ofstream f(p, std::ios::binary); uint64_t m = CN24_CTS_MAGIC; f.write((char*)&m, 8); for (auto& t : ts) { CompressedTensor ct; ct.Compress(*t); ct.Serialize(f); } }
static const char* KIND[] = {"float file", "compressed file", "float file loaded as float stream", "compressed file loaded as compressed stream", "file converted by compressTensorStream"};
static StreamPtr open_kind(unsigned k) {
  if (k == 0) return StreamPtr(TensorStream::FromFile("a.dat")); if (k == 1) return StreamPtr(TensorStream::FromFile("b.dat"));
  if (k == 2) { auto* s = new FloatTensorStream(); s->LoadFile("a.dat"); return StreamPtr(s); } if (k == 3) { auto* s = new CompressedTensorStream(); s->LoadFile("b.dat"); return StreamPtr(s); }
  return StreamPtr(TensorStream::FromFile("c.dat")); }
struct Req { unsigned idx; size_t sample; Shape target; size_t slot; std::string str() const { return "CopySample(" + std::to_string(idx) + ", " + std::to_string(sample) + ", target " + target.str() + ", " + std::to_string(slot) + ")"; } };
static void request(mc::Ctx& c, TensorStream& s, const TV& ts, const Req& r, const std::string& ctx) {
  Tensor t(r.target.s, r.target.w, r.target.h, r.target.m); for (size_t i = 0; i < t.elements(); i++) t[i] = -100.f - i; A4 e(t); bool ok = false;
  if (r.idx < ts.size()) { const Tensor& o = *ts[r.idx]; ok = r.sample < o.samples() && r.slot < t.samples() && o.maps() == t.maps() && t.width() >= o.width() && t.height() >= o.height(); }
  c.site(r.str()); bool got = s.CopySample(r.idx, r.sample, t, r.slot); c.trans(); CK(got == ok, "streams:result", ctx + " " + r.str() + (got ? ": accepted" : ": refused")); std::vector<float> v(e.v.begin(), e.v.end());
  if (ok) { const Tensor& o = *ts[r.idx]; for (size_t m = 0; m < o.maps(); m++) for (size_t y = 0; y < t.height(); y++) for (size_t x = 0; x < t.width(); x++) v[e.idx(r.slot, x, y, m)] = x < o.width() && y < o.height() ? *o.data_ptr_const(x, y, m, r.sample) : 0.f; }
  CK(shape(t) == r.target, "streams:shape", ctx + r.str()); for (size_t i = 0; i < v.size(); i++) if (!same_bits(v[i], t[i])) c.fail(ok ? "streams:content" : "streams:refused-but-written", ctx + " " + r.str() + ": element " + std::to_string(i) + " is " + fmt(t[i]) + " expected " + fmt(v[i]) + "\n got " + show(t) + "\n expected " + show(v));
  c.state(mc::mix(hash(t), r.idx * 7 + r.slot)); }
// all pairs of requests on every kind of stream
static void requests(mc::Ctx& c) {
  sys_init(); unsigned n = c.range(1, 2, "tensors"); TV ts; std::string ctx; make(c, ts, n, ctx); unsigned k = c.choose(4, "kind"); unsigned first = 0; bool pairs = n == 2 || c.thorough();
  write_float(ts, "a.dat"); write_comp(ts, "b.dat"); ctx = std::string(KIND[k]) + " of" + ctx; std::vector<Req> all;
  std::vector<Shape> targets{{1, 2, 3, 2}, {2, 3, 3, 2}, {2, 3, 4, 2}, {1, 1, 1, 2}, {2, 2, 3, 1}, {1, 3, 3, 1}, {2, 1, 3, 2}, {1, 3, 1, 2}, {1, 2, 3, 3}, {1, 4, 2, 2}};
  for (unsigned i = 0; i <= n; i++) for (size_t s = 0; s < (i < n ? ts[i]->samples() + 1 : 1); s++) for (auto& t : targets) for (size_t z = 0; z <= t.s; z++) all.push_back(Req{i, s, t, z});
  if (pairs) first = c.choose(all.size(), "first request"); c.shard(); c.site("open " + ctx);
  for (size_t j = 0; j < all.size(); j++) { StreamPtr s = open_kind(k); if (pairs) { request(c, *s, ts, all[first], ctx); request(c, *s, ts, all[j], ctx + " after " + all[first].str()); request(c, *s, ts, all[first], ctx + " again"); } else request(c, *s, ts, all[j], ctx); c.validated(); if (j == 0 || !pairs) for (unsigned i = 0; i <= n + 1; i++) { bool in = i < n; CK(s->GetTensorCount() == n && s->GetWidth(i) == (in ? ts[i]->width() : 0) && s->GetHeight(i) == (in ? ts[i]->height() : 0) && s->GetMaps(i) == (in ? ts[i]->maps() : 0) && s->GetSamples(i) == (in ? ts[i]->samples() : 0), "streams:dimensions", ctx + " tensor " + std::to_string(i)); } }
  c.nontrivial(); if (c.want_sample()) c.sample(ctx + (pairs ? " " + all[first].str() + " then all others" : " all requests")); }
// one stream, all of its requests one after the other, for all datasets of up to 4 tensors, in all kinds incl. the conversion tool
static void datasets(mc::Ctx& c) {
  sys_init(); unsigned n = c.range(0, c.thorough() ? 4 : 3, "tensors"); TV ts; std::string ctx; make(c, ts, n, ctx); c.shard(); write_float(ts, "a.dat"); write_comp(ts, "b.dat"); const char* exe = getenv("COMPRESSTENSORSTREAM"); bool tool = exe && (n <= 2 || c.thorough() || ctx.size() % 3 == 0);
  if (tool) { c.site("compressTensorStream"); int r = system((std::string(exe) + " a.dat c.dat >tool.log 2>&1").c_str()); CK(WIFEXITED(r) && WEXITSTATUS(r) == 0, "streams:tool", ctx + ": tool ended with status " + std::to_string(r) + " " + slurp("tool.log").substr(0, 900)); }
  for (unsigned k = 0; k < (tool ? 5 : 4); k++) { std::string x = std::string(KIND[k]) + " of" + ctx; c.site("open " + x); StreamPtr s = open_kind(k); CK(s->GetTensorCount() == n, "streams:count", x + ": " + std::to_string(s->GetTensorCount()) + " tensors"); CK((dynamic_cast<CompressedTensorStream*>(s.get()) != nullptr) == (k == 1 || k == 3 || k == 4), "streams:format", x + ": opened as another format");
    for (unsigned i = 0; i < n; i++) { const Tensor& o = *ts[i]; CK(s->GetWidth(i) == o.width() && s->GetHeight(i) == o.height() && s->GetMaps(i) == o.maps() && s->GetSamples(i) == o.samples(), "streams:dimensions", x); for (size_t z = 0; z < o.samples(); z++) { request(c, *s, ts, Req{i, z, Shape{1, o.width(), o.height(), o.maps()}, 0}, x); request(c, *s, ts, Req{i, z, Shape{2, o.width() + 1, o.height() + 2, o.maps()}, 1}, x); } }
    c.validated(); }
  if (n > 1) c.nontrivial(); if (c.want_sample()) c.sample(std::to_string(n) + " tensors" + ctx); }
// many tensors, or tensors that grow, in every kind of stream, accessed in several orders
static void large(mc::Ctx& c) { sys_init(); unsigned n = 3, w = 3, h = 2, m = 2, s = 2; grow(c, {&n, &w, &h, &m, &s}, true, {&w, &h, &m}); unsigned k = c.choose(4, "kind"); c.shard(); TV ts; std::string ctx = std::string(KIND[k]) + " of " + std::to_string(n) + " tensors of about " + Shape{s, w, h, m}.str(); for (unsigned i = 0; i < n; i++) { ts.emplace_back(new Tensor(s, w + i % 2, h, m)); content(*ts.back(), i); } write_float(ts, "a.dat"); write_comp(ts, "b.dat"); c.site("open " + ctx); StreamPtr st = open_kind(k); CK(st->GetTensorCount() == n, "streams:count", ctx);
  for (unsigned o = 0; o < n; o++) { unsigned i = o % 2 ? n - 1 - o / 2 : o / 2; const Tensor& t = *ts[i]; CK(st->GetWidth(i) == t.width() && st->GetHeight(i) == t.height() && st->GetMaps(i) == t.maps() && st->GetSamples(i) == t.samples(), "streams:dimensions", ctx); for (size_t z : {(size_t)0, t.samples() - 1}) { request(c, *st, ts, Req{i, z, Shape{1, t.width(), t.height(), t.maps()}, 0}, ctx); if (n < 20) request(c, *st, ts, Req{i, z, Shape{s, t.width() + 1, t.height() + 2, t.maps()}, s - 1}, ctx); } } request(c, *st, ts, Req{n, 0, Shape{1, w, h, m}, 0}, ctx);
  c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(ctx); }
MC_MAIN({"large", large}, {"requests", requests}, {"datasets", datasets})
