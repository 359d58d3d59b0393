// C01: tensors against plain 4-D arrays, over all operation sequences up to a depth
#include "util.h"
struct Store { std::vector<float> v; std::vector<char> def; Store(size_t n) : v(n, 0), def(n, 0) {} };
struct Slot { std::unique_ptr<Tensor> t; Shape sh{0, 0, 0, 0}; std::shared_ptr<Store> st; bool shadow = false; size_t base() const { return 0; } };
static std::vector<Shape> SH{{1, 2, 1, 1}, {2, 2, 3, 2}, {1, 3, 2, 4}, {4, 3, 2, 1}, {2, 3, 3, 2}, {1, 1, 2, 1}, {1, 3, 0, 2}, {1, 2, 2, 1}};
struct World {
  mc::Ctx& c; std::vector<Slot> s; std::string log; unsigned salt = 1;
  World(mc::Ctx& c_, unsigned n) : c(c_), s(n) { for (auto& q : s) q.t.reset(new Tensor()); }
  ~World() { for (auto& q : s) if (q.shadow) q.t.reset(); }
  static size_t at(const Shape& q, size_t n, size_t x, size_t y, size_t m) { return ((n * q.m + m) * q.h + y) * q.w + x; }
  bool pinned(unsigned i) { if (s[i].shadow || !s[i].st) return false; for (unsigned j = 0; j < s.size(); j++) if (j != i && s[j].st == s[i].st) return true; return false; } // has shadows: must not be freed
  bool aliasing(unsigned i, unsigned j) { return i != j && s[i].st && s[i].st == s[j].st; }
  void say(const std::string& x) { log += x + "; "; c.site(x); c.trans(); }
  std::string nm(unsigned i) { return "t" + std::to_string(i); }
  void check() {
    for (unsigned i = 0; i < s.size(); i++) { Slot& q = s[i]; Tensor& t = *q.t;
      if (t.elements() != q.sh.n() || (q.sh.n() && !(shape(t) == q.sh))) c.fail("tensor:shape", log + nm(i) + " has shape " + shape(t).str() + " elements " + std::to_string(t.elements()) + ", expected " + q.sh.str());
      if (!q.sh.n()) continue;
      bool all = true; for (size_t n = 0; n < q.sh.s; n++) for (size_t m = 0; m < q.sh.m; m++) for (size_t y = 0; y < q.sh.h; y++) for (size_t x = 0; x < q.sh.w; x++) { size_t e = at(q.sh, n, x, y, m); volatile float got = *t.data_ptr(x, y, m, n); if (!q.st->def[e]) { all = false; continue; }
        if (got != q.st->v[e] || *t.data_ptr_const(x, y, m, n) != q.st->v[e] || t[e] != q.st->v[e] || t(e) != q.st->v[e]) c.fail("tensor:value", log + nm(i) + q.sh.str() + " at x=" + std::to_string(x) + " y=" + std::to_string(y) + " map=" + std::to_string(m) + " sample=" + std::to_string(n) + " is " + fmt(got) + ", expected " + fmt(q.st->v[e])); }
      if (!all) continue;
      size_t per = q.sh.n() / q.sh.s; for (size_t n = 0; n < q.sh.s; n++) { size_t b = 0; for (size_t e = 1; e < per; e++) if (q.st->v[n * per + e] > q.st->v[n * per + b]) b = e; if (t.Maximum(n) != b) c.fail("tensor:maximum", log + nm(i) + " Maximum(" + std::to_string(n) + ") is " + std::to_string(t.Maximum(n)) + ", expected " + std::to_string(b)); }
      size_t b = 0; for (size_t e = 1; e < q.sh.n(); e++) if (std::fabs(q.st->v[e]) > std::fabs(q.st->v[b])) b = e; if (t.AbsMaximum() != b) c.fail("tensor:absmaximum", log + nm(i) + " AbsMaximum is " + std::to_string(t.AbsMaximum()) + ", expected " + std::to_string(b));
      for (size_t n = 0; n < q.sh.s; n++) for (size_t y = 0; y < q.sh.h; y++) for (size_t x = 0; x < q.sh.w; x++) { size_t k = 0; for (size_t m = 1; m < q.sh.m; m++) if (q.st->v[at(q.sh, n, x, y, m)] > q.st->v[at(q.sh, n, x, y, k)]) k = m; if (t.PixelMaximum(x, y, n) != k) c.fail("tensor:pixelmaximum", log + nm(i) + " PixelMaximum"); } }
    uint64_t h = 5; for (auto& q : s) { h = mc::mix(h, q.sh.s * 1000 + q.sh.w * 100 + q.sh.h * 10 + q.sh.m); h = mc::mix(h, q.shadow); if (q.st) h = mc::mix(h, mc::hash_bytes(q.st->v.data(), q.st->v.size() * 4)); } c.state(h); }
  void fresh(Slot& q, const Shape& sh) { q.shadow = false; if (sh.n()) { q.sh = sh; q.st = std::make_shared<Store>(sh.n()); } else { q.sh = Shape{0, 0, 0, 0}; q.st.reset(); } }
  void write(unsigned i) { Slot& q = s[i]; c.require(q.sh.n()); salt++; say(nm(i) + " write all"); for (size_t n = 0; n < q.sh.s; n++) for (size_t m = 0; m < q.sh.m; m++) for (size_t y = 0; y < q.sh.h; y++) for (size_t x = 0; x < q.sh.w; x++) { size_t e = at(q.sh, n, x, y, m); float v = (float)(smallint(e, salt, 40)) - 0.5f; *q.t->data_ptr(x, y, m, n) = v; q.st->v[e] = v; q.st->def[e] = 1; } }
  void write1(unsigned i) { Slot& q = s[i]; c.require(q.sh.n()); salt++; size_t e = q.sh.n() - 1; say(nm(i) + " write last"); float v = -100.f - salt; (*q.t)[e] = v; q.st->v[e] = v; q.st->def[e] = 1; }
  void resize(unsigned i, const Shape& sh, bool by_tensor) { Slot& q = s[i]; bool keep = q.st && q.sh.n() == sh.n(); if (!keep) c.require(!pinned(i)); say(nm(i) + " resize " + sh.str()); if (by_tensor && sh.n()) { Tensor o(sh.s, sh.w, sh.h, sh.m); q.t->Resize(o); } else q.t->Resize(sh.s, sh.w, sh.h, sh.m); if (keep) q.sh = sh; else fresh(q, sh); }
  void reshape(unsigned i, const Shape& sh) { Slot& q = s[i]; bool ok = q.st && q.sh.n() == sh.n(); say(nm(i) + " reshape " + sh.str()); bool r = q.t->Reshape(sh.s, sh.w, sh.h, sh.m); if (r != ok) c.fail("tensor:reshape", log + " returned " + std::to_string(r)); if (ok) q.sh = sh; }
  void clear(unsigned i, int n) { Slot& q = s[i]; c.require(n < (int)q.sh.s); float v = n < 0 ? 0.f : 2.5f; say(nm(i) + " clear sample " + std::to_string(n)); if (n < 0) q.t->Clear(); else q.t->Clear(v, n); if (!q.sh.n()) return; size_t per = q.sh.n() / q.sh.s; for (size_t e = 0; e < q.sh.n(); e++) if (n < 0 || e / per == (size_t)n) { q.st->v[e] = v; q.st->def[e] = 1; } }
  void transpose(unsigned i) { Slot& q = s[i]; say(nm(i) + " transpose"); q.t->Transpose(); if (!q.sh.n()) return; Shape o = q.sh; std::swap(o.w, o.h); std::vector<float> v(o.n()); std::vector<char> d(o.n()); for (size_t n = 0; n < o.s; n++) for (size_t m = 0; m < o.m; m++) for (size_t y = 0; y < o.h; y++) for (size_t x = 0; x < o.w; x++) { v[at(o, n, x, y, m)] = q.st->v[at(q.sh, n, y, x, m)]; d[at(o, n, x, y, m)] = q.st->def[at(q.sh, n, y, x, m)]; } q.st->v = v; q.st->def = d; q.sh = o; }
  void adopt(unsigned i, const Shape& sh) { Slot& q = s[i]; c.require(sh.n() && !pinned(i)); say(nm(i) + " adopt buffer " + sh.str()); float* p = new float[sh.n()]; for (size_t e = 0; e < sh.n(); e++) p[e] = (float)e - 7; q.t->Resize(sh.s, sh.w, sh.h, sh.m, p); fresh(q, sh); for (size_t e = 0; e < sh.n(); e++) { q.st->v[e] = p[e]; q.st->def[e] = 1; } }
  void construct(unsigned i, const Shape& sh) { Slot& q = s[i]; c.require(!pinned(i)); say(nm(i) + " construct " + sh.str()); q.t.reset(sh.n() || sh.w ? new Tensor(sh.s, sh.w, sh.h, sh.m) : new Tensor()); fresh(q, sh); }
  void copy(unsigned i, unsigned j) { c.require(i != j && !pinned(j)); say(nm(j) + " = copy of " + nm(i)); s[j].t.reset(new Tensor(*s[i].t, true)); fresh(s[j], s[i].sh); if (s[i].st) *s[j].st = *s[i].st; if (s[j].st && s[j].t->data_ptr() == s[i].t->data_ptr()) c.fail("tensor:copy", log + " copy shares storage"); }
  void move(unsigned i, unsigned j) { c.require(i != j && !pinned(j)); say(nm(j) + " = move of " + nm(i)); Tensor* n = new Tensor(std::move(*s[i].t)); s[j].t.reset(n); s[j].sh = s[i].sh; s[j].st = s[i].st; s[j].shadow = s[i].shadow; s[i].st.reset(); s[i].sh = Shape{0, 0, 0, 0}; s[i].shadow = false; }
  void shadow(unsigned i, unsigned j) { c.require(i != j && !pinned(j)); c.require(!(aliasing(i, j) && !s[j].shadow)); say(nm(j) + " shadows " + nm(i)); s[j].t->Shadow(*s[i].t); s[j].sh = s[i].sh; s[j].st = s[i].st; s[j].shadow = s[i].st != nullptr; }
  bool fits(const Slot& a, const Slot& b, size_t n, size_t k) { return n < a.sh.s && k < b.sh.s && b.sh.w >= a.sh.w && b.sh.h >= a.sh.h; }
  void copy_map_model(Slot& a, size_t n, size_t m, Slot& b, size_t k, size_t l) { for (size_t y = 0; y < b.sh.h; y++) for (size_t x = 0; x < b.sh.w; x++) { size_t e = at(b.sh, k, x, y, l); bool in = x < a.sh.w && y < a.sh.h; b.st->v[e] = in ? a.st->v[at(a.sh, n, x, y, m)] : 0.f; b.st->def[e] = in ? a.st->def[at(a.sh, n, x, y, m)] : 1; } }
  void copysample(unsigned i, size_t n, unsigned j, size_t k) { Slot &a = s[i], &b = s[j]; c.require(!aliasing(i, j) || a.sh == b.sh); c.require(a.sh.n() || b.sh.n()); say("CopySample(" + nm(i) + "," + std::to_string(n) + "," + nm(j) + "," + std::to_string(k) + ")"); bool ok = fits(a, b, n, k) && a.sh.m == b.sh.m; bool r = Tensor::CopySample(*a.t, n, *b.t, k); if (r != ok) c.fail("tensor:copysample", log + " from " + a.sh.str() + " to " + b.sh.str() + " returned " + std::to_string(r)); if (ok) { Store tmp = *a.st; Slot t2; t2.sh = a.sh; t2.st = std::make_shared<Store>(tmp); for (size_t m = 0; m < a.sh.m; m++) copy_map_model(t2, n, m, b, k, m); } }
  void copymap(unsigned i, size_t n, size_t m, unsigned j, size_t k, size_t l) { Slot &a = s[i], &b = s[j]; c.require(!aliasing(i, j) || a.sh == b.sh); say("CopyMap(" + nm(i) + "," + std::to_string(n) + "," + std::to_string(m) + "," + nm(j) + "," + std::to_string(k) + "," + std::to_string(l) + ")"); bool ok = fits(a, b, n, k) && m < a.sh.m && l < b.sh.m; bool r = Tensor::CopyMap(*a.t, n, m, *b.t, k, l); if (r != ok) c.fail("tensor:copymap", log + " from " + a.sh.str() + " to " + b.sh.str() + " returned " + std::to_string(r)); if (ok) { Slot t2; t2.sh = a.sh; t2.st = std::make_shared<Store>(*a.st); copy_map_model(t2, n, m, b, k, l); } }
};
static void start(World& w, unsigned k) { Slot* s = w.s.data(); if (k == 0) return; w.construct(0, SH[1]); w.write(0); if (k == 1) return; if (k == 2) { w.construct(1, SH[4]); w.write(1); } else if (k == 3) w.shadow(0, 1); else if (k == 4) { w.construct(1, SH[2]); w.write(1); } (void)s; }
static void ops(mc::Ctx& c) {
  unsigned k = c.choose(5, "start"); unsigned depth = c.thorough() && (k == 2 || k == 3) ? 4 : 3; World w(c, 2); start(w, k); bool sharded = false;
  for (unsigned d = 0; d < depth; d++) { unsigned n = c.choose(13, "op"); unsigned i = c.choose(2, "slot");
    switch (n) { case 0: break;
      case 1: { unsigned q = c.choose(SH.size(), "shape"); w.resize(i, SH[q], q & 1); } break;
      case 2: w.reshape(i, c.pick(SH, "shape")); break;
      case 3: w.clear(i, (int)c.range(-1, 1, "sample")); break;
      case 4: w.write(i); break;
      case 5: w.write1(i); break;
      case 6: w.transpose(i); break;
      case 7: w.adopt(i, c.flip("shape") ? SH[1] : SH[7]); break;
      case 8: w.construct(i, SH[c.choose(3, "shape") * 3]); break;
      case 9: c.flip("move") ? w.move(i, 1 - i) : w.copy(i, 1 - i); break;
      case 10: w.shadow(i, 1 - i); break;
      case 11: { static const std::vector<std::vector<size_t>> L{{0, 0}, {0, 1}, {1, 0}, {2, 0}, {0, 2}}; auto& q = c.pick(L, "samples"); bool self = q[0] + q[1] == 1 && c.flip("self"); w.copysample(i, q[0], self ? i : 1 - i, q[1]); } break;
      case 12: { static const std::vector<std::vector<size_t>> L{{0, 0, 0, 0}, {1, 1, 0, 1}, {0, 1, 1, 0}, {2, 0, 0, 0}, {0, 2, 0, 0}, {0, 0, 2, 0}, {0, 0, 0, 2}}; auto& q = c.pick(L, "indices"); bool self = q[0] + q[1] + q[2] + q[3] == 3 && c.flip("self"); w.copymap(i, q[0], q[1], self ? i : 1 - i, q[2], q[3]); } break; }
    if (!sharded && d == 1) { c.shard(); sharded = true; }
    if (n == 0) { c.require(i == 0); break; } w.check(); }
  if (!sharded) c.shard(); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(w.log); }
// ownership histories over three tensors: construct, copy, move, shadow, resize, destroy
static void ownership(mc::Ctx& c) {
  unsigned depth = c.thorough() ? 5 : 4; World w(c, 3); bool sharded = false; w.construct(0, SH[1]); w.write(0);
  for (unsigned d = 0; d < depth; d++) { unsigned n = c.choose(8, "op"), i = c.choose(3, "slot");
    switch (n) { case 0: c.require(i == 0); break; case 1: w.copy(i, (i + 1) % 3); break; case 2: w.move(i, (i + 1 + c.choose(2, "to")) % 3); break; case 3: w.shadow(i, (i + 1 + c.choose(2, "to")) % 3); break; case 4: w.resize(i, c.flip("shape") ? SH[2] : SH[0], false); break; case 5: w.construct(i, Shape{0, 0, 0, 0}); break; case 6: w.write(i); break; case 7: w.adopt(i, SH[7]); break; }
    if (!sharded && d == 1) { c.shard(); sharded = true; }
    if (n == 0) break; w.check(); }
  if (!sharded) c.shard(); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(w.log); }
// shapes that grow in one or two dimensions, through every operation
static void large(mc::Ctx& c) { unsigned w = 3, h = 2, m = 2, n = 2; grow(c, {&w, &h, &m, &n}, true, {&w, &h, &m, &n}); c.shard(); Shape q{n, w, h, m}, o{n + 1, w + 2, h + 1, m}, r{m, h, w, n}; World W(c, 2); W.construct(0, q); W.write(0); W.check(); W.construct(1, o); W.write(1); W.copysample(0, n - 1, 1, n); W.check(); W.copysample(0, 0, 1, 0); W.check(); W.copymap(0, n - 1, m - 1, 1, n - 1, 0); W.check(); W.copymap(0, 0, 0, 1, n, m - 1); W.check(); W.copysample(1, 0, 0, 0); W.copysample(0, n, 1, 0); W.copymap(0, 0, m, 1, 0, 0); W.check();
  W.transpose(0); W.check(); W.clear(0, n - 1); W.check(); W.clear(0, n / 2); W.check(); W.clear(0, -1); W.check(); W.write(0); W.check(); W.copysample(0, n / 2, 1, n / 3); W.copymap(0, n / 2, m / 2, 1, n / 2, m - 1); W.check(); W.resize(0, q, true); W.reshape(0, r); W.check(); W.transpose(1); W.check(); W.copy(0, 1); W.check(); W.write(1); W.shadow(1, 0); W.check(); W.write(0); W.write1(0); W.check(); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(q.str()); }
// maxima of all small tensors over an alphabet of values
static void maxima(mc::Ctx& c) { static const std::vector<float> V{0.f, -0.f, 0.25f, -0.5f, 0.5f, 1.f, -2.f, 3e38f, -3.4e38f, 1e-30f, -1e-30f, 1e-42f}; unsigned n = c.range(1, c.thorough() ? 5 : 4, "elements"), split = c.choose(5, "shape"); std::vector<float> v(n); for (auto& x : v) x = c.pick(V, "value"); c.shard(); sys_init();
  Shape q = split == 0 ? Shape{1, n, 1, 1} : split == 1 ? Shape{1, 1, 1, n} : split == 2 ? Shape{n, 1, 1, 1} : split == 3 ? Shape{1, n % 2 ? 1u : n / 2, 1, n % 2 ? n : 2} : Shape{n % 2 ? 1u : 2, 1, 1, n % 2 ? n : n / 2}; Tensor t(q.s, q.w, q.h, q.m); for (unsigned i = 0; i < n; i++) t[i] = v[i]; std::string x = show(t); size_t per = n / q.s, P = q.w * q.h;
  auto best = [&](size_t from, size_t cnt, size_t step, bool abs) { size_t b = 0; for (size_t i = 1; i < cnt; i++) { float a = v[from + i * step], o = v[from + b * step]; if (abs ? std::fabs(a) > std::fabs(o) : a > o) b = i; } return b; };
  for (size_t s = 0; s < q.s; s++) { CK(t.Maximum(s) == best(s * per, per, 1, false), "tensor:maximum", x + ": the maximum of sample " + std::to_string(s) + " is said to be at " + std::to_string(t.Maximum(s))); for (size_t y = 0; y < q.h; y++) for (size_t w = 0; w < q.w; w++) CK(t.PixelMaximum(w, y, s) == best(s * per + y * q.w + w, q.m, P, false), "tensor:pixelmaximum", x + ": the best map at " + std::to_string(w) + "," + std::to_string(y) + " of sample " + std::to_string(s) + " is said to be " + std::to_string(t.PixelMaximum(w, y, s))); }
  CK(t.AbsMaximum() == best(0, n, 1, true), "tensor:absmaximum", x + ": the largest magnitude is said to be at " + std::to_string(t.AbsMaximum())); c.trans(3); c.state(hash(t)); if (n > 1) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(x); }
MC_MAIN({"large", large}, {"maxima", maxima}, {"ops", ops}, {"ownership", ownership})
