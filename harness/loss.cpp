// C15: square loss and its gradient
#include "util.h"
struct LRig { CombinedTensor *o, *l, *w; NetStatus st; ErrorLayer layer; LRig(const Shape& q, unsigned wm, double lw, bool def) : layer(lw) { (void)def; o = new CombinedTensor(q.s, q.w, q.h, q.m); l = new CombinedTensor(q.s, q.w, q.h, q.m); w = new CombinedTensor(q.s, q.w, q.h, wm); } ~LRig() { delete o; delete l; delete w; } };
static void pass(mc::Ctx& c, LRig& r, double lw, const std::string& ctx) {
  A4 o(r.o->data), l(r.l->data), w(r.w->data), g(o.sh); double loss = 0; for (size_t s = 0; s < o.sh.s; s++) for (size_t m = 0; m < o.sh.m; m++) for (size_t y = 0; y < o.sh.h; y++) for (size_t x = 0; x < o.sh.w; x++) { double d = o(s, x, y, m) - l(s, x, y, m), wt = w(s, x, y, 0); g(s, x, y, m) = d * wt * lw; loss += d * d * wt * lw / 2; }
  fill(r.o->delta, 33.f); fill(r.l->delta, 34.f); fill(r.w->delta, 35.f); A4 ld(r.l->delta), wd(r.w->delta);
  c.site("loss forward"); r.layer.FeedForward(); c.trans(); double v = r.layer.CalculateLossFunction(); c.trans(); std::string x = ctx + " output " + o.str() + " label " + l.str() + " weight " + w.str();
  CK(std::fabs(v - loss) <= 1e-5 * std::max(1.0, std::fabs(loss)), "loss:value", x + ": loss " + fmt(v) + " expected " + fmt(loss)); expect(c, r.o->delta, g, "loss:gradient", x, 1e-6);
  double v2 = r.layer.CalculateLossFunction(); r.layer.BackPropagate(); c.trans(2); CK(same_bits(v, v2), "loss:repeat", x); expect(c, r.o->delta, g, "loss:gradient-changed", x, 1e-6);
  expect(c, r.o->data, o, "loss:modifies-output", x); expect(c, r.l->data, l, "loss:modifies-label", x); expect(c, r.w->data, w, "loss:modifies-weight", x); expect(c, r.l->delta, ld, "loss:label-delta", x); expect(c, r.w->delta, wd, "loss:weight-delta", x); c.state(hash(r.o->delta)); }
static const std::vector<double> LW{1, 0.5, 2, 0};
static void shapes(mc::Ctx& c) { Shape q; q.w = c.range(1, c.thorough() ? 6 : 4, "w"); q.h = c.range(1, c.thorough() ? 6 : 4, "h"); q.m = c.range(1, 4, "m"); q.s = c.range(1, 3, "n"); double lw = c.pick(LW, "loss weight"); unsigned wm = c.range(1, 2, "weight maps"); c.shard(); sys_init();
  LRig r(q, wm, lw, false); CTs none, in{r.o, r.l, r.w}; c.site("loss connect"); CK(r.layer.CreateOutputs(in, none) && none.empty() && r.layer.Connect(in, none, &r.st), "loss:connect", "refused " + q.str());
  for (int p = 0; p < 3; p++) { fill_int(r.o->data, p, 5); fill_int(r.l->data, p + 10, 3); for (size_t e = 0; e < r.w->data.elements(); e++) r.w->data[e] = (float)std::fabs(smallint(e, p + 20, 3)) / 2; if (p == 1) fill(r.w->data, 0); pass(c, r, lw, "loss weight " + fmt(lw)); }
  for (size_t e = 0; e < r.o->data.elements(); e++) { fill(r.o->data, 1.f); fill(r.l->data, 1.f); fill(r.w->data, 1.f); r.o->data[e] = 3; pass(c, r, lw, "unit"); }
  for (size_t e = 0; e < r.w->data.elements(); e++) { fill_int(r.o->data, 1, 3); fill_int(r.l->data, 2, 3); fill(r.w->data, 0.f); r.w->data[e] = 2; pass(c, r, lw, "unit weight"); }
  if (q.n() > 1) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample("loss " + q.str() + " weight " + fmt(lw)); }
static void values(mc::Ctx& c) { static const std::vector<float> al{-1.f, 0.f, 0.5f, 1.f, 100.f}, wl{0.f, 0.25f, 1.f, 3.f, -0.5f}; double lw = c.pick(LW, "loss weight"); float v[4], w[2]; for (auto& x : v) x = c.pick(al, "v"); for (auto& x : w) x = c.pick(wl, "w"); c.shard(); sys_init();
  for (int k = 0; k < 3; k++) { Shape q = k == 0 ? Shape{1, 2, 1, 1} : k == 1 ? Shape{2, 1, 1, 1} : Shape{1, 1, 1, 2}; LRig r(q, 1, lw, false); CTs none, in{r.o, r.l, r.w}; r.layer.CreateOutputs(in, none); r.layer.Connect(in, none, &r.st);
    for (int i = 0; i < 2; i++) { r.o->data[i] = v[i]; r.l->data[i] = v[2 + i]; } for (size_t i = 0; i < r.w->data.elements(); i++) r.w->data[i] = w[i]; pass(c, r, lw, "values"); }
  c.nontrivial(); c.validated(); if (c.want_sample()) c.sample("output " + show(v, 2) + " label " + show(v + 2, 2) + " weights " + show(w, 2)); }
// one or two dimensions grow
static void large(mc::Ctx& c) { unsigned w = 3, h = 2, m = 2, n = 2, wm = 1; grow(c, {&w, &h, &m, &n}, true, {&w, &h, &m, &n}); double lw = c.pick(std::vector<double>{1, 0.5}, "loss weight"); c.shard(); sys_init(); Shape q{n, w, h, m}; LRig r(q, wm, lw, false); CTs none, in{r.o, r.l, r.w}; c.site("loss connect"); CK(r.layer.CreateOutputs(in, none) && r.layer.Connect(in, none, &r.st), "loss:connect", "refused " + q.str()); fill_int(r.o->data, 1, 5); fill_int(r.l->data, 10, 3); for (size_t e = 0; e < r.w->data.elements(); e++) r.w->data[e] = (float)std::fabs(smallint(e, 20, 3)) / 2; pass(c, r, lw, "loss weight " + fmt(lw)); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample("loss " + q.str()); }
// sums of more than 2^24 errors of the same size
static void many(mc::Ctx& c) { unsigned k = c.choose(3, "map, samples or height"); c.shard(); sys_init(); Shape q = k == 0 ? Shape{1, 5000, 4000, 1} : k == 1 ? Shape{4, 2500, 2000, 1} : Shape{1, 3000, 2000, 4}; LRig r(q, 1, 1, false); CTs none, in{r.o, r.l, r.w}; CK(r.layer.CreateOutputs(in, none) && r.layer.Connect(in, none, &r.st), "loss:connect", "refused " + q.str());
  r.o->data.Clear(3); r.l->data.Clear(1); r.w->data.Clear(0.5f); c.site("loss many"); r.layer.FeedForward(); double v = r.layer.CalculateLossFunction(), want = (double)q.n(); c.trans(2); CK(std::fabs(v - want) <= 1e-5 * want, "loss:value", "loss over " + q.str() + " is " + fmt(v) + " expected " + fmt(want)); for (size_t e = 0; e < q.n(); e++) CK(r.o->delta[e] == 1, "loss:gradient", q.str()); c.state(k); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample("loss over " + q.str()); }
MC_MAIN({"large", large}, {"many", many}, {"shapes", shapes}, {"values", values})
