// C13: layers that move data: exact positions forward, exact adjoint backward
#include "util.h"
// every layer is described by a map from output element to the list of input elements (input number, element) it sums, times a factor, plus a constant
struct Term { int in; size_t e; };
struct Model { std::vector<std::vector<Term>> t; std::vector<double> konst; double factor = 1; Shape out; };
static void run(mc::Ctx& c, const std::string& name, Rig& r, const std::function<Model()>& build, bool backward, int passes) {
  c.site(name + " connect"); CK(r.up(), name + ":connect", "refused"); Model m = build(); std::string ctx = name; for (auto* i : r.in) ctx += " in" + shape(i->data).str();
  CK(r.out.size() == 1 && shape(r.out[0]->data) == m.out, name + ":shape", ctx + " declares " + shape(r.out[0]->data).str() + " expected " + m.out.str());
  auto once = [&](unsigned salt, bool bp) {
    std::vector<A4> ins; for (auto* i : r.in) ins.push_back(A4(i->data)); A4 ref(m.out); for (size_t o = 0; o < m.t.size(); o++) { double a = 0; for (auto& q : m.t[o]) a += ins[q.in].v[q.e]; ref.v[o] = a * m.factor + m.konst[o]; }
    fill(r.out[0]->data, 99.f); c.site(name + " forward"); r.L->FeedForward(); c.trans(); expect(c, r.out[0]->data, ref, name + ":forward", ctx + " input0 " + ins[0].str(), m.factor == 1 ? 1e-6 : 1e-5);
    for (size_t i = 0; i < ins.size(); i++) expect(c, r.in[i]->data, ins[i], name + ":input-modified", ctx); c.state(hash(r.out[0]->data));
    if (!bp) return; fill_int(r.out[0]->delta, salt + 100, 7); A4 d(r.out[0]->delta); std::vector<A4> g; for (auto* i : r.in) { g.push_back(A4(shape(i->delta))); fill(i->delta, 88.f); }
    for (size_t o = 0; o < m.t.size(); o++) for (auto& q : m.t[o]) g[q.in].v[q.e] += d.v[o] * m.factor;
    c.site(name + " backward"); r.L->BackPropagate(); c.trans(); for (size_t i = 0; i < g.size(); i++) expect(c, r.in[i]->delta, g[i], name + ":gradient", ctx + " gradient of input " + std::to_string(i) + " delta " + d.str()); expect(c, r.out[0]->delta, d, name + ":delta-modified", ctx); };
  for (int p = 0; p < passes; p++) { for (size_t i = 0; i < r.in.size(); i++) fill_int(r.in[i]->data, 10 * p + i, 9); once(p, backward); }
  size_t tot = 0; for (auto* i : r.in) tot += i->data.elements(); // unit impulses: every input element alone
  for (size_t i = 0; i < r.in.size() && tot <= 64; i++) for (size_t e = 0; e < r.in[i]->data.elements(); e++) { for (auto* j : r.in) fill(j->data, 0); r.in[i]->data[e] = 1; once(e, false); }
  if (backward && m.t.size() <= 64) for (size_t o = 0; o < m.t.size(); o++) { fill(r.out[0]->delta, 0); r.out[0]->delta[o] = 1; for (auto* i : r.in) fill(i->delta, 88.f); r.L->BackPropagate(); c.trans(); for (size_t i = 0; i < r.in.size(); i++) { A4 g(shape(r.in[i]->delta)); for (auto& q : m.t[o]) if (q.in == (int)i) g.v[q.e] += m.factor; expect(c, r.in[i]->delta, g, name + ":gradient", ctx + " unit gradient at output " + std::to_string(o)); } }
  if (m.t.size() > 2) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(ctx + " -> " + m.out.str()); }
static Shape draw(mc::Ctx& c, unsigned d) { Shape s; s.w = c.range(1, d, "w"); s.h = c.range(1, d, "h"); s.m = c.range(1, 3, "m"); s.s = c.range(1, 3, "n"); return s; }
static Model model(const Shape& out) { Model m; m.out = out; m.t.resize(out.n()); m.konst.assign(out.n(), 0); return m; }
#define EACH(sh) for (size_t s = 0; s < sh.s; s++) for (size_t m = 0; m < sh.m; m++) for (size_t y = 0; y < sh.h; y++) for (size_t x = 0; x < sh.w; x++)
static size_t at(const Shape& q, size_t s, size_t x, size_t y, size_t m) { return ((s * q.m + m) * q.h + y) * q.w + x; }
static void resize(mc::Ctx& c) { Shape q = draw(c, 4); unsigned bx = c.range(0, c.thorough() ? 7 : 5, "bx"), by = c.range(0, c.thorough() ? 7 : 5, "by"); bool text = c.flip("text"); c.shard(); sys_init();
  Rig r(text ? new ResizeLayer("border=" + std::to_string(bx) + "x" + std::to_string(by)) : new ResizeLayer(bx, by)); r.input(q);
  run(c, "resize", r, [&] { Model o = model(Shape{q.s, q.w + bx, q.h + by, q.m}); EACH(q) o.t[at(o.out, s, x + (bx + 1) / 2, y + (by + 1) / 2, m)].push_back({0, at(q, s, x, y, m)}); return o; }, true, 2); }
static void upscale(mc::Ctx& c) { Shape q = draw(c, 3); unsigned rx = c.range(1, 4, "rx"), ry = c.range(1, 4, "ry"); c.shard(); sys_init(); Rig r(new UpscaleLayer(rx, ry)); r.input(q);
  run(c, "upscale", r, [&] { Model o = model(Shape{q.s, q.w * rx, q.h * ry, q.m}); EACH(o.out) o.t[at(o.out, s, x, y, m)].push_back({0, at(q, s, x / rx, y / ry, m)}); return o; }, true, 2); }
static void downsample(mc::Ctx& c) { Shape q = draw(c, 6); unsigned rx = c.range(1, 4, "rx"), ry = c.range(1, 4, "ry"); c.require(q.w % rx == 0 && q.h % ry == 0); c.shard(); sys_init(); Rig r(new InputDownSamplingLayer(rx, ry)); r.input(q);
  run(c, "downsample", r, [&] { Model o = model(Shape{q.s, q.w / rx, q.h / ry, q.m}); o.factor = 1.0 / (rx * ry); EACH(q) o.t[at(o.out, s, x / rx, y / ry, m)].push_back({0, at(q, s, x, y, m)}); return o; }, false, 2);
  bool thrown = false; c.site("downsample backward"); try { r.L->BackPropagate(); } catch (std::runtime_error&) { thrown = true; } CK(thrown, "downsample:backward", "a backward pass is not supported but accepted"); r.L->SetBackpropagationEnabled(false); r.L->BackPropagate(); }
static void concat(mc::Ctx& c) { Shape q = draw(c, 4), p = q; p.m = c.range(1, 3, "mb"); c.shard(); sys_init(); Rig r(new ConcatenationLayer()); r.input(q); r.input(p);
  run(c, "concat", r, [&] { Model o = model(Shape{q.s, q.w, q.h, q.m + p.m}); EACH(q) o.t[at(o.out, s, x, y, m)].push_back({0, at(q, s, x, y, m)}); EACH(p) o.t[at(o.out, s, x, y, m + q.m)].push_back({1, at(p, s, x, y, m)}); return o; }, true, 2); }
static void sum(mc::Ctx& c) { Shape q = draw(c, 5); c.shard(); sys_init(); Rig r(new SumLayer()); r.input(q); r.input(q);
  run(c, "sum", r, [&] { Model o = model(q); for (size_t e = 0; e < q.n(); e++) { o.t[e].push_back({0, e}); o.t[e].push_back({1, e}); } return o; }, true, 2); }
static void prior(mc::Ctx& c) { Shape q = draw(c, 5); c.shard(); sys_init(); Rig r(new SpatialPriorLayer()); r.input(q);
  run(c, "spatialprior", r, [&] { Model o = model(Shape{q.s, q.w, q.h, q.m + 2}); EACH(q) o.t[at(o.out, s, x, y, m + 2)].push_back({0, at(q, s, x, y, m)}); for (size_t s = 0; s < q.s; s++) for (size_t y = 0; y < q.h; y++) for (size_t x = 0; x < q.w; x++) { o.konst[at(o.out, s, x, y, 0)] = (double)x / q.w; o.konst[at(o.out, s, x, y, 1)] = (double)y / q.h; } return o; }, true, 2); }
// gradient accumulation: outputs show the input's data, gradients add up
static void gradacc(mc::Ctx& c) { Shape q = draw(c, 4); unsigned n = c.range(1, 4, "outputs"); bool text = c.flip("text"); c.shard(); sys_init(); Rig r(text ? new GradientAccumulationLayer("outputs=" + std::to_string(n)) : new GradientAccumulationLayer(n)); r.input(q); c.site("gradacc connect"); CK(r.up(), "gradacc:connect", "refused"); CK(r.out.size() == n, "gradacc:outputs", "number of outputs");
  for (int p = 0; p < 3; p++) { fill_int(r.in[0]->data, p, 9); A4 in(r.in[0]->data), g(q); c.site("gradacc forward"); r.L->FeedForward(); c.trans(); for (unsigned i = 0; i < n; i++) { expect(c, r.out[i]->data, in, "gradacc:forward", "output " + std::to_string(i) + " of " + std::to_string(n)); fill_int(r.out[i]->delta, p * 7 + i + 1, 9); for (size_t e = 0; e < q.n(); e++) g.v[e] += r.out[i]->delta[e]; }
    std::vector<A4> ds; for (auto* o : r.out) ds.push_back(A4(o->delta)); fill(r.in[0]->delta, 88.f); c.site("gradacc backward"); r.L->BackPropagate(); c.trans(); expect(c, r.in[0]->delta, g, "gradacc:gradient", "gradient with " + std::to_string(n) + " outputs"); for (unsigned i = 0; i < n; i++) expect(c, r.out[i]->delta, ds[i], "gradacc:delta-modified", "delta"); expect(c, r.in[0]->data, in, "gradacc:input-modified", "input"); c.state(hash(r.in[0]->delta)); }
  if (n > 1) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample("gradacc " + q.str() + " outputs " + std::to_string(n)); }
// one or two dimensions or parameters grow
static void large(mc::Ctx& c) { unsigned k = c.choose(6, "layer"), w = 3, h = 2, m = 2, n = 2, a = 2, b = 3, t = 0; switch (k) { case 0: case 1: case 2: grow(c, {&w, &h, &m, &n, &a, &b}, true, {&w, &h, &m}); break; case 3: grow(c, {&w, &h, &m, &n, &a}, true, {&w, &h, &m}); break; default: grow(c, {&w, &h, &m, &n}, true, {&w, &h, &m}); } (void)t; if (k == 2) { w *= a; h *= b; } c.require((double)w * h * m * n * (k == 1 ? a * b : 1) < 60000 || (w * h * m > 65536 && (double)w * h * m * n * a * b < 5e6)); c.shard(); sys_init(); Shape q{n, w, h, m};
  switch (k) { case 0: { Rig r(n & 1 ? new ResizeLayer("border=" + std::to_string(a) + "x" + std::to_string(b)) : new ResizeLayer(a, b)); r.input(q); run(c, "resize", r, [&] { Model o = model(Shape{q.s, q.w + a, q.h + b, q.m}); EACH(q) o.t[at(o.out, s, x + (a + 1) / 2, y + (b + 1) / 2, m)].push_back({0, at(q, s, x, y, m)}); return o; }, true, 1); break; }
  case 1: { Rig r(new UpscaleLayer(a, b)); r.input(q); run(c, "upscale", r, [&] { Model o = model(Shape{q.s, q.w * a, q.h * b, q.m}); EACH(o.out) o.t[at(o.out, s, x, y, m)].push_back({0, at(q, s, x / a, y / b, m)}); return o; }, true, 1); break; }
  case 2: { Rig r(new InputDownSamplingLayer(a, b)); r.input(q); run(c, "downsample", r, [&] { Model o = model(Shape{q.s, q.w / a, q.h / b, q.m}); o.factor = 1.0 / (a * b); EACH(q) o.t[at(o.out, s, x / a, y / b, m)].push_back({0, at(q, s, x, y, m)}); return o; }, false, 1); break; }
  case 3: { Shape p = q; p.m = a; Rig r(new ConcatenationLayer()); r.input(q); r.input(p); run(c, "concat", r, [&] { Model o = model(Shape{q.s, q.w, q.h, q.m + p.m}); EACH(q) o.t[at(o.out, s, x, y, m)].push_back({0, at(q, s, x, y, m)}); EACH(p) o.t[at(o.out, s, x, y, m + q.m)].push_back({1, at(p, s, x, y, m)}); return o; }, true, 1); break; }
  case 4: { Rig r(new SumLayer()); r.input(q); r.input(q); run(c, "sum", r, [&] { Model o = model(q); for (size_t e = 0; e < q.n(); e++) { o.t[e].push_back({0, e}); o.t[e].push_back({1, e}); } return o; }, true, 1); break; }
  case 5: { Rig r(new SpatialPriorLayer()); r.input(q); run(c, "spatialprior", r, [&] { Model o = model(Shape{q.s, q.w, q.h, q.m + 2}); EACH(q) o.t[at(o.out, s, x, y, m + 2)].push_back({0, at(q, s, x, y, m)}); for (size_t s = 0; s < q.s; s++) for (size_t y = 0; y < q.h; y++) for (size_t x = 0; x < q.w; x++) { o.konst[at(o.out, s, x, y, 0)] = (double)x / q.w; o.konst[at(o.out, s, x, y, 1)] = (double)y / q.h; } return o; }, true, 1); break; } } }
static void manyouts(mc::Ctx& c) { unsigned w = 2, h = 1, m = 2, ns = 2, n = 3; grow(c, {&n, &w, &h, &m, &ns}, true, {&w, &h, &m}); Shape q{ns, w, h, m}; c.shard(); sys_init(); Rig r(n & 1 ? new GradientAccumulationLayer("outputs=" + std::to_string(n)) : new GradientAccumulationLayer(n)); r.input(q); c.site("gradacc connect"); CK(r.up() && r.out.size() == n, "gradacc:outputs", std::to_string(n) + " outputs"); fill_int(r.in[0]->data, 1, 9); A4 in(r.in[0]->data), g(q); r.L->FeedForward(); for (unsigned i = 0; i < n; i++) { expect(c, r.out[i]->data, in, "gradacc:forward", "output " + std::to_string(i) + " of " + std::to_string(n) + q.str()); fill_int(r.out[i]->delta, i, 9); for (size_t e = 0; e < q.n(); e++) g.v[e] += r.out[i]->delta[e]; } fill(r.in[0]->delta, 88.f); r.L->BackPropagate(); c.trans(2); expect(c, r.in[0]->delta, g, "gradacc:gradient", std::to_string(n) + " outputs " + q.str()); c.state(hash(r.in[0]->delta)); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample("gradacc " + q.str() + " outputs " + std::to_string(n)); }
MC_MAIN({"large", large}, {"manyouts", manyouts}, {"resize", resize}, {"upscale", upscale}, {"downsample", downsample}, {"concat", concat}, {"sum", sum}, {"prior", prior}, {"gradacc", gradacc})
