// C11: max pooling (both layers) against the definition; every output's gradient carries its own power of two, so the input gradient shows where each output went
#include "util.h"
struct P { bool adv; unsigned w, h, rw, rh, sx, sy, m, n; unsigned ow() const { return (w - rw) / sx + 1; } unsigned oh() const { return (h - rh) / sy + 1; }
  bool ok() const { return adv ? w >= rw && h >= rh : w % rw == 0 && h % rh == 0; }
  std::string str() const { std::ostringstream o; o << (adv ? "amaxpooling " : "maxpooling ") << "input " << w << "x" << h << " region " << rw << "x" << rh << " stride " << sx << "x" << sy << " maps " << m << " samples " << n; return o.str(); } };
static Layer* make(const P& p, unsigned how) { std::ostringstream o; o << p.rw << "x" << p.rh;
  if (how == 0) return p.adv ? (Layer*)new AdvancedMaxPoolingLayer(p.rw, p.rh, p.sx, p.sy) : (Layer*)new MaxPoolingLayer(p.rw, p.rh);
  if (!p.adv) return new MaxPoolingLayer("(size=" + o.str() + ")");
  std::ostringstream s; s << " stride=" << p.sx << "x" << p.sy; bool def = p.sx == p.rw && p.sy == p.rh; return new AdvancedMaxPoolingLayer("(size=" + o.str() + (def ? "" : s.str()) + ")"); }
static void pass(mc::Ctx& c, Rig& r, const P& p, bool bp) {
  A4 in(r.in[0]->data); std::string k = p.adv ? "amaxpool" : "maxpool"; c.site(k + " forward"); fill(r.out[0]->data, 99.f); r.L->FeedForward(); c.trans();
  A4 ref(p.n, p.ow(), p.oh(), p.m);
  for (unsigned s = 0; s < p.n; s++) for (unsigned m = 0; m < p.m; m++) for (unsigned y = 0; y < p.oh(); y++) for (unsigned x = 0; x < p.ow(); x++) { double b = in(s, x * p.sx, y * p.sy, m); for (unsigned j = 0; j < p.rh; j++) for (unsigned i = 0; i < p.rw; i++) b = std::max(b, in(s, x * p.sx + i, y * p.sy + j, m)); ref(s, x, y, m) = b; }
  expect(c, r.out[0]->data, ref, k + ":forward", p.str() + " input " + show(in.v, in.v.size())); expect(c, r.in[0]->data, in, k + ":input-modified", p.str());
  if (!bp) return;
  size_t per = p.ow() * p.oh(); Tensor& od = r.out[0]->delta; for (size_t e = 0; e < od.elements(); e++) od[e] = std::ldexp(1.f, (int)(e % per) - 10);
  fill(r.in[0]->delta, 444.f); A4 dsave(od); c.site(k + " backward"); r.L->BackPropagate(); c.trans(); expect(c, od, dsave, k + ":delta-modified", p.str());
  A4 g(r.in[0]->delta); std::string ctx = p.str() + " input " + show(in.v, in.v.size()) + " input gradient " + show(g.v, g.v.size());
  for (unsigned s = 0; s < p.n; s++) for (unsigned m = 0; m < p.m; m++) { std::vector<int> seen(per, 0);
    for (unsigned y = 0; y < p.h; y++) for (unsigned x = 0; x < p.w; x++) { double v = g(s, x, y, m) * 1024; CK(v >= 0 && v == std::floor(v) && v < std::ldexp(1.0, (int)per), k + ":gradient-value", "gradient is no sum of output gradients: " + ctx); uint64_t b = (uint64_t)v;
      for (size_t o = 0; o < per; o++) if (b >> o & 1) { unsigned ox = o % p.ow(), oy = o / p.ow(); bool inside = x >= ox * p.sx && x < ox * p.sx + p.rw && y >= oy * p.sy && y < oy * p.sy + p.rh;
        CK(inside, k + ":gradient-outside", "output " + std::to_string(o) + " routed outside its region: " + ctx); CK(in(s, x, y, m) == ref(s, ox, oy, m), k + ":gradient-not-max", "output " + std::to_string(o) + " routed to a non-maximum: " + ctx); seen[o]++; } }
    for (size_t o = 0; o < per; o++) CK(seen[o] == 1, k + ":gradient-count", "output " + std::to_string(o) + " of map " + std::to_string(m) + " sample " + std::to_string(s) + " routed to " + std::to_string(seen[o]) + " inputs: " + ctx); }
  c.state(hash(r.in[0]->delta)); }
static P draw(mc::Ctx& c, unsigned d, unsigned rmax, unsigned smax) { P p; p.adv = c.flip("adv"); p.w = c.range(1, d, "w"); p.h = c.range(1, d, "h"); p.rw = c.range(1, rmax, "rw"); p.rh = c.range(1, rmax, "rh"); if (p.adv) { p.sx = c.range(1, smax, "sx"); p.sy = c.range(1, smax, "sy"); } else { p.sx = p.rw; p.sy = p.rh; } c.require(p.ok()); return p; }
static void geometry(mc::Ctx& c) {
  P p = draw(c, c.thorough() ? 6 : 5, c.thorough() ? 5 : 4, c.thorough() ? 4 : 3); p.m = c.range(1, 3, "maps"); p.n = c.range(1, 2, "samples"); unsigned how = c.choose(2, "ctor"); c.shard(); sys_init();
  Rig r(make(p, how)); r.input(p.n, p.w, p.h, p.m); c.site("pool connect"); CK(r.up(), "pool:connect", "refused " + p.str()); CK(shape(r.out[0]->data) == (Shape{p.n, p.ow(), p.oh(), p.m}), "pool:shape", "output " + shape(r.out[0]->data).str() + " for " + p.str());
  Tensor& in = r.in[0]->data;
  fill_int(in, 1, 9); pass(c, r, p, true); fill_int(in, 2, 1); pass(c, r, p, true);                       // mixed signs; many ties
  for (size_t e = 0; e < in.elements(); e++) in[e] = -1.f - (float)((e * 7) % 5); pass(c, r, p, true); pass(c, r, p, true); // all negative; repeated
  fill_int(in, 3, 9); pass(c, r, p, false); for (size_t e = 0; e < in.elements(); e++) in[e] = (float)(in.elements() - e); pass(c, r, p, true);
  for (size_t e = 0; e < in.elements(); e++) in[e] = (float)e; pass(c, r, p, true); fill(in, -std::numeric_limits<float>::infinity()); pass(c, r, p, true); fill(in, 0.f); pass(c, r, p, true);
  if (p.rw * p.rh > 1 && p.ow() * p.oh() > 1) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(p.str()); }
// every assignment of values to a small input
static void values(mc::Ctx& c) {
  P p = draw(c, 4, 3, 2); p.m = 1; p.n = 1; c.require(p.w * p.h <= (c.thorough() ? 9 : 6)); c.require(p.rw * p.rh > 1 || p.w * p.h == 1);
  static const std::vector<float> big{-2.f, -1.f, 0.f, 3.f, -std::numeric_limits<float>::infinity()}, mid{-1.f, 0.f, 2.f}; unsigned n = p.w * p.h; const std::vector<float>& al = n <= 4 ? big : mid;
  std::vector<float> v(n); for (unsigned i = 0; i < n; i++) { v[i] = c.pick(al, "value"); if (i == 1 || n == 1) c.shard(); } sys_init();
  Rig r(make(p, 0)); r.input(1, p.w, p.h, 1); c.site("pool connect"); CK(r.up(), "pool:connect", "refused " + p.str());
  for (unsigned i = 0; i < n; i++) r.in[0]->data[i] = v[i]; pass(c, r, p, true); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(p.str() + " values " + show(v)); }
// one or two dimensions grow; all values differ, so that every output has one place its gradient goes to
static void large(mc::Ctx& c) {
  P p; p.adv = c.flip("adv"); unsigned b = c.choose(2, "base"); p.rw = b ? 3 : 2; p.rh = 2; p.sx = p.rw; p.sy = p.rh; if (p.adv && b) p.sx = p.sy = 1; unsigned w = 0, h = 0, rw = 0, rh = 0, sx = 0, sy = 0; p.m = 2; p.n = 2; unsigned m = 0, n = 0; if (p.adv) grow(c, {&w, &h, &rw, &rh, &m, &n, &sx, &sy}, true, {&w, &h, &m, &n}); else grow(c, {&w, &h, &rw, &rh, &m, &n}, true, {&w, &h, &m, &n}); unsigned how = c.choose(2, "ctor"); c.shard(); sys_init();
  if (rw) p.rw = rw; if (rh) p.rh = rh; if (!p.adv || (rw && !b)) p.sx = p.rw; if (!p.adv || (rh && !b)) p.sy = p.rh; if (sx) p.sx = sx; if (sy) p.sy = sy; if (m) p.m = m; if (n) p.n = n; p.w = p.adv ? std::max(w, p.rw + p.sx) : std::max(w ? w : 4, p.rw); p.h = p.adv ? std::max(h, p.rh + p.sy) : std::max(h ? h : 4, p.rh); if (!p.adv) { p.w += (p.rw - p.w % p.rw) % p.rw; p.h += (p.rh - p.h % p.rh) % p.rh; }
  Rig r(make(p, how)); r.input(p.n, p.w, p.h, p.m); c.site("pool connect"); CK(r.up(), "pool:connect", "refused " + p.str()); CK(shape(r.out[0]->data) == (Shape{p.n, p.ow(), p.oh(), p.m}), "pool:shape", "output " + shape(r.out[0]->data).str() + " for " + p.str()); std::string k = p.adv ? "amaxpool" : "maxpool"; size_t N = r.in[0]->data.elements(); uint64_t mul = 1; for (uint64_t q : {7919ull, 104729ull, 1299709ull}) if (N % q) { mul = q; break; }
  for (int ps = 0; ps < 3; ps++) { Tensor& in = r.in[0]->data; for (size_t e = 0; e < N; e++) in[e] = ps == 2 ? (float)e : (float)((e * mul + ps * 13) % N) - (ps ? 0.f : (float)N); A4 a(in); c.site(k + " forward"); fill(r.out[0]->data, 99.f); r.L->FeedForward(); fill_int(r.out[0]->delta, ps, 9); fill(r.in[0]->delta, 444.f); A4 d(r.out[0]->delta), ref(d.sh), g(a.sh); c.site(k + " backward"); r.L->BackPropagate(); c.trans(2);
    for (unsigned s = 0; s < p.n; s++) for (unsigned z = 0; z < p.m; z++) for (unsigned y = 0; y < p.oh(); y++) for (unsigned x = 0; x < p.ow(); x++) { unsigned bx = x * p.sx, by = y * p.sy; for (unsigned j = 0; j < p.rh; j++) for (unsigned i = 0; i < p.rw; i++) if (a(s, x * p.sx + i, y * p.sy + j, z) > a(s, bx, by, z)) { bx = x * p.sx + i; by = y * p.sy + j; } ref(s, x, y, z) = a(s, bx, by, z); g(s, bx, by, z) += d(s, x, y, z); }
    expect(c, r.out[0]->data, ref, k + ":forward", p.str()); expect(c, r.in[0]->data, a, k + ":input-modified", p.str()); expect(c, r.in[0]->delta, g, k + ":gradient", p.str()); expect(c, r.out[0]->delta, d, k + ":delta-modified", p.str()); c.state(hash(r.in[0]->delta)); }
  c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(p.str()); }
// maps with more pixels than a float can count
static void huge(mc::Ctx& c) {
  P p; p.adv = c.flip("adv"); bool tall = c.flip("tall"); p.rw = 2; p.rh = 2; p.sx = 2; p.sy = p.adv && c.flip("overlapping") ? 1 : 2; p.m = 1; p.n = 1; p.w = tall ? 8 : 2200000; p.h = tall ? 2200000 : 8; c.shard(); sys_init(); std::string k = p.adv ? "amaxpool" : "maxpool"; Rig r(make(p, 0)); r.input(1, p.w, p.h, 1); c.site("pool connect"); CK(r.up(), "pool:connect", "refused " + p.str()); size_t N = (size_t)p.w * p.h, ow = p.ow(), oh = p.oh(); datum *in = r.in[0]->data.data_ptr(), *out = r.out[0]->data.data_ptr(), *id = r.in[0]->delta.data_ptr(), *od = r.out[0]->delta.data_ptr(); for (size_t e = 0; e < N; e++) in[e] = (float)(mc::mix(e, 5) % 4096); for (size_t e = 0; e < ow * oh; e++) od[e] = 1 + e % 5; std::vector<float> g(N, 0.f);
  c.site(k + " forward"); r.L->FeedForward(); c.site(k + " backward"); r.L->BackPropagate(); c.trans(2); auto xy = [&](size_t e, unsigned W) { return std::to_string(e % W) + "," + std::to_string(e / W) + " of " + p.str(); };
  for (size_t y = 0; y < oh; y++) for (size_t x = 0; x < ow; x++) { size_t b = y * p.sy * p.w + x * p.sx; float v = in[b]; bool tie = false; for (unsigned q = 1; q < 4; q++) { size_t e = (y * p.sy + q / 2) * p.w + x * p.sx + q % 2; if (in[e] > v) { v = in[e]; b = e; tie = false; } else if (in[e] == v) tie = true; } CK(out[y * ow + x] == v, k + ":forward", "output " + xy(y * ow + x, ow) + " is " + fmt(out[y * ow + x]) + " not " + fmt(v)); float d = od[y * ow + x]; if (tie) g[b] = NAN; else g[b] += d; if (tie) for (unsigned q = 0; q < 4; q++) g[(y * p.sy + q / 2) * p.w + x * p.sx + q % 2] = NAN; }
  for (size_t e = 0; e < N; e++) CK(id[e] == g[e] || std::isnan(g[e]), k + ":gradient", "gradient of input " + xy(e, p.w) + " is " + fmt(id[e]) + " not " + fmt(g[e])); c.nontrivial(); c.validated(); c.state(mc::hash_bytes(id, N * 4)); if (c.want_sample()) c.sample(p.str()); }
MC_MAIN({"huge", huge}, {"large", large}, {"geometry", geometry}, {"values", values})
