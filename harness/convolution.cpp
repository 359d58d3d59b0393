// C10: convolution forward/backward against the mathematical definition, all geometries up to a bound
#include "util.h"
struct G { unsigned w, h, kw, kh, sx, sy, px, py, grp, im, om, n; long ow() const { long a = (long)w + 2 * px - kw; return a < 0 ? 0 : a / (long)sx + 1; } long oh() const { long a = (long)h + 2 * py - kh; return a < 0 ? 0 : a / (long)sy + 1; }
  std::string str() const { std::ostringstream o; o << "input " << w << "x" << h << " kernel " << kw << "x" << kh << " stride " << sx << "x" << sy << " pad " << px << "x" << py << " group " << grp << " maps " << im << "->" << om << " samples " << n; return o.str(); } };
static A4 fwd(const G& g, const A4& in, const A4& W, const A4& b, double scale) {
  A4 o(g.n, g.ow(), g.oh(), g.om); unsigned ig = g.im / g.grp, og = g.om / g.grp;
  for (unsigned s = 0; s < g.n; s++) for (unsigned m = 0; m < g.om; m++) for (long y = 0; y < g.oh(); y++) for (long x = 0; x < g.ow(); x++) {
    double a = b.v[m]; for (unsigned c = 0; c < ig; c++) for (unsigned ky = 0; ky < g.kh; ky++) for (unsigned kx = 0; kx < g.kw; kx++)
      a += W(m, kx, ky, c) * in.get0(s, x * g.sx + kx - (long)g.px, y * g.sy + ky - (long)g.py, (m / og) * ig + c);
    o(s, x, y, m) = a * scale; }
  return o;
}
static void bwd(const G& g, const A4& in, const A4& W, const A4& d, A4& din, A4& dW, A4& db) {
  din = A4(in.sh); dW = A4(W.sh); db = A4(1, g.om, 1, 1); unsigned ig = g.im / g.grp, og = g.om / g.grp;
  for (unsigned s = 0; s < g.n; s++) for (unsigned m = 0; m < g.om; m++) for (long y = 0; y < g.oh(); y++) for (long x = 0; x < g.ow(); x++) {
    double e = d(s, x, y, m); db.v[m] += e;
    for (unsigned c = 0; c < ig; c++) for (unsigned ky = 0; ky < g.kh; ky++) for (unsigned kx = 0; kx < g.kw; kx++) {
      long ix = x * g.sx + kx - (long)g.px, iy = y * g.sy + ky - (long)g.py; unsigned im = (m / og) * ig + c; if (ix < 0 || iy < 0 || ix >= (long)g.w || iy >= (long)g.h) continue;
      dW(m, kx, ky, c) += e * in(s, ix, iy, im); din(s, ix, iy, im) += e * W(m, kx, ky, c); } }
}
struct Conv_ { G g; double drop; std::unique_ptr<Rig> r; A4 W, B; bool fresh = false; A4 last_in;
  Conv_(mc::Ctx& c, const G& g_, double drop_, bool text) : g(g_), drop(drop_) {
    sys_init(); Layer* l;
    if (text) { std::ostringstream o; o << "(size=" << g.kw << "x" << g.kh << " kernels=" << g.om << " stride=" << g.sx << "x" << g.sy << " pad=" << g.px << "x" << g.py << " group=" << g.grp; if (drop > 0) o << " dropout=" << drop; o << " seed=7)"; l = new ConvolutionLayer(o.str()); }
    else l = new ConvolutionLayer(g.kw, g.kh, g.om, g.sx, g.sy, g.px, g.py, g.grp, 7, drop);
    r.reset(new Rig(l)); r->input(g.n, g.w, g.h, g.im);
    c.site("conv connect"); bool ok = r->up();
    CK(ok, "conv:connect", "refused " + g.str());
    CK(shape(r->out[0]->data) == (Shape{g.n, (size_t)g.ow(), (size_t)g.oh(), g.om}), "conv:shape", "output shape " + shape(r->out[0]->data).str() + " for " + g.str());
    l->OnLayerConnect({});
    CK(l->parameters().size() == 2 && shape(P(0).data) == (Shape{g.om, g.kw, g.kh, g.im / g.grp}) && P(1).data.elements() == g.om, "conv:params", "parameter shapes for " + g.str());
  }
  CombinedTensor& P(int i) { return *r->L->parameters()[i]; }
  void weights(unsigned salt) { fill_int(P(0).data, salt * 5 + 1); fill_int(P(1).data, salt * 5 + 2); }
  void forward(mc::Ctx& c, unsigned salt, bool testing) {
    r->st.SetIsTesting(testing); fill_int(r->in[0]->data, salt * 5 + 3); fill(r->out[0]->data, 777.f); go_forward(c, testing); }
  void go_forward(mc::Ctx& c, bool testing) { r->st.SetIsTesting(testing);
    A4 in(r->in[0]->data), w(P(0).data), b(P(1).data); c.site("conv forward"); r->L->FeedForward(); c.trans();
    expect(c, r->out[0]->data, fwd(g, in, w, b, testing ? 1.0 - drop : 1.0), "conv:forward", "forward " + g.str());
    expect(c, r->in[0]->data, in, "conv:input-modified", g.str()); expect(c, P(0).data, w, "conv:weights-modified", g.str()); last_in = in; }
  void backward(mc::Ctx& c, unsigned salt, bool bp) {
    r->L->SetBackpropagationEnabled(bp); fill_int(r->out[0]->delta, salt * 5 + 4); fill(r->in[0]->delta, 555.f); fill(P(0).delta, 333.f); fill(P(1).delta, 222.f);
    A4 d(r->out[0]->delta), w(P(0).data); c.site("conv backward"); r->L->BackPropagate(); c.trans(); A4 di, dw, db; bwd(g, last_in, w, d, di, dw, db);
    if (bp) expect(c, r->in[0]->delta, di, "conv:input-gradient", "input gradient " + g.str());
    expect(c, P(0).delta, dw, "conv:weight-gradient", "weight gradient " + g.str());
    A4 dbt(shape(P(1).delta)); dbt.v = db.v; expect(c, P(1).delta, dbt, "conv:bias-gradient", "bias gradient " + g.str());
    expect(c, r->out[0]->delta, d, "conv:delta-modified", g.str()); }
};
static const unsigned GR[][3] = {{1, 1, 1}, {1, 1, 2}, {1, 2, 1}, {1, 2, 3}, {2, 2, 2}, {2, 2, 4}, {2, 4, 2}, {3, 3, 3}};
static G draw(mc::Ctx& c, unsigned maxd, unsigned maxk, unsigned maxp, unsigned maxs, unsigned ngr) {
  G g; g.w = c.range(1, maxd, "w"); g.h = c.range(1, maxd, "h"); g.kw = c.range(1, maxk, "kw"); g.kh = c.range(1, maxk, "kh"); g.px = c.range(0, maxp, "px"); g.py = c.range(0, maxp, "py");
  g.sx = c.range(1, maxs, "sx"); g.sy = c.range(1, maxs, "sy"); unsigned i = c.choose(ngr, "group"); g.grp = GR[i][0]; g.im = GR[i][1]; g.om = GR[i][2]; g.n = c.range(1, 2, "samples"); c.require(g.ow() > 0 && g.oh() > 0); return g; }
// every geometry: forward, backward, again with other data, then in testing mode
static void geometry(mc::Ctx& c) {
  G g = c.thorough() ? draw(c, 5, 4, 2, 3, 8) : draw(c, 4, 3, 2, 2, 8); c.shard(); bool text = (g.w + g.h + g.kw) & 1;
  Conv_ v(c, g, 0, text); v.weights(1);
  v.forward(c, 1, false); v.backward(c, 1, true); v.weights(2); v.forward(c, 2, false); v.forward(c, 3, true); v.backward(c, 3, true); v.backward(c, 4, false);
  if (g.ow() > 1 && g.oh() > 1 && (g.px || g.py || g.kw != g.kh)) c.nontrivial();
  c.state(hash(v.r->out[0]->data)); c.validated();
  if (c.want_sample()) c.sample(g.str() + " output " + show(v.r->out[0]->data));
}
// one weight, bias, input or output-gradient element is 1, everything else 0
static void impulse(mc::Ctx& c) {
  G g = draw(c, 3, 2, 1, 2, 5); c.require(g.n == 1 || g.grp == 1); c.shard(); Conv_ v(c, g, 0, false); CombinedTensor &w = v.P(0), &b = v.P(1);
  for (size_t e = 0; e < w.data.elements() + b.data.elements(); e++) { fill(w.data, 0); fill(b.data, 0); if (e < w.data.elements()) w.data[e] = 1; else b.data[e - w.data.elements()] = 1;
    v.forward(c, 1 + e, false); v.backward(c, e, true); }
  v.weights(3); v.forward(c, 3, false);
  Tensor& od = v.r->out[0]->delta; for (size_t e = 0; e < od.elements(); e++) { fill(od, 0); od[e] = 1; A4 d(od), W(w.data), di, dw, db; c.site("conv backward"); v.r->L->BackPropagate(); c.trans(); bwd(g, v.last_in, W, d, di, dw, db);
    expect(c, v.r->in[0]->delta, di, "conv:input-gradient", "input gradient (unit) " + g.str()); expect(c, w.delta, dw, "conv:weight-gradient", "weight gradient (unit) " + g.str()); }
  c.nontrivial(); c.validated();
}
// all sequences of training forward / testing forward / backward / backward without input gradient, with and without dropout
static void history(mc::Ctx& c) {
  static const G gs[] = {{3, 2, 2, 1, 1, 1, 1, 0, 1, 1, 2, 2}, {4, 3, 2, 2, 2, 1, 0, 1, 2, 2, 2, 1}, {2, 2, 2, 2, 1, 1, 0, 0, 1, 2, 1, 1}, {3, 3, 1, 1, 2, 2, 0, 0, 1, 1, 1, 2}};
  G g = gs[c.choose(4, "geometry")]; double drop = c.pick(std::vector<double>{0, 0.5, 0.25, 0.75}, "dropout"); bool text = c.flip("text"); unsigned len = c.range(1, c.thorough() ? 6 : 5, "length"); c.shard();
  Conv_ v(c, g, drop, text); v.weights(1); bool have = false; std::string h; uint64_t st = 0;
  for (unsigned i = 0; i < len; i++) { unsigned op = c.choose(have ? 4 : 2, "op"); h += "FTBb"[op];
    if (op == 0) { if (drop > 0) { bool thrown = false; v.r->st.SetIsTesting(false); c.site("conv dropout training"); try { v.r->L->FeedForward(); } catch (std::runtime_error&) { thrown = true; } CK(thrown, "conv:dropout-training", "training pass with dropout neither drops nor refuses: " + g.str()); have = false; }
      else { v.forward(c, i + 1, false); have = true; } }
    else if (op == 1) { v.forward(c, i + 1, true); have = true; } else v.backward(c, i + 9, op == 2);
    st = mc::mix(mc::mix(st, op), hash(v.r->out[0]->data)); c.state(st); }
  if (len > 2) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample("history " + h + " dropout " + fmt(drop) + " " + g.str());
}
// one or two dimensions grow
static void large(mc::Ctx& c) {
  static const G base[] = {{4, 3, 2, 2, 1, 1, 0, 0, 1, 2, 2, 1}, {3, 4, 3, 2, 1, 2, 1, 1, 1, 1, 3, 2}, {3, 3, 2, 1, 1, 1, 0, 1, 2, 2, 2, 2}}; G g = base[c.choose(3, "base")]; unsigned w = 0, h = 0, kw = 0, kh = 0, sx = 0, sy = 0, px = 0, py = 0, im = 0, om = 0, n = 0;
  grow(c, {&w, &h, &kw, &kh, &im, &om, &n, &sx, &sy, &px, &py}, true, {&w, &h}); c.require((px ? px : py) <= 64); c.require(!(w > 0 && h > 0 && n > 20)); bool text = c.flip("text");
  if (w) g.w = w; if (h) g.h = h; if (kw) { g.kw = kw; g.w = std::max(g.w, kw + 1); } if (kh) { g.kh = kh; g.h = std::max(g.h, kh + 1); } if (sx) { g.sx = sx; g.w = std::max(g.w, 2 * sx + g.kw); } if (sy) { g.sy = sy; g.h = std::max(g.h, 2 * sy + g.kh); } if (px) g.px = px; if (py) g.py = py; if (im) g.im = im * g.grp; if (om) g.om = om * g.grp; if (n) g.n = n; c.shard();
  Conv_ v(c, g, 0, text); v.weights(1); v.forward(c, 1, false); v.backward(c, 1, true); v.weights(2); v.forward(c, 2, true); v.backward(c, 2, true); c.nontrivial(); c.state(hash(v.r->out[0]->data)); c.validated(); if (c.want_sample()) c.sample(g.str()); }
// many groups
static void groups(mc::Ctx& c) { unsigned k = c.pick(sizes(c), "groups"), a = c.range(1, 2, "in"), b = c.range(1, 2, "out"); G g{3, 2, 2, 2, 1, 1, 0, 1, k, k * a, k * b, 2}; c.shard(); Conv_ v(c, g, 0, a == b); v.weights(1); v.forward(c, 1, false); v.backward(c, 1, true); c.nontrivial(); c.state(hash(v.r->out[0]->data)); c.validated(); if (c.want_sample()) c.sample(g.str()); }
MC_MAIN({"large", large}, {"groups", groups}, {"geometry", geometry}, {"impulse", impulse}, {"history", history})
