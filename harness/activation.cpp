// C12: sigmoid, tanh, relu, h-max, softmax, local response normalisation and their derivatives
#include "util.h"
static const char* NAMES[] = {"sigm", "tanh", "relu", "hmax"};
static Layer* make(unsigned kind, bool text) {
  switch (kind) { case 0: return text ? new SigmoidLayer("") : new SigmoidLayer(); case 1: return text ? new TanhLayer("") : new TanhLayer(); case 2: return text ? new ReLULayer("") : new ReLULayer();
    default: return text ? new HMaxActivationFunction("mu=0.5 weight=0.0") : new HMaxActivationFunction(0.5f, 0.f); } }
static double f(unsigned k, double x, double a, double b) { switch (k) { case 0: return 1 / (1 + std::exp(-x)); case 1: return std::tanh(x); case 2: return x > 0 ? x : 0; default: return 1 / (1 + std::exp(-(a * x + b))); } }
static double df(unsigned k, double x, double a, double b) { double y = f(k, x, a, b); switch (k) { case 0: return y * (1 - y); case 1: return 1 - y * y; case 2: return x > 0 ? 1 : 0; default: return a * y * (1 - y); } }
static void pass(mc::Ctx& c, Rig& r, unsigned k, const std::string& ctx, bool bp) {
  double a = 1, b = 0; if (k == 3) { a = r.L->parameters()[0]->data[0]; b = r.L->parameters()[0]->data[1]; }
  std::string key = NAMES[k]; A4 in(r.in[0]->data), ref(in.sh); for (size_t i = 0; i < in.v.size(); i++) ref.v[i] = f(k, in.v[i], a, b);
  fill(r.out[0]->data, 99.f); c.site(key + " forward"); r.L->FeedForward(); c.trans(); std::string x = ctx + " input " + show(in.v, in.v.size()); expect(c, r.out[0]->data, ref, key + ":forward", x, 1e-5); expect(c, r.in[0]->data, in, key + ":input-modified", x);
  c.state(hash(r.out[0]->data)); if (!bp) return;
  A4 d(r.out[0]->delta), g(in.sh); double da = 0, db = 0, sa = 0, sb = 0; for (size_t i = 0; i < in.v.size(); i++) { g.v[i] = d.v[i] * df(k, in.v[i], a, b); double y = ref.v[i], q = d.v[i] * y * (1 - y); da += q * in.v[i]; db += q; sa += std::fabs(q * in.v[i]); sb += std::fabs(q); }
  fill(r.in[0]->delta, 77.f); if (k == 3) fill(r.L->parameters()[0]->delta, 66.f); c.site(key + " backward"); r.L->BackPropagate(); c.trans(); expect(c, r.in[0]->delta, g, key + ":gradient", x + " delta " + show(d.v, d.v.size()), 1e-5); expect(c, r.out[0]->delta, d, key + ":delta-modified", x);
  if (k == 3) { A4 w(1, 2, 1, 1); w.v = {da, db}; Tensor& wd = r.L->parameters()[0]->delta; CK(std::fabs(wd[0] - da) <= 1e-4 * (1 + sa) && std::fabs(wd[1] - db) <= 1e-4 * (1 + sb), "hmax:weight-gradient", x + " weight gradient " + show(wd) + " expected " + show(w.v, 2)); } }
static const std::vector<float> VAL{0.f, 1.f, -1.f, 0.25f, -0.25f, 3.f, -3.f, -0.f, 1e-4f, -1e-4f, 12.f, -12.f, 90.f, -90.f};
static void elementwise(mc::Ctx& c) {
  unsigned k = c.choose(4, "layer"); bool text = c.flip("text"); unsigned w = c.range(1, c.thorough() ? 7 : 5, "w"), h = c.range(1, c.thorough() ? 7 : 5, "h"), m = c.range(1, 3, "m"), n = c.range(1, 3, "n"); c.shard(); sys_init();
  Rig r(make(k, text)); r.input(n, w, h, m); c.site("activation connect"); CK(r.up(), "activation:connect", NAMES[k]); CK(shape(r.out[0]->data) == (Shape{n, w, h, m}), "activation:shape", NAMES[k]);
  if (k == 3) { CK(r.L->parameters().size() == 1, "hmax:params", "parameters"); r.L->parameters()[0]->data[0] = 1.5f; r.L->parameters()[0]->data[1] = -0.25f; }
  std::string ctx = std::string(NAMES[k]) + " " + Shape{n, w, h, m}.str(); Tensor& in = r.in[0]->data; Tensor& d = r.out[0]->delta;
  for (int p = 0; p < 3; p++) { for (size_t e = 0; e < in.elements(); e++) { in[e] = (float)smallint(e, p, 12) / 4; d[e] = (float)smallint(e, p + 50, 5) / 2; } pass(c, r, k, ctx, p != 1); if (k == 3) { r.L->parameters()[0]->data[0] = -0.5f; r.L->parameters()[0]->data[1] = 0.75f; } }
  if (in.elements() > 1) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(ctx + " -> " + show(r.out[0]->data)); }
static void values(mc::Ctx& c) { // every pair of values in two elements, with every gradient sign
  unsigned k = c.choose(4, "layer"); float a = c.pick(VAL, "x0"), b = c.pick(VAL, "x1"); c.shard(); sys_init(); Rig r(make(k, false)); r.input(1, 2, 1, 1); r.up(); float ds[] = {1, -2, 0.5f, 0};
  for (unsigned wa = 0; wa < (k == 3 ? 4 : 1); wa++) { if (k == 3) { float as[] = {1, -1.5f, 0.25f, 2}; r.L->parameters()[0]->data[0] = as[wa]; r.L->parameters()[0]->data[1] = (float)wa / 2 - 1; }
    for (float d0 : ds) for (float d1 : ds) { r.in[0]->data[0] = a; r.in[0]->data[1] = b; r.out[0]->delta[0] = d0; r.out[0]->delta[1] = d1; pass(c, r, k, NAMES[k], true); } }
  c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(std::string(NAMES[k]) + " values " + fmt(a) + " " + fmt(b) + " -> " + show(r.out[0]->data)); }
// one or two dimensions grow
static void large(mc::Ctx& c) { unsigned k = c.choose(6, "layer"), w = 2, h = k == 4 ? 1 : 3, m = k == 4 ? 1 : 2, n = 2; if (k == 4) grow(c, {&w, &n}, true, {&w, &n}); else grow(c, {&w, &h, &m, &n}, true, {&w, &n}); c.shard(); sys_init(); Shape q{n, w, h, m}; typedef LocalResponseNormalizationLayer N;
  if (k < 4) { Rig r(make(k, w & 1)); r.input(q); CK(r.up() && shape(r.out[0]->data) == q, "activation:shape", NAMES[k]); if (k == 3) { r.L->parameters()[0]->data[0] = 1.5f; r.L->parameters()[0]->data[1] = -0.25f; } for (size_t e = 0; e < q.n(); e++) { r.in[0]->data[e] = (float)smallint(e, 1, 12) / 4; r.out[0]->delta[e] = (float)smallint(e, 51, 5) / 2; } pass(c, r, k, std::string(NAMES[k]) + " " + q.str(), true); }
  else if (k == 4) { Rig r(new SoftmaxLayer()); r.input(q); CK(r.up(), "softmax:connect", "refused"); fill_int(r.in[0]->data, 1); A4 in(r.in[0]->data), ref(q); for (unsigned s = 0; s < n; s++) { double z = 0; for (unsigned i = 0; i < w; i++) z += std::exp(in(s, i, 0, 0)); for (unsigned i = 0; i < w; i++) ref(s, i, 0, 0) = std::exp(in(s, i, 0, 0)) / z; } c.site("softmax forward"); r.L->FeedForward(); fill_int(r.out[0]->delta, 2); A4 d(r.out[0]->delta); r.L->BackPropagate(); c.trans(2); expect(c, r.out[0]->data, ref, "softmax:forward", "softmax of " + q.str(), 1e-5); expect(c, r.in[0]->delta, d, "softmax:gradient", "softmax gradient"); }
  else for (int across = 0; across < 2; across++) for (int size : {3, 4}) { Rig r(new N(size, 0.5, 0.75, across ? N::ACROSS_CHANNELS : N::WITHIN_CHANNELS)); r.input(q); CK(r.up(), "lrn:connect", "refused"); for (size_t e = 0; e < q.n(); e++) { r.in[0]->data[e] = (float)smallint(e, 1, 6) / 4; r.out[0]->delta[e] = (float)smallint(e, 9, 4) / 2; } c.site("lrn large"); r.L->FeedForward(); r.L->BackPropagate(); c.trans(2); A4 in(r.in[0]->data), d(r.out[0]->delta), ref(q), g(q); int lo = (size - 1) / 2, hi = size / 2;
    for (unsigned s = 0; s < n; s++) for (int z = 0; z < (int)m; z++) for (int y = 0; y < (int)h; y++) for (int x = 0; x < (int)w; x++) { double ss = 0; unsigned cnt = 0; std::vector<size_t> nb; for (int b = across ? z - lo : y - lo; b <= (across ? z + hi : y + hi); b++) for (int a = across ? 0 : x - lo; a <= (across ? 0 : x + hi); a++) { if (across ? b < 0 || b >= (int)m : a < 0 || b < 0 || a >= (int)w || b >= (int)h) continue; nb.push_back(across ? in.idx(s, x, y, b) : in.idx(s, a, b, z)); } for (size_t e : nb) { ss += in.v[e] * in.v[e]; cnt++; }
      double base = 1 + 0.5 / cnt * ss, v = in(s, x, y, z), e = d(s, x, y, z); ref(s, x, y, z) = v * std::pow(base, -0.75); g(s, x, y, z) += e * std::pow(base, -0.75); for (size_t o : nb) g.v[o] -= e * v * 0.75 * std::pow(base, -1.75) * 0.5 / cnt * 2 * in.v[o]; }
    std::string x = std::string("lrn ") + (across ? "across " : "within ") + std::to_string(size) + q.str(); expect(c, r.out[0]->data, ref, "lrn:forward", x, 1e-5); expect(c, r.in[0]->delta, g, "lrn:gradient", x, 2e-5); c.state(hash(r.in[0]->delta)); }
  c.nontrivial(); c.validated(); if (c.want_sample()) c.sample("layer " + std::to_string(k) + q.str()); }
static void softmax(mc::Ctx& c) {
  unsigned w = c.range(1, 5, "w"), n = c.range(1, 3, "n"); std::vector<float> al{0.f, 1.f, -2.f, 0.5f, 6.f}; std::vector<float> v(w); for (auto& x : v) x = c.pick(al, "x"); c.shard(); sys_init();
  Rig r(n > 1 ? (Layer*)new SoftmaxLayer("") : new SoftmaxLayer()); r.input(n, w, 1, 1); CK(r.up(), "softmax:connect", "refused");
  for (int p = 0; p < 2; p++) { for (unsigned s = 0; s < n; s++) for (unsigned i = 0; i < w; i++) r.in[0]->data[s * w + i] = v[(i + s * (p + 1)) % w] + (float)s; A4 in(r.in[0]->data), ref(in.sh);
    for (unsigned s = 0; s < n; s++) { double z = 0; for (unsigned i = 0; i < w; i++) z += std::exp(in(s, i, 0, 0)); for (unsigned i = 0; i < w; i++) ref(s, i, 0, 0) = std::exp(in(s, i, 0, 0)) / z; }
    fill(r.out[0]->data, 9.f); c.site("softmax forward"); r.L->FeedForward(); c.trans(); expect(c, r.out[0]->data, ref, "softmax:forward", "softmax of " + in.str(), 1e-5);
    fill_int(r.out[0]->delta, p); A4 d(r.out[0]->delta); r.L->BackPropagate(); c.trans(); expect(c, r.in[0]->delta, d, "softmax:gradient", "softmax gradient"); c.state(hash(r.out[0]->data)); }
  if (w > 1) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample("softmax " + show(v) + " -> " + show(r.out[0]->data)); }
static void lrn(mc::Ctx& c) {
  bool across = c.flip("across"); unsigned size = c.range(1, c.thorough() ? 7 : 5, "size"), w = c.range(1, 4, "w"), h = c.range(1, 4, "h"), m = c.range(1, 4, "m"), n = c.range(1, 2, "n"); unsigned ab = c.choose(3, "alpha,beta"); c.shard(); sys_init();
  double alpha = (double[]){1, 0.5, 2}[ab], beta = (double[]){0.75, 1, 0.5}[ab]; typedef LocalResponseNormalizationLayer N;
  Rig r(new N(size, alpha, beta, across ? N::ACROSS_CHANNELS : N::WITHIN_CHANNELS)); r.input(n, w, h, m); c.site("lrn connect"); CK(r.up(), "lrn:connect", "refused"); int sub = (size - 1) / 2, add = size / 2;
  std::string ctx = std::string("lrn ") + (across ? "across" : "within") + " size " + std::to_string(size) + " " + Shape{n, w, h, m}.str() + " alpha " + fmt(alpha) + " beta " + fmt(beta);
  CK(shape(r.out[0]->data) == (Shape{n, w, h, m}), "lrn:shape", ctx);
  auto region = [&](int x, int y, int z, std::function<void(int, int, int)> fn) { if (across) { for (int q = std::max(0, z - sub); q <= z + add && q < (int)m; q++) fn(x, y, q); } else for (int j = std::max(0, y - sub); j <= y + add && j < (int)h; j++) for (int i = std::max(0, x - sub); i <= x + add && i < (int)w; i++) fn(i, j, z); };
  for (int p = 0; p < 2; p++) { Tensor& it = r.in[0]->data; for (size_t e = 0; e < it.elements(); e++) { it[e] = (float)smallint(e, p, 6) / 4; r.out[0]->delta[e] = (float)smallint(e, p + 9, 4) / 2; }
    A4 in(it), d(r.out[0]->delta), ref(in.sh), g(in.sh);
    for (unsigned s = 0; s < n; s++) for (unsigned z = 0; z < m; z++) for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { double q = 0; unsigned k = 0; region(x, y, z, [&](int i, int j, int l) { q += in(s, i, j, l) * in(s, i, j, l); k++; });
      double base = 1 + alpha / k * q, v = in(s, x, y, z), e = d(s, x, y, z); ref(s, x, y, z) = v * std::pow(base, -beta); g(s, x, y, z) += e * std::pow(base, -beta);
      region(x, y, z, [&](int i, int j, int l) { g(s, i, j, l) += e * v * -beta * std::pow(base, -beta - 1) * alpha / k * 2 * in(s, i, j, l); }); }
    fill(r.out[0]->data, 55.f); c.site("lrn forward"); r.L->FeedForward(); c.trans(); expect(c, r.out[0]->data, ref, "lrn:forward", ctx, 1e-5); expect(c, it, in, "lrn:input-modified", ctx);
    fill(r.in[0]->delta, 44.f); c.site("lrn backward"); r.L->BackPropagate(); c.trans(); expect(c, r.in[0]->delta, g, "lrn:gradient", ctx, 2e-5); expect(c, r.out[0]->delta, d, "lrn:delta-modified", ctx); c.state(hash(r.in[0]->delta)); }
  if (size > 1 && w * h * m > 1) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(ctx + " -> " + show(r.out[0]->data)); }
// every value in a row of three, over parameters of every kind; errors are measured against the sum of the magnitudes that make up the result
static void near(mc::Ctx& c, const Tensor& t, const A4& ref, const A4& mag, const std::string& key, const std::string& ctx, double tol) { for (size_t i = 0; i < ref.v.size(); i++) CK(std::fabs((double)t.data_ptr_const()[i] - ref.v[i]) <= tol * mag.v[i] + 1e-30, key, ctx + ": element " + std::to_string(i) + " is " + fmt(t.data_ptr_const()[i]) + ", expected " + fmt(ref.v[i])); }
static void lrnvalues(mc::Ctx& c) {
  static const std::vector<float> A{0.f, 1.f, -2.f, 40.f, -1500.f, 1e-3f, 2e4f}; typedef LocalResponseNormalizationLayer N;
  float v[3]; for (float& q : v) q = c.pick(A, "value"); bool across = c.flip("across"); c.shard(); sys_init();
  for (unsigned size : {1u, 2u, 3u, 5u}) for (double alpha : {1., 1e-4, 3.}) for (double beta : {0.75, 1., 1.5, 2., 0.25, -0.5}) {
    Rig r(new N(size, alpha, beta, across ? N::ACROSS_CHANNELS : N::WITHIN_CHANNELS)); if (across) r.input(1, 1, 1, 3); else r.input(1, 3, 1, 1); CK(r.up(), "lrn:connect", "refused"); int sub = (size - 1) / 2, add = size / 2; double al = (float)alpha, be = (float)beta;
    float d[3] = {1, -0.5f, 2}; for (int e = 0; e < 3; e++) { r.in[0]->data[e] = v[e]; r.out[0]->delta[e] = d[e]; } A4 ref(r.in[0]->data), g(ref.sh), mf(ref.sh), mg(ref.sh);
    for (int x = 0; x < 3; x++) { double q = 0; int k = 0, lo = std::max(0, x - sub), hi = std::min(2, x + add); for (int i = lo; i <= hi; i++) q += (double)v[i] * v[i], k++; double base = 1 + al / k * q, o = v[x] * std::pow(base, -be); ref.v[x] = o; mf.v[x] = std::fabs(o); g.v[x] += d[x] * std::pow(base, -be); mg.v[x] += std::fabs(d[x] * std::pow(base, -be));
      for (int i = lo; i <= hi; i++) { double t = d[x] * v[x] * -be * std::pow(base, -be - 1) * al / k * 2 * v[i]; g.v[i] += t; mg.v[i] += std::fabs(t); } }
    std::string ctx = std::string("lrn ") + (across ? "across" : "within") + " size " + std::to_string(size) + " alpha " + fmt(alpha) + " beta " + fmt(beta) + " input " + fmt(v[0]) + " " + fmt(v[1]) + " " + fmt(v[2]);
    c.site("lrn values"); r.L->FeedForward(); r.L->BackPropagate(); c.trans(2); near(c, r.out[0]->data, ref, mf, "lrn:forward", ctx, 2e-5); near(c, r.in[0]->delta, g, mg, "lrn:gradient", ctx, 1e-4); c.state(hash(r.in[0]->delta)); }
  c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(std::string("lrn ") + (across ? "across" : "within") + " values " + fmt(v[0]) + " " + fmt(v[1]) + " " + fmt(v[2])); }
// the H-max layer's sparsity rule (Triesch 2005): the intrinsic parameters follow the derivative of the divergence from an exponential distribution
static void hmaxrule(mc::Ctx& c) {
  static const std::vector<float> X{0.f, 1.f, -1.f, 0.25f, 3.f, -3.f, 7.f}; float x[2]; for (float& q : x) q = c.pick(X, "value"); double mu = c.pick(std::vector<float>{1, 0.5f, 0.125f, 2}, "mu"), la = c.pick(std::vector<float>{0.5f, 2, 0.125f}, "weight"); bool text = c.flip("text"); c.shard(); sys_init();
  for (double a : {1., -1.5, 0.25}) for (double b : {0., -1., 0.5}) for (float d : {0.f, 1.f, -2.f}) for (float llr : {1.f, 0.5f}) {
    Rig r(text ? new HMaxActivationFunction("mu=" + fmt(mu) + " weight=" + fmt(la)) : new HMaxActivationFunction((float)mu, (float)la)); r.input(1, 2, 1, 1); CK(r.up(), "hmax:connect", "refused"); r.L->SetLocalLearningRate(llr); Tensor& w = r.L->parameters()[0]->data; w[0] = (float)a; w[1] = (float)b;
    A4 g(1, 2, 1, 1), mg(1, 2, 1, 1); double ga = -2 / a * la, gb = -2 * la, ma = std::fabs(ga), mb = std::fabs(gb);
    for (int e = 0; e < 2; e++) { r.in[0]->data[e] = x[e]; r.out[0]->delta[e] = d; double y = f(3, x[e], a, b), m = y * (1 - y); ga += d * m * x[e] + la * (-x[e] + (2 + 1 / mu) * x[e] * y - x[e] * y * y / mu); gb += d * m + la * ((2 + 1 / mu) * y - y * y / mu); ma += std::fabs(d * m * x[e]) + la * (std::fabs(x[e]) * (3 + 2 / mu)); mb += std::fabs(d * m) + la * (2 + 2 / mu);
      double t1 = d * m * a, t2 = la * m * (std::log(y) + 1), t3 = la * m / mu; g.v[e] = t1 + t2 + t3; mg.v[e] = std::fabs(t1) + la * m * (std::fabs(std::log(y)) + 1) + t3; }
    std::string ctx = "hmax mu " + fmt(mu) + " weight " + fmt(la) + " a " + fmt(a) + " b " + fmt(b) + " inputs " + fmt(x[0]) + " " + fmt(x[1]) + " delta " + fmt(d) + " local learning rate " + fmt(llr);
    c.site("hmax rule"); r.L->FeedForward(); r.L->BackPropagate(); c.trans(2); if (a == 1) near(c, r.in[0]->delta, g, mg, "hmax:gradient", ctx, 1e-4); Tensor& wd = r.L->parameters()[0]->delta; CK(std::fabs(wd[0] - ga) <= 1e-5 * ma && std::fabs(wd[1] - gb) <= 1e-5 * mb, "hmax:weight-gradient", ctx + ": weight gradient " + show(wd) + " expected " + fmt(ga) + " " + fmt(gb)); c.state(hash(wd)); }
  c.nontrivial(); c.validated(); if (c.want_sample()) c.sample("hmax mu " + fmt(mu) + " weight " + fmt(la) + " values " + fmt(x[0]) + " " + fmt(x[1])); }
MC_MAIN({"large", large}, {"elementwise", elementwise}, {"values", values}, {"softmax", softmax}, {"lrn", lrn}, {"lrnvalues", lrnvalues}, {"hmaxrule", hmaxrule})
