// C35: the numerical gradient checker, on scripted layers whose gradients are right or wrong by known factors
#include "progrig.h"
// output j = x_j * (1 + j) + sum over all parameters e of a_e * w_e; claims the gradient f_e * a_e
struct P { float w, a, f; };
struct Script : Layer {
  std::vector<std::vector<P>> p; bool safe; CTs in, out; long bad = 0; std::map<std::pair<int, int>, int> up, down; long fw = 0, bw = 0;
  Script(const std::vector<std::vector<P>>& p, bool safe) : Layer(""), p(p), safe(safe) { for (auto& s : p) { auto* t = new CombinedTensor(1, s.size(), 1, 1); for (size_t e = 0; e < s.size(); e++) { t->data[e] = s[e].w; t->delta[e] = -77; } parameters_.push_back(t); } }
  ~Script() { for (auto* t : parameters_) delete t; for (auto* t : out) delete t; }
  bool IsNotGradientSafe() override { return !safe; }
  bool CreateOutputs(const CTs& i, CTs& o) override { o.push_back(new CombinedTensor(i[0]->data.samples(), i[0]->data.width(), 1, 1)); return true; }
  bool Connect(const CTs& i, const CTs& o, const NetStatus*) override { in = i; out = o; return true; }
  void FeedForward() override { fw++; double s = 0; int changed = 0; for (size_t q = 0; q < p.size(); q++) for (size_t e = 0; e < p[q].size(); e++) { float v = parameters_[q]->data[e]; s += (double)p[q][e].a * v; if (!same_bits(v, p[q][e].w)) { changed++; float w = p[q][e].w; if (v > w && v < w + 0.02f) up[{q, e}]++; else if (v < w && v > w - 0.02f) down[{q, e}]++; else bad++; } }
    if (changed > 1) bad++; for (size_t j = 0; j < out[0]->data.elements(); j++) out[0]->data[j] = in[0]->data[j] * (1 + j) + (float)s; }
  void BackPropagate() override { bw++; double g = 0; for (size_t j = 0; j < out[0]->delta.elements(); j++) { g += out[0]->delta[j]; in[0]->delta[j] = out[0]->delta[j] * (1 + j); } for (size_t q = 0; q < p.size(); q++) for (size_t e = 0; e < p[q].size(); e++) parameters_[q]->delta[e] = (float)(g * p[q][e].a * p[q][e].f); }
  std::string GetLayerDescription() override { return "Script"; } void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) override { b.emplace_back(); }
};
struct Loss : Layer, LossFunctionLayer { CTs in; float k; Loss(float k) : Layer(""), k(k) {} bool CreateOutputs(const CTs&, CTs&) override { return true; } bool Connect(const CTs& i, const CTs&, const NetStatus*) override { in = i; return true; }
  void FeedForward() override { for (size_t j = 0; j < in[0]->delta.elements(); j++) in[0]->delta[j] = k * (1 + j); } void BackPropagate() override {} datum CalculateLossFunction() override { double s = 0; for (size_t j = 0; j < in[0]->data.elements(); j++) s += k * (1 + j) * in[0]->data[j]; return (datum)s; } };
// factors of claimed gradients: right, within 20 %, wrong
static const float F[] = {1, 1.1f, 0.9f, 1.4f, 0.7f, -1, 0, std::numeric_limits<float>::infinity()};
static bool wrong(const P& p) { if (p.a == 0) return false; double r = 1.0 / p.f; return p.f == 0 || r > 1.2 || r < 0.8; }
static P par(unsigned i, unsigned f) { static const float A[] = {1, -0.5f, 2, 0.75f}; P p; p.w = (float)((i % 3 == 1 ? 0.000123 : 0.1) * smallint(i, 41, 9)); /* small weights are not what they were after a step forth and back */ p.a = f == 8 ? 0 : A[i % 4]; p.f = f == 8 ? 1 : F[f]; return p; }
// the summary lines the checker prints
struct Capture { std::ostringstream o; std::streambuf* b; Capture() { b = std::cout.rdbuf(o.rdbuf()); } ~Capture() { std::cout.rdbuf(b); } };
static std::vector<long> summary(const std::string& t) { std::vector<long> r; std::istringstream i(t); std::string l; while (std::getline(i, l)) { size_t p = l.find("RESULT --- "); if (p == std::string::npos) continue; long a, b; if (sscanf(l.c_str() + p + 11, "%ld of %ld tested gradients", &a, &b) == 2) { r.push_back(a); r.push_back(b); } } return r; }
static void run(mc::Ctx& c, std::vector<std::vector<std::vector<P>>> ls, std::vector<bool> safe, unsigned skip, bool fatal, unsigned wiring, const std::string& d) {
  sys_init(); NetGraph g; Tensor data(1, 2, 1, 1); data[0] = 0.25f; data[1] = -0.5f; auto* in = new NetGraphNode(new InputLayer(data)); in->is_input = true; g.AddNode(in); NetGraphNode* prev = in; std::vector<NetGraphNode*> nodes{in}; std::vector<Script*> s;
  for (size_t l = 0; l < ls.size(); l++) { s.push_back(new Script(ls[l], safe[l])); auto* n = new NetGraphNode(s.back(), NetGraphConnection(wiring == 1 ? in : prev, 0, true)); nodes.push_back(n); prev = n; n->is_output = l + 1 == ls.size() || wiring == 1; g.AddNode(n);
    if (n->is_output || wiring == 2) { auto* e = new NetGraphNode(new Loss(l % 2 ? -0.5f : 0.25f), NetGraphConnection(n, 0, true)); nodes.push_back(e); g.AddNode(e); } }
  g.Initialize(); bool any = false; long total = 0, tol = 0, fail = 0; std::vector<std::vector<std::vector<bool>>> tested; for (size_t l = 0; l < ls.size(); l++) { tested.emplace_back(); for (auto& q : ls[l]) { tested.back().emplace_back(q.size()); for (size_t e = 0; e < q.size(); e += skip + 1) if (safe[l]) { tested.back().back()[e] = true; any = any || wrong(q[e]); total++; if (wrong(q[e])) fail++; else if (q[e].a != 0 && q[e].f != 1) tol++; } } }
  c.site(d); bool threw = false; std::string text; { Capture cap; try { GradientTester::TestGradient(g, skip, fatal); } catch (std::runtime_error&) { threw = true; } text = cap.o.str(); } c.trans(s[0]->fw); std::vector<long> sum = summary(text), exp{total - tol - fail, total, tol, total, fail, total}; CK(sum == exp, "check:summary", "the check reports " + show(std::vector<float>(sum.begin(), sum.end())) + " (okay of all, tolerable of all, failed of all), expected " + show(std::vector<float>(exp.begin(), exp.end())) + ":" + d);
  // the gradient claimed by each layer
  std::vector<std::vector<float>> claimed; for (auto* x : s) { claimed.emplace_back(); for (auto* t : x->parameters()) for (size_t e = 0; e < t->delta.elements(); e++) claimed.back().push_back(t->delta[e]); }
  for (size_t l = 0; l < s.size(); l++) { size_t k = 0; CK(s[l]->bad == 0, "check:touches", "a forward pass saw parameters other than one changed by the step:" + d); for (size_t q = 0; q < ls[l].size(); q++) for (size_t e = 0; e < ls[l][q].size(); e++, k++) { Tensor& t = s[l]->parameters()[q]->data; std::string at = " layer " + std::to_string(l) + " set " + std::to_string(q) + " element " + std::to_string(e) + ":" + d;
        CK(same_bits(t[e], ls[l][q][e].w), "check:restore", "parameter is " + fmt(t[e]) + " after the check, was " + fmt(ls[l][q][e].w) + at); int u = s[l]->up[{(int)q, (int)e}], w = s[l]->down[{(int)q, (int)e}]; bool te = tested[l][q][e]; CK(te ? u > 0 && w > 0 : !u && !w, "check:coverage", std::string("parameter was ") + (u || w ? "tested" : "not tested") + at); } }
  CK(threw == (fatal && any), "check:verdict", std::string("the check ") + (threw ? "fails" : "passes") + " though" + (any ? "" : " not") + " one tested gradient is wrong" + (fatal ? ":" : " and the failure is not fatal:") + d);
  if (!threw) { g.FeedForward(); g.BackPropagate(); for (size_t l = 0; l < s.size(); l++) { size_t k = 0; for (auto* t : s[l]->parameters()) for (size_t e = 0; e < t->delta.elements(); e++) { float x = t->delta[e]; CK(same_bits(x, claimed[l][k++]), "check:gradient", "the gradient after the check is not the layer's:" + d); } } }
  c.state(mc::mix(mc::hash_bytes(d.data(), d.size()), threw)); c.validated(); if (any) c.nontrivial(); if (c.want_sample()) c.sample(d + (threw ? " fails" : " passes"));
  std::set<NetGraphNode*> all(g.GetNodes().begin(), g.GetNodes().end()); for (auto* n : all) { bool mine = std::find_if(s.begin(), s.end(), [&](Script* x) { return x == n->layer; }) != s.end(); if (!mine && n != in) for (auto& b : n->output_buffers) delete b.combined_tensor; delete n->layer; delete n; } }
// one layer with up to 2 parameter sets, every assignment of factors
static void single(mc::Ctx& c) { unsigned n0 = c.range(0, c.thorough() ? 4 : 3, "elements"), n1 = c.range(0, 2, "elements 2"), skip = c.choose(4, "skipped"); bool fatal = c.flip("fatal"); std::vector<std::vector<P>> p(n1 ? 2 : 1); std::string d = kv("skipped", skip) + (fatal ? " fatal" : ""); for (unsigned i = 0; i < n0 + n1; i++) { unsigned f = c.choose(i < 2 || c.thorough() ? 9 : 5, "factor"); f = i < 2 || c.thorough() ? f : f == 4 ? 8 : f == 0 ? 0 : f == 1 ? 1 : f == 2 ? 3 : 5; p[i >= n0].push_back(par(i, f)); d += (i == n0 ? " | " : " ") + (f == 8 ? std::string("none") : fmt(F[f])); if (i == 1) c.shard(); } if (!c.sharded) c.shard(); run(c, {p}, {true}, skip, fatal, 0, d); }
// up to 3 layers in chains or beside each other, one or several losses, layers not to be tested
static void several(mc::Ctx& c) { unsigned n = c.range(2, 3, "layers"), wiring = c.choose(3, "wiring"), skip = c.choose(3, "skipped"); bool fatal = c.flip("fatal"); std::vector<std::vector<std::vector<P>>> ls; std::vector<bool> safe; std::string d = kv("wiring", wiring) + kv("skipped", skip) + (fatal ? " fatal" : ""); for (unsigned l = 0; l < n; l++) { safe.push_back(!c.flip("unsafe")); unsigned k = c.choose(c.thorough() ? 6 : 4, "kind"); std::vector<std::vector<P>> p; static const std::vector<std::vector<std::vector<unsigned>>> K = {{{0, 0}}, {{0, 3}, {1}}, {}, {{0, 0, 4}}, {{5}, {0, 2}}, {{6, 0}, {0, 0, 1}}}; for (auto& q : K[k]) { p.emplace_back(); for (unsigned f : q) p.back().push_back(par(p.size() * 3 + p.back().size() + l, f)); } ls.push_back(p); d += std::string(" layer") + (safe[l] ? "" : " (not to be tested)") + kv("kind", k); } c.shard(); run(c, ls, safe, skip, fatal, wiring, d); }
// the check of one layer
struct Lin : Layer { Tensor &d, &g; CombinedTensor &o; std::vector<P> p; bool safe; long bad = 0, up = 0, down = 0; Lin(Tensor& d, Tensor& g, CombinedTensor& o, std::vector<P> p, bool safe) : Layer(""), d(d), g(g), o(o), p(p), safe(safe) {} bool CreateOutputs(const CTs&, CTs&) override { return true; } bool Connect(const CTs&, const CTs&, const NetStatus*) override { return true; } bool IsNotGradientSafe() override { return !safe; }
  float eps = 0; void FeedForward() override { double s = 0; int ch = 0; for (size_t e = 0; e < p.size(); e++) { s += (double)p[e].a * d[e]; if (!same_bits(d[e], p[e].w)) { ch++; if (std::fabs(d[e] - p[e].w - eps) < 1e-4f) up++; else if (std::fabs(d[e] - p[e].w + eps) < 1e-4f) down++; else bad++; } } if (ch > 1) bad++; o.data[0] = (float)s; } void BackPropagate() override { for (size_t e = 0; e < p.size(); e++) g[e] = o.delta[0] * p[e].a * p[e].f; } };
static void layer(mc::Ctx& c) { sys_init(); unsigned n = c.range(1, c.thorough() ? 16 : 14, "elements"), w = c.choose(4, "wrong"), k = c.choose(8, "factor"); float eps = c.flip("step") ? 0.01f : 0.005f; bool safe = !c.flip("unsafe"), other = c.flip("others within 20 %"); c.require(w <= n); std::vector<unsigned> at; for (unsigned i = 0; i < w; i++) at.push_back(c.range(i ? at.back() + 1 : 0, n - (w - i), "position")); c.shard(); std::vector<P> p; std::string d = kv("elements", n) + " step=" + fmt(eps) + (safe ? "" : " not to be tested") + " wrong:"; for (unsigned i = 0; i < n; i++) p.push_back(par(i, std::count(at.begin(), at.end(), i) ? (k == 1 ? 8 : k) : other ? 1 + i % 2 : 0)); for (unsigned i : at) d += " " + std::to_string(i) + "*" + (k == 1 ? "none" : fmt(F[k]));
  Tensor data(1, n, 1, 1), delta(1, n, 1, 1); CombinedTensor o(1, 1, 1, 1); for (unsigned i = 0; i < n; i++) { data[i] = p[i].w; delta[i] = -77; } o.delta[0] = 5; Lin* l = new Lin(data, delta, o, p, safe); l->eps = eps; CTs outs{&o}; c.site(d);
  bool r = GradientTester::DoGradientTest(l, data, delta, outs, eps, [](const std::vector<CombinedTensor*>& v) { v[0]->delta[0] = -2; }, [](Layer*, const std::vector<CombinedTensor*>& v) -> datum { return -2 * v[0]->data[0]; }); c.trans(n);
  unsigned okay = 0; for (auto& q : p) okay += !wrong(q); bool want = !safe || okay == n || (double)okay / n > 0.85; CK(r == want, "layer:verdict", std::string("the layer ") + (r ? "passes" : "fails") + " with " + std::to_string(okay) + " right gradients:" + d); for (unsigned i = 0; i < n; i++) CK(same_bits(data[i], p[i].w), "layer:restore", "element " + std::to_string(i) + " is " + fmt(data[i]) + " after the check, was " + fmt(p[i].w) + ":" + d);
  CK(l->bad == 0, "layer:touches", "a forward pass saw more than one element changed by the step:" + d); CK(l->up == (safe ? n : 0) && l->down == (safe ? n : 0), "layer:coverage", std::to_string(l->up) + " and " + std::to_string(l->down) + " steps for " + std::to_string(n) + " elements:" + d);
  c.state(mc::hash_bytes(d.data(), d.size())); c.validated(); if (w) c.nontrivial(); if (c.want_sample()) c.sample(d + (r ? " passes" : " fails")); delete l; }
// the gradient check of the training program
static void program(mc::Ctx& c) { const char* exe = getenv("TRAINNETWORK"); if (!exe) throw std::runtime_error("no program"); sys_init(); unsigned m = c.choose(4, "configuration"); const Cfg& k = cfgs()[m]; c.shard(); std::string ds = dataset(k.classes), d = std::string(k.hybrid ? "hybrid" : "fully convolutional") + kv("classes", k.classes); spit("d.set", ds); spit("n.net", k.net); Ref r(k, ds); size_t n = all_params(r.g).size(); c.site(d); c.trans(n); int rc = system((std::string("timeout 60 ") + exe + " d.set n.net gradient_check > out.txt 2>&1").c_str()); std::string out = slurp("out.txt"); CK(rc == 0, "program:exit", "the program ends with " + std::to_string(rc) + ":" + d + "\n" + out.substr(0, 3000));
  auto sum = summary(out); CK(sum.size() == 6 && sum[1] == (long)n && sum[3] == (long)n && sum[5] == (long)n, "program:tested", "not all " + std::to_string(n) + " parameters are tested:" + d + "\n" + out); CK(sum[0] + sum[2] + sum[4] == (long)n, "program:sum", "the results do not add up:" + d); /* the padding of images lies on the kink of the ReLU in the first network */ CK(m == 0 || sum[4] * 20 <= (long)n, "program:failed", std::to_string(sum[4]) + " of " + std::to_string(n) + " gradients of a right network fail:" + d + "\n" + out); c.state(mc::hash_bytes(out.data(), out.size())); c.validated(); c.nontrivial(); c.sample(d + " " + std::to_string(sum[0]) + " " + std::to_string(sum[2]) + " " + std::to_string(sum[4])); }
// size: many elements in a set, many sets, many layers, many skipped; every third gradient wrong, or one near the end
static void large(mc::Ctx& c) { unsigned n = 3, k = 1, ls = 1, skip = 0; std::string g = grow(c, {&n, &k, &ls, &skip}, false); if (g == "3") { n = 40; k = 2; } unsigned which = c.choose(4, "wrong"); bool fatal = c.flip("fatal"); c.shard(); std::vector<std::vector<std::vector<P>>> v; std::vector<bool> safe; unsigned i = 0, all = n * k * ls; for (unsigned l = 0; l < ls; l++) { v.emplace_back(); safe.push_back(l % 5 != 3); for (unsigned q = 0; q < k; q++) { v.back().emplace_back(); for (unsigned e = 0; e < n; e++, i++) { P p = par(i, which == 0 ? i % 3 : which == 1 ? (i % 3 == 1 ? 3 : 0) : which == 2 ? (i + 2 == all ? 4 : 0) : (i % 64 == 63 ? 5 : i % 7 == 2 ? 2 : 0)); p.w /= 8; v.back().back().push_back(p); } } } run(c, v, safe, skip, fatal, 1, kv("layers", ls) + kv("sets", k) + kv("elements", n) + kv("skipped", skip) + kv("wrong", which) + (fatal ? " fatal" : "")); }
static void wide(mc::Ctx& c) { sys_init(); unsigned n = c.pick(sizes(c), "elements"), which = c.choose(4, "wrong"); c.shard(); std::vector<P> p; for (unsigned i = 0; i < n; i++) { bool w = which == 1 ? i * 100 >= 86 * n : which == 2 ? i * 100 >= 84 * n : which == 3 && i % 5 == 4; p.push_back(par(i, w ? 3 : i % 3)); p.back().w /= 8; } std::string d = kv("elements", n) + kv("wrong", which); Tensor data(1, n, 1, 1), delta(1, n, 1, 1); CombinedTensor o(1, 1, 1, 1); for (unsigned i = 0; i < n; i++) { data[i] = p[i].w; delta[i] = -77; } Lin* l = new Lin(data, delta, o, p, true); l->eps = 0.005f; CTs outs{&o}; c.site(d); bool r = GradientTester::DoGradientTest(l, data, delta, outs, 0.005f, [](const std::vector<CombinedTensor*>& v) { v[0]->delta[0] = -2; }, [](Layer*, const std::vector<CombinedTensor*>& v) -> datum { return -2 * v[0]->data[0]; }); c.trans(n); unsigned okay = 0; for (auto& q : p) okay += !wrong(q);
  CK(r == (okay == n || (double)okay / n > 0.85), "layer:verdict", std::string("the layer ") + (r ? "passes" : "fails") + " with " + std::to_string(okay) + " right gradients:" + d); for (unsigned i = 0; i < n; i++) CK(same_bits(data[i], p[i].w), "layer:restore", "element " + std::to_string(i) + ":" + d); CK(l->bad == 0 && l->up == (long)n && l->down == (long)n, "layer:coverage", std::to_string(l->up) + " and " + std::to_string(l->down) + " steps:" + d); c.state(mc::hash_bytes(d.data(), d.size())); c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(d); delete l; }
MC_MAIN({"large", large}, {"wide", wide}, {"single", single}, {"several", several}, {"layer", layer}, {"program", program})
