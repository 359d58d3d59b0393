// C22: the same seed gives the same network and the same run. Two sessions and a disturbing third, in every interleaving; fresh memory is filled with different patterns.
#include "netrig.h"
static int g_fill = -1;
static void* grab(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (g_fill >= 0) memset(p, g_fill, n); return p; }
void* operator new(size_t n) { return grab(n); }
void* operator new[](size_t n) { return grab(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
struct Cfg { const char* text; unsigned w, h; };
static const std::vector<Cfg> CFG = {
  {"?convolutional kernels=2 size=3x3\n?maxpooling size=2x2\n?tanh\n?fullyconnected neurons=(o)\n?output\nlr=0.05\niterations=2\nsbatchsize=1\npbatchsize=2\n", 4, 4},
  {"?convolutional kernels=2 size=2x1\n?hmax\n?convolutional kernels=4 size=1x1 group=2\n?relu\n?lrn method=across size=3\n?fullyconnected neurons=(o)\n?output\nlr=0.05\nl1=0.01\nmomentum=0.5\niterations=2\nsbatchsize=2\npbatchsize=2\n", 3, 2},
  {"?convolutional kernels=2 size=2x2 llr=2\n?sigm\n?convolutional kernels=2 size=1x1\npusha\n?convolutional kernels=2 size=1x1\npusha\n?sum stack=a\n?spatialprior\n?fullyconnected neurons=(o)\n?output weight=2\nlr=0.05\noptimization=quickprop\niterations=2\npbatchsize=3\n", 3, 3},
  {"?amaxpooling size=2x2 stride=2x1\n?convolutional kernels=3 size=1x1 stride=1x1\n?tanh\npusha\npusha\n?concat stack=a\n?fullyconnected neurons=(o)\n?output\nlr=0.1\nl2=0.05\niterations=1\npbatchsize=1\n", 4, 2},
};
struct Session { const Cfg* f; unsigned seed, dseed; float p; Method me; int step = 0; std::unique_ptr<SynthData> d; std::unique_ptr<NetGraph> g; std::unique_ptr<Trainer> t; NetGraphNode* in = nullptr; std::vector<std::vector<float>> snap; std::string what;
  ~Session() { t.reset(); if (g) free_net(*g); }
  void go() { std::vector<float> s;
    if (step == 0) { std::istringstream is(std::string(me == PATCH ? "method=patch\n" : "") + f->text); ConfigurableFactory fac(is, seed, me == PATCH); fac.InitOptimalSettings(); unsigned w = f->w, h = f->h; if (me == PATCH) { w = (unsigned)fac.patchsizex(); h = (unsigned)fac.patchsizey(); }
      d.reset(new SynthData(me, w, h, 5, 2)); g.reset(new NetGraph()); auto* L = new DatasetInputLayer(*d, fac.optimal_settings().pbatchsize, p, dseed); in = new NetGraphNode(L); in->is_input = true; g->AddNode(in); if (!fac.AddLayers(*g, NetGraphConnection(in), 2, true)) throw std::runtime_error("network is not complete"); g->Initialize(); t.reset(new Trainer(*g, fac.optimal_settings())); }
    else if (step == 1) g->InitializeWeights(); else if (step == 2 || step == 4) t->Train(1, false); else if (step == 3) t->Test();
    s = all_params(*g); if (step == 2 || step == 4) { auto q = all_params(*g, true); s.insert(s.end(), q.begin(), q.end()); } if (step >= 2) for (auto& b : in->output_buffers) for (size_t e = 0; e < b.combined_tensor->data.elements(); e++) s.push_back(b.combined_tensor->data[e]);
    if (step == 0) s.clear(); snap.push_back(s); step++; } };
static const char* sname[] = {"build", "initialise", "train", "test", "train again"};
static void disturb(unsigned kind) { static std::vector<std::unique_ptr<char[]>> hold; switch (kind) {
  case 0: srand(12345 + (unsigned)hold.size()); for (int i = 0; i < 7; i++) (void)rand(); break;
  case 1: { Session o; o.f = &CFG[0]; o.seed = 99; o.dseed = 98; o.p = 0.5f; o.me = FCN; for (int i = 0; i < 4; i++) o.go(); break; }
  default: { ConvolutionLayer a(3, 3, 2, 1, 1, 0, 0, 1, 7, false); Rig r(new ConvolutionLayer(2, 2, 2, 1, 1, 0, 0, 1, 8, false)); r.input(1, 4, 4, 2); r.up(); r.L->OnLayerConnect({}); break; } } }
static void twins(mc::Ctx& c) { sys_init(); unsigned f = c.choose((unsigned)CFG.size(), "configuration"); Method me = c.flip("method") ? PATCH : FCN; unsigned sd = c.choose(c.thorough() ? 3 : 2, "seed"); float p = c.flip("sampling") ? 0.5f : 1; unsigned kind = c.choose(3, "disturbance"); unsigned mem = c.choose(2, "memory"); if (me == PATCH && (f == 3 || p < 1)) c.skip(); c.shard();
  static const unsigned SEED[] = {983923, 1, 0}; auto mk = [&]() { Session* s = new Session(); s->f = &CFG[f]; s->seed = SEED[sd]; s->dseed = SEED[sd] / 2; s->p = p; s->me = me; return s; }; std::unique_ptr<Session> s[2] = {std::unique_ptr<Session>(mk()), std::unique_ptr<Session>(mk())};
  const int N = 5; unsigned left[3] = {N, N, c.thorough() ? 2u : 1u}; std::string order; struct Off { ~Off() { g_fill = -1; } } off;
  while (left[0] + left[1] + left[2]) { std::vector<unsigned> en; for (unsigned k = 0; k < 3; k++) if (left[k] && !(k == 1 && left[0] == N)) en.push_back(k); if (left[0] + left[1] == 0) break; unsigned k = en[c.choose((unsigned)en.size(), "who")]; left[k]--; c.site("session"); c.trans();
    if (k == 2) { order += "x"; g_fill = -1; disturb(kind); } else { order += k ? "b" : "a"; g_fill = k == 0 ? (mem ? 0x00 : 0xff) : (mem ? 0x3f : 0x00); s[k]->go(); g_fill = -1; } 
    size_t m = std::min(s[0]->snap.size(), s[1]->snap.size()); if (m && k < 2 && s[k]->snap.size() == m) { auto& a = s[0]->snap[m - 1]; auto& b = s[1]->snap[m - 1]; if (!bits(a, b)) { size_t e = 0; while (e < a.size() && same_bits(a[e], b[e])) e++; CK(false, std::string("twins:") + sname[m - 1], "configuration " + std::to_string(f) + (me == PATCH ? " patch" : "") + " seed " + std::to_string(SEED[sd]) + " after " + sname[m - 1] + ": value " + std::to_string(e) + " is " + fmt(a[e]) + " and " + fmt(b[e]) + " in order " + order); } c.state(mc::hash_bytes(a.data(), a.size() * 4)); } }
  bool nonzero = false; for (float v : s[0]->snap[1]) if (v != 0) nonzero = true; CK(nonzero, "initial", "no initial weights"); CK(!bits(s[0]->snap[1], all_params(*s[0]->g)), "initial", "training changes nothing"); c.validated(); c.nontrivial(); if (c.want_sample()) c.sample("configuration " + std::to_string(f) + ", " + order); }
// seeds of convolution layers
static std::vector<float> weights(Layer& L) { std::vector<float> v; auto& d = L.parameters()[0]->data; for (size_t e = 0; e < d.elements(); e++) v.push_back(d[e]); return v; }
static void layers(mc::Ctx& c) { sys_init(); unsigned kw = c.range(1, 3, "kw"), kh = c.range(1, 3, "kh"), om = c.range(1, 3, "kernels"), im = c.range(1, 3, "maps"), s1 = c.choose(8, "seed"), s2 = c.choose(8, "other seed"), next = c.choose(3, "next layer"), between = c.choose(2, "between"); if (om * im * kw * kh < 2 && s1 != s2) c.skip(); c.shard();
  static const unsigned SV[] = {0, 1, 2, 3, 983923, 0x7fffffff, 0x80000000u, 0xffffffffu}; ReLULayer rl; TanhLayer tl; std::vector<Layer*> nl; if (next == 1) nl.push_back(&rl); if (next == 2) nl.push_back(&tl); c.site("layers"); c.trans(2);
  Rig a(new ConvolutionLayer(kw, kh, om, 1, 1, 0, 0, 1, (int)SV[s1], 0)); a.input(1, 4, 4, im); CK(a.up(), "layer", "refused"); g_fill = 0xff; Rig b(new ConvolutionLayer(kw, kh, om, 1, 1, 0, 0, 1, (int)SV[s2], 0)); b.input(2, 5, 3, im); CK(b.up(), "layer", "refused"); g_fill = -1;
  if (between) { b.L->OnLayerConnect(nl); disturb(2); a.L->OnLayerConnect(nl); } else { a.L->OnLayerConnect(nl); b.L->OnLayerConnect(nl); } auto wa = weights(*a.L), wb = weights(*b.L); std::string x = "kernel " + std::to_string(kw) + "x" + std::to_string(kh) + kv("maps", im) + kv("kernels", om) + " seeds " + std::to_string(SV[s1]) + " and " + std::to_string(SV[s2]);
  if (s1 == s2) CK(bits(wa, wb), "layer:same", x + ": different weights"); else CK(!bits(wa, wb), "layer:different", x + ": the same weights"); for (size_t i = 0; i < wa.size(); i++) CK(std::isfinite(wa[i]), "layer:finite", x); c.state(mc::hash_bytes(wa.data(), wa.size() * 4)); c.validated(); if (s1 != s2) c.nontrivial(); if (c.want_sample()) c.sample(x); }
// seeds of whole networks: layers of equal shape differ from each other, networks of different seeds differ in every layer
static void networks(mc::Ctx& c) { sys_init(); unsigned n = c.range(1, 4, "layers"), s1 = c.choose(8, "seed"), s2 = c.choose(8, "other seed"); c.shard(); static const unsigned SV[] = {0, 1, 2, 3, 983923, 8347734, 238238, 0xffffffffu}; std::string t; for (unsigned i = 0; i < n; i++) t += "?convolutional kernels=2 size=1x1\n"; t += "?output\n"; std::vector<std::vector<float>> w[2]; c.site("networks"); c.trans(2);
  for (int k = 0; k < 2; k++) { std::istringstream is(t); ConfigurableFactory f(is, SV[k ? s2 : s1], false); Tensor a(1, 2, 2, 2), l(1, 2, 2, 2), h(1, 2, 2, 2), g(1, 2, 2, 1); NetGraph net; auto* in = new NetGraphNode(new InputLayer(a, l, h, g)); in->is_input = true; net.AddNode(in); CK(f.AddLayers(net, NetGraphConnection(in), 2, true), "network", "not complete"); net.Initialize(); net.InitializeWeights(); for (auto* q : net.GetNodes()) if (dynamic_cast<ConvolutionLayer*>(q->layer)) w[k].push_back(weights(*q->layer)); free_net(net); CK(w[k].size() == n, "network", "layers"); }
  for (unsigned i = 0; i < n; i++) { std::string x = std::to_string(n) + " layers, seeds " + std::to_string(SV[s1]) + " and " + std::to_string(SV[s2]) + " layer " + std::to_string(i); CK(bits(w[0][i], w[1][i]) == (s1 == s2), s1 == s2 ? "network:same" : "network:different", x); for (unsigned j = 0; j < i; j++) CK(!bits(w[0][i], w[0][j]), "network:layers", x + " equals layer " + std::to_string(j)); c.state(mc::hash_bytes(w[0][i].data(), w[0][i].size() * 4)); } c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(t); }
// seeds in descriptions
static void descriptions(mc::Ctx& c) { sys_init(); unsigned s1 = c.choose(6, "seed"), s2 = c.choose(6, "other seed"), pos = c.choose(3, "position"), between = c.choose(3, "between"); c.shard(); static const char* SV[] = {"1", "2", "3", "77", "983923", "2147483647"}; std::vector<float> w[2]; c.site("descriptions"); c.trans(2);
  for (int k = 0; k < 2; k++) { std::string sd = std::string("seed=") + SV[k ? s2 : s1], d = pos == 0 ? "convolution(" + sd + " kernels=2 size=2x3)" : pos == 1 ? "convolution(kernels=2 " + sd + " size=2x3)" : "convolution(kernels=2 size=2x3 " + sd + ")"; Layer* L = LayerFactory::ConstructLayer(d); CK(L != nullptr, "description", d + " refused"); Rig r(L); r.input(1, 4, 4, 2); CK(r.up(), "description", d); L->OnLayerConnect({}); w[k] = weights(*L); disturb(between); }
  std::string x = std::string("seeds ") + SV[s1] + " and " + SV[s2]; if (s1 == s2) CK(bits(w[0], w[1]), "description:same", x); else CK(!bits(w[0], w[1]), "seed:description-seed-ignored", x + ": the weights are the same"); c.validated(); if (s1 != s2) c.nontrivial(); c.state(mc::hash_bytes(w[0].data(), w[0].size() * 4)); if (c.want_sample()) c.sample(x); }
// larger kernels, seeds that differ in one bit, deeper networks, longer sessions
static void large(mc::Ctx& c) { sys_init(); unsigned which = c.choose(4, "which"); c.trans(2); c.site("large"); std::string x; auto mk = [&](unsigned kw, unsigned kh, unsigned om, unsigned im, unsigned seed) { auto* r = new Rig(new ConvolutionLayer(kw, kh, om, 1, 1, 0, 0, 1, (int)seed, 0)); r->input(1, kw, kh, im); CK(r->up(), "layer", "refused"); r->L->OnLayerConnect({}); return std::unique_ptr<Rig>(r); };
  if (which == 0) { unsigned kw = 2, kh = 3, om = 2, im = 2; grow(c, {&kw, &kh, &om, &im}); c.shard(); x = "kernel " + std::to_string(kw) + "x" + std::to_string(kh) + kv("maps", im) + kv("kernels", om); g_fill = 0xff; auto a = mk(kw, kh, om, im, 77); g_fill = 0x3f; auto b = mk(kw, kh, om, im, 77); g_fill = -1; disturb(0); auto d = mk(kw, kh, om, im, 78); auto wa = weights(*a->L), wb = weights(*b->L), wd = weights(*d->L); CK(bits(wa, wb), "layer:same", x + ": different weights"); CK(!bits(wa, wd), "layer:different", x + ": the same weights");
    // no stretch of the weights is left out or repeats another
    std::map<float, unsigned> n; for (size_t i = 0; i < wa.size(); i++) { CK(std::isfinite(wa[i]) && std::fabs(wa[i]) < 100, "layer:finite", x); n[wa[i]]++; } for (auto& v : n) CK(v.second <= 3 + wa.size() / 5000, "layer:drawn", x + ": " + fmt(v.first) + " is drawn " + std::to_string(v.second) + " times of " + std::to_string(wa.size())); c.state(mc::hash_bytes(wa.data(), wa.size() * 4)); }
  else if (which == 1) { unsigned b1 = c.choose(33, "bit"), b2 = c.choose(32, "other bit"), base = c.pick(std::vector<unsigned>{0, 983923, 0xffffffffu}, "seed"); c.shard(); unsigned s1 = b1 == 32 ? base : base ^ 1u << b1, s2 = base ^ 1u << b2; x = "seeds " + std::to_string(s1) + " and " + std::to_string(s2); auto a = mk(2, 2, 2, 2, s1), b = mk(2, 2, 2, 2, s2); bool same = bits(weights(*a->L), weights(*b->L)); bool equal = s1 % 2147483647u == s2 % 2147483647u || (s1 % 2147483647u < 2 && s2 % 2147483647u < 2); if (s1 == s2) CK(same, "layer:same", x); else if (!equal) CK(!same, "layer:different", x + ": the same weights"); c.state(mc::mix(s1, s2)); }
  else if (which == 2) { unsigned n = c.pick(sizes(c), "layers"), s1 = c.choose(3, "seed"); c.shard(); static const unsigned SV[] = {0, 983923, 0xffffffffu}; std::string t; for (unsigned i = 0; i < n; i++) t += "?convolutional kernels=2 size=1x1\n"; t += "?output\n"; x = std::to_string(n) + " layers"; std::vector<std::vector<float>> w[2]; for (int k = 0; k < 2; k++) { g_fill = k ? 0x3f : 0xff; std::istringstream is(t); ConfigurableFactory f(is, SV[s1], false); Tensor a(1, 2, 2, 2), l(1, 2, 2, 2), h(1, 2, 2, 2), g(1, 2, 2, 1); NetGraph net; auto* in = new NetGraphNode(new InputLayer(a, l, h, g)); in->is_input = true; net.AddNode(in); CK(f.AddLayers(net, NetGraphConnection(in), 2, true), "network", "not complete"); net.Initialize(); net.InitializeWeights(); g_fill = -1; for (auto* q : net.GetNodes()) if (dynamic_cast<ConvolutionLayer*>(q->layer)) w[k].push_back(weights(*q->layer)); free_net(net); disturb(0); }
    CK(w[0].size() == n && w[1].size() == n, "network", x); for (unsigned i = 0; i < n; i++) { CK(bits(w[0][i], w[1][i]), "network:same", x + kv("layer", i)); if (i) CK(!bits(w[0][i], w[0][i - 1]), "network:layers", x + kv("layer", i)); } c.state(mc::mix(n, s1)); }
  else { unsigned f = c.choose((unsigned)CFG.size(), "configuration"), n = c.pick(std::vector<unsigned>{3, 8, 20, 33, 65}, "epochs"); Method me = c.flip("method") ? PATCH : FCN; if (me == PATCH && f == 3) c.skip(); c.shard(); x = "configuration " + std::to_string(f) + kv("epochs", n); std::unique_ptr<Session> s[2]; for (int k = 0; k < 2; k++) { s[k].reset(new Session()); s[k]->f = &CFG[f]; s[k]->seed = 5; s[k]->dseed = 6; s[k]->p = me == PATCH ? 1.f : 0.5f; s[k]->me = me; }
    for (unsigned i = 0; i < n + 2; i++) { for (int k = 0; k < 2; k++) { g_fill = k ? 0x3f : 0x00; s[k]->go(); if (s[k]->step == 5) s[k]->step = 4; g_fill = -1; if (k == 0 && i % 7 == 3) disturb(i % 3); } auto &a = s[0]->snap.back(), &b = s[1]->snap.back(); CK(bits(a, b), "twins:train again", x + " differ after step " + std::to_string(i)); s[0]->snap.erase(s[0]->snap.begin()); s[1]->snap.erase(s[1]->snap.begin()); c.trans(2); } c.state(mc::mix(f, n)); }
  c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(x); }
MC_MAIN({"large", large}, {"twins", twins}, {"layers", layers}, {"networks", networks}, {"descriptions", descriptions})
