// C28: every computation under every order of the threads of its parallel loops, against the single-threaded build
#include "layerkinds.h"
#include "netrig.h"
#include "imgio.h"
#include <fcntl.h>
#include <set>
#include "private/Segmentation.h"
#ifdef _OPENMP_DRIVER
#include "omp_sched.h"
#endif
typedef std::vector<unsigned> Cfg;
struct Out { std::vector<float> v; bool refused = false; void add(const Tensor& t) { v.insert(v.end(), t.data_ptr_const(), t.data_ptr_const() + t.elements()); } void add(double x) { v.push_back((float)x); } uint64_t hash() const { return mc::mix(mc::hash_bytes(v.data(), v.size() * 4), v.size() * 2 + refused); } };
struct Sink : StatSink { Out& o; explicit Sink(Out& o) : o(o) {} void Initialize(std::vector<StatDescriptor*>&) override {} void SetCurrentExperiment(std::string) override {} void Process(HardcodedStats&, std::vector<Stat*>& s) override { for (auto* x : s) o.add(x->is_null ? -1 : x->value); } };
static void vals(Tensor& t, unsigned salt) { for (size_t e = 0; e < t.elements(); e++) t[e] = (float)(0.3 * smallint(e, salt, 5) + 0.01 * (double)(e % 7)); }
// one layer on one list of shapes: layer, samples, width, height, maps, second maps
static Out layer(const Cfg& g) { static const std::vector<Kind> K = kinds(); const Kind& k = K[g[0]]; Out o; fresh_stats(); Sink sink(o); Shape s{g[1], g[2], g[3], g[4]}; std::vector<Shape> in{s}, model; if (k.inputs > 1) in.push_back(Shape{s.s, s.w, s.h, k.name == "concat" ? g[5] : s.m}); if (k.inputs > 2) in.push_back(Shape{s.s, s.w, s.h, 1}); if (!k.valid(in, model)) { o.refused = true; return o; }
  Rig r(k.make()); for (size_t i = 0; i < in.size(); i++) { auto* t = r.input(in[i]); vals(t->data, i + 1); if (i == 2) for (size_t e = 0; e < t->data.elements(); e++) t->data[e] = 0.25f * (e % 4); vals(t->delta, i + 40); } if (!r.up()) { o.refused = true; return o; } for (size_t i = 0; i < r.L->parameters().size(); i++) { vals(r.L->parameters()[i]->data, 60 + i); vals(r.L->parameters()[i]->delta, 70 + i); } for (auto* t : r.out) vals(t->data, 80); r.L->SetBackpropagationEnabled(!k.nobp); System::stat_aggregator->RegisterSink(&sink); System::stat_aggregator->Initialize(); System::stat_aggregator->StartRecording();
  for (int p = 0; p < 2; p++) { r.L->FeedForward(); for (auto* t : r.out) { o.add(t->data); vals(t->delta, 90 + p); } if (auto* l = dynamic_cast<LossFunctionLayer*>(r.L)) o.add(l->CalculateLossFunction()); if (auto* l = dynamic_cast<StatLayer*>(r.L)) { l->UpdateAll(); System::stat_aggregator->Generate(); } if (!k.nobp || k.name.compare(0, 6, "resize") == 0) { r.L->BackPropagate(); for (auto* t : r.in) o.add(t->delta); for (auto* t : r.L->parameters()) o.add(t->delta); } for (size_t e = 0; e < r.in[0]->data.elements(); e++) r.in[0]->data[e] = -r.in[0]->data[e]; }
  System::stat_aggregator->StopRecording(); return o; }
// matrix and tensor operations
static Out math(const Cfg& g) { Out o; sys_init(); int a = g[1], b = g[2], d = g[3]; unsigned f = g[4]; switch (g[0]) {
  case 0: { const int q = std::max(std::max(4, a), std::max(b, d)); Tensor A(2, q, q, 2), B(2, q, q, 2), C(2, q, q, 2); vals(A, 1); vals(B, 2); vals(C, 3); TensorMath::GEMM(true, f & 2, f & 4, a, b, d, 0.5f, A, f >> 3 & 1, q, B, 0, q, f & 16 ? 0.25f : 0.f, C, f >> 3 & 1, q); o.add(C); break; }
  case 1: { const int q = std::max(4, std::max(a, b)), z = std::max(4, d); Tensor A(2, q, q, 1), X(2, z, q, 1), Y(2, z, q, 1); vals(A, 1); vals(X, 2); vals(Y, 3); TensorMath::GEMV(true, f & 2, a, b, 0.5f, A, f >> 3 & 1, q, X, 0, d, f & 16 ? 0.25f : 0.f, Y, 1, d); o.add(Y); break; }
  case 2: case 3: { int kw = 1 + (f & 1), kh = 1 + (f >> 1 & 1), sw = 1 + (f >> 2 & 1), sh = 1 + (f >> 3 & 1), pw = f >> 4 & 1, ph = f >> 4 & 1, s = 2; if (a + 2 * pw < kw || b + 2 * ph < kh) { o.refused = true; break; } int ow = (a + 2 * pw - kw) / sw + 1, oh = (b + 2 * ph - kh) / sh + 1; Tensor S(s, a, b, d), T(kw * kh * d, ow, oh, s); vals(S, 1); vals(T, 2); if (g[0] == 2) { TensorMath::IM2COL(S, a, b, d, s, kw, kh, sw, sh, pw, ph, T); o.add(T); } else { TensorMath::COL2IM(S, a, b, d, s, kw, kh, sw, sh, pw, ph, T); o.add(S); } break; }
  case 4: { Tensor A(a, b, d, 2); vals(A, 1); TensorMath::SETSAMPLE(A, (int)f % (a + 1) - 1, 0.5f); o.add(A); break; }
  case 5: { Tensor A(a, b, d, 1 + f % 3), B(1 + f % 3, b, d, a); vals(A, 1); vals(B, 2); TensorMath::SMS(A, B); o.add(B); break; }
  case 6: { int x = 1 + f % 3, y = 1 + f / 3 % 3; Tensor A(a, b * x, d * y, 2), B(a, b, d, 2); vals(A, 1); vals(B, 2); TensorMath::DOWN(A, B, x, y, 0.5f); o.add(B); break; }
  case 7: { int x = 1 + f % 3, y = 1 + f / 3 % 3; Tensor A(a, b, d, 2), B(a, b * x, d * y, 2); vals(A, 1); vals(B, 2); TensorMath::UP(A, B, x, y, 0.5f); o.add(B); break; }
  case 8: { Tensor A(a, b, d, 2), B(a, b, d, 2), C(a, b, d, 2); vals(A, 1); vals(B, 2); TensorMath::ADD(A, B, C); o.add(C); break; }
  case 9: { Tensor A(2, a, b, d), B(3, a + f % 2, b + f / 2 % 2, d); vals(A, 1); vals(B, 2); Tensor::CopySample(A, 1, B, f % 3); o.add(B); Tensor::CopyMap(A, 0, d - 1, B, 1, 0); o.add(B); Tensor C, E; C.Resize(2, a, b, d); C.Clear(0.5f, f % 2); CompressedTensor ct; ct.Compress(A); ct.Decompress(E); o.add(E); break; }
  } return o; }
static void write_set(unsigned n, unsigned w, unsigned h, unsigned classes, const char* f) { std::ostringstream s; for (unsigned i = 0; i < n; i++) { Tensor d(1, w + i, h, 3), l(1, w + i, h, classes); vals(d, i + 1); for (size_t e = 0; e < l.elements(); e++) l[e] = classes == 1 ? (e % 3 ? 1.f : -1.f) : (float)((e * 7 + i) % 3); d.Serialize(s); l.Serialize(s); } spit(f, s.str()); }
static std::string set_text(unsigned classes, unsigned f) { std::string s = "classes=" + std::to_string(classes) + "\n"; for (unsigned i = 0; i < classes; i++) s += "c\n"; s += "colors\n"; for (unsigned i = 0; i < classes; i++) s += "0x10203" + std::to_string(i) + "\n"; if (f & 1) { s += "weights\n"; for (unsigned i = 0; i < classes; i++) s += std::to_string(i + 1) + ".5\n"; } if (f & 2) s += "localized_error=kitti\n"; if (f & 4) s += "nommap\n"; return s + "training=tr.dat\ntesting=te.dat\n"; }
// loading samples: kind, width, height, classes, flags
static Out data(const Cfg& g) { Out o; sys_init(); unsigned classes = g[3]; write_set(2, g[1], g[2], classes, "tr.dat"); write_set(1, g[1] + 1, g[2], classes, "te.dat"); std::istringstream is(set_text(classes, g[4])); bool open[64]; for (int f = 0; f < 64; f++) open[f] = fcntl(f, F_GETFD) >= 0;
  if (g[0] == 0) { std::unique_ptr<TensorStreamDataset> d(TensorStreamDataset::CreateFromConfiguration(is)); Tensor D(2, d->GetWidth(), d->GetHeight(), 3), L(2, d->GetWidth(), d->GetHeight(), classes), H(2, d->GetWidth(), d->GetHeight(), 2), W(2, d->GetWidth(), d->GetHeight(), 1); for (Tensor* t : {&D, &L, &H, &W}) fill(*t, 3); for (int k = 0; k < 3; k++) { bool ok = k < 2 ? d->GetTrainingSample(D, L, H, W, k, k) : d->GetTestingSample(D, L, H, W, 1, 0); o.add(ok); for (Tensor* t : {&D, &L, &H, &W}) o.add(*t); } Tensor img(2, D.width(), D.height(), 3); d->Colorize(L, img); o.add(img); }
  else { std::unique_ptr<TensorStreamPatchDataset> d(TensorStreamPatchDataset::CreateFromConfiguration(is, false, LOAD_BOTH, 2, 1)); unsigned n = d->GetTrainingSamples(), m = d->GetTestingSamples(); Tensor D(n + m, 2, 1, 3), L(n + m, 1, 1, classes), H(n + m, 1, 1, 2), W(n + m, 1, 1, 1); for (unsigned k = 0; k < n + m; k++) o.add(k < n ? d->GetTrainingSample(D, L, H, W, k, k) : d->GetTestingSample(D, L, H, W, k, k - n)); for (Tensor* t : {&D, &L, &H, &W}) o.add(*t); }
  for (int f = 0; f < 64; f++) if (!open[f]) close(f); return o; }
static const char* NETS[] = {"?convolutional size=3x2 kernels=2\n?maxpooling size=2x2\n?relu\n?convolutional size=1x1 kernels=4\n?tanh\n?fullyconnected neurons=(o)\n?output\n", "?convolutional size=2x2 kernels=2\n?lrn method=across size=3 alpha=0.5 beta=0.75\npusha\n?relu\npusha\n?sum stack=a\n?sigm\n?spatialprior\n?fullyconnected neurons=(o)\n?output\n", "?amaxpooling size=3x3 stride=2x1\n?convolutional size=1x1 kernels=2 group=1\npushb\n?hmax mu=0.5 weight=0.25\npushb\n?concat stack=b\n?lrn method=within size=3\n?fullyconnected neurons=(o)\n?output\n"};
// a training session: network, method, classes, samples per batch, optimisation
static Out train(const Cfg& g) { Out o; sys_init(); std::istringstream f(std::string(g[1] ? "method=patch\n" : "") + NETS[g[0]]); ConfigurableFactory fac(f, 3, true); SynthData d(g[1] ? PATCH : FCN, g[1] ? fac.patchsizex() : 8, g[1] ? fac.patchsizey() : 4, 3, 2, 2, g[2]); NetGraph net; auto* in = new NetGraphNode(new DatasetInputLayer(d, g[3], g[1] ? 1.0 : 0.5, 11)); in->is_input = true; net.AddNode(in); if (!fac.AddLayers(net, NetGraphConnection(in), g[2], true)) { o.refused = true; return o; } net.Initialize(); net.InitializeWeights(); TrainerSettings s; s.iterations = 2; s.learning_rate = 0.125; s.momentum = 0.5; s.optimization_method = g[4] ? QUICKPROP : GRADIENT_DESCENT; s.sbatchsize = 2; Trainer t(net, s); t.Train(1, false); for (float x : all_params(net)) o.add(x); for (float x : all_params(net, true)) o.add(x); t.Test(); for (auto* n : net.GetOutputNodes()) o.add(n->output_buffers[0].combined_tensor->data); o.add(net.AggregateLoss()); t.Train(1, false); for (float x : all_params(net)) o.add(x); free_net(net); return o; }
// images: width, height, format
static Out images(const Cfg& g) { Out o; sys_init(); Tensor t(1, g[0], g[1], 3); for (size_t e = 0; e < t.elements(); e++) t[e] = (float)(e * 37 % 256) / 255.f; std::string f = g[2] ? "i.jpg" : "i.png"; t.WriteToFile(f); Tensor r(f); o.add(r); Tensor s(1, g[0] + 1, g[1] + 2, 3), m(1, g[0], g[1], 3); Segmentation::ExtractPatches(2, 2, s, m, r, 0, true); o.add(s); return o; }
static const char* BODY[] = {"layer", "math", "data", "train", "images"};
static Out compute(unsigned b, const Cfg& g) { return b == 0 ? layer(g) : b == 1 ? math(g) : b == 2 ? data(g) : b == 3 ? train(g) : images(g); }
#ifndef _OPENMP_DRIVER
// the single-threaded build answers requests
static struct Server { Server() { if (!getenv("PARALLEL_SERVER")) return; mc::silence(); char line[400]; while (fgets(line, 400, stdin)) { std::istringstream i(line); unsigned b, x; i >> b; Cfg g; while (i >> x) g.push_back(x); Out o = compute(b, g); printf("%llx\n", (unsigned long long)o.hash()); fflush(stdout); } _exit(0); } } server;
static void nothing(mc::Ctx& c) { c.shard(); }
MC_MAIN({"nothing", nothing})
#else
static FILE *to, *from; static pid_t child, owner;
static uint64_t ask(unsigned b, const Cfg& g) { if (owner != getpid()) { owner = getpid(); int a[2], d[2]; if (pipe(a) || pipe(d)) abort(); child = fork(); if (!child) { dup2(a[0], 0); dup2(d[1], 1); for (int f = 3; f < 64; f++) close(f); mkdir("server", 0777); if (chdir("server")) _exit(9); setenv("PARALLEL_SERVER", "1", 1); execl(getenv("SEQUENTIAL"), "sequential", (char*)0); _exit(9); } close(a[0]); close(d[1]); to = fdopen(a[1], "w"); from = fdopen(d[0], "r"); }
  fprintf(to, "%u", b); for (unsigned x : g) fprintf(to, " %u", x); fputc('\n', to); fflush(to); char line[64]; if (!fgets(line, 64, from)) return 0xdead; return strtoull(line, 0, 16); }
static void run(mc::Ctx& c, unsigned b, const Cfg& g, const std::string& name) {
  std::string d = name; for (unsigned x : g) d += " " + std::to_string(x); omp::State& s = omp::state(); c.site(d); Out base; bool first = true; uint64_t regions = s.regions, sched = s.schedules; static const unsigned TT[] = {1, 250, 2, 3, 4};
  for (unsigned t : TT) { unsigned n = omp::orders(t); if (!c.thorough() && t == 4) n = 0; if (b > 1 && t == 4 && !c.thorough()) n = 0; for (unsigned k = 0; k < n; k++) { unsigned order = t == 4 && !c.thorough() ? k * 23 : k; if (order >= omp::orders(t)) break; s.threads = t; s.order = order; s.conflict.clear(); s.record = true; std::string x = d + ": " + std::to_string(t) + " threads, order " + std::to_string(order); c.site(x); Out o = compute(b, g); s.threads = 1; s.order = 0; c.trans();
      CK(s.conflict.empty(), "parallel:conflict", x + ": " + s.conflict); if (first) { base = o; first = false; if (s.regions == regions && b != 4 && t == 1) {} } else { CK(base.refused == o.refused && base.v.size() == o.v.size(), "parallel:result", x + " has another shape"); for (size_t i = 0; i < o.v.size(); i++) CK(same_bits(o.v[i], base.v[i]), "parallel:result", x + ": value " + std::to_string(i) + " is " + fmt(o.v[i]) + ", with one thread " + fmt(base.v[i])); } } }
  uint64_t h = ask(b, g); CK(h == base.hash(), "parallel:sequential", d + ": the single-threaded build gives another result"); c.count("parallel regions", s.regions - regions); c.count("thread turns", s.schedules - sched); c.state(base.hash()); if (base.refused) { c.count("refused"); c.validated(); return; } c.validated(); if (s.regions > regions) c.nontrivial(); if (c.want_sample()) c.sample(d + kv("regions", s.regions - regions)); }
static void layers(mc::Ctx& c) { static const std::vector<Kind> K = kinds(); unsigned D = c.thorough() ? 5 : 4; Cfg g{c.choose((unsigned)K.size(), "layer"), (unsigned)c.range(1, 3, "samples"), (unsigned)c.range(1, D, "w"), (unsigned)c.range(1, D, "h"), (unsigned)c.range(1, c.thorough() ? 4 : 3, "maps")}; g.push_back(K[g[0]].name == "concat" ? c.range(1, 3, "maps") : 1); c.shard(); run(c, 0, g, K[g[0]].name); }
static void maths(mc::Ctx& c) { Cfg g{c.choose(10, "operation"), (unsigned)c.range(1, 3, "a"), (unsigned)c.range(1, 4, "b"), (unsigned)c.range(1, 3, "d")}; g.push_back(c.choose(g[0] < 4 ? 32 : 9, "flags")); c.shard(); run(c, 1, g, "operation"); }
static void datas(mc::Ctx& c) { Cfg g{c.choose(2, "method"), (unsigned)c.range(2, c.thorough() ? 5 : 4, "w"), (unsigned)c.range(1, c.thorough() ? 5 : 3, "h"), (unsigned)c.range(1, 3, "classes"), c.choose(8, "flags")}; c.shard(); run(c, 2, g, "samples"); }
static void trains(mc::Ctx& c) { Cfg g{c.choose(3, "network"), c.choose(2, "method"), (unsigned)c.range(1, 2, "classes"), (unsigned)c.range(1, 3, "batch"), c.choose(2, "optimisation")}; c.shard(); run(c, 3, g, "training"); }
// layers, operations, samples and images of larger sizes
static void large(mc::Ctx& c) { unsigned which = c.choose(4, "which"); if (which == 0) { static const std::vector<Kind> K = kinds(); std::vector<unsigned> on; std::set<std::string> seen; for (unsigned k = 0; k < K.size(); k++) { std::string t = K[k].name.substr(0, K[k].name.find(' ')); if (c.thorough() || seen.insert(t).second || (t == "convolution" && k % 3 == 0)) on.push_back(k); } unsigned k = c.pick(on, "layer"), s = 2, w = 5, h = 4, m = 2; grow(c, {&s, &w, &h, &m}, c.thorough()); c.shard(); run(c, 0, Cfg{k, s, w, h, m, 1}, K[k].name); }
  else if (which == 1) { unsigned op = c.choose(10, "operation"), a = 3, b = 2, d = 3; grow(c, {&a, &b, &d}, c.thorough()); unsigned f = c.pick(op < 2 ? std::vector<unsigned>{0, 6, 31} : op < 4 ? std::vector<unsigned>{1, 7, 25} : std::vector<unsigned>{0, 5, 7}, "flags"); c.shard(); run(c, 1, Cfg{op, a, b, d, f}, "operation"); }
  else if (which == 2) { unsigned me = c.choose(2, "method"), w = 4, h = 3, f = c.choose(2, "flags") * 3; grow(c, {&w, &h}, false); if (me && w * h > 400) c.skip(); c.shard(); run(c, 2, Cfg{me, w, h, 2, f}, "samples"); } else { unsigned w = 5, h = 4, f = c.choose(2, "format"); grow(c, {&w, &h}, false); c.shard(); run(c, 4, Cfg{w, h, f}, "image"); } }
static void imgs(mc::Ctx& c) { Cfg g{(unsigned)c.range(1, 5, "w"), (unsigned)c.range(1, 5, "h"), c.choose(2, "format")}; c.shard(); run(c, 4, g, "image"); }
MC_MAIN({"large", large}, {"layers", layers}, {"maths", maths}, {"datas", datas}, {"trains", trains}, {"imgs", imgs})
#endif
