// C33, C39: what is computed on the emulated device, and by the build without OpenCL
#ifndef GPURIG_H
#define GPURIG_H
#include "layerkinds.h"
#include "netrig.h"
#ifdef BUILD_OPENCL
#include "cl_device.h"
#include <CL/cl.h>
#include "private/CLHelper.h"
#define GPU(x) x
#else
#define GPU(x)
#endif
typedef std::vector<unsigned> Cfg;
static void cpu(Tensor& t) { GPU(t.MoveToCPU();) } static void place(Tensor& t, bool g) { GPU(if (g) { if (t.elements()) t.MoveToGPU(); } else t.MoveToCPU();) }
struct Out { std::vector<float> v; bool refused = false; void add(Tensor& t) { cpu(t); v.insert(v.end(), t.data_ptr_const(), t.data_ptr_const() + t.elements()); } void add(double x) { v.push_back((float)x); } };
static void vals(Tensor& t, unsigned salt, int amp = 3) { cpu(t); for (size_t e = 0; e < t.elements(); e++) t[e] = (float)(0.25 * smallint(e, salt, amp)); }
// what the network does before it runs a layer
static void prepare(Rig& r) { GPU(if (!r.L->IsOpenCLAware()) for (auto* v : {&r.in, &r.out}) for (auto* t : *v) { t->data.MoveToCPU(); t->delta.MoveToCPU(); }) }
// one layer on one list of shapes, with its tensors where the bits of where say
static Out layer(const Cfg& g, unsigned where) { static const std::vector<Kind> K = kinds(); const Kind& k = K[g[0]]; Out o; fresh_stats(); Shape s{g[1], g[2], g[3], g[4]}; std::vector<Shape> in{s}, model; if (k.inputs > 1) in.push_back(Shape{s.s, s.w, s.h, k.name == "concat" ? g[5] : s.m}); if (k.inputs > 2) in.push_back(Shape{s.s, s.w, s.h, 1}); if (!k.valid(in, model)) { o.refused = true; return o; }
  Rig r(k.make()); for (size_t i = 0; i < in.size(); i++) { auto* t = r.input(in[i]); vals(t->data, i + 1); if (i == 2) for (size_t e = 0; e < t->data.elements(); e++) t->data[e] = 0.25f * (e % 4); vals(t->delta, i + 40); } if (!r.up()) { o.refused = true; return o; } for (size_t i = 0; i < r.L->parameters().size(); i++) { vals(r.L->parameters()[i]->data, 60 + i); vals(r.L->parameters()[i]->delta, 70 + i); } for (auto* t : r.out) { vals(t->data, 80); vals(t->delta, 81); } r.L->SetBackpropagationEnabled(!k.nobp);
  for (int p = 0; p < 2; p++) {
    for (auto* t : r.in) { place(t->data, where & 1); place(t->delta, where & 2); } for (auto* t : r.out) { place(t->data, where & 2); place(t->delta, where & 4); } GPU(if (r.L->IsOpenCLAware()) for (auto* t : r.L->parameters()) { place(t->data, where & 4); place(t->delta, where & 2); })
    prepare(r); r.L->FeedForward(); for (auto* t : r.out) o.add(t->data); for (auto* t : r.in) { if (p) o.add(t->data); place(t->data, where & 1); } if (auto* l = dynamic_cast<LossFunctionLayer*>(r.L)) { prepare(r); o.add(l->CalculateLossFunction()); }
    if (!k.nobp || k.name.compare(0, 6, "resize") == 0) { for (auto* t : r.out) { vals(t->delta, 90 + p); place(t->delta, where & 4); place(t->data, where & 2); } for (auto* t : r.in) place(t->delta, where & 1); prepare(r); r.L->BackPropagate(); for (auto* t : r.in) { o.add(t->delta); o.add(t->data); } for (auto* t : r.out) { o.add(t->data); o.add(t->delta); } for (auto* t : r.L->parameters()) { o.add(t->delta); o.add(t->data); } }
    cpu(r.in[0]->data); for (size_t e = 0; e < r.in[0]->data.elements(); e++) r.in[0]->data[e] = -r.in[0]->data[e]; }
  return o; }
// matrix and tensor operations
static Out math(const Cfg& g, unsigned where) { Out o; sys_init(); int a = g[1], b = g[2], d = g[3]; unsigned f = g[4]; auto P = [&](Tensor& A, Tensor& B, unsigned k = 1) { place(A, where & k); place(B, where & (k * 2)); }; switch (g[0]) {
  case 0: { const int q = std::max(std::max(4, a), std::max(b, d)); Tensor A(2, q, q, 2), B(2, q, q, 2), C(2, q, q, 2); vals(A, 1); vals(B, 2); vals(C, 3); P(A, B); place(C, where & 4); TensorMath::GEMM(true, f & 2, f & 4, a, b, d, 0.5f, A, f >> 3 & 1, q, B, 0, q, f & 16 ? 0.25f : 0.f, C, f >> 3 & 1, q); o.add(C); o.add(A); o.add(B); break; }
  case 1: { const int q = std::max(4, std::max(a, b)); Tensor A(2, q, q, 1), X(2, d, q, 1), Y(2, d, q, 1); if (d < 4) { X.Resize(2, 4, q, 1); Y.Resize(2, 4, q, 1); } vals(A, 1); vals(X, 2); vals(Y, 3); P(A, X); place(Y, where & 4); TensorMath::GEMV(true, f & 2, a, b, 0.5f, A, f >> 3 & 1, q, X, 0, d, f & 16 ? 0.25f : 0.f, Y, 1, d); o.add(Y); o.add(A); o.add(X); break; }
  case 2: case 3: { int kw = 1 + (f & 1), kh = 1 + (f >> 1 & 1), sw = 1 + (f >> 2 & 1), sh = 1 + (f >> 3 & 1), pw = f >> 4 & 1, ph = f >> 4 & 1, s = 1 + (f + a) % 2; if (f & 1 && a == 3) kw = 3; if (a + 2 * pw < kw || b + 2 * ph < kh) { o.refused = true; break; } int ow = (a + 2 * pw - kw) / sw + 1, oh = (b + 2 * ph - kh) / sh + 1; Tensor S(s, a, b, d), T(kw * kh * d, ow, oh, s); vals(S, 1); vals(T, 2); P(S, T); if (g[0] == 2) TensorMath::IM2COL(S, a, b, d, s, kw, kh, sw, sh, pw, ph, T); else TensorMath::COL2IM(S, a, b, d, s, kw, kh, sw, sh, pw, ph, T); o.add(T); o.add(S); break; }
  case 4: { Tensor A(a, b, d, 2); vals(A, 1); place(A, where & 1); TensorMath::SETSAMPLE(A, (int)f % (a + 1) - 1, 0.5f); o.add(A); break; }
  case 5: { Tensor A(a, b, d, 1 + f % 3), B(1 + f % 3, b, d, a); vals(A, 1); vals(B, 2); P(A, B); TensorMath::SMS(A, B); o.add(B); o.add(A); break; }
  case 6: { int x = 1 + f % 3, y = 1 + f / 3 % 3; Tensor A(a, b * x, d * y, 2), B(a, b, d, 2); vals(A, 1); vals(B, 2); P(A, B); TensorMath::DOWN(A, B, x, y, 0.5f); o.add(B); o.add(A); break; }
  case 7: { int x = 1 + f % 3, y = 1 + f / 3 % 3; Tensor A(a, b, d, 2), B(a, b * x, d * y, 2); vals(A, 1); vals(B, 2); P(A, B); TensorMath::UP(A, B, x, y, 0.5f); o.add(B); o.add(A); break; }
  case 8: { Tensor A(a, b, d, 2), B(a, b, d, 2), C(a, b, d, 2); vals(A, 1); vals(B, 2); P(A, B); place(C, where & 4); TensorMath::ADD(A, B, C); o.add(C); o.add(A); o.add(B); break; }
  } return o; }
static const char* NETS[] = {"?convolutional size=3x2 kernels=2\n?maxpooling size=2x2\n?relu\n?convolutional size=1x1 kernels=4\n?tanh\n?fullyconnected neurons=(o)\n?output\n", "?convolutional size=2x2 kernels=2\n?lrn method=across size=3 alpha=0.5 beta=0.75\npusha\n?relu\npusha\n?sum stack=a\n?sigm\n?spatialprior\n?fullyconnected neurons=(o)\n?output\n", "?amaxpooling size=3x3 stride=2x1\n?convolutional size=1x1 kernels=2 group=1\npushb\n?hmax mu=0.5 weight=0.25\npushb\n?concat stack=b\n?lrn method=within size=3\n?fullyconnected neurons=(o)\n?output\n", "?tanh\npusha\n?sigm\npusha\n?sum stack=a\npushb\n?maxpooling size=2x1\n?convolutional size=2x2 kernels=3\n?tanh\n?fullyconnected neurons=(o)\n?output\n"};
static std::vector<float> params(NetGraph& g, bool grads) { std::vector<CombinedTensor*> p; g.GetParameters(p); Out o; for (auto* q : p) o.add(grads ? q->delta : q->data); return o.v; }
// a training session with saving and loading: network, method, classes, samples per batch, optimisation
static Out train(const Cfg& g, unsigned) { Out o; sys_init(); std::istringstream f(std::string(g[1] ? "method=patch\n" : "") + NETS[g[0]]); ConfigurableFactory fac(f, 3, true); SynthData d(g[1] ? PATCH : FCN, g[1] ? fac.patchsizex() : 8, g[1] ? fac.patchsizey() : 4, 3, 2, 2, g[2]); NetGraph net; auto* in = new NetGraphNode(new DatasetInputLayer(d, g[3], g[1] ? 1.0 : 0.5, 11)); in->is_input = true; net.AddNode(in); if (!fac.AddLayers(net, NetGraphConnection(in), g[2], true)) { o.refused = true; return o; } net.Initialize(); net.InitializeWeights(); auto add = [&](bool grads) { for (float x : params(net, grads)) o.add(x); }; add(false);
  TrainerSettings s; s.iterations = 2; s.learning_rate = 0.125; s.momentum = 0.5; s.optimization_method = g[4] ? QUICKPROP : GRADIENT_DESCENT; s.sbatchsize = 2; Trainer t(net, s); t.Train(1, false); std::stringstream file; net.SerializeParameters(file); add(false); add(true); t.Test(); for (auto* n : net.GetOutputNodes()) o.add(n->output_buffers[0].combined_tensor->data); t.Train(1, false); add(false); net.DeserializeParameters(file); add(false); t.Test(); for (auto* n : net.GetOutputNodes()) o.add(n->output_buffers[0].combined_tensor->data); net.FeedForward(); net.BackPropagate(); add(true); free_net(net); return o; }
// tensors under histories of operations that may move them; three tensors of which the third shadows the first
static Out tensors(const Cfg& g, unsigned) { Out o; sys_init(); Tensor a(2, 2, 1, 1), b(2, 2, 1, 1); Tensor* s = new Tensor(2, 2, 1, 1); vals(a, 1); vals(b, 2); vals(*s, 3); unsigned n = 10; auto write = [&](Tensor& t, float x) { cpu(t); for (size_t e = 0; e < t.elements(); e++) t[e] += x * (e + 1); };
  for (size_t i = 0; i < g.size(); i++) switch (g[i]) {
    case 0: place(a, true); break; case 1: place(*s, true); break; case 2: place(*s, false); break; case 3: write(a, n++); break; case 4: write(*s, n++); break; case 5: TensorMath::SETSAMPLE(a, -1, n++); break; case 6: TensorMath::SETSAMPLE(*s, 1, n++); break; case 7: TensorMath::ADD(a, *s, b); break; case 8: s->Shadow(a); break; case 9: { std::stringstream f; a.Serialize(f); s->Deserialize(f); break; } case 10: { Tensor t(std::move(b)); o.add(t); b.Resize(2, 2, 1, 1); vals(b, n++); break; } case 11: TensorMath::UP(a, *s, 1, 1, 2); break; case 12: { CombinedTensor c(2, 2, 1, 1); place(c.data, true); c.data.Shadow(a); TensorMath::DOWN(c.data, b, 1, 1, 0.5f); break; } case 13: { delete s; s = new Tensor(2, 2, 1, 1); s->Clear(n++); break; } case 14: a.Clear(n++, 1); break; case 15: s->Reshape(1, 2, 2, 1); s->Reshape(2, 2, 1, 1); break; case 16: { b.Resize(1, 3, 2, 1); vals(b, n++); place(b, true); o.add(b); b.Resize(2, 2, 1, 1); vals(b, n++); break; } }
  o.add(a); o.add(b); o.add(*s); delete s; return o; }
static Out compute(unsigned b, const Cfg& g, unsigned where) { return b == 0 ? layer(g, where) : b == 1 ? math(g, where) : b == 2 ? train(g, where) : tensors(g, where); }
#ifndef BUILD_OPENCL
// the build without OpenCL answers requests
static struct Server { Server() { if (!getenv("GPU_SERVER")) return; mc::silence(); char line[400]; while (fgets(line, 400, stdin)) { std::istringstream i(line); unsigned b, x; i >> b; Cfg g; while (i >> x) g.push_back(x); Out o = compute(b, g, 0); unsigned n = o.refused ? 0xffffffffu : o.v.size(); fwrite(&n, 4, 1, stdout); if (!o.refused) fwrite(o.v.data(), 4, n, stdout); fflush(stdout); } _exit(0); } } server;
#else
static FILE *to, *from; static pid_t owner;
static Out ask(unsigned b, const Cfg& g) { if (owner != getpid()) { owner = getpid(); int a[2], d[2]; if (pipe(a) || pipe(d)) abort(); if (!fork()) { dup2(a[0], 0); dup2(d[1], 1); for (int f = 3; f < 64; f++) close(f); setenv("GPU_SERVER", "1", 1); execl(getenv("WITHOUT"), "without", (char*)0); _exit(9); } close(a[0]); close(d[1]); to = fdopen(a[1], "w"); from = fdopen(d[0], "r"); }
  fprintf(to, "%u", b); for (unsigned x : g) fprintf(to, " %u", x); fputc('\n', to); fflush(to); Out o; unsigned n = 0; if (fread(&n, 4, 1, from) != 1) { fprintf(stderr, "gpu: no answer\n"); _exit(3); } if (n == 0xffffffffu) { o.refused = true; return o; } o.v.resize(n); if (n && fread(o.v.data(), 4, n, from) != n) { fprintf(stderr, "gpu: no answer\n"); _exit(3); } return o; }
#endif
#endif
