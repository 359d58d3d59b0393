// C33: the OpenCL build on an emulated device, for every order of the work items, against the build without OpenCL
#include "gpurig.h"
#ifndef BUILD_OPENCL
static void nothing(mc::Ctx& c) { c.shard(); }
MC_MAIN({"nothing", nothing})
#else
static void run(mc::Ctx& c, unsigned b, const Cfg& g, const std::string& name, unsigned wheres, unsigned orders, double tol) {
  std::string d = name; for (unsigned x : g) d += " " + std::to_string(x); cld::State& s = cld::state(); c.site(d); Out want = ask(b, g); uint64_t la = s.launches, it = s.items, ac = s.accesses; auto names = s.kernels;
  for (unsigned w = 0; w < wheres; w++) for (unsigned k = 0; k < orders; k++) { s.order = k; s.late = k % 2; s.problem.clear(); std::string x = d + ": placement " + std::to_string(w) + ", order " + std::to_string(k); c.site(x); Out o; bool thrown = false; try { o = compute(b, g, w); } catch (std::runtime_error&) { thrown = true; } c.trans(); CK(s.problem.empty(), "gpu:" + s.problem.substr(0, s.problem.find(':')), x + ": " + s.problem); CK(!thrown, "gpu:exception", x + ": an exception ends it");
    CK(o.refused == want.refused && o.v.size() == want.v.size(), "gpu:result", x + " has another shape"); for (size_t i = 0; i < o.v.size(); i++) { double p = o.v[i], q = want.v[i]; CK(p == q || (std::isnan(p) && std::isnan(q)) || std::fabs(p - q) <= tol * std::max(1.0, std::fabs(q)), "gpu:result", x + ": value " + std::to_string(i) + " of " + std::to_string(o.v.size()) + " is " + fmt(p) + ", without OpenCL " + fmt(q)); } if (want.refused) break; }
  c.count("launches", s.launches - la); c.count("work items", s.items - it); c.count("device accesses", s.accesses - ac); for (auto& q : s.kernels) { uint64_t n = q.second - names[q.first]; if (n) c.count(q.first, n); } c.state(mc::hash_bytes(want.v.data(), want.v.size() * 4)); c.validated(); if (want.refused) { c.count("refused"); return; } if (s.launches > la) c.nontrivial(); if (c.want_sample()) c.sample(d + kv("launches", s.launches - la)); }
static bool smooth(const std::string& n) { for (const char* k : {"tanh", "sigm", "softmax", "lrn", "hmax", "crossentropy"}) if (n.find(k) != std::string::npos) return true; return false; }
static void layers(mc::Ctx& c) { static const std::vector<Kind> K = kinds(); Cfg g{c.choose((unsigned)K.size(), "layer"), (unsigned)c.range(1, c.thorough() ? 3 : 2, "samples"), (unsigned)c.range(1, c.thorough() ? 6 : 5, "w"), (unsigned)c.range(1, c.thorough() ? 5 : 4, "h"), (unsigned)c.range(1, c.thorough() ? 4 : 3, "maps")}; g.push_back(K[g[0]].name == "concat" ? c.range(1, 3, "maps") : 1); c.shard(); run(c, 0, g, K[g[0]].name, 8, c.thorough() ? 6 : 3, smooth(K[g[0]].name) ? 2e-6 : 0); }
static void maths(mc::Ctx& c) { Cfg g{c.choose(9, "operation"), (unsigned)c.range(1, 4, "a"), (unsigned)c.range(1, 4, "b"), (unsigned)c.range(1, 3, "d")}; g.push_back(c.choose(g[0] < 4 ? 32 : 9, "flags")); c.shard(); run(c, 1, g, "operation", 8, c.thorough() ? 24 : 3, 0); }
static void trains(mc::Ctx& c) { Cfg g{c.choose(4, "network"), c.choose(2, "method"), (unsigned)c.range(1, 2, "classes"), (unsigned)c.range(1, 3, "batch"), c.choose(2, "optimisation")}; c.shard(); run(c, 2, g, "training", 1, 4, 1e-4); }
static void tensorss(mc::Ctx& c) { unsigned n = c.range(1, c.thorough() ? 5 : 4, "length"); Cfg g; for (unsigned i = 0; i < n; i++) g.push_back(c.choose(17, "operation")); c.shard(); run(c, 3, g, "tensors", 1, 2, 0); }
// the kernels by themselves, also those no layer uses any more
typedef std::vector<float> V; static V ints(size_t n, unsigned salt) { V v(n); for (size_t i = 0; i < n; i++) v[i] = (float)smallint(i, salt); return v; }
struct Launch { cl_kernel k; std::vector<cl_mem> mem; unsigned n = 0; explicit Launch(cl_kernel k) : k(k) {} ~Launch() { for (auto m : mem) clReleaseMemObject(m); }
  Launch& buf(const V& v) { cl_int e; cl_mem m = clCreateBuffer(CLHelper::context, CL_MEM_READ_WRITE, v.size() * 4, 0, &e); mem.push_back(m); clEnqueueWriteBuffer(CLHelper::queue, m, CL_TRUE, 0, v.size() * 4, v.data(), 0, 0, 0); ok &= clSetKernelArg(k, n++, sizeof m, &m) == CL_SUCCESS; return *this; } Launch& u(unsigned x) { ok &= clSetKernelArg(k, n++, 4, &x) == CL_SUCCESS; return *this; } Launch& f(float x) { ok &= clSetKernelArg(k, n++, 4, &x) == CL_SUCCESS; return *this; }
  bool ok = true; bool go(size_t a, size_t b = 0, size_t c = 0) { size_t g[3] = {a, b, c}; return ok && clEnqueueNDRangeKernel(CLHelper::queue, k, b ? c ? 3 : 2 : 1, 0, g, 0, 0, 0, 0) == CL_SUCCESS && clFinish(CLHelper::queue) == CL_SUCCESS; } V read(unsigned b, size_t n) { V v(n); clEnqueueReadBuffer(CLHelper::queue, mem[b], CL_TRUE, 0, n * 4, v.data(), 0, 0, 0); return v; } };
static void alone(mc::Ctx& c, unsigned op, unsigned S, unsigned kw, unsigned kh, unsigned ow, unsigned oh, unsigned im, unsigned om) { sys_init(); cld::State& st = cld::state(); if (op < 4) { unsigned iw = ow + kw - 1, ih = oh + kh - 1;
    V X = ints(S * im * iw * ih, 1), W = ints(om * im * kw * kh, 2), B = ints(om, 3), dY = ints(S * om * ow * oh, 4), drop(S * om), Y(dY.size()), dX(X.size()), dW(S * W.size()), F(W.size()), b1(S * om); for (size_t i = 0; i < drop.size(); i++) drop[i] = i % 3 == 1 ? 0 : 1; V zY(Y.size(), 77), zX(X.size(), 77), zW(dW.size(), 77), zF(F.size(), 77), zb(b1.size(), 77);
    for (unsigned s = 0; s < S; s++) for (unsigned o = 0; o < om; o++) for (unsigned y = 0; y < oh; y++) for (unsigned x = 0; x < ow; x++) { size_t yi = ((s * om + o) * oh + y) * ow + x; float sum = 0; b1[s * om + o] += dY[yi]; for (unsigned m = 0; m < im; m++) for (unsigned j = 0; j < kh; j++) for (unsigned i = 0; i < kw; i++) { size_t xi = ((s * im + m) * ih + y + j) * iw + x + i, wi = ((o * im + m) * kh + j) * kw + i; sum += X[xi] * W[wi]; dX[xi] += W[wi] * dY[yi]; dW[s * W.size() + wi] += 0.5f * X[xi] * dY[yi]; F[wi] += 0.5f * X[xi] * dY[yi]; } Y[yi] = drop[s * om + o] ? 2 * (sum + B[o]) : 0; }
    std::string d = "kernel " + std::to_string(op) + " " + Shape{S, iw, ih, im}.str() + " kernel " + std::to_string(kw) + "x" + std::to_string(kh) + " maps " + std::to_string(om); for (unsigned k = 0; k < (c.thorough() ? 6 : 3); k++) { st.order = k; st.late = k % 2; st.problem.clear(); c.site(d); V got, want; bool ok = true;
      if (op == 0) { Launch l(CLHelper::k_biasedConvolution); l.buf(X).buf(W).buf(B).buf(zY).buf(drop).u(iw).u(ih).u(im).u(kw).u(kh).u(ow).u(oh).u(om).f(2); ok = l.go(ow, oh, S * om); got = l.read(3, Y.size()); want = Y; }
      else if (op == 1) { Launch l(CLHelper::k_fullConvolution); l.buf(dY).buf(W).buf(zX).u(iw).u(ih).u(im).u(kw).u(kh).u(ow).u(oh).u(om); ok = l.go(iw, ih, S * im); got = l.read(2, X.size()); want = dX; }
      else if (op == 2) { Launch l(CLHelper::k_crossCorrelation); l.buf(X).buf(dY).buf(zW).u(ih).u(iw).u(im).u(ow).u(oh).u(om).u(kw).u(kh).u(S).f(0.5f); ok = l.go(kw, kh, S * im * om); got = l.read(2, dW.size()); want = dW; if (ok && got == want) { Launch m(CLHelper::k_foldWeights); m.buf(got).buf(zF).u(im).u(om).u(kw).u(kh).u(S); ok = m.go(kw, kh, im * om); got = m.read(1, F.size()); want = F; } }
      else { Launch l(CLHelper::k_biasGradientPart1); l.buf(dY).buf(zb).u(ow).u(oh).u(om); ok = l.go(om, S); got = l.read(1, b1.size()); want = b1; if (ok && got == want) { Launch m(CLHelper::k_biasGradientPart2); V z(om, 77), w(om); for (size_t i = 0; i < b1.size(); i++) w[i % om] += 0.25f * b1[i]; m.buf(got).buf(z).u(om).u(S).f(0.25f); ok = m.go(om); got = m.read(1, om); want = w; } }
      c.trans(); CK(st.problem.empty(), "gpu:" + st.problem.substr(0, st.problem.find(':')), d + ": " + st.problem); CK(ok, "gpu:exception", d + ": it is not executed"); CK(got == want, "gpu:kernel", d + ": " + show(got) + " expected " + show(want)); } c.count("convolutions"); }
  else { unsigned I = im, N = om; V X = ints(S * I, 1), W = ints(I * N, 2), B = ints(N, 3), dY = ints(S * N, 4); std::string d = "kernel " + std::to_string(op) + " " + std::to_string(S) + " samples " + std::to_string(I) + " inputs " + std::to_string(N) + " neurons";
    for (unsigned k = 0; k < (c.thorough() ? 6 : 3); k++) { st.order = k; st.late = k % 2; st.problem.clear(); c.site(d); V got, want; bool ok = true;
      if (op == 4) { Launch l(CLHelper::k_biasedMatrixVector); want.assign(S * N, 0); for (unsigned s = 0; s < S; s++) for (unsigned n = 0; n < N; n++) { float q = 0; for (unsigned i = 0; i < I; i++) q += X[s * I + i] * W[i * N + n]; want[s * N + n] = 2 * q + B[n]; } l.buf(X).buf(W).buf(B).buf(V(S * N, 77)).u(I).u(N).f(2); ok = l.go(N, S); got = l.read(3, S * N); }
      else if (op == 5) { Launch l(CLHelper::k_biasedMatrixVectorBackward); want.assign(S * I, 0); for (unsigned s = 0; s < S; s++) for (unsigned i = 0; i < I; i++) for (unsigned n = 0; n < N; n++) want[s * I + i] += dY[s * N + n] * W[i * N + n]; l.buf(V(S * I, 77)).buf(W).buf(dY).u(I).u(N); ok = l.go(I, S); got = l.read(0, S * I); }
      else if (op == 6) { Launch l(CLHelper::k_biasedMatrixVectorGrad); want.assign(N, 0); for (unsigned s = 0; s < S; s++) for (unsigned n = 0; n < N; n++) want[n] += 0.5f * dY[s * N + n]; l.buf(V(N, 77)).buf(dY).u(N).u(S).f(0.5f); ok = l.go(N); got = l.read(0, N); }
      else if (op == 7) { Launch l(CLHelper::k_matrixMatrix); want.assign(I * N, 0); for (unsigned s = 0; s < S; s++) for (unsigned i = 0; i < I; i++) for (unsigned n = 0; n < N; n++) want[i * N + n] += 0.5f * X[s * I + i] * dY[s * N + n]; l.buf(X).buf(V(I * N, 77)).buf(dY).u(I).u(N).u(S).f(0.5f); ok = l.go(N, I); got = l.read(1, I * N); }
      else if (op == 8) { Launch l(CLHelper::k_setValue); want = V(I + N + 2, 77); for (unsigned i = 0; i < I; i++) want[N + i] = 0.5f; l.buf(V(I + N + 2, 77)).f(0.5f).u(N); ok = l.go(I); got = l.read(0, I + N + 2); }
      else { Launch l(CLHelper::k_sms); unsigned P = 2; V in = ints(I * N * P * S, 5); want.assign(in.size(), 0); for (unsigned n = 0; n < N; n++) for (unsigned i = 0; i < I; i++) for (unsigned e = 0; e < P * S; e++) want[(n * I + i) * P * S + e] = in[(i * N + n) * P * S + e]; l.buf(in).buf(V(in.size(), 77)).u(P).u(S).u(I).u(N); ok = l.go(in.size()); got = l.read(1, in.size()); }
      c.trans(); CK(st.problem.empty(), "gpu:" + st.problem.substr(0, st.problem.find(':')), d + ": " + st.problem); CK(ok, "gpu:exception", d + ": it is not executed"); CK(got == want, "gpu:kernel", d + ": " + show(got) + " expected " + show(want)); } c.count("matrices"); }
  c.validated(); c.nontrivial(); if (c.want_sample()) c.sample("kernel " + std::to_string(op) + kv("samples", S)); }
static void kernelss(mc::Ctx& c) { unsigned op = c.choose(10, "kernel"), S = c.range(1, 3, "samples"), D = c.thorough() ? 9 : 6; if (op < 4) { unsigned kw = c.range(1, c.thorough() ? 6 : 5, "kw"), kh = c.range(1, 3, "kh"), ow = c.range(1, D, "ow"), oh = c.range(1, 3, "oh"), im = c.range(1, 2, "maps"), om = c.range(1, 3, "kernels"); c.shard(); alone(c, op, S, kw, kh, ow, oh, im, om); } else { unsigned I = c.range(1, D, "inputs"), N = c.range(1, D, "neurons"); c.shard(); alone(c, op, S, 1, 1, 1, 1, I, N); } }
// layers, operations and kernels on larger images, maps and numbers of samples
static void large(mc::Ctx& c) { unsigned which = c.choose(3, "which"); if (which == 0) { static const std::vector<Kind> K = kinds(); std::vector<unsigned> on; for (unsigned k = 0; k < K.size(); k++) for (const char* n : {"convolution", "maxpooling", "amaxpooling", "tanh", "sigm", "resize", "upscale", "downsampling"}) if (K[k].name.compare(0, strlen(n), n) == 0) on.push_back(k); unsigned k = c.pick(on, "layer"), s = 1, w = 7, h = 6, m = 2; grow(c, {&s, &w, &h, &m}, c.thorough()); c.shard(); run(c, 0, Cfg{k, s, w, h, m, 1}, K[k].name, 1, 2, smooth(K[k].name) ? 2e-6 : 1e-6); }
  else if (which == 1) { unsigned op = c.choose(9, "operation"), a = 3, b = 2, d = 3; grow(c, {&a, &b, &d}, c.thorough()); unsigned f = c.pick(op < 2 ? std::vector<unsigned>{0, 6, 31} : op < 4 ? std::vector<unsigned>{1, 7, 25} : std::vector<unsigned>{0, 5, 7}, "flags"); c.shard(); run(c, 1, Cfg{op, a, b, d, f}, "operation", 2, 2, 1e-6); }
  else { unsigned op = c.choose(10, "kernel"), S = 2, kw = 2, kh = 3, ow = 5, oh = 2, im = 2, om = 3; if (op < 4) grow(c, {&S, &kw, &kh, &ow, &oh, &im, &om}, false); else { im = 5, om = 4; grow(c, {&S, &im, &om}, c.thorough()); } c.shard(); alone(c, op, S, kw, kh, ow, oh, im, om); } }
MC_MAIN({"large", large}, {"layers", layers}, {"maths", maths}, {"trains", trains}, {"tensors", tensorss}, {"kernels", kernelss})
#endif
