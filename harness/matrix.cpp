// C16: TensorMath kernels against their textbook definition
#include "util.h"
static bool blas() {
#ifdef BUILD_BLAS
  return true;
#else
  return false;
#endif
}
static const std::vector<float> AL{1.f, -2.f, 0.5f, 0.f}, BE{0.f, 1.f, -1.f, 2.f};
static const float NaN = std::numeric_limits<float>::quiet_NaN();
static void fillx(Tensor& t, unsigned salt) { fill_int(t, salt, 4); }
static void gemm_(mc::Ctx& c, bool big) {
  unsigned d = c.thorough() ? 5 : 4, m_ = 3, n_ = 2, k_ = 4; if (big) grow(c, {&m_, &n_, &k_}, true, {&m_, &n_, &k_}); int M = big ? m_ : c.range(1, d, "M"), N = big ? n_ : c.range(1, d, "N"), K = big ? k_ : c.range(1, d, "K"); bool ta = c.flip("tA"), tb = c.flip("tB"); int ea = c.range(0, 1, "ldA+"), eb = c.range(0, 1, "ldB+"), ec = c.range(0, 1, "ldC+"); bool rm = !c.flip("column-major");
  c.shard(); sys_init(); int sm[3]; for (unsigned i = 0; i < 3; i++) sm[i] = big ? (i != 1) : c.range(0, 1, "sample"); float al = big ? -2.f : c.pick(AL, "alpha"), be = big ? (M + N + K) % 2 : c.pick(BE, "beta");
  int ar = ta ? K : M, ac = ta ? M : K, br = tb ? N : K, bc = tb ? K : N; int la = (rm ? ac : ar) + ea, lb = (rm ? bc : br) + eb, lc = (rm ? N : M) + ec;
  Tensor A(2, la, rm ? ar : ac, 1), B(2, lb, rm ? br : bc, 1), C(2, lc, rm ? M : N, 1); fillx(A, 1); fillx(B, 2); fillx(C, 3);
  auto ix = [&](int s, int r, int q, int ld, const Tensor& t) { return s * t.width() * t.height() + (rm ? r * ld + q : q * ld + r); };
  std::vector<double> ref(C.data_ptr(), C.data_ptr() + C.elements());
  for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { double s = 0; for (int k = 0; k < K; k++) s += (double)A[ta ? ix(sm[0], k, i, la, A) : ix(sm[0], i, k, la, A)] * B[tb ? ix(sm[1], j, k, lb, B) : ix(sm[1], k, j, lb, B)]; size_t o = ix(sm[2], i, j, lc, C); ref[o] = al * s + (be == 0 ? 0 : be * ref[o]); if (be == 0) C[o] = NaN; }
  A4 a0(A), b0(B); std::ostringstream x; x << "GEMM " << (rm ? "row" : "column") << " M=" << M << " N=" << N << " K=" << K << " tA=" << ta << " tB=" << tb << " alpha=" << al << " beta=" << be << " samples " << sm[0] << sm[1] << sm[2] << " ld " << la << "," << lb << "," << lc;
  c.site("gemm"); bool thrown = false; try { TensorMath::GEMM(rm, ta, tb, M, N, K, al, A, sm[0], la, B, sm[1], lb, be, C, sm[2], lc); } catch (std::runtime_error&) { thrown = true; } c.trans();
  if (!rm && !blas()) { CK(thrown, "gemm:column-major", x.str() + " is neither supported nor refused"); c.validated(); return; }
  CK(!thrown, "gemm:throws", x.str()); A4 r(shape(C)); r.v = ref; expect(c, C, r, "gemm:result", x.str()); expect(c, A, a0, "gemm:A", x.str()); expect(c, B, b0, "gemm:B", x.str());
  c.state(hash(C)); if (M > 1 && N > 1 && K > 1) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(x.str() + " -> " + show(C)); }
static void gemm(mc::Ctx& c) { gemm_(c, false); }
static void biggemm(mc::Ctx& c) { gemm_(c, true); }
static void gemv_(mc::Ctx& c, bool big) {
  unsigned d = c.thorough() ? 6 : 4, m_ = 3, n_ = 2, i_ = 2, j_ = 3; if (big) grow(c, {&m_, &n_, &i_, &j_}, true, {&m_, &n_, &m_}); int M = big ? m_ : c.range(1, d, "M"), N = big ? n_ : c.range(1, d, "N"); bool ta = c.flip("tA"); int ea = c.range(0, 2, "ldA+"), ixx = big ? i_ : c.range(1, 3, "incX"), iy = big ? j_ : c.range(1, 3, "incY"); bool rm = !c.flip("column-major"); c.shard(); sys_init(); int sm[3]; for (unsigned i = 0; i < 3; i++) sm[i] = big ? (i != 1) : c.range(0, 1, "sample"); float al = big ? -2.f : c.pick(AL, "alpha"), be = big ? (M + N) % 2 : c.pick(BE, "beta");
  int la = (rm ? N : M) + ea, rows = ta ? N : M, cols = ta ? M : N; Tensor A(2, la, rm ? M : N, 1), X(2, cols * ixx), Y(2, rows * iy); fillx(A, 1); fillx(X, 2); fillx(Y, 3);
  auto a = [&](int r, int q) { return (double)A[sm[0] * A.width() * A.height() + (rm ? r * la + q : q * la + r)]; }; std::vector<double> ref(Y.data_ptr(), Y.data_ptr() + Y.elements());
  for (int i = 0; i < rows; i++) { double s = 0; for (int j = 0; j < cols; j++) s += (ta ? a(j, i) : a(i, j)) * X[sm[1] * X.width() + j * ixx]; size_t o = sm[2] * Y.width() + i * iy; ref[o] = al * s + (be == 0 ? 0 : be * ref[o]); if (be == 0) Y[o] = NaN; }
  A4 a0(A), x0(X); std::ostringstream x; x << "GEMV " << (rm ? "row" : "column") << " M=" << M << " N=" << N << " tA=" << ta << " alpha=" << al << " beta=" << be << " inc " << ixx << "," << iy << " ldA " << la;
  c.site("gemv"); bool thrown = false; try { TensorMath::GEMV(rm, ta, M, N, al, A, sm[0], la, X, sm[1], ixx, be, Y, sm[2], iy); } catch (std::runtime_error&) { thrown = true; } c.trans();
  if (!rm && !blas()) { CK(thrown, "gemv:column-major", x.str() + " is neither supported nor refused"); c.validated(); return; }
  CK(!thrown, "gemv:throws", x.str()); A4 r(shape(Y)); r.v = ref; expect(c, Y, r, "gemv:result", x.str()); expect(c, A, a0, "gemv:A", x.str()); expect(c, X, x0, "gemv:X", x.str()); c.state(hash(Y)); if (M > 1 && N > 1) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(x.str() + " -> " + show(Y)); }
static void gemv(mc::Ctx& c) { gemv_(c, false); }
static void biggemv(mc::Ctx& c) { gemv_(c, true); }
static void im2col_(mc::Ctx& c, bool big) {
  unsigned d = c.thorough() ? 5 : 4, D[10] = {4, 3, 2, 2, 1, 0, 1, 2, 2, 2}; if (big) { grow(c, {D, D + 1, D + 2, D + 3, D + 4, D + 5, D + 6, D + 7, D + 8, D + 9}, true, {D, D + 1, D + 8}); c.require(std::max(D[4], D[5]) <= 64); D[0] = std::max(D[0], D[2] + D[6]); D[1] = std::max(D[1], D[3] + D[7]); } int w = big ? (int)D[0] : c.range(1, d, "w"), h = big ? (int)D[1] : c.range(1, d, "h"), kw = big ? (int)D[2] : c.range(1, 3, "kw"), kh = big ? (int)D[3] : c.range(1, 3, "kh"), px = big ? (int)D[4] : c.range(0, 2, "px"), py = big ? (int)D[5] : c.range(0, 2, "py"), sx = big ? (int)D[6] : c.range(1, c.thorough() ? 3 : 2, "sx"), sy = big ? (int)D[7] : c.range(1, c.thorough() ? 3 : 2, "sy"), m = big ? (int)D[8] : c.range(1, 2, "maps"), n = big ? (int)D[9] : c.range(1, 2, "samples"); c.require(w + 2 * px >= kw && h + 2 * py >= kh); c.shard(); sys_init();
  int ow = (w + 2 * px - kw) / sx + 1, oh = (h + 2 * py - kh) / sy + 1; Tensor S(n, w, h, m), T(kw * kh * m, ow, oh, n); fillx(S, 1); fill(T, 99.f); A4 src(S), ref(shape(T));
  std::ostringstream x; x << "im2col " << w << "x" << h << " kernel " << kw << "x" << kh << " pad " << px << "x" << py << " stride " << sx << "x" << sy << " maps " << m << " samples " << n;
  auto each = [&](std::function<void(size_t, int, int, int, int)> f) { for (int s = 0; s < n; s++) for (int q = 0; q < kw * kh * m; q++) for (int y = 0; y < oh; y++) for (int xx = 0; xx < ow; xx++) { int kx = q % kw, ky = q / kw % kh, im = q / kw / kh; f(ref.idx(q, xx, y, s), s, im, xx * sx - px + kx, y * sy - py + ky); } };
  each([&](size_t o, int s, int im, int ix, int iy) { ref.v[o] = src.get0(s, ix, iy, im); }); c.site("im2col"); TensorMath::IM2COL(S, w, h, m, n, kw, kh, sx, sy, px, py, T); c.trans(); expect(c, T, ref, "im2col:result", x.str()); expect(c, S, src, "im2col:source", x.str());
  fillx(T, 5); fill(S, 77.f); A4 t(T), back(shape(S)); each([&](size_t o, int s, int im, int ix, int iy) { if (ix >= 0 && iy >= 0 && ix < w && iy < h) back(s, ix, iy, im) += t.v[o]; }); c.site("col2im"); TensorMath::COL2IM(S, w, h, m, n, kw, kh, sx, sy, px, py, T); c.trans(); expect(c, S, back, "col2im:result", x.str()); expect(c, T, t, "col2im:target", x.str()); c.state(hash(S));
  for (int v = 0; v < 2; v++) { Tensor bad(kw * kh * m + (v == 0), ow, oh, n + (v == 1)); int thrown = 0; try { TensorMath::IM2COL(S, w, h, m, n, kw, kh, sx, sy, px, py, bad); } catch (std::runtime_error&) { thrown++; } try { TensorMath::COL2IM(S, w, h, m, n, kw, kh, sx, sy, px, py, bad); } catch (std::runtime_error&) { thrown++; } CK(thrown == 2, "im2col:wrong-size", x.str() + ": buffer of the wrong size accepted"); }
  if (ow * oh > 1 && kw * kh > 1) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(x.str()); }
static void im2col(mc::Ctx& c) { im2col_(c, false); }
static void bigim2col(mc::Ctx& c) { im2col_(c, true); }
static void simple_(mc::Ctx& c, bool big) {
  unsigned d = c.thorough() ? 5 : 4; Shape q; unsigned op = c.choose(5, "op"), W = 3, H = 2, Mm = 2, Nn = 2, RX = 1, RY = 1; int rx = 1, ry = 1; float f = 1; if (big) { if (op == 1 || op == 2) { RX = 2; RY = 3; grow(c, {&W, &H, &Mm, &Nn, &RX, &RY}, true, {&W, &H}); } else grow(c, {&W, &H, &Mm, &Nn}, true, {&W, &H, &Mm}); if (op == 0) c.require(Nn <= 65); q = Shape{Nn, W, H, Mm}; rx = RX; ry = RY; f = op == 1 || op == 2 ? 0.5f : 1; } else { q.s = c.range(1, 3, "n"); q.w = c.range(1, d, "w"); q.h = c.range(1, d, "h"); q.m = c.range(1, 3, "m"); } if (!big && (op == 1 || op == 2)) { rx = c.range(1, 3, "rx"); ry = c.range(1, 3, "ry"); f = c.pick(std::vector<float>{1.f, 0.5f, -2.f, 0.25f}, "factor"); } c.shard(); sys_init(); std::string x = "op " + std::to_string(op) + " " + q.str() + " region " + std::to_string(rx) + "x" + std::to_string(ry) + " factor " + fmt(f); c.site("matrix op " + std::to_string(op));
  if (op == 0) { for (int s = -1; s < (int)q.s; s++) for (float v : {0.f, 3.f}) { Tensor t(q.s, q.w, q.h, q.m); fillx(t, s + 2); A4 r(t); for (size_t i = 0; i < r.v.size(); i++) if (s < 0 || (int)(i / (q.w * q.h * q.m)) == s) r.v[i] = v; TensorMath::SETSAMPLE(t, s, v); c.trans(); expect(c, t, r, "setsample", x + " sample " + std::to_string(s)); c.state(hash(t)); } }
  else if (op == 1 || op == 2) { Tensor small(q.s, q.w, q.h, q.m), big(q.s, q.w * rx, q.h * ry, q.m); fillx(small, 1); fillx(big, 2); A4 s0(small), b0(big), sr(s0.sh), br(b0.sh); for (size_t s = 0; s < q.s; s++) for (size_t m = 0; m < q.m; m++) for (size_t y = 0; y < q.h * ry; y++) for (size_t xx = 0; xx < q.w * rx; xx++) { br(s, xx, y, m) = f * s0(s, xx / rx, y / ry, m); sr(s, xx / rx, y / ry, m) += f * b0(s, xx, y, m); }
    if (op == 1) { TensorMath::UP(small, big, rx, ry, f); expect(c, big, br, "up", x); expect(c, small, s0, "up:source", x); } else { TensorMath::DOWN(big, small, rx, ry, f); expect(c, small, sr, "down", x); expect(c, big, b0, "down:source", x); } c.trans(); c.state(hash(small) ^ hash(big)); }
  else if (op == 3) { Tensor a(q.s, q.w, q.h, q.m), b(q.m, q.w, q.h, q.s); fillx(a, 1); fill(b, 99.f); A4 r(shape(b)), a0(a); for (size_t s = 0; s < q.s; s++) for (size_t m = 0; m < q.m; m++) for (size_t y = 0; y < q.h; y++) for (size_t xx = 0; xx < q.w; xx++) r(m, xx, y, s) = a0(s, xx, y, m); TensorMath::SMS(a, b); c.trans(); expect(c, b, r, "sms", x); expect(c, a, a0, "sms:source", x); c.state(hash(b)); }
  else { Tensor a(q.s, q.w, q.h, q.m), b(q.s, q.w, q.h, q.m), t(q.s, q.w, q.h, q.m); fillx(a, 1); fillx(b, 2); fill(t, 99.f); A4 r(t), a0(a), b0(b); for (size_t i = 0; i < r.v.size(); i++) r.v[i] = a0.v[i] + b0.v[i]; TensorMath::ADD(a, b, t); c.trans(); expect(c, t, r, "add", x); expect(c, a, a0, "add:a", x); expect(c, b, b0, "add:b", x); c.state(hash(t));
    for (int v = 0; v < 3; v++) { Tensor bad(q.s + (v == 0), q.w + (v == 1), q.h, q.m); for (int k = 0; k < 3; k++) { bool thrown = false; try { TensorMath::ADD(k == 0 ? bad : a, k == 1 ? bad : b, k == 2 ? bad : t); } catch (std::runtime_error&) { thrown = true; } CK(thrown == (v < 2), "add:mismatch", x + ": mismatch accepted"); } } }
  if (q.n() > 2) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(x); }
static void simple(mc::Ctx& c) { simple_(c, false); }
static void bigsimple(mc::Ctx& c) { simple_(c, true); }
MC_MAIN({"biggemm", biggemm}, {"biggemv", biggemv}, {"bigim2col", bigim2col}, {"bigsimple", bigsimple}, {"gemm", gemm}, {"gemv", gemv}, {"im2col", im2col}, {"simple", simple})
