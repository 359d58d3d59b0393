// C30: patches and labels cut from every position, the tool that does it
#include "util.h"
#include "private/Segmentation.h"
// reflected at the first pixel on the left and behind the last pixel on the right, as often as needed
static long mirror(long x, long n) { while (x < 0 || x >= n) { if (x < 0) x = -x; if (x >= n) x = 2 * n - 1 - x; } return x; }
static A4 patches(const A4& src, unsigned s, unsigned pw, unsigned ph) {
  long W = src.sh.w, H = src.sh.h; A4 r(W * H, pw, ph, src.sh.m); for (long y = 0; y < H; y++) for (long x = 0; x < W; x++) for (unsigned m = 0; m < src.sh.m; m++) for (long j = 0; j < ph; j++) for (long i = 0; i < pw; i++) r(y * W + x, i, j, m) = src(s, mirror(x + i - (long)pw / 2, W), mirror(y + j - (long)ph / 2, H), m); return r; }
static void geometry_(mc::Ctx& c, bool big) {
  unsigned d = c.thorough() ? 7 : 5, W = 3, H = 2, pw = 3, ph = 2, M = 1, N = 2, s = 1; if (big) { grow(c, {&W, &H, &pw, &ph, &M, &N}, true, {&W, &H}); s = N - 1; c.require(!(W > 5 && H > 5 && W * H > 300 && W * H < 70000)); } else { W = c.range(1, d, "width"), H = c.range(1, d, "height"), pw = c.range(1, d + 3, "patch width"), ph = c.range(1, d + 3, "patch height"), M = c.range(1, 3, "maps"), N = c.range(1, 2, "samples"), s = c.choose(N, "sample"); } c.shard(); sys_init();
  std::string x = std::to_string(pw) + "x" + std::to_string(ph) + " patches of " + std::to_string(W) + "x" + std::to_string(H) + " maps " + std::to_string(M) + " sample " + std::to_string(s) + " of " + std::to_string(N);
  Tensor src(N, W, H, M); for (size_t e = 0; e < src.elements(); e++) src[e] = big ? (1 + e % 16381) / 1024.f : 1 + e; A4 in(src); Tensor t, h; if (c.nexec % 2) { t.Resize(2, 3, 3, 3); t.Clear(7); h.Resize(9, 2); h.Clear(7); }
  A4 ref = patches(in, s, pw, ph); c.site("extract patches"); Segmentation::ExtractPatches(pw, ph, t, h, src, s); c.trans(); expect(c, t, ref, "patches:pixels", x); expect(c, src, in, "patches:source", x);
  CK(shape(h) == (Shape{(size_t)W * H, 2, 1, 1}), "patches:helper-shape", x); for (unsigned y = 0; y < H; y++) for (unsigned q = 0; q < W; q++) { double py = std::max(0.0, std::min((double)H - (ph - 1.0), (double)y - ph / 2)) / H, px = std::max(0.0, std::min((double)W - (pw - 1.0), (double)q - pw / 2)) / W; size_t e = y * W + q; CK(std::fabs(h[2 * e] - py) < 1e-6 && std::fabs(h[2 * e + 1] - px) < 1e-6, "patches:coordinates", x + " position " + std::to_string(q) + "," + std::to_string(y) + " has coordinates " + fmt(h[2 * e]) + "," + fmt(h[2 * e + 1])); }
  Tensor h2, z; c.site("subtract mean"); Segmentation::ExtractPatches(pw, ph, z, h2, src, s, true); c.trans(); A4 zm = ref; size_t per = pw * ph * M; for (size_t k = 0; k < W * H; k++) { double sum = 0; for (size_t e = 0; e < per; e++) sum += ref.v[k * per + e]; for (size_t e = 0; e < per; e++) zm.v[k * per + e] -= sum / per; } expect(c, z, zm, "patches:mean", x, 1e-5); CK(hash(h) == hash(h2), "patches:mean-coordinates", x); expect(c, src, in, "patches:source", x);
  // labels: one per patch, of the pixel the patch stands for
  for (int ign = -1; ign < 3; ign++) { Tensor src2(N, W, H, M); for (size_t e = 0; e < src2.elements(); e++) { uint32_t v = (e * 7 + e / 3) % 5; memcpy(&src2[e], &v, 4); } Tensor l, w; c.site("extract labels"); Segmentation::ExtractLabels(pw, ph, l, w, src2, s, ign); c.trans(); CK(shape(l) == (Shape{(size_t)W * H, 1, 1, 1}) && shape(w) == (Shape{(size_t)W * H, 1, 1, 1}), "patches:label-shape", x);
    for (unsigned y = 0; y < H; y++) for (unsigned q = 0; q < W; q++) { uint32_t a, b; memcpy(&a, l.data_ptr_const(0, 0, 0, y * W + q), 4); memcpy(&b, src2.data_ptr_const(q, y, 0, s), 4); CK(a == b, "patches:label", x + " position " + std::to_string(q) + "," + std::to_string(y) + ": label " + std::to_string(a) + " instead of " + std::to_string(b)); CK(w[y * W + q] == ((int)b == ign ? 0.f : 1.f), "patches:label-weight", x + " ignoring class " + std::to_string(ign) + ": label " + std::to_string(b) + " has weight " + fmt(w[y * W + q])); } }
  c.state(hash(t)); c.validated(); if (W * H > 1 && pw * ph > 1) c.nontrivial(); if (c.want_sample()) c.sample(x); }
static void geometry(mc::Ctx& c) { geometry_(c, false); }
static void large(mc::Ctx& c) { geometry_(c, true); }
// every command sequence of the tool
static void tool(mc::Ctx& c) {
  const char* exe = getenv("TENSORTOOL"); if (!exe) return; unsigned n = c.range(0, c.thorough() ? 4 : 3, "commands"), id = c.choose(2, "tensor"); Tensor ts[2]; ts[0].Resize(2, 3, 2, 1); ts[1].Resize(1, 2, 2, 2); for (auto& t : ts) for (size_t e = 0; e < t.elements(); e++) t[e] = e + 1 + 100 * (&t - ts);
  std::string in; std::vector<unsigned> op; for (unsigned i = 0; i < n; i++) op.push_back(c.choose(8, "command")); c.shard(); sys_init();
  A4 m(ts[id]); std::string file; { std::ostringstream o; ts[0].Serialize(o); ts[1].Serialize(o); file = o.str(); } std::string want = file; auto ser = [&]() { Tensor t(m.sh.s, m.sh.w, m.sh.h, m.sh.m); put(t, m); std::ostringstream o; t.Serialize(o); return o.str(); };
  auto ask = [&](long s) { if (m.sh.s != 1) in += " " + std::to_string(s); return m.sh.s != 1 ? (unsigned)s : 0u; };
  for (unsigned k : op) switch (k) {
    case 0: { in += "transpose\n"; A4 r(m.sh.s, m.sh.h, m.sh.w, m.sh.m); for (size_t s = 0; s < m.sh.s; s++) for (size_t q = 0; q < m.sh.m; q++) for (size_t y = 0; y < m.sh.h; y++) for (size_t x = 0; x < m.sh.w; x++) r(s, y, x, q) = m(s, x, y, q); m = r; break; }
    case 1: in += "reshape 1 " + std::to_string(m.v.size()) + " 1 1\n"; m.sh = Shape{1, 1, m.v.size(), 1}; break;
    case 2: in += "reshape 2 2 2 2\n"; if (m.v.size() == 16) m.sh = Shape{2, 2, 2, 2}; break;
    case 3: { in += "extractpatches"; unsigned s = ask(0); in += " 3 2\n"; m = patches(m, s, 3, 2); break; }
    case 4: { in += "extractpatches"; unsigned s = ask(m.sh.s - 1); in += " 1 3\n"; m = patches(m, s, 1, 3); break; }
    case 5: { in += "extractpatches"; if (m.sh.s != 1) { in += " " + std::to_string(m.sh.s) + "\n"; } else { in += " 1 1\n"; m = patches(m, 0, 1, 1); } break; }
    case 6: in += "write\n"; want = ser(); break;
    default: in += "size nonsense help\n"; }
  bool quit = n % 2; in += "write\n"; want = ser(); if (quit) in += "quit\nwrite\n";
  spit("t.bin", file); spit("t.in", in); c.site("tensorTool"); int rc = system((std::string("timeout 20 ") + exe + " t.bin " + std::to_string(id) + " < t.in > t.out 2>&1").c_str()); c.trans(n); CK(rc == 0, "patches:tool-exit", "tensorTool ends with " + std::to_string(rc) + " after\n" + in + slurp("t.out").substr(0, 2000)); CK(slurp("t.bin") == want, "patches:tool", "tensorTool writes another tensor than " + m.str().substr(0, 500) + " after\n" + in);
  c.state(mc::hash_bytes(want.data(), want.size())); c.validated(); if (n > 1) c.nontrivial(); if (c.want_sample()) c.sample("tensor " + std::to_string(id) + ": " + in); }
MC_MAIN({"large", large}, {"geometry", geometry}, {"tool", tool})
