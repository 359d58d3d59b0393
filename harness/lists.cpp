// C05: image lists and the import tools
#include "util.h"
#include "imgio.h"
static const unsigned PAL[] = {0x000000, 0xff0000, 0x00ff00, 0xffffff, 0x808080, 0x010203};
static const unsigned PIX[] = {0x000000, 0xff0000, 0x00ff00, 0xffffff, 0x808080, 0x010203, 0xfe0000, 0x000100, 0x0000ff, 0x808081, 0xffff00, 0x7f8080};
static unsigned chan(unsigned col, unsigned c) { return col >> (16 - 8 * c) & 255; }
static void expect_label(mc::Ctx& c, const Tensor& t, size_t s, unsigned x, unsigned y, const std::vector<unsigned>& classes, unsigned pix, const std::string& ctx) {
  for (size_t k = 0; k < classes.size(); k++) { double v = *t.data_ptr_const(x, y, k, s), e; bool exact = true;
    if (classes.size() == 1) { double d = 0; for (unsigned ch = 0; ch < 3; ch++) { double a = chan(pix, ch) / 255.0 - chan(classes[0], ch) / 255.0; d += a * a; } e = 1 - 2 * std::sqrt(d) / std::sqrt(3.0); exact = false; CK(v <= 1 && v >= -1 - 1e-6, "lists:score", ctx + ": score " + fmt(v)); } else e = pix == (classes[k] & 0xffffff) ? 1 : 0;
    if (exact ? v != e : std::fabs(v - e) > 1e-5) { char b[120]; snprintf(b, 120, ": label of class %zu (%06x) at a pixel of colour %06x is %g expected %g", k, classes[k], pix, v, e); c.fail("lists:label", ctx + b); } } }
static Img solid(unsigned w, unsigned h, unsigned ch) { Img i; i.w = w; i.h = h; i.ch = ch; i.v.assign(w * h * ch, 0); return i; }
static void setpx(Img& im, unsigned x, unsigned y, unsigned col) { for (unsigned k = 0; k < im.ch; k++) im.at(x, y, k) = chan(col, k); }
// every class table up to 3 classes x every pair of label colours, list stream
static void colours(mc::Ctx& c) {
  sys_init(); unsigned n = c.range(1, 3, "classes"); std::vector<unsigned> cl; for (unsigned i = 0; i < n; i++) cl.push_back(PAL[c.choose(n < 3 ? 6 : 5, "class colour")]); bool gray = c.flip("gray label file"), jpg = false; unsigned p = c.choose(12, "pixel"); c.shard(); (void)jpg; char b[100]; std::string ctx = std::to_string(n) + " classes"; for (unsigned k : cl) { snprintf(b, 100, " %06x", k); ctx += b; }
  Img lab = solid(3, 4, gray ? 1 : 3); std::vector<unsigned> px(12); for (unsigned i = 0; i < 12; i++) { unsigned col = PIX[(p + i * (1 + p)) % 12]; if (p % 4 == 3) col = PIX[(p + i) % 12]; if (gray) col = chan(col, 1) * 0x10101; px[i] = col; if (gray) lab.at(i % 3, i / 3, 0) = col & 255; else setpx(lab, i % 3, i / 3, col); } ctx += gray ? " gray label" : " label"; Img img = solid(3, 4, 3); for (size_t i = 0; i < img.v.size(); i++) img.v[i] = i * 7;
  spit("image.png", png_encode(img)); spit("label.png", png_encode(lab)); spit("il.txt", "image.png\n"); spit("ll.txt", "label.png\n"); c.site("list stream " + ctx); StreamPtr s(TensorStream::FromFile("list:il.txt;.;ll.txt;./", cl)); CK(s->GetTensorCount() == 2 && s->GetMaps(1) == n && s->GetMaps(0) == 3, "lists:count", ctx); Tensor it(1, 3, 4, 3), lt(2, 3, 4, n), big(1, 4, 5, n); fill(lt, 9); fill(big, 9); CK(s->CopySample(0, 0, it, 0) && s->CopySample(1, 0, lt, 1) && s->CopySample(1, 0, big, 0), "lists:copy", ctx + ": refused"); c.trans(3);
  for (unsigned i = 0; i < 12; i++) { for (unsigned k = 0; k < 3; k++) CK(std::fabs(*it.data_ptr_const(i % 3, i / 3, k, 0) - img.at(i % 3, i / 3, k) / 255.0) < 2e-6, "lists:image", ctx); expect_label(c, lt, 1, i % 3, i / 3, cl, px[i], ctx); expect_label(c, big, 0, i % 3, i / 3, cl, px[i], ctx + " (larger target)"); for (unsigned k = 0; k < n; k++) CK(*lt.data_ptr_const(i % 3, i / 3, k, 0) == 9, "lists:other-slot", ctx); }
  for (unsigned k = 0; k < n; k++) for (unsigned x = 0; x < 4; x++) for (unsigned y = 0; y < 5; y++) if (x == 3 || y == 4) CK(*big.data_ptr_const(x, y, k, 0) == 0, "lists:padding", ctx); c.state(hash(lt)); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(ctx); }
// every intensity of every channel of a class colour against itself and its neighbours
static void intensities(mc::Ctx& c) {
  sys_init(); unsigned v = c.choose(256, "value"), ch = c.choose(3, "channel"); bool two = c.flip("two classes"); c.shard(); unsigned base = 0x405060 & ~(255u << (16 - 8 * ch)), cl = base | v << (16 - 8 * ch); Img lab = solid(256, 1, 3); for (unsigned x = 0; x < 256; x++) setpx(lab, x, 0, base | x << (16 - 8 * ch)); spit("image.png", png_encode(solid(256, 1, 3))); spit("label.png", png_encode(lab)); spit("il.txt", "image.png"); spit("ll.txt", "label.png"); std::vector<unsigned> cls{cl}; if (two) cls.push_back(0x123456); StreamPtr s(TensorStream::FromFile("list:il.txt;.;ll.txt;.", cls)); Tensor t(1, 256, 1, cls.size()); c.site("CopySample"); CK(s->CopySample(1, 0, t, 0), "lists:copy", "refused"); c.trans(); for (unsigned x = 0; x < 256; x++) expect_label(c, t, 0, x, 0, cls, base | x << (16 - 8 * ch), "intensity " + std::to_string(v) + " of channel " + std::to_string(ch)); c.state(hash(t)); c.nontrivial(); if (c.want_sample()) c.sample("intensity " + std::to_string(v)); }
// lists of files: pairing, skipping, ends; list stream, both import tools
static void lists(mc::Ctx& c) {
  sys_init(); unsigned n = c.range(0, 3, "entries"), kind[3] = {}; for (unsigned i = 0; i < n; i++) kind[i] = c.choose(n == 3 && !c.thorough() ? 3 : 5, "entry"); unsigned end = c.choose(5, "end"), dirs = c.choose(2, "directories"), nc = c.range(1, 2, "classes"); c.shard(); mkdir("im", 0755); mkdir("la", 0755); std::vector<unsigned> cl{0xff0000, 0x0000ff}; cl.resize(nc); std::string il, ll, ctx = std::to_string(nc) + " classes, entries"; struct E { Img im, la; }; std::vector<E> want;
  for (unsigned i = 0; i < n; i++) { unsigned w = 2 + i, h = 1 + (i ^ kind[i]) % 2; E e; e.im = solid(w, h, kind[i] == 1 ? 1 : kind[i] == 4 ? 4 : 3); for (size_t k = 0; k < e.im.v.size(); k++) e.im.v[k] = (k * 31 + i * 100) & 255; e.la = solid(kind[i] == 2 ? w + 1 : w, kind[i] == 2 ? h : h, kind[i] == 3 ? 1 : 3); for (unsigned y = 0; y < e.la.h; y++) for (unsigned x = 0; x < e.la.w; x++) setpx(e.la, x, y, (x + y + i) % 3 == 0 ? 0xff0000 : (x + y) % 2 ? 0x0000ff : 0x404040);
    std::string in = "a" + std::to_string(i) + ".png", ln = (i == 1 ? "sub" : "b") + std::to_string(i) + ".png"; spit("im/" + in, png_encode(e.im)); spit("la/" + ln, png_encode(e.la)); spit("la/" + in, png_encode(solid(w, h, 3))); bool last = i + 1 == n; il += in + (last && end == 0 ? "" : "\n"); ll += ln + (last && end == 0 ? "" : "\n"); if (kind[i] != 2) want.push_back(e); ctx += " " + std::to_string(kind[i]); }
  if (end == 2) { il += "\na0.png\n"; ll += "\nb0.png\n"; } if (end == 3) il += "a0.png\n"; if (end == 4) ll += "b0.png\n"; ctx += " end " + std::to_string(end); spit("il.txt", il); spit("ll.txt", ll); { std::ofstream f("set.txt"); f << "classes=" << nc << "\nfirst\n" << (nc > 1 ? "second\n" : "") << "colors\n0xff0000\n" << (nc > 1 ? "0000ff\n" : ""); } std::string di = dirs ? "im/" : "im", dl = dirs ? "la/" : "la";
  auto verify = [&](TensorStream& s, const std::string& how, bool direct) { CK(s.GetTensorCount() == 2 * want.size(), "lists:count", ctx + how + ": " + std::to_string(s.GetTensorCount()) + " tensors, expected " + std::to_string(2 * want.size()));
    for (size_t i = 0; i < want.size(); i++) { E& e = want[i]; unsigned lm = direct ? 3 : nc; CK(s.GetWidth(2 * i) == e.im.w && s.GetHeight(2 * i) == e.im.h && s.GetMaps(2 * i) == e.im.ch && s.GetSamples(2 * i) == 1 && s.GetWidth(2 * i + 1) == e.im.w && s.GetHeight(2 * i + 1) == e.im.h && s.GetMaps(2 * i + 1) == lm && s.GetSamples(2 * i + 1) == 1, "lists:dimensions", ctx + how); Tensor a(1, e.im.w, e.im.h, e.im.ch), b(1, e.im.w, e.im.h, lm); c.site("CopySample" + how); CK(s.CopySample(2 * i, 0, a, 0) && s.CopySample(2 * i + 1, 0, b, 0), "lists:copy", ctx + how + ": refused"); c.trans(2);
      for (unsigned y = 0; y < e.im.h; y++) for (unsigned x = 0; x < e.im.w; x++) { for (unsigned k = 0; k < e.im.ch; k++) CK(std::fabs(*a.data_ptr_const(x, y, k, 0) - e.im.at(x, y, k) / 255.0) < 2e-6, "lists:image", ctx + how + ": image " + std::to_string(i)); unsigned pix = 0; for (unsigned k = 0; k < 3; k++) pix = pix << 8 | e.la.at(x, y, e.la.ch == 1 ? 0 : k); if (direct) { for (unsigned k = 0; k < 3; k++) CK(std::fabs(*b.data_ptr_const(x, y, k, 0) - chan(pix, k) / 255.0) < 2e-6, "lists:direct", ctx + how + ": label " + std::to_string(i)); } else expect_label(c, b, 0, x, y, cl, pix, ctx + how + " label " + std::to_string(i)); } c.state(mc::mix(hash(a), hash(b)));
      Tensor r(1, e.im.w, e.im.h, e.im.ch); fill(r, 5); CK(!s.CopySample(2 * i, 1, r, 0) && !s.CopySample(2 * i, 0, r, 1) && !s.CopySample(2 * want.size(), 0, r, 0), "lists:refuse", ctx + how); for (size_t k = 0; k < r.elements(); k++) CK(r[k] == 5, "lists:refuse", ctx + how + ": refused request changed the target"); } c.validated(); };
  { c.site("list stream " + ctx); StreamPtr s(TensorStream::FromFile("list:il.txt;" + di + ";ll.txt;" + dl, cl)); verify(*s, " list", false); }
  const char* tool[2] = {getenv("MAKETENSORSTREAM"), getenv("MAKECOMPRESSEDTENSORSTREAM")}; for (unsigned k = 0; k < 4; k++) if (tool[k / 2] && (k % 2 == 0 || end == 1)) { std::string how = std::string(k / 2 ? " compressed import" : " import") + (k % 2 ? " direct" : ""); c.site(how); unlink("out.dat"); int r = system((std::string(tool[k / 2]) + " set.txt il.txt " + di + " ll.txt " + dl + " out.dat " + (k % 2 ? "true" : "false") + " >tool.log 2>&1").c_str()); CK(WIFEXITED(r) && WEXITSTATUS(r) == 0, "lists:tool", ctx + how + ": tool ended with status " + std::to_string(r) + " " + slurp("tool.log").substr(0, 1500)); StreamPtr s(TensorStream::FromFile("out.dat", cl)); CK((dynamic_cast<CompressedTensorStream*>(s.get()) != nullptr) == (k / 2 == 1), "lists:format", ctx + how); verify(*s, how, k % 2); }
  if (n > 1) c.nontrivial(); if (c.want_sample()) c.sample(ctx); }
// size: many entries, many classes, wide or tall images; list stream and both import tools
static void large(mc::Ctx& c) {
  sys_init(); unsigned n = 2, w = 3, h = 2, nc = 2; std::string g = grow(c, {&n, &w, &h, &nc}, false, {&w, &h}); if (g == "0" && n > 20 && n % 16 > 1 && n != 300) c.skip(); unsigned how = c.choose(5, "how"); c.shard(); static const char* HN[] = {" list", " import", " import direct", " compressed import", " compressed import direct"}; const char* tool = how == 0 ? "" : getenv(how < 3 ? "MAKETENSORSTREAM" : "MAKECOMPRESSEDTENSORSTREAM"); if (!tool) c.skip(); bool direct = how == 2 || how == 4;
  std::string x = std::to_string(n) + " entries of " + std::to_string(w) + "x" + std::to_string(h) + ", " + std::to_string(nc) + " classes," + HN[how]; c.site(x); std::vector<unsigned> cl; for (unsigned k = 0; k < nc; k++) cl.push_back((k * 37 % 256) << 16 | (k / 7 * 11 % 256) << 8 | k % 251); mkdir("im", 0755); mkdir("la", 0755); std::vector<Img> im, la; std::string il, ll;
  for (unsigned i = 0; i < n; i++) { unsigned W = g == "0" ? 1 + i % 3 : w, H = g == "0" ? 1 + i / 3 % 2 : h; Img a = solid(W, H, 3), b = solid(W, H, 3); for (size_t k = 0; k < a.v.size(); k++) a.v[k] = (k * 7 + k / 256 * 3 + i * 5 + i / 50) & 255; for (unsigned y = 0; y < H; y++) for (unsigned q = 0; q < W; q++) setpx(b, q, y, (q + y + i) % 7 == 6 ? 0x123456 : cl[(q * 3 + y * 5 + i + q / 64) % nc]); std::string f = "f" + std::to_string(i) + ".png"; spit("im/" + f, png_encode(a)); spit("la/" + f, png_encode(b)); il += f + "\n"; ll += f + "\n"; im.push_back(a); la.push_back(b); }
  spit("il.txt", il); spit("ll.txt", ll); { std::ofstream f("set.txt"); f << "classes=" << nc << "\n"; for (unsigned k = 0; k < nc; k++) f << "class" << k << "\n"; f << "colors\n"; char b[20]; for (unsigned k = 0; k < nc; k++) { snprintf(b, 20, "0x%06x\n", cl[k]); f << b; } }
  StreamPtr s; if (how == 0) s.reset(TensorStream::FromFile("list:il.txt;im;ll.txt;la/", cl)); else { unlink("out.dat"); int r = system((std::string(tool) + " set.txt il.txt im ll.txt la/ out.dat " + (direct ? "true" : "false") + " >tool.log 2>&1").c_str()); CK(WIFEXITED(r) && WEXITSTATUS(r) == 0, "lists:tool", x + ": tool ended with status " + std::to_string(r) + " " + slurp("tool.log").substr(0, 1500)); s.reset(TensorStream::FromFile("out.dat", cl)); }
  CK(s->GetTensorCount() == 2 * n, "lists:count", x + ": " + std::to_string(s->GetTensorCount()) + " tensors"); unsigned lm = direct ? 3 : nc; uint64_t hs = 1;
  for (unsigned i = 0; i < n; i++) { unsigned W = im[i].w, H = im[i].h; std::string at = x + ": entry " + std::to_string(i); CK(s->GetWidth(2 * i) == W && s->GetHeight(2 * i) == H && s->GetMaps(2 * i) == 3 && s->GetWidth(2 * i + 1) == W && s->GetHeight(2 * i + 1) == H && s->GetMaps(2 * i + 1) == lm, "lists:dimensions", at); Tensor a(1, W, H, 3), b(1, W, H, lm); fill(a, 9); fill(b, 9); CK(s->CopySample(2 * i, 0, a, 0) && s->CopySample(2 * i + 1, 0, b, 0), "lists:copy", at + ": refused"); c.trans(2);
    for (unsigned y = 0; y < H; y++) for (unsigned q = 0; q < W; q++) { for (unsigned k = 0; k < 3; k++) CK(std::fabs(*a.data_ptr_const(q, y, k, 0) - im[i].at(q, y, k) / 255.0) < 2e-6, "lists:image", at + kv("x", q) + kv("y", y)); unsigned pix = 0; for (unsigned k = 0; k < 3; k++) pix = pix << 8 | la[i].at(q, y, k); if (direct) { for (unsigned k = 0; k < 3; k++) CK(std::fabs(*b.data_ptr_const(q, y, k, 0) - chan(pix, k) / 255.0) < 2e-6, "lists:direct", at); } else expect_label(c, b, 0, q, y, cl, pix, at); } hs = mc::mix(hs, mc::mix(hash(a), hash(b))); }
  c.state(hs); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(x); }
MC_MAIN({"large", large}, {"colours", colours}, {"intensities", intensities}, {"lists", lists})
