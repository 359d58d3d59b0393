// C06: image files and colourised outputs
#include "util.h"
#include "imgio.h"
struct TestSet : TensorStreamDataset { using TensorStreamDataset::TensorStreamDataset; };
static bool load(mc::Ctx& c, const std::string& name, Tensor& t, std::string& why) { c.site("load " + name); try { t.LoadFromFile(name); return true; } catch (std::exception& e) { why = e.what(); return false; } }
// every channel count, depth, interlacing and small shape; every value 0..255 in every channel
static void values(mc::Ctx& c) {
  sys_init(); Img im; im.depth = c.flip("depth") ? 16 : 8; im.ch = c.range(1, 4, "channels"); bool jpg = im.depth == 8 && (im.ch == 1 || im.ch == 3) && c.flip("jpg"); bool inter = !jpg && c.flip("interlaced"); unsigned sh = c.choose(c.thorough() ? 44 : 29, "shape"); if (sh < 25) { im.w = 1 + sh % 5; im.h = 1 + sh / 5; } else if (sh == 25) { im.w = 16; im.h = 16; } else if (sh == 26) { im.w = 256; im.h = 1; } else if (sh == 27) { im.w = 1; im.h = 256; } else if (sh == 28) { im.w = 33; im.h = 17; } else { im.w = 2 + sh; im.h = 71 - sh; }
  unsigned salt = c.choose(c.thorough() ? 12 : 5, "content"); c.shard(); im.v.resize(im.w * im.h * im.ch); unsigned k = 0; for (unsigned y = 0; y < im.h; y++) for (unsigned x = 0; x < im.w; x++) for (unsigned ch = 0; ch < im.ch; ch++, k++) { unsigned p = y * im.w + x; unsigned b = salt == 0 ? (p + ch * 85) & 255 : salt == 1 ? 255 - ((p * 3 + ch * 7) & 255) : (unsigned)(mc::mix(k + 1, salt) & 255); if (jpg && salt) b = 32 * ch + 7 * salt; im.v[k] = im.depth == 16 ? (b * 256 + (mc::mix(k, salt) & 255)) & 65535 : b; }
  std::string name = jpg ? "i.jpg" : "i.png", ctx = std::string(jpg ? "jpg " : "png ") + std::to_string(im.w) + "x" + std::to_string(im.h) + " " + std::to_string(im.ch) + " channels of " + std::to_string(im.depth) + " bits" + (inter ? " interlaced" : "") + " content " + std::to_string(salt); std::string bytes = jpg ? jpg_encode(im) : png_encode(im, inter); spit(name, bytes); Img want = im; if (jpg) jpg_decode(bytes, want);
  auto same = [&](const Tensor& t, const std::string& how) { CK(shape(t) == (Shape{1, im.w, im.h, im.ch}), "images:shape", ctx + how + " loaded as " + shape(t).str()); for (unsigned y = 0; y < im.h; y++) for (unsigned x = 0; x < im.w; x++) for (unsigned ch = 0; ch < im.ch; ch++) { double v = *t.data_ptr_const(x, y, ch, 0), e = want.at(x, y, ch) / (im.depth == 16 ? 65535.0 : 255.0); if (std::fabs(v - e) > 2e-6) c.fail("images:pixel", ctx + how + ": channel " + std::to_string(ch) + " at " + std::to_string(x) + "," + std::to_string(y) + " is " + fmt(v) + " expected " + fmt(e)); } };
  c.site("Tensor(" + name + ")"); Tensor t(name); c.trans(); same(t, ""); Tensor r(2, 7, 3, 1); r.LoadFromFile(name); same(r, " into a used tensor"); CK(slurp(name) == bytes, "images:modified", ctx);
  if (im.depth == 8 && im.ch == 3) { c.site("WriteToFile"); t.WriteToFile("o.png"); c.trans(); Img g; CK(png_decode(slurp("o.png"), g) && g.w == im.w && g.h == im.h, "images:saved", ctx + ": saved file does not decode"); for (size_t i = 0; i < g.v.size(); i++) if (g.v[i] != want.v[i]) c.fail("images:roundtrip", ctx + ": saved value " + std::to_string(g.v[i]) + " was " + std::to_string(want.v[i]) + " at " + std::to_string(i)); Tensor again("o.png"); CK(hash(again) == hash(t), "images:roundtrip", ctx + ": saved and loaded again differs");
    if (jpg ? salt != 0 : salt == 0 && im.w == 1 && im.h == 1) { t.WriteToFile("o.jpg"); jpg_decode(slurp("o.jpg"), g); CK(g.w == im.w && g.h == im.h && g.ch == 3, "images:saved", ctx); for (size_t i = 0; i < g.v.size(); i++) if (std::abs((int)g.v[i] - (int)want.v[i]) > 4) c.fail("images:jpg", ctx + ": saved as jpg " + std::to_string(g.v[i]) + " was " + std::to_string(want.v[i])); } }
  c.state(hash(t)); c.validated(); if (im.w * im.h > 1) c.nontrivial(); if (c.want_sample()) c.sample(ctx); }
// a network output with every combination of scores is painted with the colour of the best class
static void colorize(mc::Ctx& c) {
  sys_init(); static const float SC[] = {-2, 0, 1, -3.4028235e38f, 5e-40f, -0.25f, 3e38f}; unsigned n = c.range(1, 4, "classes"), px = n <= 2 ? 2 : 1, ns = n <= 2 ? 7 : n == 3 ? 6 : 5; unsigned pal = c.choose(4, "palette"); bool flip = c.flip("vertical"), two = c.flip("two samples"); static const unsigned P[4][4] = {{0, 0xffffff, 0xff0000, 0x0000ff}, {0x010203, 0x020301, 0x7f80fe, 0xfefe01}, {0x804000, 0x408000, 0xff804000, 0x0000c0}, {0x101010, 0x909090, 0x111111, 0x919191}};
  std::vector<unsigned> col(P[pal], P[pal] + n); std::vector<std::string> names(n, "c"); if (n == 1 && pal == 3) col[0] = 0xffffff; Tensor net(two ? 2 : 1, flip ? 1 : px, flip ? px : 1, n), out; net.Clear(0); for (unsigned p = 0; p < px; p++) for (unsigned k = 0; k < n; k++) *net.data_ptr(flip ? 0 : p, flip ? p : 0, k, two ? 1 : 0) = n == 1 ? (float)(c.choose(9, "score") * 0.25 - 1) : SC[c.choose(ns, "score")]; c.shard();
  static FloatTensorStream e1, e2; TestSet d(&e1, &e2, n, names, col, std::vector<datum>(n, 1)); out.Resize(net.samples(), net.width(), net.height(), 3); fill(out, 7); c.site("Colorize"); uint64_t h = hash(net); d.Colorize(net, out); c.trans(); CK(hash(net) == h, "colorize:input", "Colorize changed the scores"); std::string ctx = std::to_string(n) + " classes, palette " + std::to_string(pal) + ", scores " + show(net) + " painted " + show(out);
  for (size_t s = 0; s < net.samples(); s++) for (unsigned p = 0; p < px; p++) { size_t x = flip ? 0 : p, y = flip ? p : 0; bool ok = false; double mx = -INFINITY; for (unsigned k = 0; k < n; k++) mx = std::max<double>(mx, *net.data_ptr_const(x, y, k, s));
      for (unsigned k = 0; k < n; k++) if (*net.data_ptr_const(x, y, k, s) == mx) { bool eq = true; for (unsigned ch = 0; ch < 3; ch++) { double e = (col[k] >> (16 - 8 * ch) & 255) / 255.0; if (n == 1) e *= (mx + 1) / 2; eq &= std::fabs(*out.data_ptr_const(x, y, ch, s) - e) < 1e-5; } ok |= eq; } CK(ok, "colorize:colour", ctx + " at sample " + std::to_string(s) + " pixel " + std::to_string(p)); }
  if (!two && n > 1) { out.WriteToFile("c.png"); Img g; png_decode(slurp("c.png"), g); for (unsigned p = 0; p < px; p++) { unsigned v = g.v[3 * p] << 16 | g.v[3 * p + 1] << 8 | g.v[3 * p + 2]; bool ok = false; double mx = -INFINITY; for (unsigned k = 0; k < n; k++) mx = std::max<double>(mx, *net.data_ptr_const(flip ? 0 : p, flip ? p : 0, k, 0)); for (unsigned k = 0; k < n; k++) ok |= *net.data_ptr_const(flip ? 0 : p, flip ? p : 0, k, 0) == mx && (col[k] & 0xffffff) == v; CK(ok, "colorize:recover", ctx + ": colour in the file is not that of a best class"); } c.validated(); }
  c.state(hash(net)); if (n > 1) c.nontrivial(); if (c.want_sample()) c.sample(ctx); }
// every value of every channel of a class colour survives painting and saving
static void palette(mc::Ctx& c) {
  sys_init(); unsigned v = c.choose(256, "value"), ch = c.choose(3, "channel"); c.shard(); unsigned col = v << (16 - 8 * ch) | (0x804020 & ~(255 << (16 - 8 * ch))); static FloatTensorStream e1, e2; TestSet d(&e1, &e2, 2, {"a", "b"}, {0x123456, col}, {1, 1}); Tensor net(1, 1, 1, 2), out(1, 1, 1, 3); net[0] = -3; net[1] = -1; d.Colorize(net, out); out.WriteToFile("p.png"); Img g; png_decode(slurp("p.png"), g); c.trans(); unsigned r = g.v[0] << 16 | g.v[1] << 8 | g.v[2]; char b[100]; snprintf(b, 100, "class colour %06x comes back as %06x", col, r); CK(r == col, "colorize:recover", b); c.state(col); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(b); }
// file names and formats
static void names(mc::Ctx& c) {
  sys_init(); static const char* BASE[] = {"", "a", "x.y", "dir/a", "no/such/dir/a", "png", "longer name with blanks", "a.png"}; static const char* EXT[] = {"", ".png", ".PNG", ".jpg", ".JPG", ".jpeg", ".JPEG", ".Tensor", ".bmp", ".txt", ".", ".pn", ".png2", "g", ".tensor", ".Png"}; std::string base = BASE[c.choose(8, "name")], ext = EXT[c.choose(16, "extension")]; unsigned op = c.choose(4, "operation"), what = c.choose(6, "tensor"); c.shard(); mkdir("dir", 0755); std::string name = base + ext; static Shape TS[] = {{1, 2, 3, 3}, {1, 2, 3, 1}, {2, 1, 1, 3}, {0, 0, 0, 0}, {1, 1, 1, 4}, {1, 65501, 1, 3}}; Tensor t; Shape q = TS[what]; if (q.n()) { t.Resize(q.s, q.w, q.h, q.m); for (size_t i = 0; i < t.elements(); i++) t[i] = 0.5f; } uint64_t h = hash(t); if (name.size()) unlink(name.c_str());
  int fmt_ = ext == ".png" || ext == ".PNG" || (ext == "" && base == "a.png") ? 1 : ext == ".jpg" || ext == ".JPG" || ext == ".jpeg" || ext == ".JPEG" ? 2 : ext == ".Tensor" ? 3 : 0; bool loose = name == "png"; bool nodir = base.rfind("no/", 0) == 0; std::string ctx = "name '" + name + "' tensor " + q.str();
  auto guarded = [&](const std::function<void()>& f) { try { f(); return true; } catch (std::exception& e) { return false; } }; c.trans();
  if (op == 0) { c.site("WriteToFile " + ctx); bool ok = guarded([&] { t.WriteToFile(name); }); CK(hash(t) == h, "names:tensor", ctx + ": saving changed the tensor"); if (!loose) { if (!fmt_) CK(!ok, "names:unknown", ctx + ": saving to an unknown format reported success"); if (fmt_ && !nodir && what == 0) { CK(ok && exists(name), "names:refused", ctx + ": not saved"); std::string b = slurp(name); bool png = b.substr(1, 3) == "PNG", jpg = b.size() > 2 && (unsigned char)b[0] == 0xff && (unsigned char)b[1] == 0xd8; CK(fmt_ == 1 ? png : fmt_ == 2 ? jpg : (!png && !jpg && b.size() == 32 + 4 * q.n()), "names:format", ctx + ": saved in another format"); Tensor u; c.site("load " + ctx); bool lk = guarded([&] { u.LoadFromFile(name); }); CK(lk && shape(u) == q, "names:format", ctx + ": saved file does not load"); } else if (fmt_ == 3 && !nodir && q.n()) { Tensor u; u.LoadFromFile(name); CK(hash(u) == h, "names:tensorfile", ctx); } } }
  else if (op == 1) { c.site("load missing " + ctx); Tensor u(1, 2, 2, 1); u.Clear(3); bool ok = guarded([&] { u.LoadFromFile(name); }); if (!fmt_ && !loose) CK(!ok, "names:unknown", ctx + ": loading an unknown format reported success"); }
  else { Img im; im.w = 2; im.h = 1; im.ch = 3; im.v = {1, 2, 3, 4, 5, 6}; std::string png = png_encode(im), jpg = jpg_encode(im); std::string content = op == 2 ? (what == 0 ? png : what == 1 ? jpg : what == 2 ? "" : what == 3 ? std::string("\x89PNG") : what == 4 ? std::string(100, 'A') : std::string(31, '\0')) : std::string(what * 7, (char)(what * 50)); if (name.size() && !nodir) spit(name, content); c.site("load odd file " + ctx); Tensor u; bool ok = guarded([&] { u.LoadFromFile(name); }); if (!fmt_ && !loose) CK(!ok, "names:unknown", ctx + ": loading an unknown format reported success"); if (fmt_ == 1 && op == 2 && what == 0 && !nodir) CK(ok && shape(u) == (Shape{1, 2, 1, 3}), "names:format", ctx); if (fmt_ == 2 && op == 2 && what == 1 && !nodir) CK(ok && shape(u) == (Shape{1, 2, 1, 3}), "names:format", ctx); if (fmt_ == 1 && op == 2 && what == 1) CK(u.elements() == 0, "names:format", ctx + ": a jpg loaded as png"); }
  if (name.size()) unlink(name.c_str()); c.state(mc::hash_bytes(name.data(), name.size(), op * 8 + what)); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(ctx + " operation " + std::to_string(op)); }
// every truncation and every single damaged byte of small image files: refused or loaded, never a crash
static void damaged(mc::Ctx& c) {
  sys_init(); unsigned k = c.choose(8, "file"); Img im; im.w = 3; im.h = 2; im.ch = k == 1 || k == 5 ? 1 : k == 2 ? 4 : k == 6 || k == 7 ? 1 : 3; im.depth = k == 2 ? 16 : k == 6 ? 1 : 8; im.v.resize(6 * im.ch); for (size_t i = 0; i < im.v.size(); i++) im.v[i] = im.depth == 1 || k == 7 ? i % 2 : i * 13; bool jpg = k == 4 || k == 5; std::string good = jpg ? jpg_encode(im) : png_encode(im, k == 3, k == 7 ? PNG_COLOR_TYPE_PALETTE : -1), name = jpg ? "d.jpg" : "d.png"; unsigned mode = c.choose(c.thorough() ? 10 : 5, "damage"); size_t part = c.choose(8, "part"); c.shard();
  static const unsigned char X[] = {0, 0xff, 0x01, 0x80, 0x10, 0x02, 0x40, 0x08, 0x20, 0x04};
  for (size_t i = part; i < good.size() + (mode == 0); i += 8) { std::string b = good; if (mode == 0) b.resize(i); else b[i] ^= X[mode]; std::string ctx = "file kind " + std::to_string(k) + (mode ? " with byte " + std::to_string(i) + " damaged by " + std::to_string(X[mode]) : " cut to " + std::to_string(i) + " bytes"); spit(name, b); Tensor t, u(1, 3, 2, 3); std::string why; c.site(ctx); bool ok = load(c, name, t, why); c.site(ctx); load(c, name, u, why); c.trans(2); CK(t.elements() == t.samples() * t.width() * t.height() * t.maps(), "damaged:tensor", ctx); double sum = 0; for (size_t e = 0; e < t.elements() && e < 100000; e++) sum += t[e]; if (ok && t.elements() && !jpg && mode == 0 && i < good.size() - 12) c.fail("damaged:loaded", ctx + ": loaded " + shape(t).str()); c.count(ok && t.elements() ? "loaded" : "refused"); c.state(mc::mix(i, mode * 100 + k)); c.validated(); }
  c.nontrivial(); if (c.want_sample()) c.sample("file kind " + std::to_string(k) + " damage " + std::to_string(mode)); }
// size: large images, many samples, many classes
static void large(mc::Ctx& c) {
  sys_init(); unsigned kind = c.choose(4, "kind"), n = 3, w = 4, h = 3, sm = 1; std::string g = kind == 3 ? grow(c, {&w, &h, &n, &sm}, true, {&w, &h}) : grow(c, {&w, &h}, true, {&w, &h}); c.require(kind != 2 || h <= 65500); c.shard(); std::string ctx = kind < 3 ? std::string(kind == 0 ? "png " : kind == 1 ? "png 16 bits " : "jpg ") + std::to_string(w) + "x" + std::to_string(h) : Shape{sm, w, h, n}.str() + " painted"; c.site(ctx);
  if (kind < 3) { Img im; im.w = w; im.h = h; im.ch = kind == 1 ? 4 : 3; im.depth = kind == 1 ? 16 : 8; im.v.resize(w * h * im.ch); for (size_t i = 0; i < im.v.size(); i++) im.v[i] = kind == 2 ? 40 + i % 3 * 50 : mc::mix(i, 3) & (kind == 1 ? 65535 : 255); std::string b = kind == 2 ? jpg_encode(im) : png_encode(im, (w + h) % 2), name = kind == 2 ? "i.jpg" : "i.png"; spit(name, b); Img want = im; if (kind == 2) jpg_decode(b, want);
    Tensor t(name); c.trans(); CK(shape(t) == (Shape{1, w, h, im.ch}), "images:shape", ctx + " loaded as " + shape(t).str()); for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) for (unsigned ch = 0; ch < im.ch; ch++) { double v = *t.data_ptr_const(x, y, ch, 0), e = want.at(x, y, ch) / (kind == 1 ? 65535.0 : 255.0); CK(std::fabs(v - e) < 2e-6, "images:pixel", ctx + ": channel " + std::to_string(ch) + " at " + std::to_string(x) + "," + std::to_string(y) + " is " + fmt(v) + " expected " + fmt(e)); }
    if (im.ch == 3) { t.WriteToFile("o.png"); c.trans(); Img r; CK(png_decode(slurp("o.png"), r) && r.w == w && r.h == h && r.v == want.v, "images:roundtrip", ctx + ": saved and decoded again differs"); if (kind == 2) { t.WriteToFile("o.jpg"); c.trans(); jpg_decode(slurp("o.jpg"), r); CK(r.w == w && r.h == h && r.ch == 3, "images:saved", ctx); for (size_t i = 0; i < r.v.size(); i++) CK(std::abs((int)r.v[i] - (int)want.v[i]) <= 4, "images:jpg", ctx + ": saved as jpg " + std::to_string(r.v[i]) + " was " + std::to_string(want.v[i])); } } c.state(hash(t)); }
  else { std::vector<unsigned> col; std::vector<std::string> names; for (unsigned k = 0; k < n; k++) { col.push_back((k * 37 % 256) << 16 | (k / 7 * 11 % 256) << 8 | k % 251); names.push_back("c" + std::to_string(k)); } static FloatTensorStream e1, e2; TestSet d(&e1, &e2, n, names, col, std::vector<datum>(n, 1)); Tensor net(sm, w, h, n), out; out.Resize(sm, w, h, 3); fill(out, 7); auto best = [&](unsigned s, unsigned x, unsigned y) { return (s * 5 + x * 3 + y * 7 + x / 64 + (x * y) % 3) % n; }; for (unsigned s = 0; s < sm; s++) for (unsigned k = 0; k < n; k++) for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) *net.data_ptr(x, y, k, s) = k == best(s, x, y) ? 2.5f : (float)(mc::mix(k * 7 + x, y * 5 + s) % 64) / 32;
    d.Colorize(net, out); c.trans(); for (unsigned s = 0; s < sm; s++) for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) for (unsigned ch = 0; ch < 3; ch++) { double e = (col[best(s, x, y)] >> (16 - 8 * ch) & 255) / 255.0, v = *out.data_ptr_const(x, y, ch, s); CK(std::fabs(v - e) < 1e-5, "colorize:colour", ctx + ": sample " + std::to_string(s) + " pixel " + std::to_string(x) + "," + std::to_string(y) + " of best class " + std::to_string(best(s, x, y)) + " has channel " + std::to_string(ch) + " at " + fmt(v) + " expected " + fmt(e)); } c.state(hash(out)); }
  c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(ctx); }
MC_MAIN({"large", large}, {"values", values}, {"colorize", colorize}, {"palette", palette}, {"names", names}, {"damaged", damaged})
