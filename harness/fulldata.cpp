// C07: full-image datasets
#include "util.h"
static Shape SZ[] = {{1, 3, 2, 1}, {1, 1, 5, 1}, {1, 6, 1, 1}, {1, 65, 3, 1}, {1, 2, 70, 1}, {1, 64, 64, 1}, {1, 1, 1, 1}};
struct Item { Tensor d, l; Shape q; };
typedef std::vector<std::unique_ptr<Item>> Items;
static void make(Items& v, const Shape& q, unsigned maps, unsigned lmaps, unsigned salt) { v.emplace_back(new Item()); Item& i = *v.back(); i.q = q; i.d.Resize(1, q.w, q.h, maps); i.l.Resize(1, q.w, q.h, lmaps); for (size_t k = 0; k < i.d.elements(); k++) i.d[k] = salt * 1000 + k % 977 + 1; i.l.Clear(0); for (size_t y = 0; y < q.h; y++) for (size_t x = 0; x < q.w; x++) { unsigned cl = mc::mix(x * 131 + y, salt) % (lmaps + 1); for (size_t m = 0; m < lmaps; m++) *i.l.data_ptr(x, y, m, 0) = lmaps == 1 ? -0.5f + cl : m == cl ? 1.f : cl == lmaps ? -1.f : 0.f; } }
static void store(const Items& v, const std::string& f, bool comp) { std::ofstream o(f, std::ios::binary); if (comp) { uint64_t m = CN24_CTS_MAGIC; o.write((char*)&m, 8); } for (auto& i : v) for (Tensor* t : {&i->d, &i->l}) if (comp) { CompressedTensor ct; ct.Compress(*t); ct.Serialize(o); } else t->Serialize(o); }
// the localised error of the KITTI road benchmark as the library defines it
static double kitti(unsigned x, unsigned y, unsigned w, unsigned h) { auto W = [&](double v) { return (int)(v * w / 1226.0); }; auto H = [&](double v) { return (int)(v * h / 370.0); }; int dist = W(std::abs(W(613) - (int)x)); bool ok = !(dist > 3 * ((int)y - H(140))) && (int)y > H(190); double q = (int)y <= H(170) ? 7.0 : std::max(1.0, std::min(7.0, H(200) / (double)((int)y - H(170)))); return 0.51 * (0.25 + (ok ? q * q - 0.25 : 0)); }
static unsigned colour(unsigned i) { static const unsigned q[] = {0x112233, 0xC0FFEE00u, 0x000001}; return i < 3 ? q[i] : i * 0x010305; }
static float wt(unsigned i) { static const float q[] = {2, 0.5f, 0}; return i < 3 ? q[i] : 0.25f * (i % 37); }
struct World { Items tr, te; unsigned classes, maps, efn; bool weights, comp; std::string ctx; std::unique_ptr<TensorStreamDataset> d; };
static size_t up64(size_t v) { return (v + 63) / 64 * 64; }
static void config(mc::Ctx& c, World& w, unsigned order, DatasetLoadSelection sel, bool dont) {
  store(w.tr, "tr.dat", w.comp); store(w.te, "te.dat", w.comp); std::ostringstream f; std::string cls = "classes=" + std::to_string(w.classes) + "\n", col = "colors\n", wts = "weights\n", err = w.efn == 1 ? "localized_error=kitti\n" : w.efn == 2 ? "localized_error=default\n" : "", data = std::string(w.tr.size() ? "training=tr.dat\n" : "") + (w.te.size() ? "testing=te.dat\n" : ""); for (unsigned i = 0; i < w.classes; i++) { char b[40]; cls += "class " + std::to_string(i) + "\n"; snprintf(b, 40, i % 2 ? "%06x\n" : "0x%06X\n", colour(i)); col += b; wts += fmt(wt(i)) + "\n"; } if (!w.weights) wts = "";
  if (order == 0) f << "# a data set\n" << cls << col << wts << err << data; else if (order == 1) f << data << err << cls << wts << "\nunknown=3\n" << col; else f << err << cls << data << col << "training_is_fun\n" << wts << "#end"; (void)c; std::istringstream is(f.str()); w.ctx += " order " + std::to_string(order); c.site("CreateFromConfiguration " + w.ctx); w.d.reset(TensorStreamDataset::CreateFromConfiguration(is, dont, sel)); }
static void meta(mc::Ctx& c, World& w, bool tr, bool te) {
  size_t mw = 0, mh = 0; for (auto* v : {tr ? &w.tr : nullptr, te ? &w.te : nullptr}) if (v) for (auto& i : *v) { mw = std::max(mw, i->q.w); mh = std::max(mh, i->q.h); } TensorStreamDataset& d = *w.d; c.trans();
  CK(d.GetWidth() == up64(mw) && d.GetHeight() == up64(mh), "fulldata:size", w.ctx + ": dataset size " + std::to_string(d.GetWidth()) + "x" + std::to_string(d.GetHeight())); size_t nt = tr ? w.tr.size() : 0, ne = te ? w.te.size() : 0; CK(d.GetTrainingSamples() == nt && d.GetTestingSamples() == ne && d.SupportsTesting() == (ne > 0), "fulldata:count", w.ctx); CK(d.GetMethod() == FCN && d.GetTask() == SEMANTIC_SEGMENTATION, "fulldata:method", w.ctx);
  if (nt + ne) CK(d.GetInputMaps() == w.maps && d.GetLabelMaps() == (nt ? w.tr : w.te)[0]->l.maps(), "fulldata:maps", w.ctx); CK(d.GetClasses() == w.classes && d.GetClassNames().size() == w.classes && d.GetClassColors().size() == w.classes, "fulldata:classes", w.ctx); for (unsigned i = 0; i < w.classes; i++) CK(d.GetClassNames()[i] == "class " + std::to_string(i) && d.GetClassColors()[i] == colour(i) && d.GetClassWeights()[i] == (w.weights ? wt(i) : 1.f), "fulldata:classes", w.ctx + " class " + std::to_string(i)); }
struct Batch { Tensor d, l, h, w; Batch(World& q, unsigned n, size_t W, size_t H) : d(n, W, H, q.maps), l(n, W, H, (q.tr.size() ? q.tr : q.te)[0]->l.maps()), h(n, W, H, 2), w(n, W, H, 1) { for (Tensor* t : {&d, &l, &h, &w}) fill(*t, -77); } uint64_t slot(unsigned s) const { uint64_t r = 5; for (const Tensor* t : {&d, &l, &h, &w}) { size_t k = t->elements() / t->samples(); r = mc::hash_bytes(t->data_ptr_const() + s * k, 4 * k, r); } return r; } };
static void fetch(mc::Ctx& c, World& w, Batch& b, bool test, unsigned slot, unsigned index, const std::string& hist) {
  Items& v = test ? w.te : w.tr; std::string ctx = w.ctx + hist + (test ? " testing" : " training") + " sample " + std::to_string(index) + " slot " + std::to_string(slot); std::vector<uint64_t> before; for (unsigned s = 0; s < b.d.samples(); s++) before.push_back(b.slot(s)); c.site(ctx); c.trans(); bool ok = test ? w.d->GetTestingSample(b.d, b.l, b.h, b.w, slot, index) : w.d->GetTrainingSample(b.d, b.l, b.h, b.w, slot, index); bool want = index < v.size() && slot < b.d.samples();
  CK(ok == want, "fulldata:result", ctx + (ok ? ": accepted" : ": refused")); for (unsigned s = 0; s < b.d.samples(); s++) if (!(want && s == slot)) CK(before[s] == b.slot(s), "fulldata:other-slot", ctx + ": slot " + std::to_string(s) + " was changed"); if (!want) return; Item& it = *v[index]; size_t W = b.d.width(), H = b.d.height();
  auto bad = [&](const char* k, size_t x, size_t y, size_t m, double g, double e) { c.fail(std::string("fulldata:") + k, ctx + ": " + k + " of image " + it.q.str() + " at " + std::to_string(x) + "," + std::to_string(y) + " map " + std::to_string(m) + " is " + fmt(g) + " expected " + fmt(e)); };
  for (size_t y = 0; y < H; y++) for (size_t x = 0; x < W; x++) { bool in = x < it.q.w && y < it.q.h; for (size_t m = 0; m < b.d.maps(); m++) { float g = *b.d.data_ptr_const(x, y, m, slot), e = in ? *it.d.data_ptr_const(x, y, m, 0) : 0; if (g != e) bad("image", x, y, m, g, e); } size_t best = 0; for (size_t m = 0; m < b.l.maps(); m++) { float g = *b.l.data_ptr_const(x, y, m, slot), e = in ? *it.l.data_ptr_const(x, y, m, 0) : 0; if (g != e) bad("label", x, y, m, g, e); if (in && e > *it.l.data_ptr_const(x, y, best, 0)) best = m; }
      double hx = in && it.q.w > 1 ? x / (it.q.w - 1.0) : 0, hy = in && it.q.h > 1 ? y / (it.q.h - 1.0) : 0; float gx = *b.h.data_ptr_const(x, y, 0, slot), gy = *b.h.data_ptr_const(x, y, 1, slot); if (!(std::fabs(gx - hx) < 1e-6)) bad("coordinate", x, y, 0, gx, hx); if (!(std::fabs(gy - hy) < 1e-6)) bad("coordinate", x, y, 1, gy, hy); double e = in ? (w.efn == 1 ? kitti(x, y, it.q.w, it.q.h) : 1.0) * (w.weights ? wt(best) : 1) : 0, g = *b.w.data_ptr_const(x, y, 0, slot); if (!(std::fabs(g - e) < 1e-5 * std::max(1.0, e)) || (!in && g != 0)) bad("weight", x, y, 0, g, e); }
  c.state(mc::mix(b.slot(slot), index)); }
// datasets of up to 2+2 images in every storage format, all pairs of requests
static void datasets(mc::Ctx& c) {
  sys_init(); World w; unsigned nt = c.range(0, 2, "training images"), ne = c.range(0, 2, "testing images"); unsigned variant = c.choose(6, "variant"); w.classes = variant % 3 + 1; w.maps = variant == 5 ? 1 : 3; w.efn = variant % 3; w.weights = variant != 1; w.comp = variant & 1; unsigned S = c.thorough() ? (nt + ne == 4 ? 5 : 7) : nt + ne == 4 ? 3 : 5; w.ctx = std::to_string(w.classes) + " classes, training";
  for (unsigned i = 0; i < nt + ne; i++) { Shape q = SZ[c.choose(S, "size")]; make(i < nt ? w.tr : w.te, q, w.maps, w.classes, i); if (i == nt) w.ctx += " testing"; w.ctx += " " + std::to_string(q.w) + "x" + std::to_string(q.h); } if (nt + ne == 4 && !c.thorough()) { c.require(variant == 1 || variant == 5); } c.shard(); config(c, w, variant % 3, LOAD_BOTH, false); meta(c, w, true, true); if (nt + ne == 0) { c.sample(w.ctx); return; }
  size_t W = w.d->GetWidth(), H = w.d->GetHeight(); Batch b(w, 2, W, H); std::vector<std::pair<bool, unsigned>> all; for (unsigned i = 0; i <= nt; i++) all.push_back({false, i}); for (unsigned i = 0; i <= ne; i++) all.push_back({true, i}); for (auto& p : all) for (unsigned s = 0; s < 3; s++) fetch(c, w, b, p.first, s, p.second, ""); for (auto& p : all) for (auto& q : all) { fetch(c, w, b, p.first, 0, p.second, ""); fetch(c, w, b, q.first, 0, q.second, " after another"); }
  c.validated(); if (nt + ne > 1) c.nontrivial(); if (c.want_sample()) c.sample(w.ctx); }
// loading only a part, or nothing
static void selections(mc::Ctx& c) {
  sys_init(); World w; unsigned sel = c.choose(4, "selection"), nt = c.range(0, 2, "training"), ne = c.range(0, 2, "testing"), order = c.choose(3, "order"); w.comp = c.flip("compressed"); w.classes = c.range(1, 3, "classes"); w.weights = c.flip("weights"); w.efn = c.choose(3, "error"); unsigned odd = c.choose(3, "odd file"); c.shard(); w.maps = 2; w.ctx = "selection " + std::to_string(sel) + " training " + std::to_string(nt) + " testing " + std::to_string(ne); for (unsigned i = 0; i < nt + ne; i++) make(i < nt ? w.tr : w.te, SZ[(i * 2 + sel) % 5], 2, w.classes, i);
  if (odd) { Items& v = odd == 1 ? w.tr : w.te; if (v.empty()) c.skip(); store(w.tr, "tr.dat", w.comp); store(w.te, "te.dat", w.comp); std::string f = odd == 1 ? "tr.dat" : "te.dat"; std::ofstream o(f, std::ios::binary | std::ios::app); if (w.comp) { CompressedTensor ct; ct.Compress(v[0]->d); ct.Serialize(o); } else v[0]->d.Serialize(o); o.close(); std::istringstream is("classes=1\na\ncolors\nff0000\ntraining=tr.dat\n" + std::string(ne ? "testing=te.dat\n" : "")); if (!nt) { is.str("classes=1\na\ncolors\nff0000\ntesting=te.dat\n"); } bool refused = false; c.site("odd tensor count " + w.ctx); try { std::unique_ptr<TensorStreamDataset> d(TensorStreamDataset::CreateFromConfiguration(is)); } catch (std::runtime_error&) { refused = true; } CK(refused, "fulldata:odd", w.ctx + ": an image without label is accepted"); c.validated(); return; }
  bool tr = sel == 0 || sel == 1, te = sel == 0 || sel == 2; config(c, w, order, sel == 1 ? LOAD_TRAINING_ONLY : sel == 2 ? LOAD_TESTING_ONLY : LOAD_BOTH, sel == 3); meta(c, w, tr, te); if (!tr) w.tr.clear(); if (!te) w.te.clear(); if (w.tr.size() + w.te.size()) { Batch b(w, 1, w.d->GetWidth(), w.d->GetHeight()); for (unsigned i = 0; i < 4; i++) { fetch(c, w, b, false, 0, i, ""); fetch(c, w, b, true, 0, i, ""); } c.nontrivial(); } c.validated(); if (c.want_sample()) c.sample(w.ctx); }
// the localised error functions at every pixel of images of every size class
static void errors(mc::Ctx& c) {
  sys_init(); World w; w.efn = c.flip("kitti"); unsigned W = c.pick(std::vector<unsigned>{1, 2, 3, 7, 40, 63, 130, 613, 1226, 1242}, "width"), H = c.pick(std::vector<unsigned>{1, 2, 5, 30, 64, 100, 370, 375, 500}, "height"); c.shard(); w.classes = 2; w.maps = 1; w.weights = true; w.comp = false; w.ctx = "image " + std::to_string(W) + "x" + std::to_string(H); make(w.tr, Shape{1, W, H, 1}, 1, 2, W + H); config(c, w, 0, LOAD_BOTH, false); meta(c, w, true, true); Batch b(w, 1, w.d->GetWidth(), w.d->GetHeight()); fetch(c, w, b, false, 0, 0, ""); c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(w.ctx); }
// many images, classes or maps, larger images
static void large(mc::Ctx& c) { sys_init(); World w; unsigned nt = 2, ne = 1, W = 3, H = 2, maps = 3, cls = 2, slots = 1; grow(c, {&nt, &ne, &W, &H, &maps, &cls, &slots}, false, {&W, &H}); w.comp = c.flip("compressed"); w.weights = c.flip("weights"); c.shard(); w.classes = cls; w.maps = maps; w.efn = nt % 3; w.ctx = std::to_string(cls) + " classes, " + std::to_string(nt) + "+" + std::to_string(ne) + " images " + std::to_string(W) + "x" + std::to_string(H) + " maps " + std::to_string(maps); for (unsigned i = 0; i < nt + ne; i++) make(i < nt ? w.tr : w.te, Shape{1, i % 2 ? W : W / 2 + 1, i % 3 ? H : H / 2 + 1, 1}, maps, cls, i); config(c, w, nt % 3, LOAD_BOTH, false); meta(c, w, true, true); Batch b(w, slots, w.d->GetWidth(), w.d->GetHeight());
  for (unsigned i = 0; i <= nt; i += 1 + (i > 12 && i + 3 < nt ? 9 : 0)) fetch(c, w, b, false, slots - 1, i, ""); for (unsigned i = 0; i <= ne; i += 1 + (i > 12 && i + 3 < ne ? 9 : 0)) fetch(c, w, b, true, 0, i, ""); fetch(c, w, b, false, slots / 2, 0, ""); c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(w.ctx); }
MC_MAIN({"large", large}, {"datasets", datasets}, {"selections", selections}, {"errors", errors})
