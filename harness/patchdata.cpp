// C08: patchwise datasets
#include "util.h"
#include <fstream>
struct Item { Tensor d, l; Shape q; };
typedef std::vector<std::unique_ptr<Item>> Items;
static float wt(unsigned i) { static const float q[] = {2, 0.5f, 0}; return i < 3 ? q[i] : 0.25f * (i % 37); }
static std::vector<datum> weights_of(unsigned n) { std::vector<datum> v; for (unsigned i = 0; i < n; i++) v.push_back(wt(i)); return v; }
static double kitti(unsigned x, unsigned y, unsigned w, unsigned h) { auto W = [&](double v) { return (int)(v * w / 1226.0); }; auto H = [&](double v) { return (int)(v * h / 370.0); }; int dist = W(std::abs(W(613) - (int)x)); bool ok = !(dist > 3 * ((int)y - H(140))) && (int)y > H(190); double q = (int)y <= H(170) ? 7.0 : std::max(1.0, std::min(7.0, H(200) / (double)((int)y - H(170)))); return 0.51 * (0.25 + (ok ? q * q - 0.25 : 0)); }
static void make(Items& v, unsigned w, unsigned h, unsigned maps, unsigned lmaps, unsigned salt) { v.emplace_back(new Item()); Item& i = *v.back(); i.q = Shape{1, w, h, maps}; i.d.Resize(1, w, h, maps); i.l.Resize(1, w, h, lmaps); for (size_t k = 0; k < i.d.elements(); k++) i.d[k] = salt * 5000 + k % 4500 + 1; for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { unsigned cl = mc::mix(x * 131 + y, salt) % (lmaps + 1); for (size_t m = 0; m < lmaps; m++) *i.l.data_ptr(x, y, m, 0) = lmaps == 1 ? -0.5f + cl + x * 10 + y : (m == cl ? 100.f : cl == lmaps ? -100.f - m : 0.f) + x + 0.125f * y; } }
// the library keeps the files of a patch dataset open for the life of the process
struct CloseFiles { int first; CloseFiles() : first(dup(0)) { close(first); } ~CloseFiles() { for (int f = first; f < first + 16; f++) close(f); } };
static void dataset(mc::Ctx& c, unsigned nt, unsigned ne, unsigned maxw, bool big = false) { CloseFiles closer;
  sys_init(); unsigned px = 2, py = 2, LW = 4, LH = 3, LC = 2, LM = 1; if (big) { grow(c, {&nt, &ne, &px, &py, &LW, &LH, &LC, &LM}); c.require(nt + ne < 60 || LW * LH <= 12); LW = std::max(LW, px + 2); LH = std::max(LH, py + 1); c.require(LW * LH < 4500); } else { px = c.range(1, 3, "patch width"), py = c.range(1, 3, "patch height"); } Items tr, te; std::string ctx = "patch " + std::to_string(px) + "x" + std::to_string(py) + ", training"; unsigned variant = c.choose(nt + ne < 3 ? 6 : big ? 4 : 2, "variant"), classes = variant % 3 + 1, maps = variant % 2 ? 1 : 3, how = (variant + px) % 4; if (big) { classes = LC; maps = LM; } bool weights = variant != 2; unsigned efn = variant % 3;
  for (unsigned i = 0; i < nt + ne; i++) { unsigned w = big ? LW - (i % 3 == 1) : 1 + c.choose(maxw, "width"), h = big ? LH - (i % 5 == 2) : nt + ne > 2 ? 1 + (w * 3 + i + c.choose(c.thorough() ? 3 : 2, "height")) % maxw : 1 + c.choose(maxw, "height"); make(i < nt ? tr : te, w, h, maps, classes, i + 1); if (i == nt) ctx += " testing"; ctx += " " + std::to_string(w) + "x" + std::to_string(h); } c.shard();
  std::ostringstream st, se; for (auto& i : tr) { i->d.Serialize(st); i->l.Serialize(st); } for (auto& i : te) { i->d.Serialize(se); i->l.Serialize(se); } spit("tr.dat", st.str()); spit("te.dat", se.str()); std::ostringstream cf; cf << "classes=" << classes << "\n"; for (unsigned i = 0; i < classes; i++) cf << "c" << i << "\n"; cf << "colors\n"; for (unsigned i = 0; i < classes; i++) cf << "0x" << 100000 + i << "\n"; if (weights) { cf << "weights\n"; for (unsigned i = 0; i < classes; i++) cf << wt(i) << "\n"; } if (efn == 1) cf << "localized_error=kitti\n"; if (how == 1) cf << "nommap\n"; if (nt) cf << "training=tr.dat\n"; if (ne) cf << "testing=te.dat\n";
  std::unique_ptr<TensorStreamPatchDataset> d; static const char* HOW[] = {" memory mapped", " nommap", " from streams", " memory mapped"}; ctx += HOW[how]; c.site("create " + ctx); std::istringstream is(cf.str());
  if (how == 2 && !weights) how = 0; if (how == 2 && efn != 1) { std::vector<std::string> names; std::vector<unsigned> cols; for (unsigned i = 0; i < classes; i++) { names.push_back("c"); cols.push_back(i); } d.reset(new TensorStreamPatchDataset(st.str().size() ? *new std::istringstream(st.str()) : *new std::istringstream(), *new std::istringstream(se.str()), classes, names, cols, weights_of(classes), px, py)); } else d.reset(TensorStreamPatchDataset::CreateFromConfiguration(is, false, LOAD_BOTH, px, py));
  CK(d->GetWidth() == px && d->GetHeight() == py && d->GetMethod() == PATCH && d->GetInputMaps() == maps && d->GetLabelMaps() == classes && d->GetClasses() == classes && d->SupportsTesting() == (ne > 0), "patchdata:meta", ctx); size_t pos = 0;
  for (int test = 0; test < 2; test++) { Items& v = test ? te : tr; size_t total = 0; std::vector<size_t> base; for (auto& i : v) { base.push_back(total); if (i->q.w >= px && i->q.h >= py) total += (i->q.w - px + 1) * (i->q.h - py + 1); } size_t have = test ? d->GetTestingSamples() : d->GetTrainingSamples(); CK(have == total, "patchdata:count", ctx + (test ? ": testing" : ": training") + " samples " + std::to_string(have) + " expected " + std::to_string(total)); std::vector<bool> seen(total, false); pos += total;
    for (size_t k = 0; k < total + 3; k++) { Tensor D(2, px, py, maps), L(2, 1, 1, classes), H(2, 1, 1, 2), W(2, 1, 1, 1); for (Tensor* t : {&D, &L, &H, &W}) fill(*t, -55); unsigned slot = (k + test) % 2; size_t index = k < total ? k : k == total ? total : k == total + 1 ? total + 1000 : 0xffffffffu; std::string x = ctx + (test ? " testing" : " training") + " index " + std::to_string(index); c.site(x); bool ok = test ? d->GetTestingSample(D, L, H, W, slot, index) : d->GetTrainingSample(D, L, H, W, slot, index); c.trans(); CK(ok == (k < total), "patchdata:result", x + (ok ? " accepted" : " refused"));
      for (Tensor* t : {&D, &L, &H, &W}) for (size_t e = 0, n = t->elements() / 2; e < n; e++) { CK((*t)[(1 - slot) * n + e] == -55, "patchdata:other-slot", x); if (!ok) CK((*t)[slot * n + e] == -55, "patchdata:refused", x); } if (!ok) continue;
      float f = *D.data_ptr_const(0, 0, 0, slot); size_t img = (size_t)f / 5000, off = (size_t)f % 5000 - 1; bool known = img >= 1 && img <= nt + ne && (test ? img > nt : img <= nt); CK(known, "patchdata:set", x + " delivers a patch of image " + std::to_string(img) + " (" + fmt(f) + ")"); Item& it = *v[img - 1 - (test ? nt : 0)]; size_t col = off % it.q.w, row = off / it.q.w; CK(off < it.q.w * it.q.h && col + px <= it.q.w && row + py <= it.q.h, "patchdata:position", x + " delivers position " + std::to_string(col) + "," + std::to_string(row));
      size_t id = base[img - 1 - (test ? nt : 0)] + row * (it.q.w - px + 1) + col; CK(!seen[id], "patchdata:twice", x + ": position " + std::to_string(col) + "," + std::to_string(row) + " of image " + std::to_string(img) + " comes twice"); seen[id] = true; std::string at = x + " (image " + std::to_string(img) + " position " + std::to_string(col) + "," + std::to_string(row) + ")";
      for (size_t m = 0; m < maps; m++) for (size_t y = 0; y < py; y++) for (size_t xx = 0; xx < px; xx++) CK(*D.data_ptr_const(xx, y, m, slot) == *it.d.data_ptr_const(col + xx, row + y, m, 0), "patchdata:pixels", at); size_t cx = col + px / 2, cy = row + py / 2, best = 0; for (size_t m = 0; m < classes; m++) { float e = *it.l.data_ptr_const(cx, cy, m, 0); CK(*L.data_ptr_const(0, 0, m, slot) == e, "patchdata:label", at + ": label " + fmt(*L.data_ptr_const(0, 0, m, slot)) + " expected " + fmt(e)); if (e > *it.l.data_ptr_const(cx, cy, best, 0)) best = m; }
      double w = (efn == 1 ? kitti(cx, cy, it.q.w, it.q.h) : 1.0) * (weights ? wt(best) : 1), g = *W.data_ptr_const(0, 0, 0, slot); CK(std::fabs(g - w) < 1e-5 * std::max(1.0, w), "patchdata:weight", at + ": weight " + fmt(g) + " expected " + fmt(w)); double hx = it.q.w > 1 ? col / (it.q.w - 1.0) : 0, hy = it.q.h > 1 ? row / (it.q.h - 1.0) : 0; CK(std::fabs(*H.data_ptr_const(0, 0, 0, slot) - hx) < 1e-6 && std::fabs(*H.data_ptr_const(0, 0, 1, slot) - hy) < 1e-6, "patchdata:coordinates", at + ": coordinates " + fmt(*H.data_ptr_const(0, 0, 0, slot)) + "," + fmt(*H.data_ptr_const(0, 0, 1, slot)));
      c.state(mc::mix(mc::mix(hash(D), hash(L)), mc::mix(hash(W), id))); }
    for (size_t i = 0; i < total; i++) CK(seen[i], "patchdata:missing", ctx + (test ? " testing" : " training") + " position " + std::to_string(i) + " is never delivered"); }
  c.validated(); if (pos > 1) c.nontrivial(); if (c.want_sample()) c.sample(ctx + ", " + std::to_string(pos) + " patches"); }
// what a configuration file says: order of the parts, selected files, classes, colours, weights, error function, streams of odd length
static void config(mc::Ctx& c) { CloseFiles closer; sys_init(); unsigned nt = c.choose(3, "training"), ne = c.choose(3, "testing"), order = c.choose(4, "order"), sel = c.choose(4, "selection"), classes = 1 + c.choose(3, "classes"), ws = c.choose(c.thorough() ? 4 : 3, "weights"), efn = c.choose(4, "error function"), odd = c.choose(3, "odd"); bool nommap = c.flip("nommap"); c.require(!odd || (sel == 0 && order == 0 && efn == 0)); c.shard(); Items tr, te; for (unsigned i = 0; i < nt + ne; i++) make(i < nt ? tr : te, 3 + i % 2, 2 + i / 2, 2, classes, i + 1);
  std::ostringstream st, se; for (auto& i : tr) { i->d.Serialize(st); i->l.Serialize(st); } for (auto& i : te) { i->d.Serialize(se); i->l.Serialize(se); } if (odd == 1) { if (!nt) c.skip(); tr[0]->d.Serialize(st); } if (odd == 2) { if (!ne) c.skip(); te[0]->d.Serialize(se); } spit("tr.dat", st.str()); spit("te.dat", se.str());
  static const unsigned COL[] = {0x112233, 0xC0FFEE00u, 0x000001}; std::string cls = "classes=" + std::to_string(classes) + "\n", col = "colors\n", wts = ws ? "weights\n" : "", err = efn == 1 ? "localized_error=kitti\n" : efn == 2 ? "localized_error=default\n" : efn == 3 ? "localized_error=kitti\nlocalized_error=other\n" : "", data = std::string(nt ? "training=tr.dat\n" : "") + (ne ? "testing=te.dat\n" : "") + (nommap ? "nommap\n" : ""); for (unsigned i = 0; i < classes; i++) { char b[40]; cls += "class " + std::to_string(i) + "\n"; snprintf(b, 40, i % 2 ? "%06x\n" : "0x%06X\n", COL[i]); col += b; if (ws) wts += (ws == 1 ? fmt(wt(i)) : ws == 2 ? std::to_string(i + 1) + ".25" : "1e-" + std::to_string(i)) + "\n"; } auto weight = [&](unsigned i) { return ws == 0 ? 1.f : ws == 1 ? wt(i) : ws == 2 ? i + 1.25f : strtof(("1e-" + std::to_string(i)).c_str(), 0); };
  std::string t = order == 0 ? "# a data set\n" + cls + col + wts + err + data : order == 1 ? data + err + cls + wts + "\nunknown=3\n" + col : order == 2 ? err + cls + data + col + "training_is_fun\n" + wts + "#end" : "classes_are=9\n" + cls + "#training=no.dat\n" + data + "\n" + wts + err + col; std::string ctx = t; for (char& ch : ctx) if (ch == '\n') ch = '|'; ctx = "\"" + ctx + "\"" + kv("selection", sel) + kv("odd", odd); c.site("create " + ctx); std::istringstream is(t); if (order % 2) is.setstate(std::ios::eofbit);
  std::unique_ptr<TensorStreamPatchDataset> d; bool fatal = false; try { d.reset(TensorStreamPatchDataset::CreateFromConfiguration(is, sel == 3, sel == 1 ? LOAD_TRAINING_ONLY : sel == 2 ? LOAD_TESTING_ONLY : LOAD_BOTH, 2, 1)); } catch (std::exception&) { fatal = true; } c.trans(); CK(fatal == (odd > 0), "patchdata:odd", std::string(fatal ? "refused " : "accepted ") + ctx); if (fatal) { c.validated(); return; }
  auto patches = [&](Items& v, bool on) { unsigned n = 0; if (on) for (auto& i : v) n += (i->q.w - 1) * i->q.h; return n; }; unsigned pt = patches(tr, sel == 0 || sel == 1), pe = patches(te, sel == 0 || sel == 2); CK(d->GetTrainingSamples() == pt && d->GetTestingSamples() == pe && d->SupportsTesting() == (pe > 0), "patchdata:selection", std::to_string(d->GetTrainingSamples()) + " training and " + std::to_string(d->GetTestingSamples()) + " testing samples " + ctx); CK(d->GetMethod() == PATCH && d->GetTask() == SEMANTIC_SEGMENTATION && d->GetWidth() == 2 && d->GetHeight() == 1, "patchdata:meta", ctx); if (pt + pe) CK(d->GetInputMaps() == 2 && d->GetLabelMaps() == classes, "patchdata:meta", ctx);
  CK(d->GetClasses() == classes && d->GetClassNames().size() == classes && d->GetClassColors().size() == classes && d->GetClassWeights().size() == classes, "patchdata:classes", ctx); for (unsigned i = 0; i < classes; i++) CK(d->GetClassNames()[i] == "class " + std::to_string(i) && d->GetClassColors()[i] == COL[i] && d->GetClassWeights()[i] == weight(i), "patchdata:classes", "class " + std::to_string(i) + " " + d->GetClassNames()[i] + " " + std::to_string(d->GetClassColors()[i]) + " " + fmt(d->GetClassWeights()[i]) + " " + ctx);
  for (int test = 0; test < 2; test++) { Items& v = test ? te : tr; std::multiset<std::pair<uint64_t, float>> want, got; if (test ? pe : pt) for (auto& i : v) for (unsigned y = 0; y < i->q.h; y++) for (unsigned x = 0; x + 1 < i->q.w; x++) { unsigned best = 0; for (unsigned m = 0; m < classes; m++) if (*i->l.data_ptr_const(x + 1, y, m, 0) > *i->l.data_ptr_const(x + 1, y, best, 0)) best = m; want.insert({(uint64_t)*i->d.data_ptr_const(x, y, 0, 0), (float)((efn == 1 ? kitti(x + 1, y, i->q.w, i->q.h) : 1.0) * weight(best))}); }
    for (unsigned k = 0; k < (test ? pe : pt); k++) { Tensor D(1, 2, 1, 2), L(1, 1, 1, classes), H(1, 1, 1, 2), W(1, 1, 1, 1); CK(test ? d->GetTestingSample(D, L, H, W, 0, k) : d->GetTrainingSample(D, L, H, W, 0, k), "patchdata:result", ctx); c.trans(); got.insert({(uint64_t)D[0], W[0]}); } CK(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin(), [](auto& a, auto& b) { return a.first == b.first && std::fabs(a.second - b.second) <= 1e-5 * std::max(1.f, b.second); }), "patchdata:samples", std::string(test ? "testing" : "training") + " samples or weights are wrong " + ctx); }
  c.validated(); if (pt + pe > 1) c.nontrivial(); c.state(mc::hash_bytes(t.data(), t.size())); if (c.want_sample()) c.sample(ctx); }
static void one(mc::Ctx& c) { bool t = c.flip("testing"); dataset(c, !t, t, 6); }
static void two(mc::Ctx& c) { unsigned k = c.choose(3, "split"); dataset(c, k, 2 - k, c.thorough() ? 5 : 4); }
static void more(mc::Ctx& c) { unsigned n = c.thorough() ? 4 : 3, k = c.choose(n + 1, "split"); dataset(c, k, n - k, c.thorough() ? 4 : 4); }
static void large(mc::Ctx& c) { dataset(c, 2, 1, 4, true); }
MC_MAIN({"large", large}, {"one", one}, {"two", two}, {"more", more}, {"config", config})
