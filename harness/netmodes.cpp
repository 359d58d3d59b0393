// C25: the fully convolutional network against the patch network, for every pixel whose patch lies inside the image
#include "netrig.h"
#include <sstream>
// the data layer's dataset: prepared tensors
struct Given : Dataset { Tensor &d, &h; Method me; unsigned classes; Given(Tensor& d, Tensor& h, Method me, unsigned classes) : d(d), h(h), me(me), classes(classes) {}
  Task GetTask() const override { return SEMANTIC_SEGMENTATION; } Method GetMethod() const override { return me; } unsigned GetWidth() const override { return d.width(); } unsigned GetHeight() const override { return d.height(); } unsigned GetInputMaps() const override { return d.maps(); } unsigned GetLabelMaps() const override { return classes; } unsigned GetClasses() const override { return classes; }
  std::vector<std::string> GetClassNames() const override { return std::vector<std::string>(classes, "c"); } std::vector<unsigned> GetClassColors() const override { return std::vector<unsigned>(classes, 1); } std::vector<datum> GetClassWeights() const override { return std::vector<datum>(classes, 1); } unsigned GetTrainingSamples() const override { return d.samples(); } unsigned GetTestingSamples() const override { return d.samples(); } bool SupportsTesting() const override { return true; }
  bool get(Tensor& D, Tensor& L, Tensor& H, Tensor& W, unsigned slot, unsigned i) { if (i >= d.samples()) return false; size_t n = L.elements() / L.samples(); for (size_t e = 0; e < n; e++) L[slot * n + e] = 0; n = W.elements() / W.samples(); for (size_t e = 0; e < n; e++) W[slot * n + e] = 1; return Tensor::CopySample(d, i, D, slot) && Tensor::CopySample(h, i, H, slot); }
  bool GetTrainingSample(Tensor& D, Tensor& L, Tensor& H, Tensor& W, unsigned s, unsigned i) override { return get(D, L, H, W, s, i); } bool GetTestingSample(Tensor& D, Tensor& L, Tensor& H, Tensor& W, unsigned s, unsigned i) override { return get(D, L, H, W, s, i); } };
struct Lay { const char* text; unsigned kx, ky, sx, sy; bool down; }; // receptive field of one step, step width
static const std::vector<Lay>& lays() { static std::vector<Lay> v = {
  {"?convolutional size=3x3 kernels=2", 3, 3, 1, 1, false}, {"?convolutional size=2x2 kernels=2", 2, 2, 1, 1, false}, {"?convolutional size=1x2 kernels=3", 1, 2, 1, 1, false}, {"?convolutional kernels=2 size=3x2 stride=2x1", 3, 2, 2, 1, false}, {"?convolutional kernels=2 size=2x3 stride=2x3", 2, 3, 2, 3, false}, {"?convolutional size=4x1 kernels=2 dropout=0.5", 4, 1, 1, 1, false},
  {"?maxpooling size=2x2", 2, 2, 2, 2, true}, {"?maxpooling size=3x1", 3, 1, 3, 1, true}, {"?amaxpooling size=3x3 stride=2x2", 3, 3, 2, 2, false}, {"?amaxpooling size=2x2 stride=1x1", 2, 2, 1, 1, false}, {"?amaxpooling size=2x3 stride=2x1", 2, 3, 2, 1, false}, {"?downsampling size=2x2", 2, 2, 2, 2, true},
  {"?relu", 1, 1, 1, 1, false}, {"?tanh", 1, 1, 1, 1, false}, {"?sigm", 1, 1, 1, 1, false}, {"?hmax mu=0.5 weight=0.25", 1, 1, 1, 1, false}, {"?lrn method=across size=3 alpha=0.5 beta=0.75", 1, 1, 1, 1, false}, {"?fullyconnected neurons=3", 1, 1, 1, 1, false}, {"?convolutional size=3x1 kernels=2 group=2", 3, 1, 1, 1, false}}; return v; }
struct Mode { NetGraph g; NetGraphNode* in = nullptr; std::unique_ptr<Given> data; ConfigurableFactory* f; std::vector<float> out; Shape sh;
  Mode(ConfigurableFactory& fac, Tensor& d, Tensor& h, unsigned classes) : data(new Given(d, h, fac.method(), classes)), f(&fac) { in = new NetGraphNode(new DatasetInputLayer(*data, d.samples(), 1.0, 11)); in->is_input = true; g.AddNode(in); }
  bool build(unsigned classes, bool loss) { if (!f->AddLayers(g, NetGraphConnection(in), classes, loss)) return false; g.Initialize(); g.InitializeWeights(); return true; }
  void run() { g.SetIsTesting(true); ((DatasetInputLayer*)in->layer)->SetTestingMode(true); g.FeedForward(); Tensor& t = g.GetOutputNodes()[0]->output_buffers[0].combined_tensor->data; out.assign(t.data_ptr_const(), t.data_ptr_const() + t.elements()); sh = shape(t); }
  float at(size_t s, size_t x, size_t y, size_t m) const { return out[((s * sh.m + m) * sh.h + y) * sh.w + x]; } };
static void run(mc::Ctx& c, const std::vector<Lay>& prog, const std::vector<std::string>& tail, unsigned classes, unsigned salt, unsigned extra, bool loss, bool prior, unsigned maps = 2, unsigned ew = 0, unsigned eh = 0, unsigned room = 700) {
  // geometry: receptive field of one output value and step between neighbouring ones
  int rf[2] = {1, 1}, F[2] = {1, 1}; for (auto& k : prog) { rf[0] += (k.kx - 1) * F[0]; rf[1] += (k.ky - 1) * F[1]; F[0] *= k.sx; F[1] *= k.sy; } if (!ew && (F[0] > 6 || F[1] > 6)) c.skip();
  std::string text; for (auto& k : prog) text += std::string(k.text) + "\n"; for (auto& t : tail) text += t + "\n"; std::string d = text; for (auto& ch : d) if (ch == '\n') ch = '|';
  sys_init(); std::string ptext = "method=patch\n" + text; std::istringstream f1(ptext), f2(ptext), f3(text); ConfigurableFactory pf(f1, 3, true), ff(f2, 5, false); c.site("factories"); if (c.nexec % 2) { ConfigurableFactory ft(f3, 3, true); CK(ft.method() == FCN && ft.patchsizex() == ff.patchsizex() && ft.patchsizey() == ff.patchsizey(), "modes:factory", d); }
  CK(pf.method() == PATCH && ff.method() == FCN, "modes:method", d); unsigned px = pf.patchsizex(), py = pf.patchsizey(); CK((int)px >= rf[0] && (int)py >= rf[1], "modes:patch-size", "patches of " + std::to_string(px) + "x" + std::to_string(py) + " do not cover the receptive field of " + std::to_string(rf[0]) + "x" + std::to_string(rf[1]) + ": " + d);
  unsigned W = (px + 2 * F[0] - 1 + extra % 2 * F[0]) / F[0] * F[0], H = (py + 2 * F[1] - 1 + extra / 2 * F[1]) / F[1] * F[1]; W += ew * F[0]; H += eh * F[1]; if (W * H > room) c.skip(); if (c.want_sample()) c.sample(d + kv("image", W) + "x" + std::to_string(H) + kv("patch", px) + "x" + std::to_string(py) + kv("factor", F[0]) + "x" + std::to_string(F[1]));
  // the image with a label saying which pixel it is, through the real patchwise dataset
  Tensor img(1, W, H, maps), lab(1, W, H, 1), hel(1, W, H, 2); for (size_t e = 0; e < img.elements(); e++) img[e] = 0.25 * smallint(e, salt * 3 + 1, 7); for (size_t e = 0; e < lab.elements(); e++) lab[e] = e + 1; for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) { *hel.data_ptr(x, y, 0, 0) = x / (W - 1.f); *hel.data_ptr(x, y, 1, 0) = H > 1 ? y / (H - 1.f) : 0; }
  std::stringstream st, none; img.Serialize(st); lab.Serialize(st); TensorStreamPatchDataset pd(none, st, 1, {"c"}, {1}, {1.f}, px, py); size_t np = pd.GetTestingSamples(); CK(np == (size_t)(W - px + 1) * (H - py + 1), "modes:patches", d);
  Tensor P(np, px, py, maps), L(np, 1, 1, 1), HP(np, 1, 1, 2), WP(np, 1, 1, 1); std::vector<long> which(W * H, -1); for (size_t i = 0; i < np; i++) { CK(pd.GetTestingSample(P, L, HP, WP, i, i), "modes:patches", d); size_t id = (size_t)L[i] - 1; CK(L[i] >= 1 && id < W * H && which[id] < 0, "modes:pixel-of-patch", d); which[id] = i; for (int m = 0; m < 2; m++) HP[i * 2 + m] = *hel.data_ptr_const(id % W, id / W, m, 0); }
  Mode fcn(ff, img, hel, classes), pat(pf, P, HP, classes); c.site("build"); bool ok[2] = {fcn.build(classes, loss), pat.build(classes, loss)}; CK(ok[0] && ok[1], "modes:build", d); c.trans(2);
  // parameters transfer one to one, through a file
  std::vector<CombinedTensor*> a, b; fcn.g.GetParameters(a); pat.g.GetParameters(b); CK(a.size() == b.size(), "modes:parameters", std::to_string(a.size()) + " and " + std::to_string(b.size()) + " parameters: " + d); for (size_t i = 0; i < a.size(); i++) { CK(shape(a[i]->data) == shape(b[i]->data), "modes:parameters", "parameter " + std::to_string(i) + " " + shape(a[i]->data).str() + " and " + shape(b[i]->data).str() + ": " + d); for (size_t e = 0; e < b[i]->data.elements(); e++) b[i]->data[e] = (float)(0.125 * smallint(e, 70 + salt * 31 + (unsigned)i, 3)); }
  std::stringstream par; c.site("transfer"); pat.g.SerializeParameters(par); par.seekg(0); fcn.g.DeserializeParameters(par); for (size_t i = 0; i < a.size(); i++) CK(!memcmp(a[i]->data.data_ptr_const(), b[i]->data.data_ptr_const(), 4 * a[i]->data.elements()), "modes:transfer", "parameter " + std::to_string(i) + " differs after the transfer: " + d); c.trans(2);
  c.site("evaluate"); fcn.run(); pat.run(); c.trans(2); Shape ef{1, W, H, classes}, ep{np, 1, 1, classes}; CK(fcn.sh == ef, "modes:size", "output of the fully convolutional network is " + fcn.sh.str() + " for " + std::to_string(W) + "x" + std::to_string(H) + ": " + d); CK(pat.sh == ep, "modes:size", "output of the patch network is " + pat.sh.str() + ": " + d);
  auto near = [](float x, float y) { return std::fabs(x - y) <= 1e-5 * std::max(1.f, std::fabs(y)); };
  if (!prior) { // one place in every block for which both agree everywhere
    bool found = false; std::string why; size_t compared = 0; for (int dy = 0; dy < F[1] && !found; dy++) for (int dx = 0; dx < F[0] && !found; dx++) { bool good = true; size_t n = 0; std::string first; for (unsigned by = 0; by < H / F[1]; by++) for (unsigned bx = 0; bx < W / F[0]; bx++) { long i = which[(by * F[1] + dy) * W + bx * F[0] + dx]; if (i < 0) continue; n++; for (unsigned m = 0; m < classes; m++) for (int y = 0; y < F[1]; y++) for (int x = 0; x < F[0]; x++) { float v = fcn.at(0, bx * F[0] + x, by * F[1] + y, m); if (!near(v, pat.at(i, 0, 0, m)) && good) { good = false; first = "pixel " + std::to_string(bx * F[0] + x) + "," + std::to_string(by * F[1] + y) + " map " + std::to_string(m) + " is " + fmt(v) + ", its patch gives " + fmt(pat.at(i, 0, 0, m)); } } }
      if (good && n) { found = true; compared = n; } if (!good && why.size() < 400) why += "\n with pixel " + std::to_string(dx) + "," + std::to_string(dy) + " of the blocks: " + first; } CK(found, "modes:value", "no agreement: " + d + why); c.count("blocks compared", compared); if (compared > 1) c.nontrivial(); }
  else { // every pixel has its own coordinates: evaluate every pixel with the patch of its block
    bool found = false; std::string why; for (int dy = 0; dy < F[1] && !found; dy++) for (int dx = 0; dx < F[0] && !found; dx++) { std::vector<std::pair<unsigned, long>> px_; for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) { long i = which[(y / F[1] * F[1] + dy) * W + x / F[0] * F[0] + dx]; if (i >= 0) px_.push_back({y * W + x, i}); } if (px_.empty()) continue;
      Tensor P2(px_.size(), px, py, maps), H2(px_.size(), 1, 1, 2); for (size_t k = 0; k < px_.size(); k++) { Tensor::CopySample(P, px_[k].second, P2, k); for (int m = 0; m < 2; m++) H2[k * 2 + m] = *hel.data_ptr_const(px_[k].first % W, px_[k].first / W, m, 0); } std::istringstream f4(ptext); ConfigurableFactory pf2(f4, 9, true); Mode q(pf2, P2, H2, classes); q.build(classes, loss); std::stringstream p2; pat.g.SerializeParameters(p2); p2.seekg(0); q.g.DeserializeParameters(p2); q.run(); c.trans(3); bool good = true;
      for (size_t k = 0; k < px_.size() && good; k++) for (unsigned m = 0; m < classes && good; m++) { float v = fcn.at(0, px_[k].first % W, px_[k].first / W, m); if (!near(v, q.at(k, 0, 0, m))) { good = false; if (why.size() < 400) why += "\n pixel " + std::to_string(px_[k].first % W) + "," + std::to_string(px_[k].first / W) + " is " + fmt(v) + ", its patch gives " + fmt(q.at(k, 0, 0, m)); } } free_net(q.g); if (good) { found = true; c.nontrivial(); c.count("pixels compared", px_.size()); } } CK(found, "modes:value", "no agreement: " + d + why); }
  c.state(mc::mix(mc::hash_bytes(fcn.out.data(), fcn.out.size() * 4), mc::hash_bytes(text.data(), text.size()))); c.validated(); free_net(fcn.g); free_net(pat.g);
}
static std::vector<std::string> tail(unsigned k) { static const std::vector<std::vector<std::string>> T = {{"?convolutional size=1x1 kernels=(o)", "?output"}, {"?fullyconnected neurons=4", "?tanh", "?fullyconnected neurons=(o)", "?output weight=0.5"}, {"?flatten", "?spatialprior", "?fullyconnected neurons=3", "?relu", "?fullyconnected neurons=(o)", "?output"}, {"?spatialprior", "?fullyconnected neurons=(o)", "?output"}, {"?output"}}; return T[k]; }
// every short sequence of layers
static void programs(mc::Ctx& c) { unsigned n = c.range(0, c.thorough() ? 4 : 3, "layers"); std::vector<Lay> p; for (unsigned i = 0; i < n; i++) { p.push_back(lays()[c.choose((unsigned)lays().size(), "layer")]); if (i && strstr(p[i].text, "downsampling")) c.skip(); } unsigned t = n < 3 ? c.choose(4, "tail") : c.choose(2, "tail") * 2, classes = n < 2 ? 1 + c.choose(3, "classes") : 2, extra = n < 3 ? c.choose(4, "image") : n < 4 ? c.choose(2, "image") : 1, salt = n < 3 ? c.choose(2, "values") : 0; c.shard();
  for (unsigned i = 0, m = 2; i < n; i++) { const char* k = strstr(p[i].text, "kernels="); if (strstr(p[i].text, "group") && m % 2) c.skip(); if (k) m = atoi(k + 8); if (strstr(p[i].text, "neurons=3")) m = 3; } run(c, p, tail(t), classes, salt, extra, n == 1, t == 2 || t == 3); }
// every kernel size, stride and pooling size
static void sized(mc::Ctx& c) { unsigned n = c.range(1, 2, "layers"); std::vector<Lay> p; static std::vector<std::string> keep; keep.clear(); keep.reserve(4); for (unsigned i = 0; i < n; i++) { unsigned t = c.choose(3, "type"), m = n == 1 || c.thorough() ? 5 : 3, kx = 1 + c.choose(m, "kx"), ky = 1 + c.choose(n == 1 ? 4 : 2, "ky"), sx = kx, sy = ky; if (t != 1) { sx = 1 + c.choose(n == 1 ? 3 : 2, "sx"); sy = 1 + c.choose(n == 1 ? 3 : 2, "sy"); } char b[120]; snprintf(b, 120, t == 0 ? "?convolutional size=%ux%u stride=%ux%u kernels=2" : t == 1 ? "?maxpooling size=%ux%u" : "?amaxpooling size=%ux%u stride=%ux%u", kx, ky, sx, sy); keep.push_back(b); p.push_back(Lay{keep.back().c_str(), kx, ky, sx, sy, t == 1}); if (sx > kx || sy > ky) c.count("steps wider than kernels"); }
  unsigned extra = c.choose(4, "image"); c.shard(); run(c, p, tail(0), 2, 1, extra, false, false); }
// one size growing: kernels, kernel and pooling size, stride, neurons, classes, maps of the image, image size, layers in a row
static void large(mc::Ctx& c) { unsigned which = c.choose(12, "size of"), v = c.pick(sizes(c), "size"), classes = 2, maps = 2, ew = 1, eh = 0, extra = c.choose(2, "image"); c.shard(); static std::vector<std::string> keep; keep.assign(1, ""); keep.reserve(4); std::vector<Lay> p; auto U = [](unsigned x) { return std::to_string(x); }; std::vector<std::string> t = tail(0); const Lay C{"?convolutional size=3x2 kernels=2", 3, 2, 1, 1, false}; auto one = [&](const std::string& text, unsigned kx, unsigned ky, unsigned sx, unsigned sy) { keep[0] = text; p = {Lay{keep[0].c_str(), kx, ky, sx, sy, false}}; };
  switch (which) { case 0: one("?convolutional size=2x3 kernels=" + U(v), 2, 3, 1, 1); break; case 1: one("?convolutional kernels=2 size=" + U(v) + "x1", v, 1, 1, 1); break; case 2: one("?convolutional kernels=2 size=2x" + U(v), 2, v, 1, 1); break; case 3: one("?maxpooling size=" + U(v) + "x1", v, 1, v, 1); break; case 4: one("?amaxpooling size=1x" + U(v) + " stride=1x2", 1, v, 1, 2); break; case 5: one("?convolutional kernels=2 size=" + U(v) + "x2 stride=" + U(v) + "x1", v, 2, v, 1); break;
    case 6: p = {C}; t = {"?fullyconnected neurons=" + U(v), "?tanh", "?fullyconnected neurons=(o)", "?output"}; break; case 7: p = {C}; classes = v; break; case 8: p = {C}; maps = v; break; case 9: p = {C, lays()[6]}; ew = v; eh = extra; break; case 10: p = {C, lays()[6]}; eh = v; break; default: for (unsigned i = 0; i < v; i++) p.push_back(lays()[i % 2 ? 13 : 17]); p.insert(p.begin(), C); break; }
  run(c, p, t, classes, 1, extra, false, false, maps, ew, eh, 100000); }
MC_MAIN({"large", large}, {"programs", programs}, {"sizes", sized})
