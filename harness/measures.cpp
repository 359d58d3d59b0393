// C27: segmentation quality measures
#include "util.h"
struct Sink : StatSink { std::vector<std::vector<Stat>> reports; void Initialize(std::vector<StatDescriptor*>&) override {} void SetCurrentExperiment(std::string) override {} void Process(HardcodedStats&, std::vector<Stat*>& s) override { reports.emplace_back(); for (auto* q : s) reports.back().push_back(*q); } };
struct Val { bool has; double v; };
static bool near(double a, double b) { return std::fabs(a - b) <= 2e-5 * std::max(1.0, std::fabs(b)); }
static std::string vs(const Val& v) { return v.has ? fmt(v.v) : "nothing"; }
static std::string cls(unsigned i) { std::string s = "class"; if (i >= 26) s += char('A' + i / 26 - 1); return s + char('A' + i % 26); }
struct Px { std::vector<double> out = std::vector<double>(3); int lab; double w; double labv; };
// a layer with its inputs, the aggregator and the model of what has been seen since the last reset
struct World {
  mc::Ctx& c; std::unique_ptr<Layer> L; StatLayer* S; NetStatus st; std::unique_ptr<CombinedTensor> o, l, w; Sink sink; std::string x; unsigned classes; std::vector<Px> seen; bool enabled = true; std::vector<float> thr; std::vector<std::vector<Val>> last; // acceptable reports
  World(mc::Ctx& c, unsigned classes, unsigned thresholds, float lo, float hi, unsigned n, unsigned wd, unsigned ht) : c(c), classes(classes) { sys_init(); fresh_stats(); std::vector<std::string> names; for (unsigned i = 0; i < classes; i++) names.push_back(i == 1 ? "averylongclassname" : cls(i));
    if (classes == 1) { BinaryStatLayer* b = thresholds ? new BinaryStatLayer(thresholds, lo, hi) : new BinaryStatLayer(); if (!thresholds) { thresholds = 24; lo = -0.458333f; hi = 0.5f; } L.reset(b); S = b; if (thresholds == 1) thr.push_back((lo + hi) / 2.0); else { float step = (hi - lo) / (float)(thresholds - 1); for (unsigned t = 0; t < thresholds; t++) thr.push_back(lo + step * (float)t); } } else { ConfusionMatrixLayer* m = new ConfusionMatrixLayer(names, classes); L.reset(m); S = m; }
    System::stat_aggregator->RegisterSink(&sink); o.reset(new CombinedTensor(n, wd, ht, classes)); l.reset(new CombinedTensor(n, wd, ht, classes)); w.reset(new CombinedTensor(n, wd, ht, 1)); CTs in{o.get(), l.get(), w.get()}, out; CK(L->CreateOutputs(in, out) && L->Connect(in, out, &st), "measures:connect", "layer refused"); System::stat_aggregator->Initialize(); System::stat_aggregator->StartRecording(); forget(); }
  void forget() { last.assign(1, std::vector<Val>(classes == 1 ? 6 : 3, Val{false, 0})); }
  void feed(const std::vector<Px>& px) { for (size_t i = 0; i < px.size(); i++) { size_t per = o->data.width() * o->data.height(), s = i / per, p = i % per; for (unsigned m = 0; m < classes; m++) { o->data[(s * classes + m) * per + p] = px[i].out[m]; l->data[(s * classes + m) * per + p] = classes == 1 ? px[i].labv : m == (unsigned)px[i].lab ? 1.f : -0.5f * (m % 2); } w->data[i] = px[i].w; } L->FeedForward(); c.trans(); if (enabled) seen.insert(seen.end(), px.begin(), px.end()); }
  std::vector<std::vector<Val>> measures() const { std::vector<std::vector<Val>> res;
    if (classes > 1) { double tot = 0, right = 0; std::vector<double> M(classes * classes, 0), per(classes, 0); for (auto& p : seen) { unsigned best = 0; for (unsigned m = 1; m < classes; m++) if (p.out[m] > p.out[best]) best = m; tot += p.w; right += best == (unsigned)p.lab ? p.w : 0; M[best * classes + p.lab] += p.w; per[p.lab] += p.w; } if (tot <= 0) { res.push_back(std::vector<Val>(3, Val{false, 0})); return res; }
      double rec = 0, n = 0, iou = 0; for (unsigned k = 0; k < classes; k++) { double row = 0; for (unsigned q = 0; q < classes; q++) row += M[k * classes + q]; if (per[k] > 0) { rec += M[k * classes + k] / per[k]; n++; } double un = row + per[k] - M[k * classes + k]; if (un > 0) iou += M[k * classes + k] / un; } res.push_back({Val{true, 100 * right / tot}, Val{true, 100 * rec / n}, Val{true, 100 * iou / classes}}); return res; }
    double best = -1; std::vector<std::pair<double, std::vector<Val>>> all; for (float t : thr) { double tp = 0, fp = 0, tn = 0, fn = 0; for (auto& p : seen) { bool s = (float)p.out[0] > t, e = p.labv > 0; (s ? e ? tp : fp : e ? fn : tn) += p.w; } auto q = [](double a, double b) { return b > 0 ? Val{true, 100 * a / b} : Val{false, 0}; }; Val pre = q(tp, tp + fp), rec = q(tp, tp + fn), f1{pre.has && rec.has, 2 * tp + fp + fn > 0 ? 200 * tp / (2 * tp + fp + fn) : 0}; double key = f1.has ? f1.v : -0.5; best = std::max(best, key); all.push_back({key, {q(fp, fp + tn), q(fn, tp + fn), pre, rec, q(tp + tn, tp + tn + fp + fn), f1}}); }
    for (auto& a : all) if (a.first >= best - 1e-4) res.push_back(a.second); return res; }
  void update() { S->UpdateAll(); c.trans(); auto m = measures(); // values without a new definition keep the last submitted one
    std::vector<std::vector<Val>> n; for (auto& a : last) for (auto& b : m) { std::vector<Val> v = b; for (size_t i = 0; i < v.size(); i++) if (!v[i].has) v[i] = a[i]; n.push_back(v); } last = n; }
  void report() { sink.reports.clear(); System::stat_aggregator->Generate(); CK(sink.reports.size() == 1, "measures:report", x); auto& r = sink.reports[0]; static const char* NB[] = {"false positive rate", "false negative rate", "precision", "recall", "accuracy", "F1"}; static const char* NM[] = {"overall recognition rate", "average recognition rate", "intersection over union"};
    std::string why; for (auto& v : last) { CK(r.size() == v.size(), "measures:report", x); size_t k = 0; while (k < v.size() && r[k].is_null == !v[k].has && (!v[k].has || near(r[k].value, v[k].v))) k++; if (k == v.size()) return; if (why.empty()) why = std::string(classes == 1 ? NB[k] : NM[k]) + " is " + (r[k].is_null ? "not reported" : "reported as " + fmt(r[k].value)) + ", expected " + vs(v[k]); } c.fail("measures:value", x + ": " + why); }
  void reset(int how) { if (how == 0) { System::stat_aggregator->StopRecording(); System::stat_aggregator->Reset(); System::stat_aggregator->StartRecording(); forget(); } else if (how == 1) S->Reset(); else { System::stat_aggregator->Snapshot(); forget(); } seen.clear(); c.trans(); }
  void enable(bool e) { S->SetDisabled(!e); enabled = e; }
  // the printed table
  void print() { if (classes == 1) return; std::stringstream ss; struct B { std::streambuf* b; ~B() { std::cout.rdbuf(b); } } b{std::cout.rdbuf(ss.rdbuf())}; S->Print("P", false); std::vector<double> M(classes * classes, 0), per(classes, 0); for (auto& p : seen) { unsigned best = 0; for (unsigned m = 1; m < classes; m++) if (p.out[m] > p.out[best]) best = m; M[best * classes + p.lab] += p.w; per[p.lab] += p.w; } std::string t = ss.str(), line; std::istringstream is(t); double avg = 0; unsigned lines = 0;
    for (unsigned k = 0; k < classes; k++) { std::string nm = k == 1 ? "averylon..." : cls(k); double row = 0; for (unsigned q = 0; q < classes; q++) row += M[k * classes + q]; double un = row + per[k] - M[k * classes + k], iu = un > 0 ? 100 * M[k * classes + k] / un : 0; avg += iu / classes; auto val = [&](const char* what) -> double { size_t p = t.find(nm + what); return p == std::string::npos ? -1 : atof(t.c_str() + p + nm.size() + strlen(what)); }; double rr = per[k] > 0 ? 100 * M[k * classes + k] / per[k] : -1; CK(near(val(" RR: "), rr), "measures:print", x + ": recognition rate of class " + std::to_string(k) + " printed as " + fmt(val(" RR: ")) + " expected " + fmt(rr)); CK(near(val(" IU: "), iu), "measures:print", x + ": IU of class " + std::to_string(k) + " printed as " + fmt(val(" IU: "))); }
    size_t p = t.find("Average intersection over union"); CK(p != std::string::npos && near(atof(t.c_str() + t.find(':', p) + 1), avg), "measures:print", x); size_t at = t.find("ACT>"); for (unsigned k = 0; k < classes; k++) { at = t.find('\n', at) + 1; std::string row = t.substr(at, t.find('\n', at) - at); std::istringstream rs(row.substr(row.find(k == 1 ? "..." : cls(k)) + (k == 1 ? 3 : cls(k).size()))); for (unsigned q = 0; q < classes; q++) { long v = -1; rs >> v; CK(v == (long)M[k * classes + q], "measures:print", x + ": matrix row " + row); } lines++; } }
};
static const double OUTB[] = {-1, -0.5, -0.2, 0, 0.25, 0.5, 1}, LABB[] = {-1, 0, 1, 0.5}, W[] = {1, 0, 0.5, 2};
static const double OUTM[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0.5, 0.5, 0.5}, {-2, -1, -1}, {-3, -4, -2.5}};
static std::string str(const Px& p, unsigned classes) { std::string s; for (unsigned m = 0; m < classes; m++) s += (m ? "/" : "") + fmt(p.out[m]); return s + ":" + (classes == 1 ? fmt(p.labv) : std::to_string(p.lab)) + "*" + fmt(p.w); }
static Px px(mc::Ctx& c, unsigned classes, unsigned no, unsigned nl, unsigned nw) { Px p; if (classes == 1) { p.out[0] = OUTB[c.choose(no, "output")]; p.labv = LABB[c.choose(nl, "label")]; p.lab = 0; } else { const double* o = OUTM[c.choose(no, "output")]; for (int i = 0; i < 3; i++) p.out[i] = o[i]; p.lab = c.choose(classes, "label"); p.labv = 0; } p.w = W[c.choose(nw, "weight")]; return p; }
// every assignment of outputs, labels and weights to the pixels of one batch
static void pixels(mc::Ctx& c) { unsigned n = c.range(1, c.thorough() ? 4 : 3, "pixels"), classes = c.range(1, 3, "classes"), tv = classes == 1 ? c.choose(4, "thresholds") : 0; static const unsigned TN[] = {3, 1, 0, 2}; static const float TL[] = {-0.5f, -1, 0, 0}, TH[] = {0.5f, 1, 0, 0.25f}; bool big = n >= (c.thorough() ? 4u : 3u); unsigned no = classes == 1 ? (big ? 4 : 7) : (big ? 3 : 6), nl = big ? 3 : 4, nw = big ? 3 : 4; if (classes == 1 && big && tv > 1) c.skip(); std::vector<Px> v; v.push_back(px(c, classes, no, nl, nw)); c.shard(); for (unsigned i = 1; i < n; i++) v.push_back(px(c, classes, no, nl, nw));
  unsigned split = n == 4 ? 2 : 1; World w(c, classes, TN[tv], TL[tv], TH[tv], split == 1 && n > 1 && n % 2 == 0 ? 2 : 1, split == 1 && n % 2 == 0 ? n / 2 : n / split, split); w.x = std::to_string(classes) + " classes, " + std::to_string(w.thr.size()) + " thresholds:"; for (auto& p : v) w.x += " " + str(p, classes); c.site("pixels"); w.feed(v); w.update(); w.report(); w.print(); for (auto& q : w.last[0]) c.state(mc::mix(classes, q.has ? (uint64_t)(q.v * 1000) : 7)); c.validated(); if (n > 1) c.nontrivial(); if (c.want_sample()) c.sample(w.x); }
// every sequence of batches, updates, resets, reports and switches
static void sequences(mc::Ctx& c) { unsigned classes = c.range(1, 3, "classes"), depth = c.thorough() ? 7 : 6; unsigned first = c.choose(9, "op"), second = c.choose(9, "op"); c.shard(); World w(c, classes, 3, -0.5f, 0.5f, 1, 2, 1); w.x = std::to_string(classes) + " classes:"; c.site("sequences"); bool reported = false;
  auto P = [&](unsigned o, unsigned l, double wt) { Px p; for (int i = 0; i < 3; i++) p.out[i] = OUTM[o][i]; if (classes == 1) { p.out[0] = o == 0 ? 0.25 : o == 1 ? -0.2 : -1; } p.lab = l % classes; p.labv = l == 0 ? 1 : -1; p.w = wt; return p; };
  for (unsigned i = 0; i < depth; i++) { unsigned k = i == 0 ? first : i == 1 ? second : c.choose(9, "op"); switch (k) { case 0: w.x += " batch1"; w.feed({P(0, 0, 1), P(1, 0, 0.25)}); break; case 1: w.x += " batch2"; w.feed({P(1, 1, 2), P(0, 1, 0.5)}); break; case 2: w.x += " batch3"; w.feed({P(2, 0, 0), P(classes - 1, 2, 0.5)}); break; case 3: w.x += " update"; w.update(); break; case 4: w.x += " report"; w.report(); reported = true; break; case 5: w.x += " reset"; w.reset(0); break; case 6: w.x += " layer-reset"; w.reset(1); break; case 7: w.x += " snapshot"; w.reset(2); break; case 8: w.x += " switch"; w.enable(!w.enabled); break; } uint64_t h = classes; for (auto& q : w.last[0]) h = mc::mix(h, q.has ? (uint64_t)(q.v * 1000) : 7); c.state(mc::mix(h, w.seen.size())); }
  w.x += " update report"; w.update(); w.report(); w.print(); c.validated(); if (reported && w.seen.size() > 2) c.nontrivial(); if (c.want_sample()) c.sample(w.x); }
// large images and batches: every position counts with its own weight
static void positions(mc::Ctx& c) { unsigned classes = c.range(1, 3, "classes"), n = c.range(1, 3, "samples"), wd = c.range(1, 5, "width"), ht = c.range(1, 5, "height"), salt = c.choose(3, "data"); c.shard(); World w(c, classes, 0, 0, 0, n, wd, ht); w.x = std::to_string(classes) + " classes " + std::to_string(n) + "s " + std::to_string(wd) + "x" + std::to_string(ht) + " data " + std::to_string(salt); for (unsigned r = 0; r < 2; r++) { std::vector<Px> v; for (unsigned i = 0; i < n * wd * ht; i++) { Px p; for (int m = 0; m < 3; m++) p.out[m] = smallint(i * 3 + m, salt * 7 + r, 20) / 20.1; p.lab = mc::mix(i, salt + 50) % classes; p.labv = smallint(i, salt + 80, 2) / 2.0; p.w = (mc::mix(i, salt) % 5) * 0.5; v.push_back(p); } c.site("positions"); w.feed(v); w.update(); w.report(); w.print(); } c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(w.x); }
// many classes, pixels, samples, batches or thresholds
static void large(mc::Ctx& c) { unsigned k = c.choose(2, "layer"), classes = k ? 4 : 1, wd = 3, ht = 2, n = 2, batches = 2, th = 0; if (k) grow(c, {&classes, &wd, &ht, &n, &batches}, true, {&wd, &ht}); else { th = 5; grow(c, {&th, &wd, &ht, &n, &batches}, true, {&wd, &ht}); } c.require(classes <= 300); unsigned salt = c.choose(2, "data"); c.shard(); World w(c, classes, th, -0.75f, 0.5f, n, wd, ht); w.x = std::to_string(classes) + " classes " + std::to_string(th) + " thresholds " + std::to_string(batches) + " batches of " + std::to_string(n) + "s " + std::to_string(wd) + "x" + std::to_string(ht) + " data " + std::to_string(salt);
  for (unsigned r = 0; r < batches; r++) { std::vector<Px> v; for (unsigned i = 0; i < n * wd * ht; i++) { Px p; p.out.resize(classes); p.lab = mc::mix(i + r * 977, salt + 50) % classes; for (unsigned m = 0; m < classes; m++) p.out[m] = classes == 1 ? smallint(i + r * 131, salt * 7 + 3, 20) / 20.1 : (double)(mc::mix(i * 1000 + m, salt + r) % 4000) / 4001; if (classes > 1 && mc::mix(i, r + 9) % 3) p.out[p.lab] += 1; p.labv = smallint(i, salt + r + 80, 2) / 2.0; p.w = (mc::mix(i, salt + r) % 4) * 0.5 + 0.5; v.push_back(p); } c.site("large"); w.feed(v); } w.update(); w.report(); w.print(); c.validated(); c.nontrivial(); c.state(mc::mix(classes, n * 7 + wd)); if (c.want_sample()) c.sample(w.x); }
// more pixels than a float can count: every further pixel still counts
static void many(mc::Ctx& c) { unsigned classes = c.range(1, 2, "classes"), mix = c.choose(c.thorough() ? 6 : 4, "proportions"), wi = c.choose(2, "weight"), side = 1024; static const unsigned P[6][4] = {{1, 1, 1, 1}, {13, 1, 1, 1}, {1, 2, 3, 10}, {0, 3, 3, 10}, {4, 0, 9, 3}, {16, 0, 0, 0}}; double wt = wi ? 0.5 : 1; unsigned tot = 0; for (unsigned k = 0; k < 4; k++) tot += P[mix][k]; unsigned batches = (c.thorough() ? 80 : 40) * (wi ? 2 : 1); c.shard();
  World w(c, classes, classes == 1 ? 1 : 0, -0.5f, 0.5f, 1, side, side); w.x = std::to_string(classes) + " classes, " + std::to_string(batches) + " batches of " + std::to_string(side * side) + " pixels of weight " + fmt(wt) + " in proportions " + std::to_string(P[mix][0]) + ":" + std::to_string(P[mix][1]) + ":" + std::to_string(P[mix][2]) + ":" + std::to_string(P[mix][3]); c.site("many"); size_t n = side * side, cnt[4] = {0, 0, 0, 0};
  for (size_t i = 0; i < n; i++) { unsigned q = (i * 7 + i / side) % tot, k = 0; while (q >= P[mix][k]) q -= P[mix][k++]; cnt[k]++; bool out = k < 2, lab = k == 0 || k == 2; if (classes == 1) { w.o->data[i] = out ? 0.75f : -0.75f; w.l->data[i] = lab ? 1 : -1; } else { w.o->data[i] = out ? 0 : 1; w.o->data[n + i] = out ? 1 : 0; w.l->data[i] = lab ? 0 : 1; w.l->data[n + i] = lab ? 1 : 0; } w.w->data[i] = wt; }
  for (unsigned r = 0; r < batches; r++) { w.L->FeedForward(); c.trans(); for (unsigned k = 0; k < 4; k++) { Px p; bool out = k < 2, lab = k == 0 || k == 2; p.out = classes == 1 ? std::vector<double>{out ? 0.75 : -0.75} : std::vector<double>{out ? 0. : 1., out ? 1. : 0.}; p.lab = lab; if (classes == 1) p.lab = 0; p.labv = lab ? 1 : -1; p.w = cnt[k] * wt; if (cnt[k]) w.seen.push_back(p); } if (r == batches / 2) { w.update(); w.report(); } } w.update(); w.report(); w.print(); c.validated(); c.nontrivial(); c.state(mc::mix(classes * 10 + mix, wi)); if (c.want_sample()) c.sample(w.x); }
MC_MAIN({"many", many}, {"large", large}, {"pixels", pixels}, {"sequences", sequences}, {"positions", positions})
