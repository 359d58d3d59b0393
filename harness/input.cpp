// C09: the order in which the dataset input layer uses the samples
#include "util.h"
struct Req { bool test; unsigned slot, index; };
struct Stub : Dataset {
  Method me; unsigned w, h, nt, ne, maps, classes; std::vector<Req> log;
  Stub(Method me, unsigned w, unsigned h, unsigned nt, unsigned ne) : me(me), w(w), h(h), nt(nt), ne(ne), maps(2), classes(2) {}
  Task GetTask() const override { return SEMANTIC_SEGMENTATION; } Method GetMethod() const override { return me; } unsigned GetWidth() const override { return w; } unsigned GetHeight() const override { return h; }
  unsigned GetInputMaps() const override { return maps; } unsigned GetLabelMaps() const override { return classes; } unsigned GetClasses() const override { return classes; } std::vector<std::string> GetClassNames() const override { return {"a", "b"}; }
  std::vector<unsigned> GetClassColors() const override { return {1, 2}; } std::vector<datum> GetClassWeights() const override { return {1, 1}; } unsigned GetTrainingSamples() const override { return nt; } unsigned GetTestingSamples() const override { return ne; } bool SupportsTesting() const override { return ne > 0; }
  static float val(int what, bool test, unsigned index, size_t e) { return what == 3 ? (e % 7 == 3 ? 0.f : 1 + (test ? 2000 : 0) + index + 0.03125f * (e % 11)) : 100000 * (what + 1) + (test ? 50000 : 0) + 10 * index + 0.0625f * (e % 13); }
  bool get(bool test, Tensor* t[4], unsigned slot, unsigned index) { if (index >= (test ? ne : nt)) return false; log.push_back(Req{test, slot, index});
    for (int k = 0; k < 4; k++) { size_t n = t[k]->elements() / t[k]->samples(); for (size_t e = 0; e < n; e++) (*t[k])[slot * n + e] = val(k, test, index, e); } return true; }
  bool GetTrainingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) override { Tensor* t[4] = {&d, &l, &h, &w}; return get(false, t, s, i); }
  bool GetTestingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) override { Tensor* t[4] = {&d, &l, &h, &w}; return get(true, t, s, i); }
};
// what a batch must hold, and the model of the order
struct Model {
  unsigned n, ne; bool testing = false; unsigned tpos = 0; std::vector<unsigned> pass; std::vector<std::vector<unsigned>> passes;
  void mode(bool t) { if (t && !testing) tpos = 0; testing = t; }
  void took(mc::Ctx& c, unsigned i, const std::string& x) { for (unsigned p : pass) CK(p != i, "input:repeat", x + ": training sample " + std::to_string(i) + " is used again before the pass over the data is complete"); pass.push_back(i); if (pass.size() == n) { passes.push_back(pass); pass.clear(); } }
};
static void batch(mc::Ctx& c, DatasetInputLayer& L, Rig& r, Stub& d, Model& m, float p, unsigned B, const std::string& x, size_t* zeroed, size_t* kept) {
  d.log.clear(); L.FeedForward(); c.trans(); size_t q = 0;
  for (unsigned s = 0; s < B; s++) { bool beyond = m.testing && m.tpos >= m.ne; std::string at = x + " slot " + std::to_string(s);
    // which sample is in the slot, judged by the data tensor
    Tensor& D = r.out[0]->data; size_t nd = D.elements() / B; float f = D[s * nd]; bool test = f >= 150000; unsigned index = (unsigned)((f - (test ? 150000 : 100000)) / 10);
    if (!beyond) { CK(test == m.testing, "input:set", at + " holds a " + (test ? "testing" : "training") + " sample"); if (m.testing) { CK(index == m.tpos, "input:testing-order", at + " holds testing sample " + std::to_string(index) + ", expected " + std::to_string(m.tpos)); m.tpos++; } else m.took(c, index, at); }
    for (int k = 0; k < 4; k++) { Tensor& T = r.out[k]->data; size_t n = T.elements() / B;
      for (size_t e = 0; e < n; e++) { float g = T[s * n + e]; if (beyond) { if (k == 3) CK(g == 0, "input:beyond-weight", at + " is beyond the end of the testing set and has weight " + fmt(g)); continue; } float v = Stub::val(k, test, index, e);
        if (k == 3 && !m.testing && d.me == FCN && p < 1) { CK(g == v || g == 0, "input:weight", at + " weight " + fmt(g) + " of stored weight " + fmt(v)); if (v != 0) ++*(g == 0 ? zeroed : kept); } else CK(g == v, k == 3 ? "input:weight" : "input:content", at + " tensor " + std::to_string(k) + " element " + std::to_string(e) + " is " + fmt(g) + ", stored " + fmt(v)); } } q++; }
}
static void histories(mc::Ctx& c) {
  sys_init(); unsigned n = c.range(1, c.thorough() ? 5 : 4, "training samples"), ne = c.range(0, 3, "testing samples"), B = c.range(1, c.thorough() ? 5 : 4, "batch size"); bool patch = c.flip("method"); static const float P[] = {1, 0.5f, 0}; unsigned pi = c.choose(c.thorough() ? 3 : 2, "loss sampling"); float p = P[pi]; unsigned seed = (n + B) % 2 * 7; unsigned depth = c.thorough() ? 9 : 8;
  if (patch && pi == 2) c.skip(); c.shard(); if (p != 1) depth -= 2; if (!c.thorough() && (ne + n > 4 || patch)) depth--;
  Stub d(patch ? PATCH : FCN, patch ? 3 : 2, 2, n, ne); DatasetInputLayer* L = new DatasetInputLayer(d, B, p, seed); Rig r(L); CK(r.up() && r.out.size() == 4, "input:create", "layer refused"); for (auto* t : r.out) fill(t->data, -9);
  Model m; m.n = n; m.ne = ne; std::string x = std::to_string(n) + " training, " + std::to_string(ne) + " testing samples, batch " + std::to_string(B) + (patch ? " patches" : " images") + " p=" + fmt(p) + " seed=" + std::to_string(seed) + ": "; size_t zero = 0, kept = 0; unsigned mode_ops = 0;
  for (unsigned i = 0; i < depth; i++) { unsigned op = c.choose(3, "op"); if (op == 0) { x += "F"; if (m.testing && ne == 0) { x += "(nothing to test)"; break; } c.site("input history"); batch(c, *L, r, d, m, p, B, x, &zero, &kept); } else { x += op == 1 ? "T" : "R"; L->SetTestingMode(op == 1); m.mode(op == 1); mode_ops++; c.trans(); }
    uint64_t h = mc::mix(mc::mix(n * 64 + ne, B), m.testing * 100 + m.tpos); for (unsigned q : m.pass) h = mc::mix(h, q + 1); for (auto& pp : m.passes) for (unsigned q : pp) h = mc::mix(h, q + 1); c.state(h); }
  CK(p > 0 || patch || kept == 0, "input:p0", x); c.validated(); if (mode_ops && m.passes.size()) c.nontrivial(); if (c.want_sample()) c.sample(x); }
// many passes: shuffled, and loss sampling as configured
static void passes(mc::Ctx& c) {
  sys_init(); unsigned n = c.range(1, 8, "training samples"), B = c.range(1, 9, "batch size"), seed = c.choose(4, "seed"); bool patch = c.flip("method"); static const float P[] = {1, 0.5f, 0.25f, 0}; float p = P[c.choose(4, "loss sampling")]; c.shard(); unsigned w = patch ? 2 : 30, h = patch ? 3 : 13;
  Stub d(patch ? PATCH : FCN, w, h, n, 2); DatasetInputLayer* L = new DatasetInputLayer(d, B, p, seed); Rig r(L); CK(r.up(), "input:create", "layer refused"); Model m; m.n = n; m.ne = 2; std::string x = std::to_string(n) + " samples, batch " + std::to_string(B) + (patch ? " patches" : " images") + " p=" + fmt(p) + " seed=" + std::to_string(seed); size_t zero = 0, kept = 0;
  for (unsigned i = 0; m.passes.size() < 24; i++) { c.site("passes"); batch(c, *L, r, d, m, p, B, x + " batch " + std::to_string(i), &zero, &kept); if (i % 5 == 4) { L->SetTestingMode(true); m.mode(true); batch(c, *L, r, d, m, p, B, x + " test " + std::to_string(i), &zero, &kept); L->SetTestingMode(false); m.mode(false); } }
  std::set<std::vector<unsigned>> orders(m.passes.begin(), m.passes.end()); if (n >= 3) CK(orders.size() > 1, "input:shuffle", x + ": the same order in 24 passes"); if (n >= 6) CK(orders.size() > 12, "input:shuffle", x + ": few orders in 24 passes");
  if (!patch && p < 1) { double f = kept / double(kept + zero); CK(std::fabs(f - p) < 0.3, "input:sampling", x + ": " + fmt(f) + " of the weights are kept"); }
  CK(L->GetSamplesInTrainingSet() == n && L->GetSamplesInTestingSet() == 2 && L->GetBatchSize() == B && L->GetLabelWidth() == (patch ? 1 : w) && L->GetLabelHeight() == (patch ? 1 : h) && L->GetLossSamplingProbability() == p, "input:meta", x);
  for (auto& o : orders) for (unsigned q : o) c.state(mc::mix(n * 100 + B, q)); c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(x + ", " + std::to_string(orders.size()) + " orders"); }
// a dataset without training samples can be tested; training on it is refused
static void empty(mc::Ctx& c) {
  sys_init(); unsigned ne = c.range(0, 3, "testing samples"), B = c.range(1, 3, "batch size"); bool patch = c.flip("method"), train = c.flip("train"); c.shard(); Stub d(patch ? PATCH : FCN, 3, 2, 0, ne); DatasetInputLayer* L = new DatasetInputLayer(d, B, 1, 1); Rig r(L); CK(r.up(), "input:create", "layer refused"); std::string x = "no training, " + std::to_string(ne) + " testing samples, batch " + std::to_string(B); Model m; m.n = 0; m.ne = ne; size_t z = 0, k = 0; c.site("empty");
  if (train || ne == 0) { bool refused = false; L->SetTestingMode(!train); try { L->FeedForward(); } catch (std::runtime_error&) { refused = true; } CK(refused, "input:empty", x + ": a batch of an empty set is delivered"); }
  else for (int round = 0; round < 2; round++) { L->SetTestingMode(true); m.mode(true); for (int i = 0; i < 4; i++) batch(c, *L, r, d, m, 1, B, x, &z, &k); L->SetTestingMode(false); m.mode(false); }
  c.trans(); c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(x); }
// many samples, large batches, many batches, large images
static void large(mc::Ctx& c) { sys_init(); unsigned n = 3, ne = 4, B = 2, w = 3, h = 2; grow(c, {&n, &ne, &B, &w, &h}, true, {&w, &h}); bool patch = c.flip("method"), half = c.flip("loss sampling"); c.shard(); float p = half ? 0.5f : 1; Stub d(patch ? PATCH : FCN, w, h, n, ne); DatasetInputLayer* L = new DatasetInputLayer(d, B, p, n + B); Rig r(L); CK(r.up() && r.out.size() == 4 && shape(r.out[0]->data) == (Shape{B, w, h, 2}), "input:create", "layer refused"); Model m; m.n = n; m.ne = ne; std::string x = std::to_string(n) + " training, " + std::to_string(ne) + " testing samples, batch " + std::to_string(B) + " " + std::to_string(w) + "x" + std::to_string(h) + (patch ? " patches" : " images") + " p=" + fmt(p); size_t z = 0, k = 0; c.site("large");
  for (unsigned round = 0; round < 2; round++) { for (unsigned i = 0; i <= n / B + 1; i++) batch(c, *L, r, d, m, p, B, x, &z, &k); L->SetTestingMode(true); m.mode(true); for (unsigned i = 0; i <= ne / B + 1; i++) batch(c, *L, r, d, m, p, B, x, &z, &k); L->SetTestingMode(false); m.mode(false); } CK(L->GetSamplesInTrainingSet() == n && L->GetSamplesInTestingSet() == ne && L->GetBatchSize() == B, "input:meta", x); CK(!m.passes.empty(), "input:passes", x);
  c.state(mc::mix(n * 331 + ne, B * 331 + w)); c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(x); }
MC_MAIN({"large", large}, {"histories", histories}, {"passes", passes}, {"empty", empty})
