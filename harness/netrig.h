// networks built from configuration text over a synthetic dataset
#ifndef NETRIG_H
#define NETRIG_H
#include "util.h"
struct SynthData : Dataset {
  Method me; unsigned w, h, nt, ne, maps, classes; unsigned salt;
  SynthData(Method me, unsigned w, unsigned h, unsigned nt, unsigned ne, unsigned maps = 2, unsigned classes = 2, unsigned salt = 0) : me(me), w(w), h(h), nt(nt), ne(ne), maps(maps), classes(classes), salt(salt) {}
  Task GetTask() const override { return SEMANTIC_SEGMENTATION; } Method GetMethod() const override { return me; } unsigned GetWidth() const override { return w; } unsigned GetHeight() const override { return h; }
  unsigned GetInputMaps() const override { return maps; } unsigned GetLabelMaps() const override { return classes; } unsigned GetClasses() const override { return classes; } std::vector<std::string> GetClassNames() const override { return std::vector<std::string>(classes, "c"); }
  std::vector<unsigned> GetClassColors() const override { return std::vector<unsigned>(classes, 1); } std::vector<datum> GetClassWeights() const override { return std::vector<datum>(classes, 1); } unsigned GetTrainingSamples() const override { return nt; } unsigned GetTestingSamples() const override { return ne; } bool SupportsTesting() const override { return ne > 0; }
  bool get(bool test, Tensor* t[4], unsigned slot, unsigned index) { if (index >= (test ? ne : nt)) return false;
    for (int k = 0; k < 4; k++) { size_t n = t[k]->elements() / t[k]->samples(); unsigned q = salt + index * 2 + test; for (size_t e = 0; e < n; e++) (*t[k])[slot * n + e] = (float)(k == 0 ? 0.25 * smallint(e, 100 + q, 3) : k == 1 ? 0.5 * smallint(e, 300 + q, 1) : k == 3 ? 0.5 * (double)((index + test + e) % 3 + 1) : 0.125 * smallint(e, 500 + q, 4)); } return true; }
  bool GetTrainingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) override { Tensor* t[4] = {&d, &l, &h, &w}; return get(false, t, s, i); }
  bool GetTestingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) override { Tensor* t[4] = {&d, &l, &h, &w}; return get(true, t, s, i); }
};
inline void free_net(NetGraph& g) { std::set<NetGraphNode*> del(g.GetNodes().begin(), g.GetNodes().end()); for (auto* n : del) { bool in = dynamic_cast<InputLayer*>(n->layer); for (auto& b : n->output_buffers) if (!in) delete b.combined_tensor; delete n->layer; delete n; } }
inline std::vector<float> all_params(NetGraph& g, bool grads = false) { std::vector<CombinedTensor*> p; g.GetParameters(p); std::vector<float> v; for (auto* q : p) { Tensor& t = grads ? q->delta : q->data; for (size_t e = 0; e < t.elements(); e++) v.push_back(t[e]); } return v; }
inline bool bits(const std::vector<float>& a, const std::vector<float>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(float))); }
#endif
