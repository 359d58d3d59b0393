// C20: the optimiser's update rule. Scripted gradients through the real trainer, all histories, against the rule in double.
#include "util.h"
struct Script { std::vector<std::vector<double>> g; size_t pass = 0; std::vector<double> loss; };
struct FakeData : Layer, TrainingLayer { unsigned w, h, b; double p; bool testing = false; CombinedTensor* o = nullptr; FakeData(unsigned w, unsigned h, unsigned b, double p) : Layer(""), w(w), h(h), b(b), p(p) {}
  bool CreateOutputs(const CTs&, CTs& out) override { out.push_back(o = new CombinedTensor(1, 1, 1, 1)); return true; } bool Connect(const CTs&, const CTs&, const NetStatus*) override { return true; } void FeedForward() override {} void BackPropagate() override {}
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& x) override { x.emplace_back(); }
  void SetTestingMode(bool t) override { testing = t; } unsigned int GetSamplesInTestingSet() override { return 2; } unsigned int GetSamplesInTrainingSet() override { return 3; } unsigned int GetBatchSize() override { return b; } unsigned int GetLabelWidth() override { return w; } unsigned int GetLabelHeight() override { return h; } datum GetLossSamplingProbability() override { return (datum)p; } };
// a layer whose parameter gradients come from the script
struct Weights : Layer { Script& s; size_t at; unsigned n; CombinedTensor* w; CombinedTensor* o = nullptr; bool counts;
  Weights(Script& s, size_t at, unsigned n, bool counts) : Layer(""), s(s), at(at), n(n), w(new CombinedTensor(1, n, 1, 1)), counts(counts) { parameters_.push_back(w); } ~Weights() { delete w; delete o; }
  bool CreateOutputs(const CTs&, CTs& out) override { out.push_back(o = new CombinedTensor(1, 1, 1, 1)); return true; } bool Connect(const CTs&, const CTs&, const NetStatus*) override { return true; } void FeedForward() override {}
  void BackPropagate() override { for (unsigned i = 0; i < n; i++) w->delta[i] = (float)s.g[s.pass % s.g.size()][at + i]; if (counts) s.pass++; }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& x) override { x.emplace_back(); } };
struct Loss : Layer, LossFunctionLayer { Loss() : Layer("") {} bool CreateOutputs(const CTs&, CTs&) override { return true; } bool Connect(const CTs&, const CTs&, const NetStatus*) override { return true; } void FeedForward() override {} void BackPropagate() override {} datum CalculateLossFunction() override { return 1; } };
struct RefOpt { TrainerSettings s; double count; double p; std::vector<double> w, llr, step, slope; bool first = true; unsigned epoch = 0; bool tie = false;
  void reset() { std::fill(step.begin(), step.end(), 0); std::fill(slope.begin(), slope.end(), 0); first = true; }
  static int sg(double x) { return (x > 0) - (x < 0); }
  void update(const std::vector<double>& g, double it) { double lr = (double)s.learning_rate * std::pow(1 + (double)s.gamma * it, -(double)s.exponent);
    for (size_t i = 0; i < w.size(); i++) { double d = llr[i] * (g[i] / (count * s.sbatchsize) * p) + llr[i] * ((double)s.l2_weight * w[i] + (double)s.l1_weight * sg(w[i])); if (s.l1_weight != 0 && std::fabs(w[i]) < 1e-6 && (w[i] != 0 || step[i] != 0)) tie = true;
      if (s.optimization_method == GRADIENT_DESCENT) { step[i] = lr * d + (double)s.momentum * step[i]; w[i] -= step[i]; }
      else { double cur; if (first) cur = -0.1 * d; else if (std::fabs(d) <= 1e-15) cur = -d * lr;
        else { double df = slope[i] - d, mu = s.mu, q; if (std::fabs(std::fabs(d) - mu * std::fabs(df)) < 1e-5 * std::fabs(d) || (df != 0 && std::fabs(df) < 1e-7)) tie = true; if (std::fabs(d) < mu * std::fabs(df) && sg(step[i]) != sg(df)) q = step[i] * d / df; else q = mu * step[i]; cur = sg(d) == sg(slope[i]) ? q - lr * d : q; }
        if (d != 0 && std::fabs(d) < 1e-7) tie = true;
        w[i] += cur; step[i] = cur; slope[i] = d; } }
    first = false; } };
static std::vector<TrainerSettings> settings() { std::vector<TrainerSettings> v; auto add = [&](float lr, float l1, float l2, float ga, float ex, float mo, float mu, OPTIMIZATION_METHOD m) { TrainerSettings t; t.learning_rate = lr; t.l1_weight = l1; t.l2_weight = l2; t.gamma = ga; t.exponent = ex; t.momentum = mo; t.mu = mu; t.optimization_method = m; v.push_back(t); };
  add(0.5f, 0, 0, 0, 0.75f, 0, 1.75f, GRADIENT_DESCENT); add(0.25f, 0, 0, 0, 1, 0.5f, 1.75f, GRADIENT_DESCENT); add(0.5f, 0.25f, 0.125f, 0.5f, 0.75f, 0.9f, 1.75f, GRADIENT_DESCENT); add(0.1f, 0.01f, 0, 1, 2, 0.9f, 1, GRADIENT_DESCENT);
  add(0.5f, 0, 0, 0, 0.75f, 0.9f, 1.75f, QUICKPROP); add(0.25f, 0, 0.125f, 0.5f, 0.75f, 0, 1.3f, QUICKPROP); add(0.3f, 0.0625f, 0, 0, 1, 0, 1.75f, QUICKPROP); return v; }
static const std::vector<std::vector<double>> GV = {{1, -2}, {-1, 1}, {0, 0.5}, {0.5, 0}, {3, 1}};
static void run(mc::Ctx& c, TrainerSettings ts, const std::vector<unsigned>& script, const std::string& ops, unsigned lw, unsigned batch, double p, unsigned llr, bool zero = false, std::vector<unsigned> tn = {3, 1}) {
  std::string d = "method " + std::to_string((int)ts.optimization_method) + kv("sbatch", ts.sbatchsize) + kv("iterations", ts.iterations) + " lr " + fmt(ts.learning_rate) + " ops " + ops + " gradients"; for (unsigned s : script) d += " " + std::to_string(s); if (c.want_sample()) c.sample(d);
  unsigned T = 0; for (unsigned t : tn) T += t; if (tn.size() != 2 || T != 4) d += " parameter tensors " + std::to_string(tn.size()) + " of " + std::to_string(tn[0]) + ".." + std::to_string(tn.back()); if (lw * batch > 1) d += kv("label width", lw) + kv("batch", batch); sys_init(); Script sc; for (unsigned s : script) { auto& g = GV[s]; std::vector<double> v; for (unsigned i = 0; i < T; i++) v.push_back((std::vector<double>{g[0], g[1], -g[0], g[1] * 2})[i % 4] * (i % 12 > 7 ? 0.5 : 1)); sc.g.push_back(v); }
  NetGraph g; auto* data = new FakeData(lw, 2, batch, p); auto* dn = new NetGraphNode(data); dn->is_input = true; std::vector<Weights*> ws; std::vector<NetGraphNode*> nodes{dn}; unsigned at = 0; for (unsigned t : tn) { ws.push_back(new Weights(sc, at, t, at == 0)); at += t; nodes.push_back(new NetGraphNode(ws.back(), NetGraphConnection(nodes.back()))); }
  nodes.back()->is_output = true; nodes.push_back(new NetGraphNode(new Loss(), NetGraphConnection(nodes.back()))); for (auto* n : nodes) g.AddNode(n); g.Initialize();
  // the first layer runs last in a backward pass, the pass number advances after it read it
  double l[3] = {1, 0.5, 2}; auto rate = [&](unsigned k) { return k == 0 ? l[llr] : llr ? l[3 - llr] : 1; }; if (llr) for (unsigned k = 0; k < ws.size(); k++) ws[k]->SetLocalLearningRate((float)rate(k));
  RefOpt m; m.s = ts; m.count = (double)lw * 2 * batch; m.p = (float)p; std::vector<datum*> at_; for (unsigned k = 0; k < ws.size(); k++) for (unsigned i = 0; i < tn[k]; i++) { at_.push_back(&ws[k]->w->data[i]); unsigned e = (unsigned)m.w.size(); m.w.push_back((zero ? std::vector<double>{0, -1, 0, 0} : std::vector<double>{0.5, -1, 0.25, 2})[e % 4] + (e / 4 % 16) / 8.0); m.llr.push_back(rate(k)); } m.step.assign(T, 0); m.slope.assign(T, 0);
  for (unsigned i = 0; i < T; i++) *at_[i] = (float)m.w[i];
  c.site("trainer"); Trainer t(g, ts); size_t pass = 0; unsigned its = ts.iterations ? ts.iterations : 3; its = (unsigned)((float)its * ts.epoch_training_ratio);
  for (char o : ops) {
    if (o == 'e' || o == 'E') { t.Train(o == 'E' ? 2 : 1, false); for (int e = 0; e < (o == 'E' ? 2 : 1); e++) { for (unsigned i = 0; i < its; i++) { std::vector<double> a(T, 0); for (unsigned b = 0; b < ts.sbatchsize; b++) { for (unsigned k = 0; k < T; k++) a[k] += sc.g[pass % sc.g.size()][k]; pass++; } m.update(a, (double)m.epoch * its + i); } m.epoch++; } }
    else if (o == 'r') { t.Reset(); m.reset(); } else if (o == 's') { t.SetEpoch(7); m.epoch = 7; m.reset(); } else if (o == 't') t.Test();
    if (m.tie) { c.count("within rounding of a branch, not compared further"); break; } c.trans();
    CK(sc.pass == pass, "passes", std::to_string(sc.pass) + " backward passes, expected " + std::to_string(pass) + ": " + d); CK(t.epoch() == m.epoch, "epoch", "epoch is " + std::to_string(t.epoch()) + " expected " + std::to_string(m.epoch) + ": " + d);
    uint64_t h = 9; for (unsigned i = 0; i < T; i++) { double a = *at_[i]; h = mc::mix(h, (uint64_t)std::llround(m.w[i] * 4096)); CK(std::fabs(a - m.w[i]) <= 3e-4 * std::max(0.03, std::fabs(m.w[i])), std::string("weight:") + (ts.optimization_method == QUICKPROP ? "quickprop" : "descent"), "weight " + std::to_string(i) + " is " + fmt(a) + " after '" + o + "', the rule gives " + fmt(m.w[i]) + ": " + d); m.w[i] = a; } c.state(h); }
  c.validated(); if (pass > 1) c.nontrivial();
  for (auto* n : nodes) { delete n->layer; delete n; }
}
// every sequence of gradients
static void gradients(mc::Ctx& c) { auto S = settings(); TrainerSettings ts = c.pick(S, "settings"); ts.sbatchsize = 1; ts.iterations = c.thorough() ? 5 : 4; std::vector<unsigned> s; for (unsigned i = 0; i < ts.iterations; i++) s.push_back(c.choose((unsigned)GV.size(), "gradient")); unsigned llr = c.choose(3, "llr"); bool zero = c.flip("zero weights"); c.shard(); run(c, ts, s, "e", 1, 1, 1, llr, zero); }
// every sequence of operations
static void histories(mc::Ctx& c) { auto S = settings(); TrainerSettings ts = c.pick(S, "settings"); ts.sbatchsize = 1 + c.choose(3, "sbatch"); ts.iterations = c.choose(3, "iterations"); unsigned len = c.thorough() ? 6 : 5; std::string o; for (unsigned i = 0; i < len; i++) o += "erstE"[c.choose(5, "op")]; unsigned g = c.choose(3, "script"); c.shard(); run(c, ts, g == 0 ? std::vector<unsigned>{0, 1, 4} : g == 1 ? std::vector<unsigned>{2, 0, 3, 3, 1} : std::vector<unsigned>{4, 4, 0, 2, 1, 1, 3}, o, 1, 1, 1, 0); }
// averaging: label size, batch size, sequential batches, sampling, ratio
static void averaging(mc::Ctx& c) { auto S = settings(); TrainerSettings ts = c.pick(S, "settings"); ts.sbatchsize = 1 + c.choose(4, "sbatch"); ts.iterations = c.choose(4, "iterations"); ts.epoch_training_ratio = c.flip("ratio") ? 0.5f : 1; unsigned lw = 1 + c.choose(3, "label width"), b = 1 + c.choose(3, "batch"); double p = c.pick(std::vector<double>{1, 0.5, 0.25}, "sampling"); unsigned llr = c.choose(3, "llr"); c.shard(); run(c, ts, {0, 3, 1, 2, 4}, "ee", lw, b, p, llr); }
// size: one of weights per tensor, parameter tensors, iterations, sequential batches, label width, batch size, epochs
static void large(mc::Ctx& c) { auto S = settings(); TrainerSettings ts = c.pick(S, "settings"); ts.sbatchsize = 2; ts.iterations = 2; unsigned n = 3, k = 2, lw = 1, b = 1, ep = 2; std::string g = grow(c, {&n, &k, &lw, &b, &ts.sbatchsize, &ts.iterations, &ep}, false); unsigned llr = c.choose(2, "llr"); c.shard(); std::vector<unsigned> t{n}; while (t.size() < k) t.push_back(1 + (unsigned)t.size() % 3); run(c, ts, {0, 3, 1, 2, 4}, std::string(ep, 'e') + "re", lw, b, 1, llr, false, t); }
MC_MAIN({"large", large}, {"gradients", gradients}, {"histories", histories}, {"averaging", averaging})
