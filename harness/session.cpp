// C21: training and testing sessions. Every short sequence of commands on a real network with the real trainer and data input layer.
#include "util.h"
struct Req { bool test; unsigned slot, index; };
static double pix(bool test, unsigned index, size_t e) { return 0.25 * smallint(e, 100 + index * 2 + test, 3); }
static double lab(bool test, unsigned index, size_t e) { return 0.25 * smallint(e, 300 + index * 2 + test, 3); }
static double wgt(bool test, unsigned index, size_t e) { return 0.5 * (double)((index + test + e) % 3 + 1); }
struct Stub : Dataset {
  Method me; unsigned w, h, nt, ne; std::vector<Req> log; Stub(Method me, unsigned w, unsigned h, unsigned nt, unsigned ne) : me(me), w(w), h(h), nt(nt), ne(ne) {}
  Task GetTask() const override { return SEMANTIC_SEGMENTATION; } Method GetMethod() const override { return me; } unsigned GetWidth() const override { return w; } unsigned GetHeight() const override { return h; }
  unsigned GetInputMaps() const override { return 2; } unsigned GetLabelMaps() const override { return 2; } unsigned GetClasses() const override { return 2; } std::vector<std::string> GetClassNames() const override { return {"a", "b"}; }
  std::vector<unsigned> GetClassColors() const override { return {1, 2}; } std::vector<datum> GetClassWeights() const override { return {1, 1}; } unsigned GetTrainingSamples() const override { return nt; } unsigned GetTestingSamples() const override { return ne; } bool SupportsTesting() const override { return ne > 0; }
  bool get(bool test, Tensor* t[4], unsigned slot, unsigned index) { if (index >= (test ? ne : nt)) return false; log.push_back(Req{test, slot, index});
    for (int k = 0; k < 4; k++) { size_t n = t[k]->elements() / t[k]->samples(); for (size_t e = 0; e < n; e++) (*t[k])[slot * n + e] = (float)(k == 0 ? pix(test, index, e) : k == 1 ? lab(test, index, e) : k == 3 ? wgt(test, index, e) : 0.5); } return true; }
  bool GetTrainingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) override { Tensor* t[4] = {&d, &l, &h, &w}; return get(false, t, s, i); }
  bool GetTestingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) override { Tensor* t[4] = {&d, &l, &h, &w}; return get(true, t, s, i); }
};
struct Ev { char k; bool testing, disabled; double loss; size_t from, to; std::string text; }; // f: forward pass, b: backward pass, u: update of the measures, p: print
struct Log { std::vector<Ev> ev; Stub* d = nullptr; size_t seen = 0; std::vector<double> lw; };
// passes its input through and logs the passes
struct Probe : SimpleLayer { Log& log; bool back; Probe(Log& l, bool back) : SimpleLayer(""), log(l), back(back) {}
  bool CreateOutputs(const CTs& i, CTs& o) override { o.push_back(new CombinedTensor(i[0]->data.samples(), i[0]->data.width(), i[0]->data.height(), i[0]->data.maps())); return true; } bool Connect(const CombinedTensor*, CombinedTensor*) override { return true; }
  void FeedForward() override { for (size_t e = 0; e < input_->data.elements(); e++) output_->data[e] = input_->data[e]; if (back) log.ev.push_back(Ev{'m', net_->IsTesting(), false, 0, 0, 0, ""}); }
  void BackPropagate() override { for (size_t e = 0; e < input_->data.elements(); e++) input_->delta[e] = output_->delta[e]; if (back) log.ev.push_back(Ev{'b', net_->IsTesting(), false, 0, 0, 0, ""}); }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& x) override { NetGraphBuffer b; x.push_back(b); } };
// sees network output, label and weight of every batch
struct Spy : Layer, StatLayer { Log& log; bool disabled = false; CTs in; const NetStatus* st = nullptr; Spy(Log& l) : Layer(""), log(l) {}
  bool CreateOutputs(const CTs&, CTs&) override { return true; } bool Connect(const CTs& i, const CTs&, const NetStatus* n) override { in = i; st = n; return true; } void BackPropagate() override {}
  void FeedForward() override { double L = 0; Tensor& y = in[0]->data; Tensor& l = in[1]->data; Tensor& w = in[2]->data; size_t P = y.width() * y.height(); double f = 0; for (double a : log.lw) f += a;
    for (size_t q = log.seen; q < log.d->log.size(); q++) { auto& r = log.d->log[q]; size_t s = r.slot; if (r.test && q >= log.d->ne) continue; // an empty slot
      for (size_t m = 0; m < y.maps(); m++) for (size_t p = 0; p < P; p++) { double df = (double)y[(s * y.maps() + m) * P + p] - (double)l[(s * y.maps() + m) * P + p]; L += df * df * (r.test ? wgt(true, r.index, p) : (double)w[s * P + p]) * f / 2; } }
    log.ev.push_back(Ev{'f', st->IsTesting(), disabled, L, log.seen, log.d->log.size(), ""}); log.seen = log.d->log.size(); }
  void UpdateAll() override { log.ev.push_back(Ev{'u', false, disabled, 0, 0, 0, ""}); } void Print(std::string p, bool t) override { log.ev.push_back(Ev{'p', !t, disabled, 0, 0, 0, p}); } void Reset() override { log.ev.push_back(Ev{'x', false, disabled, 0, 0, 0, ""}); } void SetDisabled(bool d) override { disabled = d; } };
struct Sink : StatSink { int at = -1; struct Rep { bool null; double v; unsigned long epoch, its; bool training; }; std::vector<Rep> rep; void Initialize(std::vector<StatDescriptor*>& d) override { for (size_t i = 0; i < d.size(); i++) if (d[i]->description == "Average Aggregate Loss") at = (int)i; } void SetCurrentExperiment(std::string) override {}
  void Process(HardcodedStats& h, std::vector<Stat*>& s) override { if (at >= 0) rep.push_back(Rep{s[at]->is_null, s[at]->value, h.epoch, h.iterations, h.is_training}); } };
static Sink* sink() { static Sink* s = nullptr; sys_init(); if (!s) { s = new Sink(); System::stat_aggregator->RegisterSink(s); } return s; }
static std::vector<TrainerSettings> settings() { std::vector<TrainerSettings> v; for (int k = 0; k < 3; k++) { TrainerSettings t; t.learning_rate = k == 1 ? 0.25f : 0.125f; t.l1_weight = k == 2 ? 0.01f : 0; t.l2_weight = k ? 0.05f : 0; t.gamma = k == 0 ? 0.25f : 0; t.momentum = 0.9f; t.optimization_method = k == 1 ? QUICKPROP : GRADIENT_DESCENT; v.push_back(t); } return v; }
struct Net { Stub d; Log log, log2; NetGraph g; std::vector<NetGraphNode*> all; Trainer* t = nullptr; DatasetInputLayer* in = nullptr; unsigned B;
  Net(Method me, unsigned w, unsigned h, unsigned nt, unsigned ne, unsigned B, float p, unsigned losses, TrainerSettings ts, unsigned seed) : d(me, w, h, nt, ne), B(B) { log.d = log2.d = &d; in = new DatasetInputLayer(d, B, p, seed);
    auto mk = [&](Layer* l) { auto* n = new NetGraphNode(l); all.push_back(n); return n; }; auto* i = mk(in); i->is_input = true; auto* a = mk(new ConvolutionLayer(1, 1, 2, 1, 1, 0, 0, 1, 5, false)); auto* b = mk(new Probe(log, true)); auto* e = mk(new TanhLayer());
    a->input_connections.push_back(NetGraphConnection(i)); b->input_connections.push_back(NetGraphConnection(a)); e->input_connections.push_back(NetGraphConnection(b)); e->is_output = true; for (unsigned k = 0; k < losses; k++) { float lw = k ? 0.5f : 1.5f; log.lw.push_back(lw); auto* n = mk(new ErrorLayer(lw)); n->input_connections = {NetGraphConnection(e), NetGraphConnection(i, 1, false), NetGraphConnection(i, 3, false)}; }
    auto* s = mk(new Spy(log)); s->input_connections = {NetGraphConnection(e, 0, false), NetGraphConnection(i, 1, false), NetGraphConnection(i, 3, false)}; if (losses > 1) { log2.lw = log.lw; auto* s2 = mk(new Spy(log2)); s2->input_connections = s->input_connections; } for (auto* n : all) g.AddNode(n); g.Initialize(); g.InitializeWeights(); t = new Trainer(g, ts); }
  ~Net() { delete t; std::set<NetGraphNode*> del(g.GetNodes().begin(), g.GetNodes().end()); for (auto* n : del) { for (auto& b : n->output_buffers) delete b.combined_tensor; delete n->layer; delete n; } }
  std::vector<float> params() { std::vector<CombinedTensor*> p; g.GetParameters(p); std::vector<float> v; for (auto* q : p) for (size_t e = 0; e < q->data.elements(); e++) v.push_back(q->data[e]); return v; } };
static bool bits(const std::vector<float>& a, const std::vector<float>& b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * sizeof(float)); }
static void run(mc::Ctx& c, Method me, unsigned nt, unsigned ne, unsigned B, float p, unsigned losses, TrainerSettings ts, const std::string& ops, unsigned seed) {
  unsigned w = me == PATCH ? 1 : 2, h = 1; Sink* sk = sink(); StatAggregator& A = *System::stat_aggregator; c.site("build"); Net n(me, me == PATCH ? 1 : w, h, nt, ne, B, p, losses, ts, seed), twin(me, w, h, nt, ne, B, p, losses, ts, seed); A.Initialize(); A.StopRecording(); A.Reset();
  std::string x = std::to_string(nt) + " training, " + std::to_string(ne) + " testing samples, batch " + std::to_string(B) + " x " + std::to_string(ts.sbatchsize) + ", " + std::to_string(ts.iterations) + " iterations" + (ts.optimization_method == QUICKPROP ? " quickprop" : "") + (me == PATCH ? " patches" : "") + (losses > 1 ? " two losses" : "") + ": " + ops;
  if (c.want_sample()) c.sample(x); unsigned epoch = 0; bool sd = ts.stats_during_training; unsigned its = ts.iterations ? ts.iterations : nt; bool mixed = false, tested = false; double pixels = (double)w * h;
  for (size_t q = 0; q < ops.size(); q++) { char o = ops[q]; n.log.ev.clear(); n.d.log.clear(); n.log.seen = 0; n.log2.ev.clear(); n.log2.seen = 0; sk->rep.clear(); auto before = n.params(); std::string at = x + " at " + std::to_string(q) + "(" + o + ")"; c.site("session"); c.trans();
    if (o == 't') { A.StartRecording(); n.t->Test(); A.StopRecording(); A.Generate(); A.Reset(); tested = true;
      CK(bits(before, n.params()), "test:parameters", at + ": testing changes the parameters"); CK(n.t->epoch() == epoch, "test:epoch", at + ": epoch is " + std::to_string(n.t->epoch()) + " expected " + std::to_string(epoch));
      CK(n.d.log.size() >= ne && n.d.log.size() < ne + B, "test:samples", at + ": " + std::to_string(n.d.log.size()) + " samples were requested"); for (unsigned i = 0; i < ne; i++) CK(n.d.log[i].test && n.d.log[i].index == i, "test:samples", at + ": request " + std::to_string(i) + " is " + (n.d.log[i].test ? "testing" : "training") + " sample " + std::to_string(n.d.log[i].index));
      double L = 0; unsigned f = 0, u = 0, pr = 0; for (auto& e : n.log.ev) { CK(e.k != 'b', "test:backward", at + ": backward pass while testing"); if (e.k == 'f' || e.k == 'm') CK(e.testing, "test:mode", at + ": layers are in training mode"); if (e.k == 'f') { f++; L += e.loss; CK(!e.disabled, "test:measures", at + ": the statistics layers are disabled"); } if (e.k == 'u') u++; if (e.k == 'p') { pr++; CK(e.testing && u == 1, "test:measures", at + ": measures printed as " + e.text); } }
      CK(f == (ne + B - 1) / B, "test:batches", at + ": " + std::to_string(f) + " forward passes"); CK(u == 1 && pr == 1, "test:measures", at + ": measures updated " + std::to_string(u) + " and printed " + std::to_string(pr) + " times");
      CK(sk->rep.size() == 1, "test:report", at); double want = L / (ne * pixels); CK(!sk->rep[0].null && std::fabs(sk->rep[0].v - want) <= 1e-5 * (1e-3 + want), "test:loss", at + ": average loss reported is " + fmt(sk->rep[0].v) + ", the average over the testing samples is " + fmt(want)); }
    else if (o == 'e' || o == 'E') { unsigned ep = o == 'E' ? 2 : 1; if (tested) mixed = true; A.StartRecording(); n.t->Train(ep, o == 'e'); A.StopRecording(); if (o == 'E') A.Generate(); A.Reset(); twin.t->Train(ep, false); epoch += ep;
      CK(n.t->epoch() == epoch, "train:epoch", at + ": epoch is " + std::to_string(n.t->epoch()) + " expected " + std::to_string(epoch)); CK(n.d.log.size() == (size_t)ep * its * ts.sbatchsize * B, "train:samples", at + ": " + std::to_string(n.d.log.size()) + " samples were requested"); for (auto& r : n.d.log) CK(!r.test, "train:samples", at + ": a testing sample was requested in training");
      unsigned f = 0, b = 0, u = 0, pr = 0; double L = 0; for (auto& e : n.log.ev) { if (e.k == 'f' || e.k == 'm' || e.k == 'b') CK(!e.testing, "train:mode", at + ": layers are in testing mode"); if (e.k == 'f') { f++; L += e.loss; CK(e.disabled == !sd, "train:measures", at + ": the statistics layers are " + (e.disabled ? "disabled" : "enabled")); } if (e.k == 'b') { b++; CK(b == f, "train:passes", at + ": backward pass " + std::to_string(b) + " after " + std::to_string(f) + " forward passes"); } if (e.k == 'u') u++; if (e.k == 'p') { pr++; CK(!e.testing, "train:measures", at + ": measures printed as " + e.text); } }
      CK(f == ep * its * ts.sbatchsize && b == f, "train:passes", at + ": " + std::to_string(f) + " forward and " + std::to_string(b) + " backward passes"); CK(u == (sd ? ep : 0) && pr == u, "train:measures", at + ": measures updated " + std::to_string(u) + " and printed " + std::to_string(pr) + " times");
      CK(sk->rep.size() == 1 && sk->rep[0].epoch == epoch - 1, "train:report", at + ": report of epoch " + std::to_string(sk->rep.empty() ? 0 : sk->rep[0].epoch)); double want = L / (pixels * B * ts.sbatchsize * its * ep * p); CK(!sk->rep[0].null && std::fabs(sk->rep[0].v - want) <= 1e-5 * (1e-3 + want), "train:loss", at + ": average loss reported is " + fmt(sk->rep[0].v) + ", expected " + fmt(want)); }
    else if (o == 'r') { n.t->Reset(); twin.t->Reset(); } else if (o == 's') { n.t->SetEpoch(5); twin.t->SetEpoch(5); epoch = 5; } else if (o == 'd') { sd = !sd; n.t->SetStatsDuringTraining(sd); twin.t->SetStatsDuringTraining(sd); }
    if (o != 't' && o != 'e' && o != 'E') { CK(bits(before, n.params()) && n.d.log.empty(), "command:parameters", at + ": parameters change"); CK(n.t->epoch() == epoch, "command:epoch", at + ": epoch is " + std::to_string(n.t->epoch())); }
    if (losses > 1) { auto kinds = [](const Log& l) { std::string t; for (auto& e : l.ev) if (e.k != 'm' && e.k != 'b') t += std::string(1, e.k) + (e.disabled ? "-" : "+"); return t; }; CK(kinds(n.log) == kinds(n.log2), "measures:all", at + ": one statistics layer sees " + kinds(n.log) + ", another one " + kinds(n.log2)); }
    auto pa = n.params(); CK(bits(pa, twin.params()), "disturbed", at + ": the parameters differ from those of the same session without the tests: " + show(pa) + " and " + show(twin.params())); c.state(mc::mix(mc::hash_bytes(pa.data(), pa.size() * 4), epoch)); }
  c.validated(); if (mixed) c.nontrivial();
}
static void histories(mc::Ctx& c) { auto S = settings(); unsigned k = c.choose((unsigned)S.size(), "settings"); TrainerSettings ts = S[k]; ts.sbatchsize = 1 + c.choose(2, "sbatch"); ts.iterations = 2; unsigned len = c.thorough() ? 6 : 5; std::string o; for (unsigned i = 0; i < len; i++) o += "etErsd"[c.choose(6, "op")]; c.shard(); run(c, FCN, 3, 3, 2, 1, 1, ts, o, 3); }
static void amounts(mc::Ctx& c) { auto S = settings(); TrainerSettings ts = c.pick(S, "settings"); unsigned nt = c.range(1, c.thorough() ? 5 : 4, "training"), ne = c.range(1, c.thorough() ? 6 : 5, "testing"), B = c.range(1, c.thorough() ? 5 : 4, "batch"); ts.sbatchsize = c.range(1, 3, "sbatch"); ts.iterations = c.choose(4, "iterations"); Method me = c.flip("method") ? PATCH : FCN; unsigned losses = 1 + c.choose(2, "losses"); ts.stats_during_training = !c.flip("stats"); float p = c.flip("sampling") ? 0.5f : 1; unsigned o = c.choose(3, "ops"); c.shard(); run(c, me, nt, ne, B, p, losses, ts, o == 0 ? "tete" : o == 1 ? "ettE" : "EtEtt", nt + ne); }
// size: one of training samples, testing samples, batch, sequential batches, iterations
static void large(mc::Ctx& c) { auto S = settings(); TrainerSettings ts = c.pick(S, "settings"); unsigned nt = 3, ne = 3, B = 2; ts.sbatchsize = 1; ts.iterations = 2; std::string g = grow(c, {&nt, &ne, &B, &ts.sbatchsize, &ts.iterations}, false); if (g == "0") ts.iterations = 0; Method me = c.flip("method") ? PATCH : FCN; c.shard(); run(c, me, nt, ne, B, 1, 2, ts, "tEte", 7); }
MC_MAIN({"large", large}, {"histories", histories}, {"sizes", amounts})
