// C17: network evaluation. Instrumented layers in all small acyclic graphs, insertion orders and pass histories.
#include "util.h"
struct World { std::vector<int> ff, bp; int pass = 0; std::vector<std::string> bad; };
struct Probe : Layer {
  World& w; int id; unsigned nout; std::vector<CombinedTensor*> in, out; const NetStatus* st = nullptr; std::vector<int> seen_testing; std::vector<std::vector<double>> got; int connects = 0; std::vector<int> enabled; int refuse = 0;
  Probe(World& w, int id, unsigned nout) : Layer(""), w(w), id(id), nout(nout) {}
  ~Probe() { for (auto* t : out) delete t; }
  bool CreateOutputs(const CTs& i, CTs& o) override { if (refuse == 1) return false; for (unsigned k = 0; k + (refuse == 3) < nout + (refuse == 4); k++) { o.push_back(new CombinedTensor(1, 1, 1, 1)); } return true; }
  bool Connect(const CTs& i, const CTs& o, const NetStatus* s) override { in = i; out = o; st = s; connects++; if (refuse == 2) return false; for (auto* t : i) if (!t) return false; return true; }
  // output k = 1 + id + 2k + sum (j+2) * input j + pass, modulo 1021
  static double f(int id, unsigned k, const std::vector<double>& x, int pass) { long v = 1 + id + 2 * k + pass; for (size_t j = 0; j < x.size(); j++) v += (long)(j + 2) * (long)x[j]; return (double)(v % 1021); }
  static inline int mod = 20; static double g(int id, unsigned j, int pass) { return 1 << ((id * 3 + j + pass) % mod); }
  void FeedForward() override { w.ff.push_back(id); seen_testing.push_back(st ? st->IsTesting() : -1); std::vector<double> x; for (auto* t : in) x.push_back(t->data[0]); for (unsigned k = 0; k < nout; k++) out[k]->data[0] = f(id, k, x, w.pass); }
  // like the real layers, writes the gradients of all inputs
  void BackPropagate() override { w.bp.push_back(id); enabled.push_back(backprop_enabled_); got.emplace_back(); for (auto* t : out) got.back().push_back(t->delta[0]); for (unsigned j = 0; j < in.size(); j++) in[j]->delta[0] = g(id, j, w.pass); }
  std::string GetLayerDescription() override { return "Probe " + std::to_string(id); }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) override { for (unsigned k = 0; k < nout; k++) b.emplace_back(); }
};
struct Edge { int node; unsigned buf; bool bp; };
struct Desc { std::vector<unsigned> nout; std::vector<std::vector<Edge>> in; std::vector<bool> is_in; std::vector<int> order;
  std::string str() const { std::ostringstream o; for (size_t k = 0; k < nout.size(); k++) { o << " n" << k << (is_in[k] ? "(input)" : "") << "/" << nout[k] << "<-"; for (auto& e : in[k]) o << "n" << e.node << "." << e.buf << (e.bp ? "" : "!") << ","; } o << " order"; for (int k : order) o << " " << k; return o.str(); } };
struct Net {
  World w; Desc d; NetGraph g; std::vector<NetGraphNode*> nodes; std::vector<Probe*> pr;
  Net(const Desc& d, bool add = true) : d(d) { sys_init();
    for (size_t k = 0; k < d.nout.size(); k++) { pr.push_back(new Probe(w, (int)k, d.nout[k])); nodes.push_back(new NetGraphNode(pr.back())); nodes.back()->is_input = d.is_in[k]; }
    std::vector<char> used(d.nout.size()); for (auto& v : d.in) for (auto& e : v) used[e.node] = true;
    for (size_t k = 0; k < d.nout.size(); k++) { for (auto& e : d.in[k]) nodes[k]->input_connections.push_back(NetGraphConnection(nodes[e.node], e.buf, e.bp)); if (!used[k] && !d.is_in[k]) nodes[k]->is_output = true; }
    if (add) for (int k : d.order) g.AddNode(nodes[k]); }
  ~Net() { std::set<NetGraphNode*> all(nodes.begin(), nodes.end()); for (auto* n : g.GetNodes()) all.insert(n); for (auto* n : all) { if (!dynamic_cast<Probe*>(n->layer)) for (auto& b : n->output_buffers) delete b.combined_tensor; } for (auto* n : all) { delete n->layer; delete n; } }
  size_t n() const { return d.nout.size(); }
  void once(mc::Ctx& c, const std::vector<int>& log, const char* what) {
    std::vector<int> cnt(n()); for (int k : log) cnt[k]++;
    for (size_t k = 0; k < n(); k++) CK(cnt[k] == 1, std::string("once:") + what, "layer n" + std::to_string(k) + " ran " + std::to_string(cnt[k]) + " times in a " + what + " pass of" + d.str());
    std::vector<int> at(n()); for (size_t i = 0; i < log.size(); i++) at[log[i]] = (int)i;
    for (size_t k = 0; k < n(); k++) for (auto& e : d.in[k]) {
      if (what[0] == 'f') CK(at[e.node] < at[k], "order:forward", "n" + std::to_string(k) + " ran before n" + std::to_string(e.node) + " which feeds it:" + d.str());
      else if (e.bp && !d.is_in[e.node]) CK(at[e.node] > at[k], "order:backward", "n" + std::to_string(e.node) + " ran backward before its consumer n" + std::to_string(k) + ":" + d.str()); }
  }
  std::vector<std::vector<double>> value(int pass) { std::vector<std::vector<double>> v(n()); for (size_t k = 0; k < n(); k++) { std::vector<double> x; for (auto& e : d.in[k]) x.push_back(v[e.node][e.buf]); for (unsigned b = 0; b < d.nout[k]; b++) v[k].push_back(Probe::f((int)k, b, x, pass)); } return v; }
  void forward(mc::Ctx& c) { w.ff.clear(); w.bp.clear(); w.pass++; g.FeedForward(); c.trans(n()); CK(w.bp.empty(), "forward:backward", "a forward pass ran a layer backward:" + d.str()); once(c, w.ff, "forward");
    auto v = value(w.pass); for (size_t k = 0; k < n(); k++) { CK(pr[k]->seen_testing.back() == (int)g.IsTesting(), "mode", "n" + std::to_string(k) + " does not see the network's mode:" + d.str());
      for (unsigned b = 0; b < d.nout[k]; b++) { CK(nodes[k]->output_buffers[b].combined_tensor == pr[k]->out[b], "buffer", "the network shows another tensor than the layer's output:" + d.str()); double a = pr[k]->out[b]->data[0]; CK(a == v[k][b], "value", "n" + std::to_string(k) + "." + std::to_string(b) + " is " + fmt(a) + " expected " + fmt(v[k][b]) + ":" + d.str()); } } }
  void backward(mc::Ctx& c) { w.ff.clear(); w.bp.clear(); w.pass++; for (auto* p : pr) { p->got.clear(); p->enabled.clear(); } g.BackPropagate(); c.trans(n()); CK(w.ff.empty(), "backward:forward", "a backward pass ran a layer forward:" + d.str()); once(c, w.bp, "backward");
    for (size_t k = 0; k < n(); k++) { bool en = false; for (auto& e : d.in[k]) en = en || (e.bp && !d.is_in[e.node]);
      CK((bool)pr[k]->enabled[0] == en, "enabled", "n" + std::to_string(k) + " has backpropagation " + (en ? "disabled" : "enabled") + ":" + d.str());
      if (d.is_in[k]) continue;
      for (unsigned b = 0; b < d.nout[k]; b++) { double want = 0; for (size_t q = 0; q < n(); q++) for (unsigned j = 0; j < d.in[q].size(); j++) { auto& e = d.in[q][j]; if (e.node == (int)k && e.buf == b && e.bp) want += Probe::g((int)q, j, w.pass); }
        double a = pr[k]->got[0][b]; CK(a == want, "gradient", "n" + std::to_string(k) + " receives gradient " + fmt(a) + " for output " + std::to_string(b) + ", its consumers sent " + fmt(want) + ":" + d.str()); } } }
};
// one input node with `ib` outputs, then `n` layers
static Desc draw(mc::Ctx& c, unsigned n, unsigned ib, unsigned maxout, unsigned maxin, bool flags, bool source = false) {
  Desc d; d.nout.push_back(ib); d.in.emplace_back(); d.is_in.push_back(true);
  for (unsigned k = 1; k <= n; k++) { unsigned no = 1 + c.choose(maxout, "outputs"), ni = (k > 1 && source ? (unsigned)c.choose(maxin + 1, "inputs") : 1 + c.choose(maxin, "inputs")); std::vector<Edge> v; std::vector<std::pair<int, unsigned>> src; for (unsigned q = 0; q < k; q++) for (unsigned b = 0; b < d.nout[q]; b++) src.push_back({(int)q, b});
    for (unsigned j = 0; j < ni; j++) { auto s = src[c.choose((unsigned)src.size(), "source")]; bool bp = (flags && s.first) ? !c.flip("nobackprop") : true; v.push_back(Edge{s.first, s.second, bp}); }
    d.nout.push_back(no); d.in.push_back(v); d.is_in.push_back(false); }
  return d;
}
static bool tangled(const Desc& d) { std::map<std::pair<int, unsigned>, int> u; for (auto& v : d.in) for (auto& e : v) if (e.node) u[{e.node, e.buf}]++; for (auto& x : u) if (x.second > 1) return true; return false; }
static void run(mc::Ctx& c, const Desc& d, const char* passes) {
  if (c.want_sample()) c.sample(d.str()); c.site("graph");
  Net n(d); CK(n.g.IsComplete(), "complete", "not reported complete:" + d.str());
  n.g.Initialize(); for (auto* p : n.pr) CK(p->connects == 1, "connects", "a layer was connected " + std::to_string(p->connects) + " times:" + d.str());
  CK(n.g.IsComplete(), "complete", "not reported complete after initialization:" + d.str());
  for (const char* p = passes; *p; p++) { if (*p == 'f') n.forward(c); else if (*p == 'b') n.backward(c); else n.g.SetIsTesting(*p == 't'); }
  std::set<std::string> names; for (auto* q : n.g.GetNodes()) CK(names.insert(q->unique_name).second, "name", "two nodes have the name " + q->unique_name);
  uint64_t h = 5; for (auto* q : n.nodes) { for (auto& e : q->backprop_connections) h = mc::mix(h, (uint64_t)(std::find(n.g.GetNodes().begin(), n.g.GetNodes().end(), e.node) - n.g.GetNodes().begin())); h = mc::mix(h, q->input_connections.size() * 7 + q->output_buffers.size()); } c.state(h);
  c.validated(); if (tangled(d)) c.nontrivial();
}
// all graphs of 3 layers (thorough: one with 2 outputs more), three orders
static void graphs(mc::Ctx& c) {
  bool src = c.flip("sources"); unsigned ib = src ? 1 : 1 + c.choose(2, "input outputs"); Desc d = draw(c, src ? 2 : 3, ib, 2, 2, true, src); unsigned o = c.choose(c.thorough() ? 4 : 2, "order"); c.shard();
  int n = (int)d.nout.size(); for (int k = 0; k < n; k++) d.order.push_back(o == 0 ? k : o == 1 ? n - 1 - k : o == 2 ? (k + 1) % n : (k * 3 + 2) % n == k ? k : (k + 2) % n);
  std::vector<int> s(d.order); std::sort(s.begin(), s.end()); for (int k = 0; k < n; k++) if (s[k] != k) c.skip();
  run(c, d, "fbfbb");
}
// larger graphs of single-output layers, all gradients, every insertion order
static void orders(mc::Ctx& c) {
  unsigned n = c.thorough() ? 5 : 4; Desc d = draw(c, n, 1, 1, 2, false); std::vector<int> p; unsigned left = (1u << (n + 1)) - 1;
  if (c.thorough()) { unsigned r = c.choose(24, "order"); int m = (int)n + 1; if (r < 12) for (int k = 0; k < m; k++) p.push_back(r < 6 ? (k + (int)r) % m : (2 * m - 1 - k + (int)r) % m); else { std::vector<int> q; for (int k = 0; k < m; k++) q.push_back(k); for (unsigned i = 0; i < (r - 11) * 31; i++) std::next_permutation(q.begin(), q.end()); p = q; } c.shard(); }
  else { for (unsigned i = 0; i <= n; i++) { std::vector<int> a; for (unsigned k = 0; k <= n; k++) if (left >> k & 1) a.push_back((int)k); int k = a[c.choose((unsigned)a.size(), "next")]; p.push_back(k); left &= ~(1u << k); } c.shard(); }
  d.order = p; run(c, d, "fbfb");
}
// pass histories and modes, three-input layers
static void histories(mc::Ctx& c) {
  Desc d = draw(c, 2, 1, 2, 3, true); unsigned len = c.thorough() ? 5 : 4; static const char ops[] = "fbte"; std::string h; for (unsigned i = 0; i < len; i++) h += ops[c.choose(4, "op")]; c.shard();
  d.order = {2, 0, 1}; run(c, d, h.c_str());
}
// completeness: unconnected, out-of-network and wrong-buffer connections, missing inputs and outputs
static void complete(mc::Ctx& c) {
  Desc d = draw(c, 2, 2, 2, 2, true); int left_out = (int)c.choose(4, "left out") - 1; unsigned defect = c.choose(6, "defect"), at = 1 + c.choose(2, "at"); c.shard(); if (c.want_sample()) c.sample("complete" + d.str() + kv("left_out", left_out) + kv("defect", defect));
  Net n(d, false); for (int k = 0; k < 3; k++) n.nodes[k]->is_output = k == 2; bool ok = true; c.site("IsComplete");
  if (defect == 1) { n.nodes[at]->input_connections.back().buffer = (unsigned)d.nout[d.in[at].back().node]; ok = ok && (int)at == left_out; }
  if (defect == 2) { n.nodes[at]->input_connections.back().backprop = false; }
  if (defect == 3) { n.nodes[2]->is_output = false; ok = false; }
  if (defect == 4) { n.nodes[0]->is_input = false; ok = false; }
  if (defect == 5) { n.nodes[2]->is_input = true; ok = ok && left_out == 2; }
  if (left_out == 0 || left_out == 2) ok = false;
  for (int k = 0; k < 3; k++) if (k != left_out) for (auto& e : d.in[k]) if (e.node == left_out) ok = false;
  if (defect == 1 && left_out >= 0) c.skip();
  for (int k = 2; k >= 0; k--) if (k != left_out) n.g.AddNode(n.nodes[k]);
  CK(n.g.IsComplete() == ok, "complete:defect", std::string(ok ? "complete network reported incomplete" : "incomplete network reported complete") + kv("left_out", left_out) + kv("defect", defect) + kv("at", at) + d.str());
  c.trans(); c.nontrivial();
}
// layers that refuse: the network says so, whatever their position
static void refusals(mc::Ctx& c) {
  Desc d = draw(c, 3, 1, 1, 2, true, true); int at = (int)c.choose(4, "at"), how = 1 + (int)c.choose(4, "how"), rot = (int)c.choose(4, "order"); c.shard(); for (int k = 0; k < 4; k++) d.order.push_back((k + rot) % 4); if (c.want_sample()) c.sample("refusal" + d.str() + kv("at", at) + kv("how", how));
  Net n(d); n.pr[at]->refuse = how; c.site("refusal"); bool thrown = false; try { n.g.Initialize(); } catch (std::runtime_error&) { thrown = true; }
  CK(thrown, "refusal", "the network was initialized although n" + std::to_string(at) + (how == 1 ? " creates no outputs" : how == 2 ? " does not connect" : " creates a wrong number of outputs") + ":" + d.str());
  c.trans(); c.nontrivial();
}
// size: long chains, one output with many consumers, a layer with many inputs or outputs, ladders (each layer reads the two before it)
static void large(mc::Ctx& c) {
  unsigned kind = c.choose(5, "kind"), m = c.pick(sizes(c), "size"), o = c.choose(3, "order"); c.shard(); Desc d; Probe::mod = 14; auto add = [&](unsigned no, std::vector<Edge> in, bool inp = false) { d.nout.push_back(no); d.in.push_back(in); d.is_in.push_back(inp); return (int)d.nout.size() - 1; };
  add(1, {}, true); add(1, {Edge{0, 0, true}});
  if (kind == 0) for (unsigned i = 1; i < m; i++) add(1, {Edge{(int)i, 0, true}});
  if (kind == 1) { for (unsigned i = 0; i < m; i++) add(1, {Edge{1, 0, i % 7 != 3}}); }
  if (kind == 2) { std::vector<Edge> v; for (unsigned i = 1; i < m; i++) add(1, {Edge{(int)(i % 2), 0, true}}); for (unsigned i = 0; i < m; i++) v.push_back(Edge{(int)(i + 1), 0, i % 5 != 2}); add(1, v); }
  if (kind == 3) { int q = add(m, {Edge{1, 0, true}}); std::vector<Edge> v; for (unsigned i = 0; i < m; i++) v.push_back(Edge{q, m - 1 - i, true}); add(1, v); add(1, {Edge{q, m - 1, true}, Edge{q, 0, true}}); }
  if (kind == 4) for (unsigned i = 1; i < m; i++) add(1, {Edge{(int)i, 0, true}, Edge{(int)i - (i > 1 ? 1 : 0), 0, true}});
  int n = (int)d.nout.size(); for (int k = 0; k < n; k++) d.order.push_back(o == 0 ? k : o == 1 ? n - 1 - k : (int)(((long)k + n / 2) % n));
  run(c, d, "fbf"); Probe::mod = 20;
}
MC_MAIN({"large", large}, {"refusals", refusals}, {"graphs", graphs}, {"orders", orders}, {"histories", histories}, {"complete", complete})
