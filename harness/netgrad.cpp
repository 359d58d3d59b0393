// C18: gradients of whole networks. Every small wiring of real layers against forward-mode derivatives in double.
#include "util.h"
static unsigned S = 2, W = 2, H = 1, M = 2; // sizes, other than these in large only
enum Type { CONV, RELU, TANH, HMAX, SUM, CONCAT, NTYPES };
static const char* tname[] = {"conv", "relu", "tanh", "hmax", "sum", "concat"};
struct Src { int node; bool bp; };
struct Node { Type t; std::vector<Src> in; unsigned maps; int param0 = -1, np = 0; };
struct LossD { int node; bool bp; double weight; int label; };
struct Model { std::vector<Node> n; std::vector<LossD> loss; std::vector<double> p; // parameters of all layers in node order
  std::string str() const { std::ostringstream o; for (size_t k = 1; k < n.size(); k++) { o << " n" << k << "=" << tname[n[k].t] << "("; for (auto& s : n[k].in) o << "n" << s.node << (s.bp ? "" : "!") << " "; o << ")"; } for (auto& l : loss) o << " loss(n" << l.node << (l.bp ? "" : "!") << ")"; return o.str(); } };
typedef std::vector<std::pair<double, double>> Vals; // value, derivative, sample > map > pixel
static double label(size_t i, int salt) { return smallint(i, 900 + salt, 2); }
static double weight(size_t s, size_t x) { return 0.5 + 0.5 * (double)((s * 2 + x) % 3); }
static double data(size_t i) { return 0.25 + 0.5 * smallint(i, 77, 3); }
// loss and its derivative with respect to parameter q (-1: value only); close is set when a kink is near
static std::pair<double, double> eval(const Model& m, int q, bool& close, std::vector<double>* losses = nullptr, double* size = nullptr) {
  std::vector<Vals> v(m.n.size()); const size_t P = W * H; for (size_t i = 0; i < S * M * P; i++) v[0].push_back({(float)data(i), 0});
  auto in = [&](const Src& s, size_t i) { auto x = v[s.node][i]; if (!s.bp) x.second = 0; return x; };
  auto par = [&](int i) { return std::make_pair(m.p[i], i == q ? 1.0 : 0.0); };
  for (size_t k = 1; k < m.n.size(); k++) { const Node& n = m.n[k]; Vals& o = v[k]; o.assign(S * n.maps * P, {0, 0}); unsigned im = m.n[n.in[0].node].maps;
    for (size_t s = 0; s < S; s++) for (size_t om = 0; om < n.maps; om++) for (size_t x = 0; x < P; x++) { auto& r = o[(s * n.maps + om) * P + x]; auto at = [&](const Src& src, size_t mm) { return in(src, (s * m.n[src.node].maps + mm) * P + x); };
      if (n.t == CONV) { r = par(n.param0 + (int)(n.maps * im + om)); for (unsigned mm = 0; mm < im; mm++) { auto a = at(n.in[0], mm); auto w = par(n.param0 + (int)(om * im + mm)); r.first += a.first * w.first; r.second += a.second * w.first + a.first * w.second; } }
      else if (n.t == RELU) { auto a = at(n.in[0], om); if (std::fabs(a.first) < 1e-3) close = true; r = a.first > 0 ? a : std::make_pair(0.0, 0.0); }
      else if (n.t == TANH) { auto a = at(n.in[0], om); double t = std::tanh(a.first); r = {t, a.second * (1 - t * t)}; }
      else if (n.t == HMAX) { auto a = at(n.in[0], om), pa = par(n.param0), pb = par(n.param0 + 1); double z = pa.first * a.first + pb.first, y = 1 / (1 + std::exp(-z)); r = {y, y * (1 - y) * (pa.second * a.first + pa.first * a.second + pb.second)}; }
      else if (n.t == SUM) { auto a = at(n.in[0], om), b = at(n.in[1], om); r = {a.first + b.first, a.second + b.second}; }
      else { r = om < im ? at(n.in[0], om) : at(n.in[1], om - im); } } }
  std::pair<double, double> L{0, 0}; for (auto& l : m.loss) { double one = 0; unsigned mm = m.n[l.node].maps; for (size_t i = 0; i < v[l.node].size(); i++) { auto a = in(Src{l.node, l.bp}, i); double d = a.first - label(i, l.label), w = (float)weight(i / (mm * P), i % P) * l.weight; one += d * d * w / 2; L.second += d * w * a.second; if (size) *size += std::fabs(d * w * a.second); } L.first += one; if (losses) losses->push_back(one); }
  return L;
}
static void check(mc::Ctx& c, Model& m, unsigned mask, unsigned var, const std::vector<int>& some = {});
static void wirings(mc::Ctx& c) { S = W = M = 2; H = 1;
  unsigned N = c.thorough() ? 4 : 3; Model m; m.n.push_back(Node{CONV, {}, M});
  for (unsigned k = 1; k <= N; k++) { Node n; unsigned ty = c.choose(N == 4 ? 5 : NTYPES, "type"); n.t = N == 4 ? (Type)(ty < 2 ? ty : ty + 1) : (Type)ty; unsigned ni = n.t >= SUM ? 2 : 1;
    for (unsigned j = 0; j < ni; j++) { // nodes without and with gradient
      std::vector<Src> o; for (unsigned q = 0; q < k; q++) { o.push_back(Src{(int)q, q > 0}); } if (N == 3) for (unsigned q = 1; q < k; q++) o.push_back(Src{(int)q, false}); if (ni == 2 && j == 1 && n.t == SUM) { std::vector<Src> f; for (auto& s : o) if (s.node >= n.in[0].node) f.push_back(s); o = f; } n.in.push_back(o[c.choose((unsigned)o.size(), "source")]); }
    n.maps = n.t == CONV ? M : n.t == CONCAT ? m.n[n.in[0].node].maps + m.n[n.in[1].node].maps : m.n[n.in[0].node].maps; if (n.t == SUM && m.n[n.in[0].node].maps != m.n[n.in[1].node].maps) c.skip();
    if (n.t == CONV) n.np = (int)(M * m.n[n.in[0].node].maps + M); if (n.t == HMAX) n.np = 2; m.n.push_back(n); }
  unsigned mask = 1 + c.choose((1u << N) - 1, "losses"), var = c.choose(N == 4 ? 1 : 3, "variant"); c.shard(); bool first = true;
  for (unsigned k = 1; k <= N; k++) if (mask >> (k - 1) & 1) { m.loss.push_back(LossD{(int)k, !(var == 2 && first), first ? 1.0 : 0.5, (int)k}); first = false; } if (var == 1) m.loss.push_back(LossD{m.loss.back().node, true, 2.0, 9});
  check(c, m, mask, var); }
// values, loss and gradients of one network against the model; some: numbers of the parameters compared, empty for all of them
static void check(mc::Ctx& c, Model& m, unsigned mask, unsigned var, const std::vector<int>& some) { const unsigned N = m.n.size() - 1;
  int pi = 0; for (auto& n : m.n) if (n.np) { n.param0 = pi; for (int i = 0; i < n.np; i++) m.p.push_back(n.t == HMAX ? (i ? 0.25 : 0.75) : M <= 4 ? 0.125 + 0.25 * smallint((size_t)(pi + i), 31, 2) : smallint((size_t)(pi + i), 31, 2) / 64.0); pi += n.np; }
  if (c.want_sample()) c.sample(m.str()); bool close = false; std::vector<double> losses; auto L = eval(m, -1, close, &losses); if (close) { c.count("near a kink, not compared"); c.skip(); }
  // the network
  sys_init(); c.site("network"); Tensor dt(S, W, H, M), lt(S, W, H, M), ht(S, W, H, 2), wt(S, W, H, 1); for (size_t i = 0; i < dt.elements(); i++) dt[i] = (float)data(i); lt.Clear(); ht.Clear(); for (size_t s = 0; s < S; s++) for (size_t x = 0; x < W * H; x++) wt[s * W * H + x] = (float)weight(s, x);
  std::vector<Tensor*> lts; NetGraph g; std::vector<NetGraphNode*> nodes, all; auto mk = [&](Layer* l) { auto* n = new NetGraphNode(l); all.push_back(n); return n; };
  nodes.push_back(mk(new InputLayer(dt, lt, ht, wt))); nodes[0]->is_input = true;
  for (unsigned k = 1; k <= N; k++) { Layer* l = nullptr; switch (m.n[k].t) { case CONV: l = new ConvolutionLayer(1, 1, M, 1, 1, 0, 0, 1, 1, false); break; case RELU: l = new ReLULayer(); break; case TANH: l = new TanhLayer(); break; case HMAX: l = new HMaxActivationFunction(1, 0); break; case SUM: l = new SumLayer(); break; default: l = new ConcatenationLayer(); }
    auto* n = mk(l); for (auto& s : m.n[k].in) n->input_connections.push_back(NetGraphConnection(nodes[s.node], 0, s.bp)); nodes.push_back(n); }
  nodes.back()->is_output = true; std::vector<NetGraphNode*> ln;
  for (auto& l : m.loss) { unsigned mm = m.n[l.node].maps; lts.push_back(new Tensor(S, W, H, mm)); for (size_t i = 0; i < lts.back()->elements(); i++) (*lts.back())[i] = (float)label(i, l.label); Tensor* d2 = new Tensor(S, W, H, 1); d2->Clear(); lts.push_back(d2); auto* src = mk(new InputLayer(*d2, *lts[lts.size() - 2], ht, wt)); src->is_input = true; auto* n = mk(new ErrorLayer((float)l.weight)); n->input_connections = {NetGraphConnection(nodes[l.node], 0, l.bp), NetGraphConnection(src, 1, false), NetGraphConnection(src, 3, false)}; ln.push_back(n); }
  unsigned rot = (mask + var + m.n[1].t) % 3; std::vector<NetGraphNode*> order(all); if (rot == 1) std::reverse(order.begin(), order.end()); if (rot == 2) std::rotate(order.begin(), order.begin() + order.size() / 2, order.end()); for (auto* n : order) g.AddNode(n);
  g.Initialize(); c.trans(3 + (uint64_t)pi);
  for (unsigned k = 1; k <= N; k++) { size_t q = 0; for (auto* p : nodes[k]->layer->parameters()) for (size_t i = 0; i < p->data.elements(); i++) p->data[i] = (float)m.p[m.n[k].param0 + (int)q++]; CK((int)q == m.n[k].np, "parameters", "layer n" + std::to_string(k) + " has " + std::to_string(q) + " parameters:" + m.str()); }
  g.FeedForward(); double got = g.AggregateLoss(); CK(std::fabs(got - L.first) <= 1e-5 * (1 + std::fabs(L.first)), "loss", "total loss is " + fmt(got) + " expected " + fmt(L.first) + ":" + m.str());
  for (size_t i = 0; i < ln.size(); i++) { double a = dynamic_cast<LossFunctionLayer*>(ln[i]->layer)->CalculateLossFunction(); CK(std::fabs(a - losses[i]) <= 1e-5 * (1 + std::fabs(losses[i])), "loss:one", "loss " + std::to_string(i) + " is " + fmt(a) + " expected " + fmt(losses[i]) + ":" + m.str()); }
  g.BackPropagate(); uint64_t h = 3; std::vector<float> grads; bool shared = false; std::map<int, int> uses; for (auto& n : m.n) for (auto& s : n.in) uses[s.node]++; for (auto& l : m.loss) uses[l.node]++; for (auto& u : uses) if (u.first && u.second > 1) shared = true;
  for (unsigned k = 1; k <= N; k++) { int q = 0; for (auto* p : nodes[k]->layer->parameters()) for (size_t i = 0; i < p->data.elements(); i++, q++) { float a = p->delta[i]; grads.push_back(a); if (!some.empty() && !std::count(some.begin(), some.end(), m.n[k].param0 + q)) continue; double size = 0; auto d = eval(m, m.n[k].param0 + q, close, nullptr, some.empty() ? nullptr : &size); CK(std::fabs(a - d.second) <= 2e-5 * std::max(1.0, S * W * H / 20000.0) * (4 + std::max(size, std::fabs(d.second))), "gradient", "gradient of parameter " + std::to_string(q) + " of n" + std::to_string(k) + " is " + fmt(a) + ", the loss has derivative " + fmt(d.second) + ":" + m.str()); h = mc::mix(h, (uint64_t)(long)std::lround(d.second * 64)); } }
  c.state(h); g.FeedForward(); g.BackPropagate(); g.BackPropagate(); g.FeedForward(); g.FeedForward(); g.BackPropagate(); size_t z = 0;
  for (unsigned k = 1; k <= N; k++) for (auto* p : nodes[k]->layer->parameters()) for (size_t i = 0; i < p->data.elements(); i++, z++) CK(same_bits(p->delta[i], grads[z]), "repeat", "gradient of n" + std::to_string(k) + " is " + fmt(p->delta[i]) + " after more passes, " + fmt(grads[z]) + " before:" + m.str());
  c.validated(); if (shared) c.nontrivial();
  std::set<NetGraphNode*> del(g.GetNodes().begin(), g.GetNodes().end()); for (auto* n : del) { for (auto& b : n->output_buffers) if (!dynamic_cast<InputLayer*>(n->layer)) delete b.combined_tensor; if (dynamic_cast<ConvolutionLayer*>(n->layer)) for (auto* p : n->layer->parameters()) (void)p; delete n->layer; delete n; } for (auto* t : lts) delete t;
}
// larger images, maps and batches, longer chains and more consumers
static void large(mc::Ctx& c) { S = W = M = 2; H = 1; unsigned shp = c.choose(4, "wiring"), n = 2; grow(c, {&S, &W, &H, &M, &n}, false, {&W, &H}); if (n > 100 && !c.thorough()) c.skip(); c.shard(); Model m; m.n.push_back(Node{CONV, {}, M}); auto add = [&](Type t, std::vector<int> in) { Node k; k.t = t; for (int i : in) k.in.push_back(Src{i, i > 0}); k.maps = t == CONV ? M : t == CONCAT ? m.n[in[0]].maps + m.n[in[1]].maps : m.n[in[0]].maps; if (t == CONV) k.np = (int)(M * m.n[in[0]].maps + M); if (t == HMAX) k.np = 2; m.n.push_back(k); return (int)m.n.size() - 1; };
  int last = add(CONV, {0}); if (shp == 0) for (unsigned i = 0; i < n; i++) last = add(i % 3 == 0 ? TANH : i % 3 == 1 ? CONV : SUM, i % 3 == 2 ? std::vector<int>{last - 1, last} : std::vector<int>{last});
  else if (shp == 1) { int f = last; for (unsigned i = 0; i < n; i++) { int a = add(i % 2 ? TANH : CONV, {f}); m.loss.push_back(LossD{a, true, i ? 0.5 : 1.0, (int)i}); } } else if (shp == 2) { int f = add(TANH, {last}), g = add(CONV, {f}); for (unsigned i = 0; i < n; i++) g = add(SUM, {i % 2 ? last : f, g}); last = g; } else { int f = add(TANH, {last}), g = f; for (unsigned i = 0; i < std::min(n, 40u); i++) g = add(CONCAT, {g, i % 2 ? last : f}); last = add(CONV, {add(HMAX, {g})}); }
  if (m.loss.empty()) m.loss.push_back(LossD{last, true, 1.0, 1}); int np = 0; for (auto& k : m.n) np += k.np; std::set<int> some; int pi = 0; for (auto& k : m.n) { if (k.np) { for (int q : {0, 1, k.np / 3, k.np / 2, k.np - 2, k.np - 1}) if (q >= 0) some.insert(pi + q); } pi += k.np; } std::vector<int> v(some.begin(), some.end()); while (v.size() > 24) { std::vector<int> w; for (size_t i = 0; i < v.size(); i++) if (i % 2 == 0 || i + 1 == v.size()) w.push_back(v[i]); v = w; } check(c, m, (unsigned)m.n.size(), shp, v); }
MC_MAIN({"wirings", wirings}, {"large", large})
