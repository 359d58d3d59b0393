// C38: the weights a network starts from
#include "netrig.h"
enum T { CONV1, CONV2, CONV3, POOL, APOOL, TANH, SUM, CONCAT, DOWN, UP, HMAX, LRN, RESIZE, PRIOR, NT };
static const char* TN[] = {"conv1x1(2)", "conv2x1(3,pad)", "conv3x3(2,group2,stride2)", "maxpool1x2", "amaxpool2x1", "tanh", "sum", "concat", "downsampling2x1", "upscale1x2", "hmax", "lrn", "resize1x1", "prior"};
struct Src { int node; bool bp; };
struct Node { T t; std::vector<Src> in; Shape s; };
static Layer* make(T t, int seed) { switch (t) { case CONV1: return new ConvolutionLayer(1, 1, 2, 1, 1, 0, 0, 1, seed, false); case CONV2: return new ConvolutionLayer(2, 1, 3, 1, 1, 1, 0, 1, seed, false); case CONV3: return new ConvolutionLayer(3, 3, 2, 2, 2, 1, 1, 2, seed, false); case POOL: return new MaxPoolingLayer(1, 2); case APOOL: return new AdvancedMaxPoolingLayer(2, 1, 1, 1); case TANH: return new TanhLayer(); case SUM: return new SumLayer(); case CONCAT: return new ConcatenationLayer(); case DOWN: return new InputDownSamplingLayer(2, 1); case UP: return new UpscaleLayer(1, 2); case HMAX: return new HMaxActivationFunction(0.5, 0.1); case LRN: return new LocalResponseNormalizationLayer(3, 0.5, 0.75, LocalResponseNormalizationLayer::ACROSS_CHANNELS); case RESIZE: return new ResizeLayer(1, 1); default: return new SpatialPriorLayer(); } }
static bool output(T t, const std::vector<Shape>& i, Shape& o) { const Shape& a = i[0]; switch (t) { case CONV1: o = Shape{a.s, a.w, a.h, 2}; return true; case CONV2: o = Shape{a.s, a.w + 1, a.h, 3}; return true; case CONV3: if (a.m % 2) return false; o = Shape{a.s, (a.w - 1) / 2 + 1, (a.h - 1) / 2 + 1, 2}; return true; case POOL: if (a.h % 2) return false; o = Shape{a.s, a.w, a.h / 2, a.m}; return true; case APOOL: if (a.w < 2) return false; o = Shape{a.s, a.w - 1, a.h, a.m}; return true; case SUM: if (!(i[0] == i[1])) return false; o = a; return true; case CONCAT: if (i[0].w != i[1].w || i[0].h != i[1].h) return false; o = Shape{a.s, a.w, a.h, a.m + i[1].m}; return true; case DOWN: if (a.w % 2) return false; o = Shape{a.s, a.w / 2, a.h, a.m}; return true; case UP: o = Shape{a.s, a.w, 2 * a.h, a.m}; return true; case RESIZE: o = Shape{a.s, a.w + 1, a.h + 1, a.m}; return true; case PRIOR: o = Shape{a.s, a.w, a.h, a.m + 2}; return true; default: o = a; return true; } }
static unsigned area(T t) { return t == CONV2 ? 2 : t == CONV3 ? 9 : t == POOL || t == APOOL || t == DOWN ? 2 : 1; }
static std::vector<float> draws(T t, int seed, const Shape& in) { std::unique_ptr<Layer> l(make(t, seed)); CombinedTensor a(in.s, in.w, in.h, in.m); std::vector<CombinedTensor*> o; std::vector<CombinedTensor*> i{&a}; if (!l->CreateOutputs(i, o)) return {}; l->Connect(i, o, nullptr); l->OnLayerConnect({}); Tensor& w = l->parameters()[0]->data; std::vector<float> v; for (size_t e = 0; e < w.elements(); e++) v.push_back(w[e]); for (auto* q : o) delete q; return v; }
static void verify(mc::Ctx& c, const std::vector<Node>& n, unsigned order, bool loss, const std::string& name = "");
static void body(mc::Ctx& c, unsigned N, const std::vector<T>& types, bool nobp, bool loss) {
  std::vector<Node> n; n.push_back(Node{TANH, {}, Shape{1, 4, 4, 2}}); bool anyconv = false;
  for (unsigned k = 1; k <= N; k++) { Node q; q.t = types[c.choose((unsigned)types.size(), "type")]; unsigned ni = q.t == SUM || q.t == CONCAT ? 2 : 1; std::vector<Shape> in; for (unsigned j = 0; j < ni; j++) { std::vector<Src> o; for (unsigned p = q.t == SUM && j ? q.in[0].node : 0; p < k; p++) o.push_back(Src{(int)p, true}); if (nobp) for (unsigned p = 1; p < k; p++) o.push_back(Src{(int)p, false}); Src s = o[c.choose((unsigned)o.size(), "source")]; q.in.push_back(s); in.push_back(n[s.node].s); } if (!output(q.t, in, q.s)) c.skip(); if (q.t <= CONV3) anyconv = true; n.push_back(q); }
  if (!anyconv) c.skip(); unsigned order = c.choose(3, "order"); c.shard(); verify(c, n, order, loss); }
static void verify(mc::Ctx& c, const std::vector<Node>& n, unsigned order, bool loss, const std::string& name) {
  unsigned N = (unsigned)n.size() - 1; std::ostringstream os; if (name.empty()) for (unsigned k = 1; k <= N; k++) { os << " n" << k << "=" << TN[n[k].t] << "("; for (auto& s : n[k].in) os << "n" << s.node << (s.bp ? "" : "!") << " "; os << ")"; } static const char* ON[] = {"", " inserted backwards", " inserted from the middle"}; std::string x = name + os.str() + ON[order] + (loss ? " with losses at the ends" : "");
  sys_init(); c.site(x); Tensor dt(1, 4, 4, 2), lt(1, 4, 4, 2), ht(1, 4, 4, 2), wt(1, 4, 4, 1); NetGraph g; std::vector<NetGraphNode*> nodes, all; nodes.push_back(new NetGraphNode(new InputLayer(dt, lt, ht, wt))); nodes[0]->is_input = true;
  for (unsigned k = 1; k <= N; k++) { auto* q = new NetGraphNode(make(n[k].t, (int)(100 + k))); for (auto& s : n[k].in) q->input_connections.push_back(NetGraphConnection(nodes[s.node], 0, s.bp)); nodes.push_back(q); } all = nodes; std::vector<std::unique_ptr<Tensor>> lts;
  if (loss) { std::set<int> used; for (auto& q : n) for (auto& s : q.in) used.insert(s.node); for (unsigned k = 1; k <= N; k++) if (!used.count((int)k)) { const Shape& s = n[k].s; for (size_t m : std::vector<size_t>{s.m, s.m, 2, 1}) lts.emplace_back(new Tensor(s.s, s.w, s.h, m)); size_t b = lts.size() - 4; auto* in = new NetGraphNode(new InputLayer(*lts[b], *lts[b + 1], *lts[b + 2], *lts[b + 3])); in->is_input = true; all.push_back(in); auto* e = new NetGraphNode(new ErrorLayer()); e->input_connections = {NetGraphConnection(nodes[k], 0, true), NetGraphConnection(in, 1, false), NetGraphConnection(in, 3, false)}; all.push_back(e); } }
  std::vector<NetGraphNode*> ins(all); if (order == 1) std::reverse(ins.begin(), ins.end()); if (order == 2) std::rotate(ins.begin(), ins.begin() + (long)ins.size() / 2, ins.end()); for (auto* q : ins) g.AddNode(q); nodes.back()->is_output = true; g.Initialize(); g.InitializeWeights(); c.trans(2);
  // gain of each layer: own weights, or what the layers behind it report, divided by the pooled area
  std::vector<unsigned> next(N + 1, 0), gain(N + 1, 0); bool shared = false; for (unsigned k = N; k >= 1; k--) { unsigned users = 0; for (unsigned j = k + 1; j <= N; j++) for (auto& s : n[j].in) if (s.node == (int)k && s.bp) { next[k] += gain[j]; users++; } if (users > 1) shared = true; gain[k] = n[k].t <= CONV3 ? area(n[k].t) * (unsigned)n[n[k].in[0].node].s.m : next[k] / area(n[k].t); }
  for (int round = 0; round < 2; round++) { for (unsigned k = 1; k <= N; k++) { Layer* l = nodes[k]->layer; std::string y = "n" + std::to_string(k) + " of" + x + (round ? ", initialised again" : ""); if (n[k].t > CONV3) { CK(l->Gain() == gain[k], "init:gain", y + ": gain " + std::to_string(l->Gain()) + ", expected " + std::to_string(gain[k])); continue; }
      double r = std::sqrt(6.0 / (next[k] + gain[k])); Tensor &w = l->parameters()[0]->data, &b = l->parameters()[1]->data; for (size_t e = 0; e < w.elements(); e++) CK(std::fabs(w[e]) <= r * (1 + 1e-5), "init:range", y + ": weight " + std::to_string(e) + " is " + fmt(w[e]) + ", the range is " + fmt(r)); for (size_t e = 0; e < b.elements(); e++) CK(b[e] == 0, "init:bias", y + ": bias " + std::to_string(e) + " is " + fmt(b[e]));
      if (round == 0) { static std::map<std::pair<int, size_t>, std::vector<float>> memo; Shape in = n[n[k].in[0].node].s; auto& d = memo[{(int)n[k].t * 10000 + (int)k, in.m}]; if (d.empty()) d = draws(n[k].t, (int)(100 + k), in); CK(d.size() == w.elements(), "init:count", y); double f = std::sqrt((double)gain[k] / (next[k] + gain[k])); for (size_t e = 0; e < d.size(); e++) CK(std::fabs(w[e] - f * d[e]) <= 1e-5 * (r + std::fabs(d[e])), "init:scale", y + ": weight " + std::to_string(e) + " is " + fmt(w[e]) + ", the layer alone gets " + fmt(d[e]) + ", the factor for its place in the network is " + fmt(f)); }
      else { bool all = true; for (size_t e = 1; e < w.elements(); e++) if (w[e] != w[0]) all = false; CK(!all, "init:equal", y + ": all weights are " + fmt(w[0])); b.Clear(3); w.Clear(77); } }
    if (round == 0) { for (unsigned k = 1; k <= N; k++) if (n[k].t <= CONV3) { nodes[k]->layer->parameters()[0]->data.Clear(55); nodes[k]->layer->parameters()[1]->data.Clear(5); } g.InitializeWeights(); c.trans(); } }
  uint64_t h = loss; for (unsigned k = 1; k <= N; k++) h = mc::mix(h, n[k].t * 1000 + next[k]); c.state(h); c.validated(); if (shared) c.nontrivial(); if (c.want_sample()) c.sample(x);
  std::set<NetGraphNode*> del(g.GetNodes().begin(), g.GetNodes().end()); for (auto* q : del) { bool in = dynamic_cast<InputLayer*>(q->layer); for (auto& b : q->output_buffers) if (!in) delete b.combined_tensor; delete q->layer; delete q; } }
static void kinds(mc::Ctx& c) { std::vector<T> t; for (int k = 0; k < NT; k++) t.push_back((T)k); body(c, c.range(1, c.thorough() ? 4 : 3, "layers"), t, false, c.flip("losses")); }
static void grads(mc::Ctx& c) { body(c, 3, {CONV1, CONV2, POOL, TANH, SUM, CONCAT}, true, c.flip("losses")); }
static void deep(mc::Ctx& c) { body(c, c.thorough() ? 5 : 4, c.thorough() ? std::vector<T>{CONV1, POOL, TANH, SUM} : std::vector<T>{CONV1, CONV2, POOL, TANH, SUM}, false, false); }
// size: long chains, and one layer with many consumers
static void large(mc::Ctx& c) { unsigned m = c.pick(sizes(c), "size"), kind = c.choose(3, "kind"), order = c.choose(3, "order"); bool loss = kind == 1 && c.flip("losses"); c.shard(); std::vector<Node> n{Node{TANH, {}, Shape{1, 4, 4, 2}}}; auto add = [&](T t, std::vector<Src> in) { Node q; q.t = t; q.in = in; std::vector<Shape> s; for (auto& i : in) s.push_back(n[i.node].s); CK(output(t, s, q.s), "harness", "shape"); n.push_back(q); return (int)n.size() - 1; };
  if (kind == 0) for (unsigned i = 0; i < m; i++) add(i % 3 == 1 ? TANH : CONV1, {Src{(int)i, true}}); else { int q = add(CONV1, {Src{0, true}}); for (unsigned i = 0; i < m; i++) { bool bp = i % 6 != 4; if (kind == 1) add(i % 2 ? CONV1 : CONV3, {Src{q, bp}}); else if (i % 2) add(CONV2, {Src{add(TANH, {Src{q, true}}), bp}}); else add(CONV1, {Src{q, bp}}); } }
  verify(c, n, order, loss, std::to_string(m) + (kind == 0 ? " layers in a row" : kind == 1 ? " layers behind one" : " layers behind one, some through an activation")); }
// the weights of one layer fill the range evenly
static void spread(mc::Ctx& c) { unsigned kw = c.range(1, 7, "kw"), kh = c.range(1, c.thorough() ? 7 : 4, "kh"), out = 2 * c.range(1, 8, "kernels"), g = c.range(1, 2, "groups"), maps = 2 * c.range(1, 3, "maps"), next = c.choose(2, "next"); int seed = (int[]){1, 77, 1234567}[c.choose(3, "seed")]; c.shard(); sys_init(); std::string x = std::to_string(out) + " kernels " + std::to_string(kw) + "x" + std::to_string(kh) + " groups " + std::to_string(g) + " maps " + std::to_string(maps) + " seed " + std::to_string(seed); c.site(x);
  ConvolutionLayer l(kw, kh, out, 1, 1, 0, 0, g, seed, 0.0), nl(3, 2, 4, 1, 1, 0, 0, 1, 5, 0.0); CombinedTensor a(1, 9, 9, maps); std::vector<CombinedTensor*> o, o2, i{&a}; CK(l.CreateOutputs(i, o) && ((Layer&)l).Connect(i, o, nullptr), "init:connect", x); std::vector<Layer*> nx; if (next && o[0]->data.width() > 3) { CK(nl.CreateOutputs(o, o2) && ((Layer&)nl).Connect(o, o2, nullptr), "init:connect", x); nx.push_back(&nl); }
  l.OnLayerConnect(nx); c.trans(); double r = std::sqrt(6.0 / (kw * kh * maps + (nx.empty() ? 0 : 6 * out))); Tensor& w = l.parameters()[0]->data; size_t n = w.elements(); double lo = 1e9, hi = -1e9, sum = 0, sq = 0; for (size_t e = 0; e < n; e++) { CK(std::fabs(w[e]) <= r * (1 + 1e-5), "init:range", x + ": weight " + std::to_string(e) + " is " + fmt(w[e]) + ", the range is " + fmt(r)); lo = std::min<double>(lo, w[e]); hi = std::max<double>(hi, w[e]); sum += w[e] / r; sq += (double)w[e] / r * w[e] / r; }
  if (n >= 96) { CK(lo < -r / 2 && hi > r / 2, "init:spread", x + ": weights lie between " + fmt(lo) + " and " + fmt(hi) + ", the range is " + fmt(r)); CK(std::fabs(sum / n) < 6 * 0.578 / std::sqrt((double)n), "init:mean", x + ": the mean weight is " + fmt(sum / n) + " of the range"); CK(std::fabs(sq / n - 1 / 3.0) < 6 * 0.299 / std::sqrt((double)n), "init:variance", x + ": the mean square is " + fmt(sq / n) + " of the range's"); std::set<float> d(w.data_ptr_const(), w.data_ptr_const() + n); CK(d.size() * 10 > n * 9, "init:distinct", x + ": only " + std::to_string(d.size()) + " different weights of " + std::to_string(n)); c.nontrivial(); }
  c.state(hash(w)); c.validated(); if (c.want_sample()) c.sample(x); for (auto* q : o) delete q; for (auto* q : o2) delete q; }
MC_MAIN({"large", large}, {"spread", spread}, {"kinds", kinds}, {"grads", grads}, {"deep", deep})
