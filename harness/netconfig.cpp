// C24: network configuration files. Every short configuration against a network built directly from the same description.
#include "netrig.h"
#include <typeinfo>
struct K { unsigned x, y; };
enum Op { CONV, MAXP, AMAX, LRN, RELU, TANH, SIGM, HMAX, DOWN, SPATIAL, PUSHA, PUSHB, POPA, POPB, CONCATA, CONCATB, SUMA, SUMB, UP, NONE, OUT };
struct Cmd { std::string text; Op op; K size, stride, pad; int kernels; unsigned group; double v1, v2; bool across, out; };
static Cmd cmd(const char* t, Op op, K size = K{1, 1}, K stride = K{1, 1}, K pad = K{0, 0}, int kernels = 1, unsigned group = 1, double v1 = 1, double v2 = 0, bool flag = false) { return Cmd{t, op, size, stride, pad, kernels, group, v1, v2, flag, flag}; }
static const std::vector<Cmd>& cmds() { static std::vector<Cmd> v = {
  cmd("?convolutional size=1x1 kernels=2", CONV, {1, 1}, {1, 1}, {0, 0}, 2), cmd("?relu", RELU), cmd("pusha", PUSHA), cmd("popa", POPA), cmd("pushb", PUSHB), cmd("popb", POPB), cmd("?concat stack=a", CONCATA), cmd("?concat stack=b", CONCATB), cmd("?sum stack=a", SUMA), cmd("?sum stack=b", SUMB),
  cmd("?convolutional size=3x2 kernels=1", CONV, {3, 2}), cmd("?convolutional kernels=2 llr=0.5 size=2x2 stride=2x1", CONV, {2, 2}, {2, 1}, {0, 0}, 2, 1, 0.5), cmd("?convolutional size=3x1 pad=1x0 kernels=2 group=2", CONV, {3, 1}, {1, 1}, {1, 0}, 2, 2), cmd("?fullyconnected neurons=3", CONV, {1, 1}, {1, 1}, {0, 0}, 3),
  cmd("?maxpooling size=2x2", MAXP, {2, 2}), cmd("?maxpooling size=2x1", MAXP, {2, 1}), cmd("?amaxpooling size=3x2 stride=1x2", AMAX, {3, 2}, {1, 2}), cmd("?amaxpooling size=2x1", AMAX, {2, 1}, {2, 1}), cmd("?amaxpooling stride=2x1 size=1x3", AMAX, {1, 3}, {2, 1}),
  cmd("?lrn method=across size=3 alpha=0.5 beta=0.75", LRN, {3, 3}, {1, 1}, {0, 0}, 1, 1, 0.5, 0.75, true), cmd("?lrn beta=0.5 method=within size=2", LRN, {2, 2}, {1, 1}, {0, 0}, 1, 1, 1, 0.5, false), cmd("?tanh", TANH), cmd("?sigm", SIGM), cmd("?hmax mu=0.5 weight=0.25", HMAX, {1, 1}, {1, 1}, {0, 0}, 1, 1, 0.5, 0.25),
  cmd("?downsampling size=2x1", DOWN, {2, 1}), cmd("?spatialprior", SPATIAL), cmd("?upscale factor=2x1", UP, {2, 1}), cmd("?flatten", NONE)}; return v; }
// text around the layers that means nothing
static const std::vector<std::string> FILL = {"", "# a comment", "#?convolutional size=3x3 kernels=7", "# neurons= (o) fullyconnected", "something unknown", "?unknown size=9x9", "lr=0.5", "momentum=0.25", "   ", "#pusha", "#method=patch", "#manual rfx=9 rfy=9 factorx=3 factory=3", "?", "l1=0.5 l2=0.25"};
struct Net { NetGraph g; std::vector<NetGraphNode*> own; bool complete = false, fatal = false; };
// the network described by the commands, built by hand
struct Ref { bool patch = false; int rfx = 0, rfy = 0, fx = 1, fy = 1; bool linear = true, exact = true;
  void geometry(const std::vector<Cmd>& p, bool patch_, const unsigned* manual) { patch = patch_; for (auto& k : p) { int nx = 0, ny = 0, mx = 1, my = 1; switch (k.op) {
      case CONV: nx = (int)k.size.x - 1 - 2 * (int)k.pad.x; ny = (int)k.size.y - 1 - 2 * (int)k.pad.y; mx = k.stride.x; my = k.stride.y; break; case AMAX: nx = k.size.x - 1; ny = k.size.y - 1; mx = k.stride.x; my = k.stride.y; break; case MAXP: case DOWN: mx = k.size.x; my = k.size.y; break;
      case PUSHA: case PUSHB: case POPA: case POPB: case CONCATA: case CONCATB: case SUMA: case SUMB: linear = false; break; case UP: exact = false; break; default: break; }
      rfx += fx * nx; rfy += fy * ny; fx *= mx; fy *= my; }
    if (manual) { rfx = manual[0]; rfy = manual[1]; fx = manual[2]; fy = manual[3]; exact = false; } if (patch) { rfx += fx; rfy += fy; } }
  void build(Net& net, NetGraphNode* data, const std::vector<Cmd>& p, unsigned classes, bool loss) { struct Conn { NetGraphNode* n; unsigned b; bool bp; }; Conn last{data, 0, true}; std::vector<Conn> a, b; bool upscaled = fx == 1 && fy == 1;
    auto add = [&](Layer* l, std::vector<Conn> in, bool out = false, bool bp = true) { auto* n = new NetGraphNode(l); for (auto& i : in) n->input_connections.push_back(NetGraphConnection(i.n, i.b, i.bp)); n->is_output = out; net.g.AddNode(n); last = Conn{n, 0, bp}; };
    if (!patch && (rfx > 0 || rfy > 0)) add(new ResizeLayer(std::max(rfx, 0), std::max(rfy, 0)), {last}, false, false);
    for (auto& k : p) { bool out = false; switch (k.op) {
      case CONV: { auto* l = new ConvolutionLayer(k.size.x, k.size.y, k.kernels < 0 ? classes : k.kernels, k.stride.x, k.stride.y, k.pad.x, k.pad.y, k.group, 1, 0.0); l->SetLocalLearningRate((datum)k.v1); add(l, {last}); break; }
      case MAXP: add(new MaxPoolingLayer(k.size.x, k.size.y), {last}); break; case AMAX: add(new AdvancedMaxPoolingLayer(k.size.x, k.size.y, k.stride.x, k.stride.y), {last}); break;
      case LRN: add(new LocalResponseNormalizationLayer(k.size.x, (datum)k.v1, (datum)k.v2, k.across ? LocalResponseNormalizationLayer::ACROSS_CHANNELS : LocalResponseNormalizationLayer::WITHIN_CHANNELS), {last}); break;
      case RELU: add(new ReLULayer(), {last}); break; case TANH: add(new TanhLayer(), {last}); break; case SIGM: add(new SigmoidLayer(), {last}); break; case HMAX: add(new HMaxActivationFunction((datum)k.v1, (datum)k.v2), {last}); break;
      case DOWN: add(new InputDownSamplingLayer(k.size.x, k.size.y), {last}, false, false); break;
      case SPATIAL: if (!upscaled && !patch) { add(new UpscaleLayer(fx, fy), {last}); upscaled = true; } add(new ConcatenationLayer(), {last, Conn{data, 2, false}}); break;
      case PUSHA: a.push_back(last); break; case PUSHB: b.push_back(last); break; case POPA: if (a.empty()) throw std::runtime_error("stack"); last = a.back(); a.pop_back(); break; case POPB: if (b.empty()) throw std::runtime_error("stack"); last = b.back(); b.pop_back(); break;
      case CONCATA: case CONCATB: case SUMA: case SUMB: { auto in = k.op == CONCATA || k.op == SUMA ? a : b; std::reverse(in.begin(), in.end()); add(k.op == CONCATA || k.op == CONCATB ? (Layer*)new ConcatenationLayer() : (Layer*)new SumLayer(), in); break; }
      case UP: out = k.v2 != 0; add(new UpscaleLayer(k.size.x, k.size.y), {last}, out); upscaled = true; break;
      case OUT: { out = true; bool here = patch || upscaled; add(classes == 1 ? (Layer*)new TanhLayer() : (Layer*)new SigmoidLayer(), {last}, here); if (!here) add(new UpscaleLayer(fx, fy), {last}, true); break; }
      case NONE: break; }
      if (out && loss) { Conn o = last; add(new ErrorLayer(k.op == OUT ? (datum)k.v1 : 1), {Conn{o.n, 0, true}, Conn{data, 1, true}, Conn{data, 3, true}}); last = o; } }
    net.complete = net.g.IsComplete(); } };
static std::string structure(NetGraph& g) { std::ostringstream o; std::map<NetGraphNode*, int> id; for (auto* n : g.GetNodes()) { int i = (int)id.size(); id[n] = i; } for (auto* n : g.GetNodes()) { o << typeid(*n->layer).name() << (n->is_input ? " in" : "") << (n->is_output ? " out" : "") << " <-"; for (auto& k : n->input_connections) o << " " << (id.count(k.node) ? id[k.node] : -1) << ":" << k.buffer << (k.backprop ? "" : "!"); o << "\n"; } return o.str(); }
static bool one_output(const std::vector<Cmd>& p) { unsigned n = 0; for (auto& k : p) n += k.out || k.op == OUT; return n == 1 && (p.back().out || p.back().op == OUT); }
static void run(mc::Ctx& c, const std::vector<Cmd>& prog, const std::string& text, bool patch, bool training, const unsigned* manual, unsigned classes, bool loss, unsigned w, unsigned h) {
  std::string d = text; for (auto& ch : d) if (ch == '\n') ch = '|'; d = "\"" + d + "\"" + kv("training", training) + kv("classes", classes) + kv("loss", loss); if (c.want_sample()) c.sample(d);
  sys_init(); c.site("factory"); Ref ref; ref.geometry(prog, patch && training, manual); std::istringstream file(text); ConfigurableFactory f(file, 3, training); c.trans();
  CK(f.method() == (ref.patch ? PATCH : FCN), "method", d); CK(f.patchsizex() == ref.rfx && f.patchsizey() == ref.rfy, "receptive-field", "receptive field is " + std::to_string(f.patchsizex()) + "x" + std::to_string(f.patchsizey()) + " expected " + std::to_string(ref.rfx) + "x" + std::to_string(ref.rfy) + ": " + d);
  if (ref.patch) { if (ref.rfx < 1 || ref.rfy < 1) c.skip(); w = ref.rfx; h = ref.rfy; } if (w > 600 || h > 600) c.skip();
  SynthData data(ref.patch ? PATCH : FCN, w, h, 2, 1, 2, classes); Net net[2]; DatasetInputLayer* in[2];
  for (int k = 0; k < 2; k++) { in[k] = new DatasetInputLayer(data, 2, 1.0, 11); auto* dn = new NetGraphNode(in[k]); dn->is_input = true; net[k].g.AddNode(dn); try { if (k == 0) net[k].complete = f.AddLayers(net[k].g, NetGraphConnection(dn), classes, loss); else ref.build(net[k], dn, prog, classes, loss); } catch (std::exception&) { net[k].fatal = true; } }
  int da = 0, db = 0, deep = 0; for (auto& k : prog) { da += (k.op == PUSHA) - (k.op == POPA); db += (k.op == PUSHB) - (k.op == POPB); deep = std::max(deep, std::max(da, db)); } if (deep > 64 && net[0].fatal) { c.count("stack limit"); c.trans(); c.validated(); return; } // the stacks hold 64 outputs
  c.trans(2); CK(net[0].fatal == net[1].fatal, "refused", std::string("configuration was ") + (net[0].fatal ? "refused" : "accepted") + ": " + d); if (net[0].fatal) { c.count("refused"); c.validated(); return; }
  std::string s0 = structure(net[0].g), s1 = structure(net[1].g); CK(s0 == s1, "structure", "built\n" + s0 + "expected\n" + s1 + d); CK(net[0].complete == net[1].complete, "complete", d); c.state(mc::hash_bytes(s0.data(), s0.size()));
  if (!net[0].complete) { c.count("incomplete"); c.validated(); return; }
  for (int k = 0; k < 2; k++) try { net[k].g.Initialize(); } catch (std::exception&) { net[k].fatal = true; } CK(net[0].fatal == net[1].fatal, "initialise", std::string("network was ") + (net[0].fatal ? "refused" : "accepted") + ": " + d); if (net[0].fatal) { c.count("refused when initialising"); c.validated(); return; }
  auto& N0 = net[0].g.GetNodes(); auto& N1 = net[1].g.GetNodes(); CK(N0.size() == N1.size(), "nodes", d);
  for (size_t i = 0; i < N0.size(); i++) for (size_t b = 0; b < N0[i]->output_buffers.size(); b++) { Shape a = shape(N0[i]->output_buffers[b].combined_tensor->data), e = shape(N1[i]->output_buffers[b].combined_tensor->data); CK(a == e, "shape", "output of node " + std::to_string(i) + " is " + a.str() + " expected " + e.str() + ": " + d); }
  // the size of the network's output: that of the image, or a single pixel
  if (ref.linear && ref.exact && one_output(prog)) for (auto* n : net[0].g.GetOutputNodes()) { Shape o = shape(n->output_buffers[0].combined_tensor->data); if (ref.patch) CK(o.w == 1 && o.h == 1, "output-size", "output for one patch is " + o.str() + ": " + d); else if (ref.rfx >= 0 && ref.rfy >= 0 && w % ref.fx == 0 && h % ref.fy == 0) { CK(o.w == w && o.h == h, "output-size", "output for an image of " + std::to_string(w) + "x" + std::to_string(h) + " is " + o.str() + ": " + d); c.nontrivial(); } }
  for (int k = 0; k < 2; k++) net[k].g.InitializeWeights(); std::vector<CombinedTensor*> p0, p1; net[0].g.GetParameters(p0); net[1].g.GetParameters(p1); CK(p0.size() == p1.size(), "parameters", d);
  for (size_t i = 0; i < p0.size(); i++) { CK(shape(p0[i]->data) == shape(p1[i]->data), "parameters", d); for (size_t e = 0; e < p0[i]->data.elements(); e++) p0[i]->data[e] = p1[i]->data[e] = (float)(0.25 * smallint(e, 50 + (unsigned)i, 2)); }
  auto grab = [&](NetGraph& g) { std::vector<float> v; for (auto* n : g.GetOutputNodes()) { Tensor& t = n->output_buffers[0].combined_tensor->data; for (size_t e = 0; e < t.elements(); e++) v.push_back(t[e]); } v.push_back(g.AggregateLoss()); return v; };
  c.site("passes"); std::vector<float> o[2], gr[2]; for (int k = 0; k < 2; k++) { net[k].g.FeedForward(); o[k] = grab(net[k].g); try { net[k].g.BackPropagate(); } catch (std::exception&) { net[k].fatal = true; continue; } gr[k] = all_params(net[k].g, true); } c.trans(4); CK(bits(o[0], o[1]), "output", "outputs and loss " + show(o[0]) + " expected " + show(o[1]) + ": " + d); CK(bits(gr[0], gr[1]), "gradient", "gradients " + show(gr[0]) + " expected " + show(gr[1]) + ": " + d);
  CK(net[0].fatal == net[1].fatal, "backward", d); if (net[0].fatal) c.count("down-sampling does not propagate gradients");
  if (loss && !net[0].fatal) { c.site("training"); TrainerSettings t; t.iterations = 2; t.learning_rate = 0.125; std::vector<float> q[2]; for (int k = 0; k < 2; k++) { Trainer tr(net[k].g, t); tr.Train(1, false); q[k] = all_params(net[k].g); } c.trans(2); CK(bits(q[0], q[1]), "training", "parameters after training " + show(q[0]) + " expected " + show(q[1]) + ": " + d); }
  c.validated(); for (int k = 0; k < 2; k++) free_net(net[k].g);
}
static std::vector<Cmd> tail(unsigned kind, std::vector<Cmd> p) { p.push_back(cmd(kind == 1 ? "?fullyconnected neurons=(o)" : "?convolutional size=1x1 kernels=(o)", CONV, {1, 1}, {1, 1}, {0, 0}, -1)); if (kind == 3) p.push_back(cmd("?upscale factor=2x2 is_output=1", UP, {2, 2}, {1, 1}, {0, 0}, 1, 1, 1, 1)); else p.push_back(cmd(kind == 2 ? "?output weight=0.5" : "?output", OUT, {1, 1}, {1, 1}, {0, 0}, 1, 1, kind == 2 ? 0.5 : 1)); return p; }
static std::string text(const std::vector<Cmd>& p, const std::string& head) { std::string t = head; for (auto& k : p) t += k.text + "\n"; return t; }
static const unsigned MANUAL[4] = {3, 2, 2, 1}; static const char* HEAD[] = {"", "method=patch\n", "manual rfx=3 rfy=2 factorx=2 factory=1\n"};
// every short sequence of layers
static void programs(mc::Ctx& c) { unsigned len = c.range(0, c.thorough() ? 4 : 3, "length"); std::vector<Cmd> p; for (unsigned i = 0; i < len; i++) p.push_back(cmds()[c.choose((unsigned)cmds().size(), "layer")]); unsigned mode = c.choose(len < 3 || c.thorough() ? 4 : 2, "mode"), kind = c.choose(len < 3 ? 4 : 1, "tail"), classes = len < 3 ? 1 + c.choose(2, "classes") : 2; c.shard(); p = tail(len < 3 ? kind : mode == 0 ? 2 : 0, p); run(c, p, text(p, HEAD[mode % 3]), mode == 1, mode != 3, mode == 2 ? MANUAL : nullptr, classes, mode != 3, 8, 4); }
// long sequences of stack operations
static void stacks(mc::Ctx& c) { unsigned len = c.range(4, c.thorough() ? 6 : 5, "length"); std::vector<Cmd> p; int a = 0, b = 0; for (unsigned i = 0; i < len; i++) { unsigned k = c.choose(10, "op"); if (len > 4 && k == 1 && i && p.back().op == RELU) c.skip(); p.push_back(cmds()[k]); a += (k == 2) - (k == 3); b += (k == 4) - (k == 5); if (a < 0 || b < 0) { if (i > 2) c.skip(); break; } } c.shard(); p = tail(0, p); run(c, p, text(p, ""), false, true, nullptr, 2, true, 2, 2); }
// text that means nothing, in every place
static void fillers(mc::Ctx& c) { static const unsigned P[][5] = {{0, 1, 10, 22, 24}, {11, 14, 1, 13, 25}, {2, 0, 2, 7, 3}, {16, 12, 19, 27, 21}, {0, 2, 1, 2, 6}, {26, 20, 23, 17, 15}}; unsigned q = c.choose(6, "program"), len = c.range(1, 5, "length"); std::vector<Cmd> p; for (unsigned i = 0; i < len; i++) p.push_back(cmds()[P[q][i]]); p = tail(c.choose(3, "tail"), p); unsigned at = c.choose((unsigned)p.size() + 1, "place"), f = c.choose((unsigned)FILL.size(), "filler"), end = c.choose(3, "line ends"), mode = c.choose(2, "mode"); unsigned f2 = c.choose(c.thorough() ? (unsigned)FILL.size() : 2, "second filler"); c.shard();
  std::string t = HEAD[mode]; for (size_t i = 0; i <= p.size(); i++) { if (i == at) t += FILL[f] + "\n"; if (i == (at + 3) % (p.size() + 1)) t += FILL[f2] + "\n"; if (i < p.size()) t += p[i].text + (end == 1 ? " " : "") + "\n"; } if (end == 2) t.pop_back(); run(c, p, t, mode == 1, true, nullptr, 2, true, 8, 4); }
// several outputs, each with a weight of its own or none, between the layers
static void outputs(mc::Ctx& c) { unsigned len = c.range(2, c.thorough() ? 5 : 4, "length"), classes = 1 + c.choose(2, "classes"), mode = c.choose(2, "mode"); std::vector<Cmd> p; unsigned outs = 0; for (unsigned i = 0; i < len; i++) { unsigned k = c.choose(10, "line"); if (k > 7) p.push_back(k == 8 ? cmd("?lrn size=3 method=across", LRN, {3, 3}, {1, 1}, {0, 0}, 1, 1, 1, 1, true) : cmd("?lrn method=within alpha=0.5", LRN, {1, 1}, {1, 1}, {0, 0}, 1, 1, 0.5, 1, false)); else if (k > 5) p.push_back(k == 6 ? cmd("?hmax", HMAX) : cmd("?hmax weight=0 mu=0.25", HMAX, {1, 1}, {1, 1}, {0, 0}, 1, 1, 0.25, 0)); else if (k < 3) { static const char* T[] = {"?output", "?output weight=0.5", "?output weight=2"}; static const double V[] = {1, 0.5, 2}; p.push_back(cmd(T[k], OUT, {1, 1}, {1, 1}, {0, 0}, 1, 1, V[k])); outs++; } else p.push_back(k == 3 ? cmd("?fullyconnected neurons=(o)", CONV, {1, 1}, {1, 1}, {0, 0}, -1) : k == 4 ? cmd("?convolutional size=2x1 kernels=(o)", CONV, {2, 1}, {1, 1}, {0, 0}, -1) : cmd("?maxpooling size=2x1", MAXP, {2, 1})); } c.require(outs > 0); bool loss = !c.flip("no loss"); c.shard(); if (p[0].op == OUT || p[0].op == MAXP || p[0].op == HMAX || p[0].op == LRN) p.insert(p.begin(), cmd("?convolutional size=1x1 kernels=(o)", CONV, {1, 1}, {1, 1}, {0, 0}, -1)); run(c, p, text(p, HEAD[mode]), mode == 1, true, nullptr, classes, loss, 8, 3); if (outs > 1) c.nontrivial(); }
// the line that sets the receptive field, in every place, twice, without effect and together with the method
static void manual(mc::Ctx& c) { static const unsigned P[][4] = {{0, 1, 10, 22}, {10, 14, 1, 13}, {11, 21, 16, 0}, {14, 10, 2, 22}}; static const unsigned M[][4] = {{3, 2, 2, 1}, {5, 4, 1, 1}, {1, 1, 3, 2}, {0, 2, 5, 5}, {4, 0, 5, 5}}; unsigned q = c.choose(4, "program"), len = c.range(1, 4, "length"), at = c.choose(len + 2, "place"), m = c.choose(5, "values"), at2 = c.choose(len + 3, "second place"), m2 = c.choose(at2 == len + 2 ? 1 : 5, "second values"), order = c.choose(at2 == len + 2 ? 2 : 1, "order"), method = c.choose(3, "method"); bool training = !c.flip("testing"), loss = c.flip("loss"); c.shard(); if (at > len) at = len + 1;
  std::vector<Cmd> p; for (unsigned i = 0; i < len; i++) p.push_back(cmds()[P[q][i]]); p = tail(0, p); auto line = [&](unsigned k) { char b[120]; snprintf(b, 120, order ? "manual factory=%u rfy=%u factorx=%u rfx=%u\n" : "manual rfx=%u rfy=%u factorx=%u factory=%u\n", order ? M[k][3] : M[k][0], M[k][1], M[k][2], order ? M[k][0] : M[k][3]); return std::string(b); };
  std::string t = method == 1 ? "method=patch\n" : ""; const unsigned* last = nullptr; for (size_t i = 0; i <= p.size(); i++) { if (i == at) { t += line(m); if (m < 3) last = M[m]; } if (i == at2 && at2 < len + 2) { t += line(m2); if (m2 < 3) last = M[m2]; } if (i < p.size()) t += p[i].text + "\n"; if (method == 2 && i == 0) t += "method=patch\n"; } run(c, p, t, method > 0, training, last, 2, loss, 8, 4); if (last) c.nontrivial(); }
// networks that scale the image down again and again, up to 256 times
static void scaled(mc::Ctx& c) { unsigned n = c.range(3, c.thorough() ? 6 : 5, "steps"); std::vector<Cmd> p; unsigned fx = 1, fy = 1; static const unsigned S[][2] = {{2, 2}, {4, 2}, {2, 4}}; static const char* T[] = {"?maxpooling size=%ux%u", "?amaxpooling size=%ux%u", "?convolutional size=2x3 stride=%ux%u kernels=2"}; p.push_back(cmd("?convolutional size=3x2 kernels=1", CONV, {3, 2})); for (unsigned i = 0; i < n; i++) { unsigned t = c.choose(3, "type"), z = c.choose(i < 2 ? 3 : 1, "factors"); char b[100]; snprintf(b, 100, T[t], S[z][0], S[z][1]); K k{S[z][0], S[z][1]}; p.push_back(t == 0 ? cmd(b, MAXP, k) : t == 1 ? cmd(b, AMAX, k, k) : cmd(b, CONV, {2, 3}, k, {0, 0}, 2)); fx *= k.x; fy *= k.y; } unsigned mode = c.choose(2, "mode"); c.require(fx * fy <= (c.thorough() ? 8192u : 2048u)); c.shard(); p = tail(0, p); run(c, p, text(p, HEAD[mode]), mode == 1, true, nullptr, 2, true, fx, fy); }
// images of every size and every receptive field
static void sized(mc::Ctx& c) { std::vector<Cmd> p; unsigned n = c.range(1, c.thorough() ? 3 : 2, "layers"); for (unsigned i = 0; i < n; i++) { unsigned t = c.choose(3, "type"); unsigned kx = 1 + c.choose(i ? 3 : 4, "kx"), ky = 1 + c.choose(i ? 2 : 3, "ky"); char b[120]; unsigned sx = 1, sy = 1; if (t != 1) { sx = 1 + c.choose(2, "sx"); sy = 1 + c.choose(2, "sy"); } if (t == 0) { snprintf(b, 120, "?convolutional size=%ux%u stride=%ux%u kernels=2", kx, ky, sx, sy); p.push_back(cmd(b, CONV, {kx, ky}, {sx, sy}, {0, 0}, 2)); } else if (t == 1) { snprintf(b, 120, "?maxpooling size=%ux%u", kx, ky); p.push_back(cmd(b, MAXP, {kx, ky})); } else { snprintf(b, 120, "?amaxpooling size=%ux%u stride=%ux%u", kx, ky, sx, sy); p.push_back(cmd(b, AMAX, {kx, ky}, {sx, sy})); } }
  unsigned w = 1 + c.choose(6, "w"), h = 1 + c.choose(4, "h"); bool patch = c.flip("patch"); if (patch) c.require(w == 1 && h == 1); c.shard(); p = tail(0, p); run(c, p, text(p, patch ? HEAD[1] : ""), patch, true, nullptr, 2, true, w, h); }
// training settings
static void settings(mc::Ctx& c) { static const char* N[] = {"l1", "l2", "lr", "gamma", "momentum", "exponent", "eta", "mu", "iterations", "sbatchsize", "pbatchsize", "optimization"}; unsigned mask = c.choose(4096, "settings"), order = c.choose(2, "order"), fmtk = c.choose(2, "format"), twice = c.choose(3, "twice"); c.shard();
  TrainerSettings e; datum* dv[] = {&e.l1_weight, &e.l2_weight, &e.learning_rate, &e.gamma, &e.momentum, &e.exponent, &e.eta, &e.mu}; unsigned* uv[] = {&e.iterations, &e.sbatchsize, &e.pbatchsize}; std::string t; sys_init();
  for (int pass = 0; pass < (twice == 1 ? 2 : 1); pass++) for (unsigned i = 0; i < 12; i++) { unsigned k = order ? 11 - i : i; if (!(mask >> k & 1)) { t += FILL[(i * 5 + mask) % FILL.size() == 6 || (i * 5 + mask) % FILL.size() == 7 || (i * 5 + mask) % FILL.size() == 13 ? 0 : (i * 5 + mask) % FILL.size()] + "\n"; t += std::string("#") + N[k] + "=77\n"; continue; } std::string v; if (k < 8) { static const char* V[] = {"0.125", "3", "0", "1e-3", ".5", "-2", "0.75", "1.25"}; v = V[(k + pass * 3) % 8]; *dv[k] = strtof(v.c_str(), 0); } else if (k < 11) { v = std::to_string(3 * k + 5 * pass + (k == 8 ? 1000 : 0)); *uv[k - 8] = strtoul(v.c_str(), 0, 10); } else { bool q = pass == 0; v = q ? "quickprop" : "gradient_descent"; e.optimization_method = q ? QUICKPROP : GRADIENT_DESCENT; } t += std::string(N[k]) + (fmtk ? " " : "=") + v + "\n"; }
  std::istringstream f(t); ConfigurableFactory fac(f, 1, true); c.site("InitOptimalSettings"); fac.InitOptimalSettings(); if (twice == 2) fac.InitOptimalSettings(); TrainerSettings g = fac.optimal_settings(); c.trans(2);
  std::string d = t; for (auto& ch : d) if (ch == '\n') ch = '|'; auto ck = [&](const char* n, double a, double b) { CK(a == b, std::string("setting:") + n, std::string(n) + " is " + fmt(a) + " expected " + fmt(b) + ": " + d); };
  ck("l1", g.l1_weight, e.l1_weight); ck("l2", g.l2_weight, e.l2_weight); ck("lr", g.learning_rate, e.learning_rate); ck("gamma", g.gamma, e.gamma); ck("momentum", g.momentum, e.momentum); ck("exponent", g.exponent, e.exponent); ck("eta", g.eta, e.eta); ck("mu", g.mu, e.mu); ck("iterations", g.iterations, e.iterations); ck("sbatchsize", g.sbatchsize, e.sbatchsize); ck("pbatchsize", g.pbatchsize, e.pbatchsize); ck("optimization", g.optimization_method, e.optimization_method); ck("epoch_training_ratio", g.epoch_training_ratio, e.epoch_training_ratio); ck("testing_ratio", g.testing_ratio, e.testing_ratio); ck("stats", g.stats_during_training, e.stats_during_training);
  c.validated(); c.state(mask * 12 + order * 6 + fmtk * 3 + twice); if (mask) c.nontrivial(); if (c.want_sample()) c.sample(d.substr(0, 200)); }
// size: many layers, kernels, classes, stacked outputs, lines without meaning; large kernels
static void large(mc::Ctx& c) { unsigned kind = c.choose(9, "kind"), m = c.pick(sizes(c), "size"); bool training = !c.flip("testing"); c.shard(); std::vector<Cmd> p; unsigned classes = 2; std::string fill; char b[120]; auto conv = [&](unsigned kx, unsigned ky, unsigned k, const char* extra = "") { snprintf(b, 120, "?convolutional size=%ux%u kernels=%u%s", kx, ky, k, extra); p.push_back(cmd(b, CONV, {kx, ky}, {1, 1}, {0, 0}, (int)k)); }; auto name = [&](const char* t) { for (auto& k : cmds()) if (k.text == t) p.push_back(k); };
  if (kind == 0) for (unsigned i = 0; i < m; i++) if (i % 2) name("?tanh"); else conv(1, 1, 2); if (kind == 1) { conv(2, 1, m); name("?tanh"); } if (kind == 2) { conv(m, 1, 2); conv(2, 1, 1); } if (kind == 3) { conv(1, m, 2); name("?relu"); }
  if (kind == 4) { conv(1, 1, 2); name("?relu"); for (unsigned i = 0; i < m; i++) fill += i % 3 == 0 ? std::string("# ") + std::string(i, 'x') + "\n" : i % 3 == 1 ? "\n" : "unknown" + std::to_string(i) + "=?convolutional\n"; } if (kind == 5) { classes = m; conv(1, 1, 2); }
  if (kind == 6) { for (unsigned i = 0; i < m; i++) { if (i % 16 == 0) conv(1, 1, 2); name("pusha"); } name(m % 2 ? "?concat stack=a" : "?sum stack=a"); } if (kind == 7) { snprintf(b, 120, "?fullyconnected neurons=%u", m); p.push_back(cmd(b, CONV, {1, 1}, {1, 1}, {0, 0}, (int)m)); name("?sigm"); } if (kind == 8) { conv(1, 1, 2); for (unsigned i = 0; i < m; i++) name(i % 2 ? "pushb" : "pusha"); for (unsigned i = 0; i < m; i++) name(i % 2 ? "popb" : "popa"); name("?relu"); }
  p = tail(0, p); std::string t = fill; for (size_t i = 0; i < p.size(); i++) t += p[i].text + "\n" + (i == 0 ? fill : ""); run(c, p, t, false, training, nullptr, classes, true, 3, 2); }
MC_MAIN({"large", large}, {"programs", programs}, {"stacks", stacks}, {"fillers", fillers}, {"outputs", outputs}, {"manual", manual}, {"scaled", scaled}, {"sizes", sized}, {"settings", settings})
