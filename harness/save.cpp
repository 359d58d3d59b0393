// C19: saving and loading network parameters. All histories of initialise/save/load/partial load/perturb on two networks of every small architecture.
#include "util.h"
typedef std::vector<std::vector<float>> Params; // per parameter tensor, in node order
struct Net { NetGraph g; std::vector<NetGraphNode*> nodes; std::vector<std::vector<int>> pn; Tensor dt{1, 3, 2, 2}, lt{1, 3, 2, 1}, ht{1, 3, 2, 2}, wt{1, 3, 2, 1}; bool grad;
  // arch: 0 conv to 2 maps, 1 conv to 3 maps, 2 relu, 3 hmax, 4 fork (two convs summed), 5 pass (output used twice: sum(x, x))
  Net(const std::vector<unsigned>& arch, int seed, bool reverse) { sys_init(); for (size_t i = 0; i < dt.elements(); i++) dt[i] = (float)smallint(i, 5, 3); lt.Clear(); ht.Clear(); wt.Clear(1);
    auto mk = [&](Layer* l, std::vector<NetGraphNode*> in) { auto* n = new NetGraphNode(l); for (auto* i : in) n->input_connections.push_back(NetGraphConnection(i)); nodes.push_back(n); return n; };
    auto* last = mk(new InputLayer(dt, lt, ht, wt), {}); last->is_input = true;
    for (unsigned a : arch) { if (a < 2) last = mk(new ConvolutionLayer(1, 1, 2 + a, 1, 1, 0, 0, 1, seed++), {last}); else if (a == 2) last = mk(new ReLULayer(), {last}); else if (a == 3) last = mk(new HMaxActivationFunction(1, 0), {last});
      else if (a == 4) { auto* x = mk(new ConvolutionLayer(1, 1, 2, 1, 1, 0, 0, 1, seed++), {last}); auto* y = mk(new ConvolutionLayer(1, 1, 2, 1, 1, 0, 0, 1, seed++), {last}); last = mk(new SumLayer(), {x, y}); }
      else last = mk(new SumLayer(), {last, last}); }
    last->is_output = true; std::vector<NetGraphNode*> o(nodes); if (reverse) std::reverse(o.begin() + 1, o.end()); for (auto* n : o) g.AddNode(n); g.Initialize(); }
  ~Net() { std::set<NetGraphNode*> d(g.GetNodes().begin(), g.GetNodes().end()); for (auto* n : d) { for (auto& b : n->output_buffers) if (!dynamic_cast<InputLayer*>(n->layer)) delete b.combined_tensor; delete n->layer; delete n; } }
  // parameters of the node at each position of the network's node list
  std::vector<Params> read() { std::vector<Params> r; for (auto* n : g.GetNodes()) { r.emplace_back(); for (auto* p : n->layer->parameters()) r.back().push_back(std::vector<float>(p->data.data_ptr_const(), p->data.data_ptr_const() + p->data.elements())); } return r; }
  std::vector<float> out() { g.FeedForward(); auto* t = g.GetDefaultOutputNode()->output_buffers[0].combined_tensor; return std::vector<float>(t->data.data_ptr_const(), t->data.data_ptr_const() + t->data.elements()); } };
static bool eq(const std::vector<float>& a, const std::vector<float>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 4)); }
static bool eq(const std::vector<Params>& a, const std::vector<Params>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); j++) if (!eq(a[i][j], b[i][j])) return false; } return true; }
static std::string fileof(const std::vector<Params>& m, Net& n) { std::string f; for (size_t k = 0; k < m.size(); k++) for (size_t p = 0; p < m[k].size(); p++) { auto& t = n.g.GetNodes()[k]->layer->parameters()[p]->data; uint64_t h[4] = {t.samples(), t.width(), t.height(), t.maps()}; f.append((char*)h, 32); f.append((const char*)m[k][p].data(), m[k][p].size() * 4); } return f; }
struct Rec { std::vector<float> v; };
// what loading a file does to the model: tensors in file order to parameters in node order
static void mload(std::vector<Params>& m, const std::vector<Rec>& f, unsigned last) { if (last == 0 || last >= m.size()) last = (unsigned)m.size() - 1; size_t r = 0; for (unsigned k = 0; k <= last; k++) for (auto& p : m[k]) if (r < f.size()) { if (f[r].v.size() == p.size()) p = f[r].v; r++; } }
static std::vector<Rec> recs(const std::vector<Params>& m) { std::vector<Rec> r; for (auto& k : m) for (auto& p : k) r.push_back(Rec{p}); return r; }
static void histories(mc::Ctx& c) {
  unsigned n = 1 + c.choose(c.thorough() ? 4 : 3, "layers"); std::vector<unsigned> arch; unsigned convs = 0; for (unsigned i = 0; i < n; i++) { arch.push_back(c.choose(6, "layer")); convs += arch.back() < 2 || arch.back() == 4; } bool rev = c.flip("reverse");
  unsigned len = c.thorough() && n < 4 ? 4 : 3; std::vector<unsigned> ops; for (unsigned i = 0; i < len; i++) ops.push_back(c.choose(9, "op")); c.shard(); if (!convs && n > 1) c.skip();
  static const char* on[] = {"initA", "initB", "save A>0", "save B>1", "load 0>A", "load 1>A", "load 0>B", "load 0>B partially", "change A"}; std::string d = "layers"; for (unsigned a : arch) d += " " + std::to_string(a); d += rev ? " reversed:" : ":"; for (unsigned o : ops) d += std::string(" ") + on[o] + ";"; if (c.want_sample()) c.sample(d);
  Net A(arch, 1, rev), B(arch, 50, rev); A.g.InitializeWeights(); auto ma = A.read(), mb = B.read(); std::string file[2]; std::vector<Rec> fr[2]; c.site("history"); int salt = 0;
  size_t N = ma.size(); auto verify = [&](const char* what) { CK(eq(A.read(), ma), std::string("params:") + what, "first network has other parameters than expected after " + std::string(what) + " in " + d); CK(eq(B.read(), mb), std::string("params:") + what, "second network has other parameters than expected after " + std::string(what) + " in " + d); c.trans(); uint64_t h = 1; for (auto& k : ma) for (auto& p : k) h = mc::hash_bytes(p.data(), p.size() * 4, h); for (auto& k : mb) for (auto& p : k) h = mc::hash_bytes(p.data(), p.size() * 4, h); c.state(h); };
  for (unsigned o : ops) {
    if (o < 2) { Net& x = o ? B : A; auto& m = o ? mb : ma; auto old = m; x.g.InitializeWeights(); m = x.read();
      for (size_t k = 0; k < N; k++) { Layer* l = x.g.GetNodes()[k]->layer; if (dynamic_cast<ConvolutionLayer*>(l)) { CK(!eq(m[k][0], old[k][0]), "init:same", "initialising left a layer's weights unchanged in " + d); for (float v : m[k][0]) CK(std::fabs(v) <= 2.5 && std::isfinite(v), "init:range", "weight " + fmt(v) + " in " + d); for (float v : m[k][1]) CK(v == 0, "init:bias", "bias " + fmt(v) + " after initialising in " + d); } if (dynamic_cast<HMaxActivationFunction*>(l)) for (float v : m[k][0]) CK(v == 1, "init:hmax", "activation parameter " + fmt(v) + " after initialising in " + d); } }
    else if (o < 4) { Net& x = o == 3 ? B : A; std::ostringstream s; x.g.SerializeParameters(s); auto& m = o == 3 ? mb : ma; file[o - 2] = s.str(); fr[o - 2] = recs(m); CK(file[o - 2] == fileof(m, x), "file", "the file does not hold the network's parameters in " + d); }
    else if (o < 7) { int f = o == 5; std::istringstream s(file[f]); (o == 6 ? B : A).g.DeserializeParameters(s, 0); mload(o == 6 ? mb : ma, fr[f], 0); }
    else if (o == 7) { unsigned last = (unsigned)((arch[0] + n + ops[0]) % N); std::istringstream s(file[0]); B.g.DeserializeParameters(s, last); mload(mb, fr[0], last); }
    else { for (size_t k = 0; k < N; k++) for (size_t p = 0; p < ma[k].size(); p++) for (size_t i = 0; i < ma[k][p].size(); i++) { ma[k][p][i] = (float)(0.37 * smallint(i + 10 * k, (unsigned)(++salt % 7), 5)) + 0.01f; A.g.GetNodes()[k]->layer->parameters()[p]->data[i] = ma[k][p][i]; } }
    verify(on[o]); }
  auto oa = A.out(), ob = B.out(); verify("forward"); if (eq(ma, mb)) { CK(eq(oa, ob), "output", "networks with equal parameters compute different outputs after " + d); c.nontrivial(); } c.validated();
}
// every partial load of every architecture, and files cut at every byte or made by another network
static void partial(mc::Ctx& c) {
  unsigned n = 1 + c.choose(3, "layers"), n2 = 0; std::vector<unsigned> arch, other; for (unsigned i = 0; i < n; i++) arch.push_back(c.choose(6, "layer")); bool rev = c.flip("reverse"); unsigned kind = c.choose(2, "kind");
  if (kind) { n2 = 1 + c.choose(2, "layers2"); for (unsigned i = 0; i < n2; i++) other.push_back(c.choose(5, "layer2")); } else other = arch; c.shard(); if (c.want_sample()) c.sample("partial" + kv("n", n) + kv("first", arch[0]) + kv("other", kind));
  Net A(other, 1, rev); A.g.InitializeWeights(); auto fm = A.read(); std::ostringstream s; A.g.SerializeParameters(s); std::string file = s.str(); auto fr = recs(fm); Net B(arch, 60, rev); B.g.InitializeWeights(); auto m0 = B.read(); unsigned N = (unsigned)m0.size(); c.site("partial");
  for (unsigned last = 0; last <= N + 1; last++) { B.g.InitializeWeights(); auto m = B.read(); mload(m, fr, last); std::istringstream is(file); B.g.DeserializeParameters(is, last); CK(eq(B.read(), m), "partial", "loading up to layer " + std::to_string(last) + " of " + std::to_string(N) + " gives other parameters" + kv("n", n) + kv("other", kind)); B.out(); c.trans(); }
  size_t step = 1; for (size_t cut = 0; cut < file.size(); cut += step) { step = c.thorough() || (cut % 4 == 0 && cut % 32 != 0) ? 1 : 3; B.g.InitializeWeights(); auto m = B.read(); std::vector<Rec> part; size_t p = 0; for (auto& r : fr) { p += 32 + r.v.size() * 4; if (p <= cut) part.push_back(r); } mload(m, part, 0); std::istringstream is(file.substr(0, cut)); B.g.DeserializeParameters(is, 0); CK(eq(B.read(), m), "cut", "a file cut at byte " + std::to_string(cut) + " of " + std::to_string(file.size()) + " gives other parameters" + kv("n", n) + kv("other", kind)); if (cut % 16 < 2) B.out(); c.trans(); }
  c.nontrivial(); c.validated();
}
// networks of many layers: save, load into another network, load up to a layer, files cut at tensor boundaries
static void large(mc::Ctx& c) {
  unsigned n = c.pick(sizes(c), "layers"), pat = c.choose(3, "pattern"); bool rev = c.flip("reverse"); c.shard(); static const unsigned P[3][4] = {{0, 2, 1, 3}, {0, 0, 0, 0}, {1, 4, 2, 5}}; std::vector<unsigned> arch; for (unsigned i = 0; i < n; i++) arch.push_back(P[pat][i % 4]); std::string d = std::to_string(n) + " layers, pattern " + std::to_string(pat) + (rev ? " reversed" : ""); if (c.want_sample()) c.sample(d); c.site("large");
  Net A(arch, 1, rev), B(arch, 5000, rev); auto put = [](Net& x, int salt) { int k = 0; for (auto* q : x.g.GetNodes()) for (auto* p : q->layer->parameters()) { k++; for (size_t i = 0; i < p->data.elements(); i++) p->data[i] = (float)(salt * 4000 + k * 10 + (int)i) / 65536; } };
  put(A, 1); auto ma = A.read(); std::ostringstream s; A.g.SerializeParameters(s); std::string file = s.str(); CK(file == fileof(ma, A), "file", "the file does not hold the network's parameters: " + d); auto fr = recs(ma); unsigned N = (unsigned)ma.size(); c.trans();
  std::set<unsigned> lasts{0, 1, 2, N / 2, N - 2, N - 1, N, N + 1}; for (unsigned k : {15u, 16u, 31u, 32u, 63u, 64u, 127u, 128u, 254u, 255u, 256u, 257u}) if (k <= N) lasts.insert(k);
  for (unsigned last : lasts) { put(B, 2); auto m = B.read(); mload(m, fr, last); std::istringstream is(file); B.g.DeserializeParameters(is, last); CK(eq(B.read(), m), "partial", "loading up to layer " + std::to_string(last) + " of " + std::to_string(N) + " gives other parameters: " + d); c.trans(); }
  CK(eq(A.read(), ma), "params:load", "loading another network changed the first: " + d); size_t p = 0, i = 0; for (auto& r : fr) { if (i < 3 || i + 3 > fr.size() || i % 32 < 2) for (size_t cut : {p + 16, p + 32, p + 34}) { put(B, 2); auto m = B.read(); mload(m, std::vector<Rec>(fr.begin(), fr.begin() + (long)i), 0); std::istringstream is(file.substr(0, cut)); B.g.DeserializeParameters(is, 0); CK(eq(B.read(), m), "cut", "a file cut at byte " + std::to_string(cut) + " of " + std::to_string(file.size()) + " gives other parameters: " + d); c.trans(); } p += 32 + r.v.size() * 4; i++; }
  { std::istringstream is(file); B.g.DeserializeParameters(is, 0); } CK(eq(B.read(), ma), "params:load 0>B", d); auto oa = A.out(), ob = B.out(); CK(eq(oa, ob), "output", "networks with equal parameters compute different outputs: " + d); c.state(mc::hash_bytes(file.data(), file.size())); c.nontrivial(); c.validated();
}
// parameters of many elements: saved, and loaded whole and from files that end inside the last one
static void heavy(mc::Ctx& c) {
  static const std::vector<std::vector<unsigned>> K{{300, 400}, {256, 256, 1}, {1, 65535, 1}, {65537}, {363, 363, 2}, {1030, 1030}, {1448, 1449, 3}}; auto k = c.pick(K, "maps"); unsigned from = c.choose(2, "reverse"); if (!c.thorough() && k[0] > 1400) c.skip(); c.shard(); sys_init(); std::string d = "maps"; for (unsigned q : k) d += " " + std::to_string(q); c.site("heavy");
  struct Big { NetGraph g; Tensor dt{1, 1, 1, 2}, lt{1, 1, 1, 1}, ht{1, 1, 1, 2}, wt{1, 1, 1, 1}; std::vector<NetGraphNode*> all; std::vector<std::unique_ptr<Layer>> own; Big(const std::vector<unsigned>& k, bool rev) { auto* l = new NetGraphNode(new InputLayer(dt, lt, ht, wt)); l->is_input = true; all.push_back(l); for (unsigned q : k) { auto* n = new NetGraphNode(new ConvolutionLayer(1, 1, q, 1, 1, 0, 0, 1, 3), NetGraphConnection(l)); all.push_back(n); l = n; } l->is_output = true; auto o = all; if (rev) std::reverse(o.begin() + 1, o.end()); for (auto* n : o) g.AddNode(n); g.Initialize(); }
    ~Big() { std::set<NetGraphNode*> x(g.GetNodes().begin(), g.GetNodes().end()); for (auto* n : x) { for (auto& b : n->output_buffers) if (!dynamic_cast<InputLayer*>(n->layer)) delete b.combined_tensor; delete n->layer; delete n; } }
    std::vector<Tensor*> par() { std::vector<Tensor*> v; for (auto* n : g.GetNodes()) for (auto* p : n->layer->parameters()) v.push_back(&p->data); return v; } };
  Big A(k, from), B(k, from); auto pa = A.par(), pb = B.par(); CK(pa.size() == 2 * k.size() && pb.size() == pa.size(), "params", d); auto value = [](size_t t, size_t i, int salt) { return (float)(int)((mc::mix(i, t) >> 20) % 60000 + 1) * salt; }; auto put = [&](std::vector<Tensor*>& v, int salt) { for (size_t t = 0; t < v.size(); t++) for (size_t i = 0; i < v[t]->elements(); i++) v[t]->data_ptr()[i] = value(t, i, salt); };
  put(pa, 1); put(pb, -2); std::ostringstream o; A.g.SerializeParameters(o); std::string file = o.str(); size_t at = 0; for (size_t t = 0; t < pa.size(); t++) { uint64_t h[4] = {pa[t]->samples(), pa[t]->width(), pa[t]->height(), pa[t]->maps()}; size_t n = pa[t]->elements(); CK(at + 32 + n * 4 <= file.size() && !memcmp(&file[at], h, 32), "file", d + ": header of parameter " + std::to_string(t)); at += 32; const float* q = (const float*)&file[at]; for (size_t i = 0; i < n; i++) CK(q[i] == value(t, i, 1), "file", d + ": element " + std::to_string(i) + " of parameter " + std::to_string(t) + " of " + std::to_string(n) + " is saved as " + fmt(q[i])); at += n * 4; } CK(at == file.size(), "file", d + ": " + std::to_string(file.size()) + " bytes"); c.trans();
  size_t end = 0; std::set<size_t> lens{file.size(), file.size() - 1}; for (size_t t = 0; t < pa.size(); t++) { size_t n = 32 + 4 * pa[t]->elements(); for (size_t cut : {n / 2, n - 4, n}) lens.insert(end + cut); end += n; }
  for (size_t len : lens) { put(pb, -2); std::istringstream i(file.substr(0, len)); B.g.DeserializeParameters(i, 0); size_t e = 0; c.trans(); for (size_t t = 0; t < pb.size(); t++) { e += 32 + 4 * pb[t]->elements(); int salt = e <= len ? 1 : -2; for (size_t x = 0; x < pb[t]->elements(); x++) CK(pb[t]->data_ptr_const()[x] == value(t, x, salt), len < file.size() ? "cut" : "params:load", d + ": after loading " + std::to_string(len) + " of " + std::to_string(file.size()) + " bytes, element " + std::to_string(x) + " of parameter " + std::to_string(t) + " is " + fmt(pb[t]->data_ptr_const()[x]) + ", expected " + fmt(value(t, x, salt))); } }
  c.state(mc::mix(file.size(), from)); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(d + ", " + std::to_string(file.size()) + " bytes");
}
MC_MAIN({"heavy", heavy}, {"large", large}, {"histories", histories}, {"partial", partial})
