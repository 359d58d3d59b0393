// C36: printed graphs, tensor statistics, dataset statistics
#include "progrig.h"
struct Capture { std::ostringstream o; std::streambuf* b; int l; Capture() { b = std::cout.rdbuf(o.rdbuf()); l = System::log_level; System::log_level = 2; } ~Capture() { std::cout.rdbuf(b); System::log_level = l; } };
// ---- reader of the printed graph ----
struct GNode { std::string label; bool in = false, out = false; std::vector<std::string> bufs; };
struct GEdge { std::string src, dst; unsigned buf; bool dotted; bool operator<(const GEdge& o) const { return std::tie(src, dst, buf, dotted) < std::tie(o.src, o.dst, o.buf, o.dotted); } };
struct GFile { std::map<std::string, GNode> nodes; std::multiset<GEdge> edges; std::string err; };
static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static GFile read(const std::string& text) {
  GFile g; std::vector<std::string> st; std::string cur; bool q = false; for (char ch : text) { if (ch == '"') q = !q; if (ch == ';' && !q) { st.push_back(trim(cur)); cur.clear(); } else cur += ch; } if (q || trim(cur) != "") g.err = "unfinished statement: " + cur;
  for (auto& s : st) { if (s.empty()) continue; size_t b = s.find('['); if (b == std::string::npos || s[s.size() - 1] != ']') { g.err = "statement without attributes: " + s; continue; } std::string head = trim(s.substr(0, b)), at = s.substr(b + 1, s.size() - b - 2); if (head == "graph") continue;
    std::map<std::string, std::string> a; std::multiset<std::string> all; size_t p = 0; while (p < at.size()) { size_t e = at.find('=', p); if (e == std::string::npos) { g.err = "damaged attributes: " + s; break; } std::string k = trim(at.substr(p, e - p)), v; if (at[e + 1] == '"') { size_t f = at.find('"', e + 2); if (f == std::string::npos) { g.err = "damaged text: " + s; break; } v = at.substr(e + 2, f - e - 2); p = at.find(',', f); } else { p = at.find(',', e); v = trim(at.substr(e + 1, p == std::string::npos ? p : p - e - 1)); } a[k] = v; all.insert(k + "=" + v); if (p == std::string::npos) break; p++; }
    size_t ar = head.find("->"); if (ar != std::string::npos) { std::string l = trim(head.substr(0, ar)), r = trim(head.substr(ar + 2)); size_t c = l.find(":o"), c2 = r.find(":i"); if (c == std::string::npos || c2 == std::string::npos || c2 + 2 != r.size()) { g.err = "damaged edge: " + s; continue; } g.edges.insert(GEdge{l.substr(0, c), r.substr(0, c2), (unsigned)atoi(l.c_str() + c + 2), a["style"] == "dotted"}); }
    else { if (g.nodes.count(head)) { g.err = "node " + head + " twice"; continue; } GNode& n = g.nodes[head]; n.label = a["label"]; n.in = all.count("color=red"); n.out = all.count("color=blue"); for (size_t k = 0;; k++) { std::string t = "<o" + std::to_string(k) + ">"; size_t f = n.label.find(t); if (f == std::string::npos) break; f += t.size(); n.bufs.push_back(trim(n.label.substr(f, n.label.find_first_of("|}", f) - f))); } } }
  return g; }
// compares a printed graph with the network
static void compare(mc::Ctx& c, const std::string& text, NetGraph& net, const std::string& d) {
  GFile g = read(text); auto bad = [&](const std::string& k, const std::string& m) { c.fail("graph:" + k, m + ":" + d + "\n" + text.substr(0, 3000)); }; if (g.err.size()) bad("form", g.err); std::set<std::string> names; std::multiset<GEdge> want;
  for (auto* n : net.GetNodes()) { const std::string& u = n->unique_name; if (!names.insert(u).second) bad("names", "two nodes are called " + u); if (!g.nodes.count(u)) bad("missing", "node " + u + " is not printed"); GNode& q = g.nodes[u]; if (q.in != n->is_input || q.out != n->is_output) bad("kind", "node " + u + " is not marked as what it is"); if (q.label.find(u) == std::string::npos || q.label.find(n->layer->GetLayerDescription()) == std::string::npos) bad("description", "node " + u + " is labelled " + q.label);
    if (q.bufs.size() != n->output_buffers.size()) bad("buffers", "node " + u + " shows " + std::to_string(q.bufs.size()) + " outputs"); for (size_t b = 0; b < q.bufs.size(); b++) { Tensor& t = n->output_buffers[b].combined_tensor->data; std::ostringstream s; s << "(" << t.samples() << "s@" << t.width() << "x" << t.height() << "x" << t.maps() << "m)"; if (q.bufs[b] != trim(n->output_buffers[b].description + " " + s.str())) bad("shape", "output " + std::to_string(b) + " of node " + u + " is shown as " + q.bufs[b] + ", it is " + n->output_buffers[b].description + " " + s.str()); }
    for (auto& e : n->input_connections) want.insert(GEdge{e.node->unique_name, u, e.buffer, !e.backprop}); }
  if (g.nodes.size() != net.GetNodes().size()) bad("nodes", "nodes are printed that do not exist"); std::vector<GEdge> diff; std::set_symmetric_difference(want.begin(), want.end(), g.edges.begin(), g.edges.end(), std::back_inserter(diff)); if (diff.size()) bad("edges", "edge " + diff[0].src + ":o" + std::to_string(diff[0].buf) + " -> " + diff[0].dst + (diff[0].dotted ? " (dotted)" : "") + " is printed " + std::to_string(g.edges.count(diff[0])) + " times, exists " + std::to_string(want.count(diff[0])) + " times"); c.trans(want.size() + names.size()); }
// ---- small graphs of layers with any number of outputs ----
struct Probe : Layer { int id; unsigned nout; Probe(int id, unsigned nout) : Layer(""), id(id), nout(nout) {} bool CreateOutputs(const CTs&, CTs& o) override { for (unsigned k = 0; k < nout; k++) o.push_back(new CombinedTensor(1 + k, 2 + id, 3, 1 + k)); return true; } bool Connect(const CTs&, const CTs&, const NetStatus*) override { return true; } void FeedForward() override {} void BackPropagate() override {}
  std::string GetLayerDescription() override { return "Probe (" + std::to_string(id) + "x" + std::to_string(nout) + ")"; } void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) override { for (unsigned k = 0; k < nout; k++) { NetGraphBuffer f; f.description = k == 1 ? "" : "Output " + std::to_string(k); b.push_back(f); } } };
static void graphs(mc::Ctx& c) {
  sys_init(); unsigned n = c.range(1, c.thorough() ? 4 : 3, "layers"); NetGraph g; std::vector<NetGraphNode*> v; auto* in = new NetGraphNode(new Probe(0, 2)); in->is_input = true; v.push_back(in); std::string d; std::vector<std::pair<int, unsigned>> src{{0, 0}, {0, 1}}; std::vector<bool> used(n + 1); struct E { int n; unsigned b; bool bp; int to; }; std::vector<E> es;
  for (unsigned k = 1; k <= n; k++) { unsigned no = k == n ? c.choose(2, "outputs") : 1 + c.choose(2, "outputs"), ni = 1 + c.choose(2, "inputs"); auto* q = new NetGraphNode(new Probe(k, no)); d += " n" + std::to_string(k) + "/" + std::to_string(no) + "<-"; for (unsigned j = 0; j < ni; j++) { auto s = src[c.choose((unsigned)src.size(), "source")]; bool bp = c.choose(s.first ? 2 : 1, "no gradient") == 0; q->input_connections.push_back(NetGraphConnection(v[s.first], s.second, bp)); used[s.first] = true; d += "n" + std::to_string(s.first) + "." + std::to_string(s.second) + (bp ? "," : "!,"); es.push_back(E{s.first, s.second, bp, (int)k}); } v.push_back(q); for (unsigned b = 0; b < no; b++) src.push_back({(int)k, b}); if (k == 2) c.shard(); }
  unsigned named, rev; if (n < 3 || c.thorough()) { named = c.choose(3, "names"); rev = c.flip("order"); } else { named = es.size() % 3; rev = src.size() % 2; } if (!c.sharded) c.shard(); for (unsigned k = 1; k <= n; k++) v[k]->is_output = !used[k]; if (named) v[named == 1 ? 0 : n]->unique_name = "my_name"; d += named ? " named" : ""; for (unsigned k = 0; k <= n; k++) g.AddNode(v[rev ? n - k : k]); g.Initialize(); c.site(d); std::ostringstream o; g.PrintGraph(o); compare(c, o.str(), g, d);
  std::ostringstream o2; g.PrintGraph(o2); CK(o.str() == o2.str(), "graph:again", "printing twice gives two texts:" + d); GFile f = read(o.str()); for (auto* q : v) CK(f.nodes.count(q->unique_name), "graph:missing", "a layer of the network is not printed:" + d);
  // every connection is there, directly or through the layers that add up gradients
  for (auto& e : es) { bool ok = false; for (auto& x : f.edges) if (x.dst == v[e.to]->unique_name) { if (x.src == v[e.n]->unique_name && x.buf == e.b) ok = true; for (auto& y : f.edges) if (y.dst == x.src && y.src == v[e.n]->unique_name && y.buf == e.b) ok = true; } CK(ok, "graph:path", "no path from n" + std::to_string(e.n) + "." + std::to_string(e.b) + " to n" + std::to_string(e.to) + ":" + d + "\n" + o.str()); }
  if (named) CK(f.nodes.count("my_name"), "graph:name", "the name given to a node is not used:" + d); c.state(mc::hash_bytes(o.str().data(), o.str().size())); c.validated(); if (n > 1) c.nontrivial(); if (c.want_sample()) c.sample(d);
  for (auto* q : g.GetNodes()) { for (auto& b : q->output_buffers) delete b.combined_tensor; delete q->layer; delete q; } }
// networks of real layers
static void networks(mc::Ctx& c) { sys_init(); static const std::vector<std::string> L = {"?convolutional size=3x3 kernels=2\n", "?maxpooling size=2x2\n", "?relu\n", "?tanh\n", "?spatialprior\n", "?amaxpooling size=2x2 stride=1x1\n", "?fullyconnected neurons=3\n", "?lrn method=across size=3 alpha=0.1 beta=0.5\n", "?sigm\n"}; unsigned n = c.range(0, c.thorough() ? 3 : 2, "lines"); std::string net; for (unsigned i = 0; i < n; i++) net += c.pick(L, "line"); bool patch = c.flip("patch"), test = c.flip("testing"); unsigned classes = c.choose(2, "classes") + 1; c.shard(); if (patch) net = "method=patch\n" + net; net += "?fullyconnected neurons=(o)\n?output\n";
  std::istringstream is(net); ConfigurableFactory f(is, 1, !test); unsigned w = patch && !test ? f.patchsizex() : 12, h = patch && !test ? f.patchsizey() : 10; SynthData ds(patch && !test ? PATCH : FCN, w, h, 2, 1, 3, classes); NetGraph g; auto* in = new NetGraphNode(new DatasetInputLayer(ds, 2, 1.0, 5)); in->is_input = true; g.AddNode(in); try { f.AddLayers(g, NetGraphConnection(in), classes, true); add_stats(g, in, ds); g.Initialize(); } catch (std::runtime_error&) { c.skip(); } c.site(net); std::ostringstream o; g.PrintGraph(o); compare(c, o.str(), g, net); c.state(mc::hash_bytes(o.str().data(), o.str().size())); c.validated(); if (n) c.nontrivial(); if (c.want_sample()) c.sample(net); free_net(g); }
// ---- statistics of tensors ----
static std::vector<double> numbers(const std::string& t) { std::vector<double> r; std::istringstream i(t); std::string l; static const char* K[] = {"Minimum", "Maximum", "Average", "L2 Norm", "Variance"}; size_t k = 0; while (std::getline(i, l)) { size_t p = l.find(K[k % 5]); if (p == std::string::npos) continue; p = l.find(':', p); if (p == std::string::npos) continue; r.push_back(atof(l.c_str() + p + 1)); k++; } return r; }
static std::vector<double> define(const float* v, size_t n) { double mn = v[0], mx = v[0], s = 0, q = 0; for (size_t i = 0; i < n; i++) { mn = std::min(mn, (double)v[i]); mx = std::max(mx, (double)v[i]); s += v[i]; q += (double)v[i] * v[i]; } double a = s / n, var = 0; for (size_t i = 0; i < n; i++) var += (v[i] - a) * (v[i] - a); return {mn, mx, a, std::sqrt(q), var / n}; }
static void match(mc::Ctx& c, const std::vector<double>& got, size_t at, const float* v, size_t n, const std::string& d) { auto w = define(v, n); double big = std::max(std::fabs(w[0]), std::fabs(w[1])); static const char* K[] = {"minimum", "maximum", "average", "norm", "variance"}; CK(got.size() >= at + 5, "stats:missing", "statistics are missing:" + d); for (int k = 0; k < 5; k++) { double g = got[at + k], tol = k < 2 ? 6e-6 * std::fabs(w[k]) : 1e-5 * std::fabs(w[k]) + 1e-5 * (k == 4 ? big * big : k == 3 ? 0 : big); CK(std::fabs(g - w[k]) <= tol, std::string("stats:") + K[k], std::string(K[k]) + " is reported as " + fmt(g) + ", it is " + fmt(w[k]) + ":" + d); } }
static void tensors(mc::Ctx& c) { sys_init(); static const float A[] = {0, 1, -1, -2.5f, 0.125f, 3e5f, -4e-4f, 7}; unsigned n = c.range(1, c.thorough() ? 6 : 5, "elements"); std::vector<float> v; for (unsigned i = 0; i < n; i++) { v.push_back(A[c.choose(8, "value")]); if (i == 1) c.shard(); } if (!c.sharded) c.shard(); Tensor t(n % 2 ? 1 : 2, n % 2 ? n : n / 2, 1, 1); for (unsigned i = 0; i < n; i++) t[i] = v[i]; std::string d = show(v); c.site(d), c.trans(); Capture cap; t.PrintStats(); auto got = numbers(cap.o.str()); CK(got.size() == 5, "stats:count", std::to_string(got.size()) + " statistics of a tensor:" + d); match(c, got, 0, v.data(), n, d); for (unsigned i = 0; i < n; i++) CK(same_bits(t[i], v[i]), "stats:change", "reporting statistics changes the tensor:" + d); c.state(mc::hash_bytes(v.data(), n * 4)); c.validated(); if (n > 1) c.nontrivial(); if (c.want_sample()) c.sample(d); }
static void large(mc::Ctx& c) { sys_init(); unsigned s, w, h, m; if (c.flip("larger")) { s = 2; w = 3; h = 2; m = 2; grow(c, {&s, &w, &h, &m}, true, {&w, &h}); } else { s = c.range(1, 3, "samples"); w = c.range(1, 5, "w"); h = c.range(1, 5, "h"); m = c.range(1, 3, "maps"); } unsigned salt = c.choose(3, "values"); c.shard(); Tensor t(s, w, h, m); fill_int(t, salt, 40); std::string d = shape(t).str(); c.site(d), c.trans(); Capture cap; t.PrintStats(); auto got = numbers(cap.o.str()); CK(got.size() == 5, "stats:count", std::to_string(got.size()) + " statistics of a tensor:" + d); match(c, got, 0, t.data_ptr_const(), t.elements(), d); c.state(hash(t)); c.validated(); c.nontrivial(); }
// more elements than a float can count
static void many(mc::Ctx& c) { sys_init(); unsigned n = c.thorough() ? 80000000 : 20000000, k = c.choose(4, "values"); c.shard(); Tensor t(1, n / 8, 8, 1); for (size_t i = 0; i < n; i++) t[i] = k == 0 ? 1.f : k == 1 ? (i % 4 ? 0.5f : -0.25f) : k == 2 ? -3.f : i % 1000 ? 0.f : 2.f; std::string d = " " + std::to_string(n) + " elements, values " + std::to_string(k); c.site(d), c.trans(); Capture cap; t.PrintStats(); auto got = numbers(cap.o.str()); CK(got.size() == 5, "stats:count", std::to_string(got.size()) + " statistics of a tensor:" + d); match(c, got, 0, t.data_ptr_const(), t.elements(), d); c.state(hash(t)); c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(d); }
// ---- the commands of the training program ----
static int run(const std::string& cmd) { return system(("timeout 30 " + cmd + " > out.txt 2>&1").c_str()); }
static void commands(mc::Ctx& c) { const char* exe = getenv("TRAINNETWORK"); if (!exe) throw std::runtime_error("no program"); sys_init(); unsigned m = c.choose(4, "configuration"), epochs = c.range(1, 2, "epochs"); const Cfg& k = cfgs()[m]; unsigned what = c.choose(3, "command"); c.shard(); std::string ds = dataset(k.classes), d = std::string(k.hybrid ? "hybrid" : "fully convolutional") + kv("classes", k.classes) + kv("epochs", epochs); spit("d.set", ds); spit("n.net", k.net); mkdir("csv", 0777); Ref r(k, ds, true); r.t->Train(epochs, false); std::string in = "tstat enable=0\ntrain epochs=" + std::to_string(epochs) + "\n"; unlink("g.dot"); unlink("t.dot"); unlink("end");
  std::vector<NetGraphNode*> nodes = r.g.GetNodes(); if (what == 0) in += "graph file=g.dot\ngraph file=t.dot test\n"; else for (auto* n : nodes) in += (what == 1 ? "wstat node=" : "dstat node=") + n->unique_name + "\n"; in += "wstat node=nobody\nwstat\ndstat node=node\ndstat\n"; in += "save file=end\nquit\n"; spit("script", in); d += what == 0 ? " graph" : what == 1 ? " wstat" : " dstat"; c.site(d); int rc = run(std::string(exe) + " d.set n.net script"); std::string out = slurp("out.txt"); CK(rc == 0, "command:exit", "the program ends with " + std::to_string(rc) + ":" + d + "\n" + out.substr(0, 3000)); CK(slurp("end") == r.save(), "command:change", "reporting changes the parameters:" + d); c.trans(nodes.size());
  if (what == 0) { auto strip = [&](const std::string& f) { std::string t = slurp(f); CK(t.rfind("digraph G {", 0) == 0 && t[t.size() - 1] == '}', "command:file", f + " is not a graph:" + d + "\n" + t); return t.substr(11, t.size() - 12); }; compare(c, strip("g.dot"), r.g, d); if (!k.hybrid) CK(slurp("t.dot") == slurp("g.dot"), "command:testing", "the testing network is another one:" + d);
    else { std::istringstream set(ds), net(k.net); std::unique_ptr<TensorStreamDataset> q(TensorStreamDataset::CreateFromConfiguration(set, false, LOAD_TESTING_ONLY)); ConfigurableFactory f(net, 1, false); NetGraph g; auto* n = new NetGraphNode(new DatasetInputLayer(*q, 1, 1.0, 983923)); n->is_input = true; g.AddNode(n); f.AddLayers(g, NetGraphConnection(n), k.classes, true); add_stats(g, n, *q); g.Initialize(); compare(c, strip("t.dot"), g, d + " testing"); free_net(g); } }
  else { size_t b = out.find("Reporting stats on"); auto got = numbers(b == std::string::npos ? "" : out.substr(b)); size_t at = 0; for (auto* n : nodes) { std::vector<CombinedTensor*> ts; if (what == 1) ts = n->layer->parameters(); else for (auto& o : n->output_buffers) ts.push_back(o.combined_tensor); for (auto* t : ts) for (Tensor* x : {&t->data, &t->delta}) { bool def = x->elements() > 0; bool rnd = what == 2 && (n->is_input || n->layer->GetLayerDescription().find("Accumulation") != std::string::npos) && x == &t->delta; for (size_t e = 0; e < x->elements() && def; e++) if (!std::isfinite((*x)[e])) def = false; if (def && !rnd) match(c, got, at, x->data_ptr_const(), x->elements(), d + " " + n->unique_name + (x == &t->delta ? " gradient" : "")); at += 5; } } CK(got.size() == at, "command:count", std::to_string(got.size()) + " numbers, expected " + std::to_string(at) + ":" + d); }
  c.state(mc::hash_bytes(out.data(), out.size())); c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(d); }
// ---- class statistics of datasets ----
struct Row { long n; double ratio, corr; long m; bool ok; };
static void classes(mc::Ctx& c) { const char* exe = getenv("TENSORSTREAMSTATS"); if (!exe) throw std::runtime_error("no program"); sys_init(); static const unsigned S[][2] = {{1, 1}, {2, 1}, {1, 3}, {3, 2}, {2, 4}}; unsigned k = c.range(1, 3, "classes"), ni = c.range(1, 2, "images"), wt = c.choose(3, "weights"), err = c.choose(2, "error"), test = c.choose(2, "testing"); static const double W[3][3] = {{1, 1, 1}, {2, 0.5, 4}, {0.25, 3, 1}}; std::ostringstream o; std::string d = kv("classes", k) + kv("weights", wt) + (err ? " kitti" : "") + (test ? " with testing" : ""); std::vector<double> n(k); double px = 0;
  for (unsigned i = 0; i < ni; i++) { unsigned s = c.choose(c.thorough() ? 5 : 4, "size"); Tensor im(1, S[s][0], S[s][1], 3), lb(1, S[s][0], S[s][1], k); fill_int(im, i); lb.Clear(); unsigned pat = c.choose(k == 1 ? 1 : k == 2 ? 3 : 5, "labels"); d += " " + std::to_string(S[s][0]) + "x" + std::to_string(S[s][1]) + "/" + std::to_string(pat); for (unsigned y = 0; y < S[s][1]; y++) for (unsigned x = 0; x < S[s][0]; x++) { unsigned q = pat < k ? pat : pat == k ? (x + y) % k : (x + 2 * y + 1) % k; if (k == 1) lb[y * S[s][0] + x] = x % 2 ? 1 : -1; else *lb.data_ptr(x, y, q, 0) = 1; double e = err ? KITTIData::LocalizedError(x, y, S[s][0], S[s][1]) : 1; n[q] += e; px += e; } im.Serialize(o); lb.Serialize(o); if (i == 0) c.shard(); }
  spit("tr.dat", o.str()); std::string set = "classes=" + std::to_string(k) + "\n", col = "colors\n", ws = "weights\n"; for (unsigned q = 0; q < k; q++) { set += "name" + std::to_string(q) + "\n"; col += "0x0" + std::to_string(q) + "\n"; ws += fmt(W[wt][q]) + "\n"; } set += col + (wt ? ws : "") + (err ? "localized_error=kitti\n" : "") + "training=tr.dat\n"; if (test) { std::ostringstream t; Tensor im(1, 4, 4, 3), lb(1, 4, 4, k); im.Clear(); lb.Clear(1); im.Serialize(t); lb.Serialize(t); spit("te.dat", t.str()); set += "testing=te.dat\n"; } spit("d.set", set); c.site(d); c.trans(); int rc = run(std::string(exe) + " d.set"); std::string out = slurp("out.txt"); CK(rc == 0, "classes:exit", "the program ends with " + std::to_string(rc) + ":" + d + "\n" + out.substr(0, 3000));
  std::vector<std::vector<Row>> tab(2, std::vector<Row>(k)); int sec = -1; std::vector<double> cnt, exp; std::istringstream is(out); std::string l; while (std::getline(is, l)) { if (l.find("Stats when") != std::string::npos) sec++; size_t p; if ((p = l.find("Classes counted:")) != std::string::npos) cnt.push_back(atof(l.c_str() + p + 16)); if ((p = l.find("Expected ratio:")) != std::string::npos) exp.push_back(atof(l.c_str() + p + 15)); if ((p = l.find(" | ")) != std::string::npos && sec >= 0 && sec < 2) for (unsigned q = 0; q < k; q++) if (l.substr(0, p).find("name" + std::to_string(q)) != std::string::npos) { Row& r = tab[sec][q]; r.ok = sscanf(l.c_str() + p + 3, "%ld%lf%%%lf%ld", &r.n, &r.ratio, &r.corr, &r.m) == 4; } }
  CK(sec == 1 && cnt.size() == 2 && exp.size() == 2, "classes:form", "the statistics are incomplete:" + d + "\n" + out); for (int s = 0; s < 2; s++) { std::vector<double> v(k); double all = 0, present = 0; for (unsigned q = 0; q < k; q++) { v[q] = n[q] * (s ? W[wt][q] : 1); all += v[q]; present += v[q] > 0; } std::string h = std::string(s ? "weighted " : "unweighted ") + "statistics:" + d + "\n" + out.substr(out.find("Stats when") - 40); auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-5 * std::max(1e-3, std::fabs(b)); }; CK(cnt[s] == present, "classes:counted", fmt(cnt[s]) + " classes counted, " + fmt(present) + " are there, " + h); CK(near(exp[s], 100 / present), "classes:expected", "expected ratio " + fmt(exp[s]) + ", " + h);
    for (unsigned q = 0; q < k; q++) { Row& r = tab[s][q]; double co = v[q] > 0 ? 1 / present / (v[q] / all) : 0; CK(r.ok, "classes:row", "no line for class " + std::to_string(q) + ", " + h); CK(std::fabs(r.n - v[q]) < 1 + 1e-4 && (v[q] != std::floor(v[q]) || err || r.n == (long)v[q]), "classes:pixels", "class " + std::to_string(q) + " has " + std::to_string(r.n) + " pixels, counted " + fmt(v[q]) + ", " + h); CK(near(r.ratio, 100 * v[q] / all), "classes:ratio", "class " + std::to_string(q) + " has ratio " + fmt(r.ratio) + ", " + h); CK(near(r.corr, co), "classes:correction", "class " + std::to_string(q) + " has correction " + fmt(r.corr) + ", it is " + fmt(co) + ", " + h); CK(std::fabs(r.m - co * v[q]) < 1 + 1e-4, "classes:corrected", "class " + std::to_string(q) + " has " + std::to_string(r.m) + " corrected pixels, " + h); } }
  c.state(mc::hash_bytes(d.data(), d.size())); c.validated(); if (k > 1) c.nontrivial(); if (c.want_sample()) c.sample(d); }
// the benchmark program: what it counts is what its passes evaluate, and the throughput it prints is that per second
static void benchmark(mc::Ctx& c) { const char* exe = getenv("RUNBENCHMARK"); if (!exe) throw std::runtime_error("no program"); unsigned k = c.choose(c.thorough() ? 10 : 6, "parallel inputs"), z = c.choose(c.thorough() ? 3 : 2, "network"), ci = c.choose(2, "continuous integration"); c.require(!ci || (!k && !z)); c.shard();
  std::string N = z == 0 ? "?maxpooling size=16x16\n?convolutional size=1x1 kernels=2\n?fullyconnected neurons=(o)\n?output\n" : z == 1 ? "?amaxpooling size=2x2 stride=16x16\n?tanh\n?fullyconnected neurons=(o)\n?output weight=2\n" : "?convolutional size=16x16 stride=16x16 kernels=2\n?relu\n?fullyconnected neurons=(o)\n?output\n"; if (k) N = (z ? "" : "pbatchsize=" + std::to_string(k) + "\nsbatchsize=3\n") + N + (z ? "sbatchsize=2\npbatchsize=" + std::to_string(k) + "\n" : ""); spit("b.net", N); std::string d = ci ? std::string(" --ci") : kv("parallel inputs", k) + kv("network", z);
  for (int attempt = 0;; attempt++) { unlink("spy.txt"); unlink("out.txt"); c.site("runBenchmark" + d); int rc = system((std::string("BENCHSPY=spy.txt timeout 200 ") + exe + (ci ? " --ci" : " b.net") + " > out.txt 2>&1").c_str()); c.trans(); std::string o = slurp("out.txt"); CK(rc == 0, "benchmark-exit", "ends with " + std::to_string(rc) + d + "\n" + o.substr(0, 2000));
    std::vector<double> tp; for (size_t p = 0; (p = o.find("Throughput:", p)) != std::string::npos; p++) tp.push_back(strtod(o.c_str() + p + 11, nullptr)); unsigned want = k ? k : ci ? 2 : 1; std::ifstream in("spy.txt"); unsigned phase = 0, pass, back; double frames, counted, t; bool slow = false;
    while (in >> pass >> back >> frames >> counted >> t) { CK(pass > 0 && (phase == 0 ? back == 0 : back == pass), "benchmark-passes", "phase " + std::to_string(phase) + " ran " + std::to_string(pass) + " passes forward and " + std::to_string(back) + " backward" + d); CK(counted == frames, "benchmark-frames", "phase " + std::to_string(phase) + " counts " + fmt(counted) + " frames, the network evaluated " + fmt(frames) + d); CK(frames == (double)pass * want, "benchmark-batch", "phase " + std::to_string(phase) + " evaluated " + fmt(frames) + " frames in " + std::to_string(pass) + " passes" + d); CK(phase < tp.size(), "benchmark-report", "no throughput printed for phase " + std::to_string(phase) + d); double r = tp[phase] * t / frames; if (r < 0.75 || r > 1.34) slow = true; if (slow && attempt > 2) CK(false, "benchmark-throughput", "phase " + std::to_string(phase) + " reports " + fmt(tp[phase]) + " frames/s for " + fmt(frames) + " frames in " + fmt(t) + " s" + d); phase++; }
    CK(phase == 2 && tp.size() == 2, "benchmark-report", std::to_string(phase) + " phases, " + std::to_string(tp.size()) + " throughputs" + d); c.count("runs"); if (!slow) break; }
  c.validated(); if (k > 1 || ci) c.nontrivial(); c.state(k * 8 + z * 2 + ci); if (c.want_sample()) c.sample("benchmark" + d); }
MC_MAIN({"many", many}, {"graphs", graphs}, {"networks", networks}, {"tensors", tensors}, {"large", large}, {"commands", commands}, {"classes", classes}, {"benchmark", benchmark})
