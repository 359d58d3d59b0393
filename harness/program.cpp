// C34: sessions of the training program and the classification program
#include "progrig.h"
// what testing with given parameters must report
struct Eval { double loss, rate; };
static Eval evaluate(const Cfg& k, const std::string& ds, const std::string& par) { std::istringstream set(ds), net(k.net), p(par); std::unique_ptr<TensorStreamDataset> d(TensorStreamDataset::CreateFromConfiguration(set, false, LOAD_TESTING_ONLY)); ConfigurableFactory f(net, 1, false); unsigned n = d->GetTestingSamples(); Tensor D(n, d->GetWidth(), d->GetHeight(), 3), L(n, d->GetWidth(), d->GetHeight(), k.classes), H(n, d->GetWidth(), d->GetHeight(), 2), W(n, d->GetWidth(), d->GetHeight(), 1); for (unsigned i = 0; i < n; i++) d->GetTestingSample(D, L, H, W, i, i);
  NetGraph g; auto* in = new NetGraphNode(new InputLayer(D, H)); in->is_input = true; g.AddNode(in); f.AddLayers(g, NetGraphConnection(in), k.classes); g.Initialize(); g.DeserializeParameters(p); g.SetIsTesting(true); g.FeedForward(); Tensor& o = g.GetOutputNodes()[0]->output_buffers[0].combined_tensor->data; double loss = 0, hit = 0, all = 0; for (unsigned i = 0; i < n; i++) for (unsigned y = 0; y < d->GetHeight(); y++) for (unsigned x = 0; x < d->GetWidth(); x++) { double w = *W.data_ptr_const(x, y, 0, i); for (unsigned m = 0; m < k.classes; m++) { double e = (double)*o.data_ptr_const(x, y, m, i) - *L.data_ptr_const(x, y, m, i); loss += 0.5 * w * e * e; } unsigned a = o.PixelMaximum(x, y, i), b = L.PixelMaximum(x, y, i); all += w; if (a == b) hit += w; }
  Eval r{loss / ((double)n * d->GetWidth() * d->GetHeight()), 100 * hit / all}; for (auto* q : g.GetNodes()) { for (auto& b : q->output_buffers) if (q != in) delete b.combined_tensor; delete q->layer; delete q; } return r; }
enum Op { TRAIN, TRAIN2, TEST, SAVE, LOAD, LOADPART, RESET, EPOCH, QUIET, JUNK, TRAIN2N, LOUD, NOP };
static const std::vector<std::string>& junk() { static std::vector<std::string> v = {"foo", "", " train", "save", "load", "load file=", "load file=no/such/file", "save file=no/such/place/x", "set", "set experiment", "set epoch", "help", "graph file=g.dot", "graph file=g.dot test", "graph", "Train", "epochs=2", "# train", "file=a", "train epochs=0", "wstat", "wstat node=nobody", "dstat node=nobody", "tstat enable=1", "set experiment name=y", "load file=cut", "load file=other", "load file=empty", "test view=0", "tes", "q uit", "set  epoch=7"}; return v; }
static std::vector<std::vector<std::string>> csv(const std::string& f) { std::vector<std::vector<std::string>> r; std::istringstream i(slurp(f)); std::string l; while (std::getline(i, l)) { std::vector<std::string> v; std::string x; std::istringstream k(l + ","); while (std::getline(k, x, ',')) v.push_back(x); r.push_back(v); } return r; }
static void session(mc::Ctx& c, const Cfg& k, const std::vector<Op>& ops, const std::vector<std::string>& js, unsigned how, bool keep) {
  const char* exe = getenv("TRAINNETWORK"); if (!exe) throw std::runtime_error("no program"); sys_init(); std::string ds = dataset(k.classes), in = "set experiment name=x\n"; spit("d.set", ds); spit("n.net", k.net); mkdir("csv", 0777); unlink("a"); unlink("csv/x.csv"); unlink("csv/y.csv"); if (exists("no/such")) throw std::runtime_error("scratch");
  std::string d = std::string(k.hybrid ? "hybrid" : "fully convolutional") + kv("classes", k.classes) + ":"; Ref r(k, ds); std::vector<std::string> want, tests; std::vector<unsigned> lines; bool have = false; std::string other = "x"; bool torn = false; for (auto& j : js) if (j == "load file=cut" || j == "load file=other" || j == "load file=empty") torn = true;
  if (torn) { std::string s = r.save(); s[40] ^= 1; spit("cut", s.substr(0, s.size() - 6)); spit("other", s.substr(0, 32) + s); spit("empty", ""); }
  c.site("reference"); auto add = [&](const std::string& l) { in += l + "\n"; d += " " + l + ";"; }; size_t nj = 0; unsigned nl = 1;
  for (size_t i = 0; i < ops.size(); i++) { switch (ops[i]) {
      case TRAIN: add("train"); r.t->Train(1, false); nl++; break; case TRAIN2: add("train epochs=2"); r.t->Train(2, false); nl += 2; break; case TRAIN2N: add("train epochs=2 no_snapshots=1"); r.t->Train(2, false); nl++; break;
      case TEST: add("test"); tests.push_back(r.save()); lines.push_back(nl++); break; case SAVE: add("save file=a"); r.file = r.save(); have = true; break; case LOAD: add("load file=a"); if (have) r.load(r.file, 0); break; case LOADPART: add("load file=a last_layer=" + std::to_string(k.last)); if (have) r.load(r.file, k.last); break;
      case RESET: add("reset"); r.g.InitializeWeights(); r.t->Reset(); break; case EPOCH: add("set epoch=3"); r.t->SetEpoch(3); r.t->Reset(); break; case QUIET: add("tstat enable=0"); break; case LOUD: add("tstat enable=1"); break; case NOP: break;
      case JUNK: { const std::string& j = js[nj++]; add(j); if (j == "load file=cut" || j == "load file=other") r.load(slurp(j.substr(10)), 0); if (j == "test view=0") { tests.push_back(r.save()); lines.push_back(nl++); } break; } }
    want.push_back(r.save()); if (keep) in += "save file=s" + std::to_string(i) + "\n"; unlink(("s" + std::to_string(i)).c_str()); }
  unlink("end"); in += "save file=end"; if (how == 0) in += "\nq\nsave file=a\nreset\n"; else if (how == 1) in += "\nquit\n"; else if (how == 2) in += "\n"; // how==3: no line end
  spit("script", in); c.site("trainNetwork " + d); std::string cmd = std::string("timeout 30 ") + exe + " d.set n.net " + (how == 3 || how == 0 ? "script" : "< script") + " > out.txt 2>&1"; int rc = system(cmd.c_str()); c.trans(ops.size());
  CK(rc == 0, "program:exit", "the program ends with " + std::to_string(WIFEXITED(rc) ? WEXITSTATUS(rc) : -WTERMSIG(rc)) + " after " + d + "\n" + slurp("out.txt").substr(0, 3000));
  if (keep) for (size_t i = 0; i < ops.size(); i++) CK(slurp("s" + std::to_string(i)) == want[i], "program:parameters", "parameters saved after command " + std::to_string(i + 1) + " of" + d + " differ from those the commands define"); CK(slurp("end") == (want.empty() ? r.save() : want.back()), "program:parameters", "parameters saved at the end of" + d + " differ from those the commands define"); if (have) CK(slurp("a") == r.file, "program:saved", "file saved in" + d + " differs");
  auto t = csv("csv/x.csv"); bool moved = exists("csv/y.csv"); if (!moved) { CK(t.size() == nl, "program:reports", std::to_string(t.size()) + " lines of reports, expected " + std::to_string(nl) + " after" + d + "\n" + slurp("csv/x.csv"));
    for (size_t i = 0; i < tests.size(); i++) { Eval e = evaluate(k, ds, tests[i]); int cl = -1, cr = -1; for (size_t q = 0; q < t[0].size(); q++) { if (t[0][q] == "AverageAggregateLoss") cl = q; if (t[0][q] == "OverallRecognitionRate" || t[0][q] == "Accuracy") cr = q; } auto& row = t[lines[i]]; CK(cl >= 0 && cr >= 0 && row.size() == t[0].size() && row[0] == "0", "program:test", "report of a test after" + d); double l = atof(row[cl].c_str()), a = atof(row[cr].c_str()); CK(std::fabs(l - e.loss) <= 1e-4 * std::max(1e-3, e.loss), "program:test-loss", "test reports loss " + row[cl] + ", the parameters give " + fmt(e.loss) + " in" + d); if (k.classes > 1) CK(std::fabs(a - e.rate) < 1e-3, "program:test-rate", "test reports " + row[cr] + " % of pixels right, the parameters give " + fmt(e.rate) + " in" + d); } }
  for (auto& w : want) c.state(mc::hash_bytes(w.data(), w.size())); c.validated(); if (ops.size() > 1) c.nontrivial(); if (c.want_sample()) c.sample(d); }
// all sequences of commands
static void sessions(mc::Ctx& c) { unsigned m = c.choose(c.thorough() ? 4 : 3, "configuration"), n = c.range(0, c.thorough() ? 4 : 3, "length"); std::vector<Op> o; for (unsigned i = 0; i < n; i++) o.push_back((Op)c.choose(9, "command")); c.shard(); session(c, cfgs()[m], o, {}, n % 4, n < 3 || o[0] != TEST); }
// commands that say nothing, between commands that do
static void nothing(mc::Ctx& c) { unsigned m = c.choose(4, "configuration"), j = c.choose((unsigned)junk().size(), "command"), place = c.choose(3, "place"), how = c.choose(2, "end"); c.shard(); std::vector<Op> o; if (place == 0) o = {JUNK, TRAIN, TEST}; else if (place == 1) o = {TRAIN, JUNK, TRAIN, TEST}; else o = {EPOCH, TRAIN2N, JUNK, JUNK, TRAIN2, QUIET, TRAIN, LOUD, TRAIN}; session(c, cfgs()[m], o, {junk()[j], junk()[(j * 7 + 3) % junk().size()]}, how * 2 + place % 2, place != 2); }
// the classification program
// the networks of the sessions, and ones whose output covers more than the pixels it came from: pooling by 16 and 32, steps
static const std::vector<Cfg>& classify_cfgs() { static std::vector<Cfg> v = [] { std::vector<Cfg> r = cfgs(); std::string tail = "?fullyconnected neurons=(o)\n?output\n"; static std::string more[4] = {"?convolutional size=3x3 kernels=2\n?maxpooling size=4x4\n?tanh\n?maxpooling size=4x4\n" + tail, "?convolutional size=3x3 kernels=2\n?maxpooling size=8x4\n?maxpooling size=4x2\n?convolutional size=2x1 kernels=2\n?relu\n" + tail, "?convolutional size=3x2 stride=2x4 kernels=2\n?amaxpooling size=2x3 stride=1x2\n" + tail, "?amaxpooling size=3x3 stride=2x2\n?convolutional size=2x2 kernels=2\n?maxpooling size=2x2\n" + tail}; for (unsigned i = 0; i < 4; i++) r.push_back(Cfg{more[i].c_str(), i == 1 ? 1u : 2u, false, 0}); return r; }(); return v; }
static void classify(mc::Ctx& c) { const char* exe = getenv("CLASSIFYIMAGE"); if (!exe) throw std::runtime_error("no program"); unsigned m = c.choose(8, "configuration"), w = 1 + c.choose(c.thorough() ? 18 : 10, "w"), h = 1 + c.choose(c.thorough() ? 18 : 10, "h"); static const unsigned Z[18] = {1, 40, 5, 8, 16, 17, 24, 33, 9, 50, 2, 3, 32, 48, 63, 64, 65, 70}; if (m > 3) { w = Z[w - 1]; h = Z[h - 1]; } unsigned salt = c.choose(2, "parameters"); c.shard(); sys_init(); const Cfg& k = classify_cfgs()[m]; std::string ds = dataset(k.classes); spit("d.set", ds); spit("n.net", k.net); Ref r(k, ds); std::vector<CombinedTensor*> p; r.g.GetParameters(p); for (size_t i = 0; i < p.size(); i++) for (size_t e = 0; e < p[i]->data.elements(); e++) p[i]->data[e] = 0.25f * (float)smallint(e, 40 + salt + (unsigned)i * 5, 4); spit("p.par", r.save());
  Tensor img(1, w, h, 3); for (size_t e = 0; e < img.elements(); e++) img[e] = (float)(mc::mix(e, salt + 3) % 256) / 255.f; img.WriteToFile("in.png"); Tensor in("in.png"); unlink("out.png"); std::string d = kv("configuration", m) + kv("image", w) + "x" + std::to_string(h) + kv("parameters", salt); c.site("classifyImage" + d); int rc = system((std::string("timeout 30 ") + exe + " d.set n.net p.par in.png out.png > out.txt 2>&1").c_str()); c.trans(); CK(rc == 0, "program:classify-exit", "ends with " + std::to_string(rc) + d + "\n" + slurp("out.txt").substr(0, 3000)); CK(exists("out.png"), "program:classify", "no output image" + d); Tensor out("out.png"); Shape es{1, w, h, 3}; CK(shape(out) == es, "program:classify", "output image is " + shape(out).str() + d);
  // the image as a testing sample of a dataset
  std::ostringstream te; in.Serialize(te); label(w, h, k.classes, 1).Serialize(te); spit("te.dat", te.str()); std::istringstream set(ds), net(k.net), par(slurp("p.par")); std::unique_ptr<TensorStreamDataset> q(TensorStreamDataset::CreateFromConfiguration(set, false, LOAD_TESTING_ONLY)); ConfigurableFactory f(net, 1, false); Tensor D(1, q->GetWidth(), q->GetHeight(), 3), L(1, q->GetWidth(), q->GetHeight(), k.classes), H(1, q->GetWidth(), q->GetHeight(), 2), W(1, q->GetWidth(), q->GetHeight(), 1); q->GetTestingSample(D, L, H, W, 0, 0);
  NetGraph g; auto* n = new NetGraphNode(new InputLayer(D, H)); n->is_input = true; g.AddNode(n); f.AddLayers(g, NetGraphConnection(n), k.classes); g.Initialize(); g.DeserializeParameters(par); g.SetIsTesting(true); g.FeedForward(); Tensor& o = g.GetOutputNodes()[0]->output_buffers[0].combined_tensor->data; unsigned kinds = 0; std::vector<unsigned> col = q->GetClassColors();
  for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { float v0 = *o.data_ptr_const(x, y, 0, 0), v1 = k.classes > 1 ? *o.data_ptr_const(x, y, 1, 0) : -v0; bool tie = std::fabs(v0 - v1) < 1e-5; unsigned lab = k.classes > 1 ? v1 > v0 : v0 <= 0; kinds |= 1u << lab; if (tie) continue; auto px = [&](unsigned mm) { return (int)(*out.data_ptr_const(x, y, mm, 0) * 255.f + 0.5f); }; if (k.classes > 1) { unsigned e = col[lab]; int E[3] = {(int)(e >> 16 & 255), (int)(e >> 8 & 255), (int)(e & 255)}; for (int mm = 0; mm < 3; mm++) CK(px(mm) == E[mm], "program:classify-label", "pixel " + std::to_string(x) + "," + std::to_string(y) + " is " + std::to_string(px(0)) + "," + std::to_string(px(1)) + "," + std::to_string(px(2)) + ", the network says class " + std::to_string(lab) + " (" + fmt(v0) + " and " + fmt(v1) + ")" + d); } else c.note(fmt(v0) + " " + std::to_string(px(0)) + "," + std::to_string(px(1)) + "," + std::to_string(px(2))); }
  if (k.classes == 1) { Tensor e(1, o.width(), o.height(), 3); q->Colorize(o, e); for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) for (unsigned mm = 0; mm < 3; mm++) CK(std::fabs(*out.data_ptr_const(x, y, mm, 0) - std::min(1.f, std::max(0.f, *e.data_ptr_const(x, y, mm, 0)))) < 2.5 / 255, "program:classify-label", "pixel " + std::to_string(x) + "," + std::to_string(y) + " map " + std::to_string(mm) + " is " + fmt(*out.data_ptr_const(x, y, mm, 0)) + " expected " + fmt(*e.data_ptr_const(x, y, mm, 0)) + d); }
  c.state(hash(out)); c.validated(); if (kinds == 3) c.nontrivial(); if (c.want_sample()) c.sample("classify" + d); for (auto* z : g.GetNodes()) { for (auto& b : z->output_buffers) if (z != n) delete b.combined_tensor; delete z->layer; delete z; } }
// long sessions
static void large(mc::Ctx& c) { unsigned m = c.choose(4, "configuration"), n = c.pick(c.thorough() ? std::vector<unsigned>{9, 17, 33, 65, 129, 257, 300} : std::vector<unsigned>{9, 17, 33, 65, 129}, "length"), pat = c.choose(4, "pattern"); c.shard(); static const std::vector<Op> P[4] = {{TRAIN}, {TRAIN, TEST}, {TRAIN, SAVE, TRAIN2, LOAD, TRAIN, TEST, QUIET, TRAIN, LOUD}, {TRAIN2N, EPOCH, TRAIN, RESET, LOADPART, SAVE, TRAIN}}; std::vector<Op> o; for (unsigned i = 0; i < n; i++) o.push_back(P[pat][i % P[pat].size()]); session(c, cfgs()[m], o, {}, n % 4, n < 60); }
MC_MAIN({"large", large}, {"sessions", sessions}, {"nothing", nothing}, {"classify", classify})
