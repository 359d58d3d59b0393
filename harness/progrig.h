// what the drivers of the training program share: small datasets and network configurations, and a session through the library
#ifndef PROGRIG_H
#define PROGRIG_H
#include "netrig.h"
#include "imgio.h"
#include <sys/wait.h>
struct Cfg { const char* net; unsigned classes; bool hybrid; unsigned last; };
static const std::vector<Cfg>& cfgs() { static std::vector<Cfg> v = {
  {"?convolutional size=3x3 kernels=2\n?relu\n?fullyconnected neurons=(o)\n?output\nlr=0.02\nmomentum=0.75\ngamma=0.5\nexponent=0.75\niterations=2\npbatchsize=1\nsbatchsize=1\nl2=0.01\n", 2, false, 2},
  {"method=patch\n?convolutional size=3x2 kernels=2\n?tanh\n?spatialprior\n?fullyconnected neurons=(o)\n?output\nlr=0.05\nmomentum=0.5\ngamma=0.25\nexponent=0.5\niterations=3\npbatchsize=3\nsbatchsize=2\n", 2, true, 1},
  {"?convolutional size=1x2 kernels=2\n?maxpooling size=2x2\n?fullyconnected neurons=(o)\n?output\nlr=0.001\nmu=1.75\neta=1.5\noptimization=quickprop\niterations=2\npbatchsize=2\n", 1, false, 3},
  {"method=patch\n?convolutional size=2x2 kernels=2\n?maxpooling size=2x1\n?fullyconnected neurons=(o)\n?output\nlr=0.1\niterations=2\npbatchsize=2\n", 1, true, 1}}; return v; }
static Tensor image(unsigned w, unsigned h, unsigned salt) { Tensor t(1, w, h, 3); for (size_t e = 0; e < t.elements(); e++) t[e] = (float)(mc::mix(e, salt) % 256) / 255.f; return t; }
static Tensor label(unsigned w, unsigned h, unsigned classes, unsigned salt) { Tensor t(1, w, h, classes); for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { unsigned k = mc::mix(x * 77 + y, salt) % 2; for (unsigned m = 0; m < classes; m++) *t.data_ptr(x, y, m, 0) = classes == 1 ? (k ? 1.f : -1.f) : (m == k ? 1.f : 0.f); } return t; }
static std::string dataset(unsigned classes) { std::ostringstream tr, te; static const unsigned S[5][2] = {{5, 4}, {3, 6}, {4, 4}, {6, 3}, {2, 5}}; for (unsigned i = 0; i < 5; i++) { std::ostream& o = i < 3 ? tr : te; image(S[i][0], S[i][1], i + 1).Serialize(o); label(S[i][0], S[i][1], classes, i + 11).Serialize(o); } spit("tr.dat", tr.str()); spit("te.dat", te.str());
  return std::string("classes=") + std::to_string(classes) + "\n" + (classes == 1 ? "one\ncolors\n0xff8040\n" : "no\nyes\ncolors\n0x204060\n0xff8000\n") + "training=tr.dat\ntesting=te.dat\n"; }
// the statistics layers the program adds at the outputs
inline void add_stats(NetGraph& g, NetGraphNode* in, Dataset& d) { for (auto* o : std::vector<NetGraphNode*>(g.GetOutputNodes())) { auto* n = new NetGraphNode(d.GetClasses() == 1 ? (Layer*)new BinaryStatLayer(13, -1, 1) : (Layer*)new ConfusionMatrixLayer(d.GetClassNames(), d.GetClasses())); n->input_connections.push_back(NetGraphConnection(o, 0, false)); n->input_connections.push_back(NetGraphConnection(in, 1)); n->input_connections.push_back(NetGraphConnection(in, 3)); g.AddNode(n); } }
// the same session through the library
struct Ref { const Cfg& k; std::istringstream net, set; std::unique_ptr<ConfigurableFactory> f; Dataset* d; NetGraph g; std::unique_ptr<Trainer> t; std::string file;
  Ref(const Cfg& k, const std::string& ds, bool stats = false) : k(k), net(k.net), set(ds) { f.reset(new ConfigurableFactory(net, 8347734, true)); f->InitOptimalSettings(); TrainerSettings s = f->optimal_settings(); s.epoch_training_ratio = 1; s.testing_ratio = 1; if (k.hybrid) d = TensorStreamPatchDataset::CreateFromConfiguration(set, false, LOAD_TRAINING_ONLY, f->patchsizex(), f->patchsizey()); else d = TensorStreamDataset::CreateFromConfiguration(set, false, LOAD_BOTH);
    auto* n = new NetGraphNode(new DatasetInputLayer(*d, s.pbatchsize, k.hybrid ? 1.0 : 0.5, 983923)); n->is_input = true; g.AddNode(n); f->AddLayers(g, NetGraphConnection(n), k.classes, true); if (stats) add_stats(g, n, *d); g.Initialize(); g.InitializeWeights(); t.reset(new Trainer(g, s)); }
  ~Ref() { free_net(g); for (int i = 0; i < 0; i++); if (!k.hybrid) delete (TensorStreamDataset*)d; }
  std::string save() { std::ostringstream o; g.SerializeParameters(o); return o.str(); }
  void load(const std::string& b, unsigned last) { std::istringstream i(b); g.DeserializeParameters(i, last); } };
#endif
