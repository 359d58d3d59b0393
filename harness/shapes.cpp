// C31: every layer with every combination of input and output shapes: refused, or safe and of the declared shape
#include "layerkinds.h"
static std::string list(const std::vector<Shape>& v, const std::vector<int>& null = {}) { std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + (i < null.size() && null[i] ? std::string("null") : v[i].str()); return s.empty() ? "none" : s; }
struct World { std::vector<std::unique_ptr<CombinedTensor>> keep; CombinedTensor* make(const Shape& s, unsigned salt) { keep.emplace_back(new CombinedTensor(s.s, s.w, s.h, s.m)); fill_int(keep.back()->data, salt); fill_int(keep.back()->delta, salt + 9); return keep.back().get(); } };
// connect and run; returns whether it was accepted
static bool use(mc::Ctx& c, const Kind& k, Layer* L, NetStatus& st, CTs in, CTs out, const std::string& x) {
  bool ok; std::vector<Shape> before; for (auto* t : out) if (t) before.push_back(shape(t->data)); c.site("connect " + x); try { ok = L->Connect(in, out, &st); } catch (std::runtime_error&) { ok = false; } c.trans(); if (!ok) return false;
  for (size_t i = 0; i < L->parameters().size(); i++) fill_int(L->parameters()[i]->data, 60 + i); L->SetBackpropagationEnabled(!k.nobp); try { for (int r = 0; r < 2; r++) { c.site("forward " + x); L->FeedForward(); c.site("backward " + x); if (!k.nobp || k.name[0] == 'd') L->BackPropagate(); c.trans(2); } if (StatLayer* s = dynamic_cast<StatLayer*>(L)) { c.site("statistics " + x); s->UpdateAll(); s->Reset(); } } catch (std::runtime_error& e) { c.fail("shapes:late", x + ": connected, but passes end with " + e.what()); }
  size_t q = 0; for (auto* t : out) if (t) { CK(shape(t->data) == before[q] && shape(t->delta) == before[q], "shapes:changed", x + ": passes reshape an output"); q++; } return true; }
static Shape norm(const Shape& s) { return s.n() ? s : Shape{0, 0, 0, 0}; } // empty tensors have no dimensions
static void explore(mc::Ctx& c, const Kind& k, std::vector<Shape> in, const std::vector<int>& null) {
  for (auto& s : in) s = norm(s);
  fresh_stats(); bool nul = false, empty = false; for (int n : null) nul |= n; for (auto& s : in) empty |= s.n() == 0; std::string x = k.name + " inputs " + list(in, null); World w; CTs I; for (size_t i = 0; i < in.size(); i++) I.push_back(null[i] ? nullptr : w.make(in[i], i)); NetStatus st; std::vector<Shape> model; bool valid = !nul && k.valid(in, model); for (auto& s : model) { s = norm(s); empty |= s.n() == 0; }
  std::unique_ptr<Layer> L(k.make()); CTs out; bool made; c.site("create outputs " + x); try { made = L->CreateOutputs(I, out); } catch (std::runtime_error&) { made = false; } c.trans(); for (auto* t : out) w.keep.emplace_back(t);
  if (valid && !empty) CK(made, "shapes:refused", x + " is refused"); CK(!(made && nul), "shapes:null", x + " is accepted"); std::vector<Shape> decl; for (auto* t : out) decl.push_back(shape(t->data));
  if (made && valid) CK(decl == model, "shapes:declared", x + ": declares " + list(decl) + " instead of " + list(model)); if (made) CK(in.size() == k.inputs, "shapes:count", x + " is accepted");
  c.state(mc::mix(mc::hash_bytes(k.name.data(), k.name.size()), made * 2 + valid)); if (!made) for (auto& s : in) decl.push_back(s);
  // foreign outputs: each dimension changed, reshaped, swapped, missing, additional, null
  std::vector<std::vector<Shape>> alt; std::vector<int> altnull; auto push = [&](std::vector<Shape> v, int n = -1) { for (auto& s : v) s = norm(s); alt.push_back(v); altnull.push_back(n); }; push({}); { auto v = decl; v.push_back(v.empty() ? Shape{1, 1, 1, 1} : v[0]); push(v); } if (decl.size()) { auto v = decl; v.pop_back(); push(v); }
  for (size_t o = 0; o < decl.size() && o < 2; o++) { push(decl, (int)o); for (int d = 0; d < 4; d++) for (int ch : {-1, 1, 99}) { auto v = decl; size_t* f[4] = {&v[o].s, &v[o].w, &v[o].h, &v[o].m}; if (ch == -1 && *f[d] == 0) continue; if (ch == 99) { if (*f[d] == 0) continue; *f[d] *= 2; } else *f[d] += ch; push(v); } auto v = decl; std::swap(v[o].w, v[o].h); push(v); v = decl; v[o] = Shape{1, 1, 1, v[o].n()}; push(v); v = decl; v[o].w *= v[o].m; v[o].m = 1; push(v); }
  for (size_t a = 0; a < alt.size(); a++) { if (made && alt[a] == decl && altnull[a] < 0) continue; CTs O; for (size_t i = 0; i < alt[a].size(); i++) O.push_back((int)i == altnull[a] ? nullptr : w.make(alt[a][i], 20 + i)); std::unique_ptr<Layer> F; Layer* l = L.get(); if (!made || k.name[0] == 'c') { F.reset(k.make()); if (made) { CTs t; try { F->CreateOutputs(I, t); } catch (std::runtime_error&) {} for (auto* q : t) w.keep.emplace_back(q); } l = F.get(); }
    std::string y = x + " outputs "; for (size_t i = 0; i < alt[a].size(); i++) y += (int)i == altnull[a] ? "null " : alt[a][i].str() + " "; bool acc = use(c, k, l, st, I, O, y); if (made && valid && !empty) CK(!acc, "shapes:foreign", y + " is accepted, declared " + list(decl)); CK(!(acc && (nul || altnull[a] >= 0)), "shapes:null", y + " is accepted"); c.count(acc ? "other outputs accepted" : "other outputs refused"); }
  if (made) { bool acc = use(c, k, L.get(), st, I, out, x + " outputs " + list(decl)); if (!empty) CK(acc, "shapes:declared-refused", x + ": declared outputs " + list(decl) + " are refused"); c.count(acc ? "inputs accepted" : "declared refused"); } else c.count("inputs refused");
  c.validated(); if (!made || valid) c.nontrivial(); if (c.want_sample()) c.sample(x + (made ? " declares " + list(decl) : " refused")); }
static Shape draw(mc::Ctx& c, unsigned S, unsigned D, unsigned M, bool zero) { Shape s; s.s = c.range(!zero, S, "samples"); s.w = c.range(!zero, D, "width"); s.h = c.range(!zero, D, "height"); s.m = c.range(!zero, M, "maps"); return s; }
// layers of one input: every shape
static void single(mc::Ctx& c) { std::vector<unsigned> ix; for (unsigned i = 0; i < K().size(); i++) if (K()[i].inputs == 1) ix.push_back(i); const Kind& k = K()[c.pick(ix, "layer")]; Shape s = draw(c, c.thorough() ? 3 : 2, c.thorough() ? 8 : 6, c.thorough() ? 6 : 4, true); c.shard(); sys_init(); explore(c, k, {s}, {0}); }
// layers of two or three inputs: every pair or triple
static void several(mc::Ctx& c) { std::vector<unsigned> ix; for (unsigned i = 0; i < K().size(); i++) if (K()[i].inputs > 1) ix.push_back(i); const Kind& k = K()[c.pick(ix, "layer")]; std::vector<Shape> in; Shape a = draw(c, 2, 2, 3, c.thorough()); in.push_back(a); c.shard(); sys_init();
  // the others: the same shape with up to two dimensions changed
  unsigned left = c.thorough() ? 3 : 2; for (unsigned i = 1; i < k.inputs; i++) { Shape s = a; if (i == 2) s.m = c.pick(std::vector<size_t>{1, 0, 2, 3}, "weight maps"); size_t* f[4] = {&s.s, &s.w, &s.h, &s.m}; for (unsigned q = 0; q < 2 && left; q++) { unsigned d = c.choose(i == 2 ? 4 : 5, "change"); if (d == 0) break; unsigned v = c.choose(4, "to"); c.require(*f[d - 1] != v); *f[d - 1] = v; left--; } in.push_back(s); }
  explore(c, k, in, std::vector<int>(in.size(), 0)); }
// wrong numbers of inputs and null inputs
static void counts(mc::Ctx& c) { const Kind& k = K()[c.choose(K().size(), "layer")]; unsigned n = c.choose(5, "inputs"), sh = c.choose(3, "shape"), nul = c.choose(1u << n, "null"); c.shard(); sys_init(); static const Shape S[3] = {Shape{1, 2, 2, 2}, Shape{2, 6, 6, 4}, Shape{1, 1, 1, 1}}; std::vector<int> null; for (unsigned i = 0; i < n; i++) null.push_back(nul >> i & 1); std::vector<Shape> in(n, S[sh]); if (n == 3 && k.inputs == 3) in[2].m = 1; explore(c, k, in, null); }
// the dataset input layer with outputs of its own and other numbers and shapes
struct Stub : Dataset { Method me; Stub(Method m) : me(m) {} Task GetTask() const override { return SEMANTIC_SEGMENTATION; } Method GetMethod() const override { return me; } unsigned GetWidth() const override { return 3; } unsigned GetHeight() const override { return 2; } unsigned GetInputMaps() const override { return 2; } unsigned GetLabelMaps() const override { return 2; } unsigned GetClasses() const override { return 2; } std::vector<std::string> GetClassNames() const override { return {"a", "b"}; } std::vector<unsigned> GetClassColors() const override { return {1, 2}; } std::vector<datum> GetClassWeights() const override { return {1, 1}; } unsigned GetTrainingSamples() const override { return 3; } unsigned GetTestingSamples() const override { return 1; } bool SupportsTesting() const override { return true; }
  bool get(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) { if (d.width() != 3 || d.height() != 2 || d.maps() != 2 || l.maps() != 2 || h.maps() != 2 || w.maps() != 1 || s >= d.samples()) return false; for (Tensor* t : {&d, &l, &h, &w}) t->Clear(i, s); return true; }
  bool GetTrainingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) override { return get(d, l, h, w, s, i); } bool GetTestingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) override { return get(d, l, h, w, s, i); } };
static void dataset(mc::Ctx& c) { Method me = c.flip("patch") ? PATCH : FCN; unsigned B = c.range(1, 3, "batch"), o = c.choose(4, "output"), ch = c.choose(11, "change"), nin = c.choose(3, "inputs"); c.shard(); sys_init(); Stub d(me); DatasetInputLayer L(d, B, 1.0, 3); World w; CTs in, out; NetStatus st; for (unsigned i = 0; i < nin; i++) in.push_back(i ? nullptr : w.make(Shape{1, 1, 1, 1}, i)); std::string x = "dataset input batch " + std::to_string(B) + " output " + std::to_string(o) + " change " + std::to_string(ch) + " inputs " + std::to_string(nin); c.site(x);
  bool made = L.CreateOutputs(in, out); for (auto* t : out) w.keep.emplace_back(t); CK(made == (nin == 0), "shapes:dataset-inputs", x); if (!made) { CTs none; L.CreateOutputs(none, out); for (auto* t : out) w.keep.emplace_back(t); } unsigned lw = me == PATCH ? 1 : 3, lh = me == PATCH ? 1 : 2; Shape want[4] = {Shape{B, 3, 2, 2}, Shape{B, lw, lh, 2}, Shape{B, lw, lh, 2}, Shape{B, lw, lh, 1}}; CK(out.size() == 4, "shapes:dataset-outputs", x); for (unsigned i = 0; i < 4; i++) CK(shape(out[i]->data) == want[i], "shapes:dataset-declared", x + " declares " + shape(out[i]->data).str());
  bool mustrefuse = nin > 0; Shape s = want[o]; switch (ch) { case 0: break; case 1: out[o] = nullptr; mustrefuse = true; break; case 2: out.resize(o); mustrefuse = true; break; case 3: out.push_back(out[0]); mustrefuse = true; break; case 4: s.s--; break; case 5: s.s++; break; case 6: s.w--; break; case 7: s.h++; break; case 8: s.m--; break; case 9: s.m++; break; case 10: s = Shape{0, 0, 0, 0}; } if (ch >= 4) out[o] = w.make(s, 3);
  bool acc; c.site("connect " + x); try { acc = L.Connect(in, out, &st); } catch (std::runtime_error&) { acc = false; } if (mustrefuse) CK(!acc, "shapes:dataset-accepts", x); if (ch == 0 && nin == 0) CK(acc, "shapes:dataset-refuses", x); if (acc) { c.site("load " + x); for (int i = 0; i < 4; i++) { if (i == 2) L.SetTestingMode(true); try { L.FeedForward(); } catch (std::runtime_error&) { CK(ch != 0, "shapes:dataset-load", x); break; } } } c.trans(3); c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(x + (acc ? " accepted" : " refused")); }
// every layer with one dimension of its inputs, or two together, growing; the other inputs equal, or different in one dimension
static void large(mc::Ctx& c) { std::vector<unsigned> ix; for (unsigned i = 0; i < K().size(); i++) if (K()[i].inputs > 0 && K()[i].inputs < 4) ix.push_back(i); const Kind& k = K()[c.pick(ix, "layer")]; unsigned s = 1, w = 4, h = 3, m = 2; grow(c, {&s, &w, &h, &m}, false); if (k.name.find("group 4") != std::string::npos) m = (m + 3) / 4 * 4; Shape a{s, w, h, m}; std::vector<Shape> in(k.inputs, a); unsigned other = k.inputs > 1 ? c.choose(1 + 3 * 4, "other") : 0; if (k.inputs == 3) in[2].m = 1; c.shard(); sys_init();
  if (other) { size_t* f[4] = {&in[1].s, &in[1].w, &in[1].h, &in[1].m}; size_t& x = *f[(other - 1) % 4]; x = other < 5 ? x + 1 : other < 9 ? x - 1 : x * 2; } explore(c, k, in, std::vector<int>(in.size(), 0)); }
MC_MAIN({"large", large}, {"counts", counts}, {"single", single}, {"several", several}, {"dataset", dataset})
