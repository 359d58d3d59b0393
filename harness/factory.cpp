// C23: layer descriptions: grammar, settings, seed injection and the layers they build
#include "util.h"
static bool lower(char ch) { return ch >= 'a' && ch <= 'z'; }
struct Desc { bool valid = false; std::string type, config; std::vector<std::string> set; };
// name [ ( [ name=value { space name=value } ] ) ]
static Desc parse(const std::string& s) {
  Desc d; size_t i = 0; while (i < s.size() && lower(s[i])) i++; if (!i) return d; d.type = s.substr(0, i); if (i == s.size()) { d.valid = true; return d; }
  if (s[i] != '(' || s.back() != ')' || s.size() < i + 2) return d; d.config = s.substr(i + 1, s.size() - i - 2); const std::string& q = d.config; if (q.empty()) { d.valid = true; return d; }
  size_t p = 0; while (true) { size_t e = q.find(' ', p); std::string w = q.substr(p, e == std::string::npos ? e : e - p); size_t j = 0; while (j < w.size() && lower(w[j])) j++; if (!j || j == w.size() || w[j] != '=') return d; size_t k = j + 1; if (k == w.size()) return d; for (; k < w.size(); k++) if (!isalnum((unsigned char)w[k]) && w[k] != '.') return d; d.set.push_back(w); if (e == std::string::npos) break; p = e + 1; }
  d.valid = true; return d; }
static void inject(mc::Ctx& c, const Desc& d, const std::string& s, unsigned seed) {
  c.site("inject seed"); std::string r = LayerFactory::InjectSeed(s, seed); c.trans(); Desc n = parse(r); std::string x = "seed " + std::to_string(seed) + " into \"" + s + "\" gives \"" + r + "\"";
  CK(n.valid && n.type == d.type, "factory:inject-text", x); std::vector<std::string> a, b; unsigned cnt = 0; for (auto& w : d.set) if (w.compare(0, 5, "seed=")) a.push_back(w); for (auto& w : n.set) if (w.compare(0, 5, "seed=")) b.push_back(w); else { cnt++; CK(w == "seed=" + std::to_string(seed), "factory:inject-other", x); }
  CK(cnt == 1, "factory:inject-count", x); CK(a == b, "factory:inject-settings", x); }
static const std::set<std::string> KNOWN = {"convolution", "maxpooling", "amaxpooling", "tanh", "sigm", "relu", "gradientaccumulation", "resize", "hmax"};
static void text(mc::Ctx& c, const std::string& s) {
  Desc d = parse(s); c.site("valid"); CK(LayerFactory::IsValidDescriptor(s) == d.valid, "factory:valid", "\"" + s + "\" is " + (d.valid ? "valid" : "not valid")); c.trans(3);
  c.site("extract"); std::string cf = LayerFactory::ExtractConfiguration(s), ty = LayerFactory::ExtractLayerType(s);
  if (d.valid) { CK(cf == d.config, "factory:configuration", "configuration of \"" + s + "\" is \"" + cf + "\""); CK(ty == d.type, "factory:type", "type of \"" + s + "\" is \"" + ty + "\""); inject(c, d, s, 7); inject(c, d, s, 4294967295u); }
  else { c.site("inject into invalid"); LayerFactory::InjectSeed(s, 3); }
  if (!d.valid || !KNOWN.count(d.type)) { c.site("construct"); Layer* l = nullptr; try { l = LayerFactory::ConstructLayer(s); } catch (std::runtime_error&) {} CK(!l, "factory:accepts", "\"" + s + "\" builds a layer"); }
  c.state(mc::mix(d.valid, mc::hash_bytes(d.config.data(), d.config.size()))); }
#ifdef __SANITIZE_ADDRESS__
#define DEPTH 2u
#else
#define DEPTH 0u
#endif
static void texts(mc::Ctx& c) {
  static const std::string ABC = "a=(1 ).A\n"; static const std::vector<std::string> PRE = {"", "b(", "ab(c=2 ", "a(seed=1", "relu", "tanh(a=1"}; sys_init();
  unsigned p = c.choose(PRE.size(), "prefix"), max = (p == 0 ? 6 : 5) + c.thorough() - DEPTH, len = c.choose(max + 1, "length"); std::string s = PRE[p]; unsigned abc = len < 4 ? 9 : 8;
  for (unsigned i = 0; i < len; i++) { if (i == 2) c.shard(); s += ABC[c.choose(abc, "character")]; } if (len <= 2) c.shard(); text(c, s); c.validated(); if (parse(s).valid && s.size() > 1) c.nontrivial(); if (c.want_sample()) c.sample("\"" + s + "\""); }
// every single byte at every position of a valid description
static void bytes(mc::Ctx& c) { static const std::vector<std::string> D = {"conv", "conv()", "conv(size=3x3)", "conv(a=B.9 seed=5)"}; sys_init(); std::string s = c.pick(D, "description"); unsigned pos = c.choose(s.size() + 1, "position"), how = c.choose(2, "replace"), hi = c.choose(16, "byte"); c.shard(); if (how && pos == s.size()) c.skip(); for (unsigned lo = 0; lo < 16; lo++) { std::string t = s; char ch = (char)(hi * 16 + lo); if (how) t[pos] = ch; else t.insert(pos, 1, ch); text(c, t); } c.validated(); c.nontrivial(); if (c.want_sample()) c.sample("\"" + s + "\" position " + std::to_string(pos)); }
// sequences of whole settings
static void seeds(mc::Ctx& c) {
  static const std::vector<std::string> POOL = {"size=3x3", "seed=1", "seed=532", "seed=abc", "seed=5a", "seed=0.5", "noseed=5", "seeds=4", "kernels=2", "a=seed", "xseed=7", "seed=00", "s=1", "seed=X9"}; static const std::vector<unsigned> S = {0, 1, 532, 4294967295u}; sys_init();
  unsigned n = c.choose(c.thorough() ? 5 : 4, "settings"); std::string t = c.flip("type") ? "seed" : "convolution", s = t; bool par = n > 0 || c.flip("empty list"); if (par) s += "("; for (unsigned i = 0; i < n; i++) { s += (i ? " " : "") + POOL[c.choose(POOL.size(), "setting")]; if (i == 1) c.shard(); } if (n < 2) c.shard(); if (par) s += ")";
  Desc d = parse(s); CK(d.valid, "model", s); CK(LayerFactory::IsValidDescriptor(s), "factory:valid", s); CK(LayerFactory::ExtractConfiguration(s) == d.config && LayerFactory::ExtractLayerType(s) == d.type, "factory:configuration", s); for (unsigned q : S) inject(c, d, s, q); c.state(mc::hash_bytes(s.data(), s.size())); c.validated(); if (n) c.nontrivial(); if (c.want_sample()) c.sample(s); }
// --- layers built from descriptions behave like layers built by the constructors
struct LrPeek : Layer { static float get(Layer* l) { return l->*(&LrPeek::local_lr_); } };
struct Set { std::string k; std::vector<std::string> v; };
static std::pair<unsigned, unsigned> wh(const std::string& s, unsigned d) { if (s.empty()) return {d, d}; size_t p = s.find('x'); return {(unsigned)atoi(s.c_str()), (unsigned)atoi(s.c_str() + p + 1)}; }
static Layer* direct(const std::string& t, std::map<std::string, std::string> v, float& lr) {
  auto num = [&](const char* k, double d) { return v[k].empty() ? d : atof(v[k].c_str()); }; lr = 1;
  if (t == "convolution") { auto s = wh(v["size"], 0), st = wh(v["stride"], 1), p = wh(v["pad"], 0); lr = num("llr", 1); unsigned g = num("group", 1); if (!g) throw std::runtime_error("group"); return new ConvolutionLayer(s.first, s.second, num("kernels", 0), st.first, st.second, p.first, p.second, g, 0, num("dropout", 0)); }
  if (t == "maxpooling") { auto s = wh(v["size"], 1); return new MaxPoolingLayer(s.first, s.second); }
  if (t == "amaxpooling") { auto s = wh(v["size"], 1); auto st = v["stride"].empty() ? s : wh(v["stride"], 1); return new AdvancedMaxPoolingLayer(s.first, s.second, st.first, st.second); }
  if (t == "tanh") return new TanhLayer(""); if (t == "sigm") return new SigmoidLayer(""); if (t == "relu") return new ReLULayer("");
  if (t == "gradientaccumulation") return new GradientAccumulationLayer((unsigned)num("outputs", 0)); if (t == "resize") { auto b = wh(v["border"], 0); return new ResizeLayer(b.first, b.second); }
  return new HMaxActivationFunction(num("mu", 1), num("weight", 0)); }
struct Obs { std::string s; std::vector<float> v; bool operator==(const Obs& o) const { return s == o.s && v.size() == o.v.size() && memcmp(v.data(), o.v.data(), v.size() * 4) == 0; } std::string str() const { return s + " " + show(v); } };
static void add(Obs& o, const Tensor& t) { o.s += " " + shape(t).str(); for (size_t i = 0; i < t.elements(); i++) o.v.push_back(t.data_ptr_const()[i] + 0.f); }
static Obs observe(mc::Ctx& c, Layer* l, const Shape& sh, bool testing) {
  Obs o; Rig r(l); r.st.SetIsTesting(testing); r.input(sh); fill_int(r.in[0]->data, 5); try {
    if (!r.create()) { o.s = "no outputs"; return o; } if (!r.connect()) { o.s = "not connected"; return o; } for (size_t i = 0; i < l->parameters().size(); i++) { fill_int(l->parameters()[i]->data, 40 + i, 2); l->parameters()[i]->delta.Clear(); }
    l->FeedForward(); c.trans(); for (auto* t : r.out) add(o, t->data); for (size_t i = 0; i < r.out.size(); i++) fill_int(r.out[i]->delta, 70 + i); l->BackPropagate(); c.trans(); add(o, r.in[0]->delta); for (auto* p : l->parameters()) { add(o, p->data); add(o, p->delta); } o.s += " gain " + std::to_string(l->Gain());
  } catch (std::runtime_error& e) { o.s += " refused"; } return o; }
static void built(mc::Ctx& c) {
  static const std::vector<std::string> SZ = {"", "1x1", "2x1", "1x3", "3x2", "0x2", "2x0", "4x4"}, ST = {"", "1x1", "2x1", "1x2", "0x1", "1x0"};
  static const std::vector<std::pair<std::string, std::vector<Set>>> T = {
    {"convolution", {{"size", {"", "1x1", "2x1", "1x3", "3x2", "0x2", "4x4"}}, {"stride", {"", "2x1", "1x2", "0x1"}}, {"pad", {"", "1x0", "0x2"}}, {"kernels", {"", "1", "2", "6"}}, {"group", {"", "1", "2", "3", "0"}}, {"llr", {"", "0.5"}}}},
    {"convolution", {{"size", {"2x2"}}, {"kernels", {"3"}}, {"dropout", {"", "0", "0.5", "0.25"}}, {"llr", {"", "0", "0.25", "2"}}, {"seed", {"", "1", "99"}}, {"unknown", {"", "4"}}}},
    {"maxpooling", {{"size", SZ}, {"stride", {"", "2x2"}}}}, {"amaxpooling", {{"size", SZ}, {"stride", ST}}}, {"tanh", {{"size", {"", "3x3"}}}}, {"sigm", {{"size", {"", "3x3"}}}}, {"relu", {{"size", {"", "3x3"}}}},
    {"gradientaccumulation", {{"outputs", {"", "0", "1", "2", "3", "5"}}}}, {"resize", {{"border", {"", "0x0", "1x0", "0x2", "3x1"}}, {"size", {"", "2x2"}}}}, {"hmax", {{"mu", {"", "1", "0.1", "0.5"}}, {"weight", {"", "0", "0.2", "1.5"}}, {"seed", {"", "3"}}}}};
  sys_init(); auto& t = c.pick(T, "layer"); std::map<std::string, std::string> v; std::vector<std::string> w; for (auto& s : t.second) { auto& q = c.pick(s.v, s.k.c_str()); v[s.k] = q; if (q.size()) w.push_back(s.k + "=" + q); } c.shard();
  std::vector<unsigned> ord(w.size()); for (unsigned i = 0; i < ord.size(); i++) ord[i] = i; unsigned orders = w.size() > 3 ? 2 : 24;
  static const std::vector<Shape> IN = {Shape{1, 4, 3, 2}, Shape{2, 6, 6, 6}, Shape{1, 1, 1, 3}};
  std::vector<Obs> ref; float lr = 1; bool refused = false; for (auto& sh : IN) for (int ts = 0; ts < 2; ts++) { Layer* l = nullptr; c.site("constructor"); try { l = direct(t.first, v, lr); } catch (std::runtime_error&) { refused = true; } if (l) ref.push_back(observe(c, l, sh, ts)); else ref.push_back(Obs()); }
  std::string d; do {
    std::string cf; for (unsigned i : ord) cf += (cf.size() ? " " : "") + w[i]; for (int par = 0; par < (w.empty() ? 2 : 1); par++) {
      d = t.first + (w.empty() && !par ? "" : "(" + cf + ")"); size_t k = 0; for (auto& sh : IN) for (int ts = 0; ts < 2; ts++, k++) { Layer* l = nullptr; c.site("construct " + d); try { l = LayerFactory::ConstructLayer(d); } catch (std::runtime_error&) {} if (refused) { CK(!l, "factory:built-refused", d + " is built"); continue; } CK(l, "factory:not-built", d + " is not built"); CK(LrPeek::get(l) == lr, "factory:learning-rate", d + " has local learning rate " + fmt(LrPeek::get(l))); CK(l->GetLayerConfiguration() == cf, "factory:lost-configuration", d + " kept \"" + l->GetLayerConfiguration() + "\"");
          c.site("run " + d); Obs o = observe(c, l, sh, ts); CK(o == ref[k], "factory:behaviour", d + " on " + sh.str() + (ts ? " testing" : " training") + " behaves like " + o.str() + "\n the constructor's like " + ref[k].str()); c.state(mc::hash_bytes(o.v.data(), o.v.size() * 4)); } }
  } while (--orders && std::next_permutation(ord.begin(), ord.end()));
  if (w.size()) c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(d + (refused ? " refused" : "")); }
// the seed of a description determines the initial weights like the constructor's
static void seeded(mc::Ctx& c) { unsigned seed = c.pick(std::vector<unsigned>{1, 2, 99, 4294967295u, 5489}, "seed"), how = c.choose(2, "injected"); c.shard(); sys_init(); std::string d = "convolution(size=2x2 kernels=2" + std::string(how ? ")" : " seed=" + std::to_string(seed) + ")"); if (how) d = LayerFactory::InjectSeed(d, seed);
  Rig a(LayerFactory::ConstructLayer(d)), b(new ConvolutionLayer(2, 2, 2, 1, 1, 0, 0, 1, (int)seed)); for (Rig* r : {&a, &b}) { r->input(1, 3, 3, 2); CK(r->up(), "factory:connect", d); r->L->OnLayerConnect({}); } c.validated(); c.nontrivial(); c.trans(2); c.sample(d); if (hash(a.L->parameters()[0]->data) == hash(b.L->parameters()[0]->data)) return; Rig u(new ConvolutionLayer(2, 2, 2, 1, 1, 0, 0, 1, 5489)); u.input(1, 3, 3, 2); u.up(); u.L->OnLayerConnect({}); // 5489: the generator's state when it is never seeded
  c.fail(hash(a.L->parameters()[0]->data) == hash(u.L->parameters()[0]->data) ? "factory:description-seed-ignored" : "factory:description-seed", d + ": initial weights " + show(a.L->parameters()[0]->data) + " instead of " + show(b.L->parameters()[0]->data)); }
// size: long layer names, many settings, long values, large parameters
static void large(mc::Ctx& c) { sys_init(); unsigned kind = c.choose(6, "kind"), m = c.pick(sizes(c), "size"); c.shard(); std::string d;
  if (kind < 4) { std::string type(kind == 0 ? m : 4, 'a'), set; for (unsigned i = 0; i < (kind == 1 ? m : 2); i++) set += (i ? " " : "") + std::string(1, (char)(97 + i % 18)) + (char)(97 + i / 18 % 18) + "=" + (kind == 2 ? std::string(m, 'v') : std::to_string(i)); if (kind == 3) set += " " + std::string(m, 'n') + "=1"; if (m % 3 == 1) set += " seed=77"; d = type + "(" + set + ")"; text(c, d); text(c, d + "x"); text(c, d.substr(0, d.size() - 1)); Desc q = parse(d); CK(q.valid, "model", d); for (unsigned sd : {0u, 9u, 4294967295u}) inject(c, q, d, sd); c.state(mc::hash_bytes(d.data(), d.size())); }
  else { std::map<std::string, std::string> v; if (kind == 4) { v = {{"size", std::to_string(m) + "x2"}, {"kernels", "2"}, {"pad", m % 2 ? "0x1" : "1x0"}}; } else v = {{"size", "1x2"}, {"kernels", std::to_string(m)}, {"llr", "0.5"}}; std::string cf; for (auto& w : v) cf += (cf.size() ? " " : "") + w.first + "=" + w.second; d = "convolution(" + cf + ")"; Shape sh{1, m, 3, 2}; for (int ts = 0; ts < 2; ts++) { float lr; c.site("construct " + d); Layer *l = LayerFactory::ConstructLayer(d), *r = direct("convolution", v, lr); CK(l && LrPeek::get(l) == lr, "factory:not-built", d); Obs a = observe(c, l, sh, ts), b = observe(c, r, sh, ts); CK(a == b, "factory:behaviour", d + " on " + sh.str() + " behaves like " + a.str().substr(0, 400) + "\n the constructor's like " + b.str().substr(0, 400)); c.state(mc::hash_bytes(a.v.data(), a.v.size() * 4)); } }
  c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(d.substr(0, 200)); }
MC_MAIN({"large", large}, {"texts", texts}, {"bytes", bytes}, {"seeds", seeds}, {"built", built}, {"seeded", seeded})
