// C40: programs whose files cannot be opened, read, written, closed or mapped at some point
#include "progrig.h"
#include <sys/resource.h>
#include <sys/stat.h>
typedef std::vector<std::pair<std::string, std::string>> Files;
struct Sc { std::string name, tool; std::vector<std::string> args; std::string in; Files files; std::vector<std::string> outs; bool text; };
static Img picture(unsigned w, unsigned h, unsigned salt) { Img i; i.w = w; i.h = h; i.ch = 3; i.v.resize(w * h * 3); for (size_t k = 0; k < i.v.size(); k++) i.v[k] = mc::mix(k, salt) % 256; return i; }
static Img mask(unsigned w, unsigned h, unsigned salt) { Img i = picture(w, h, 1); for (size_t k = 0; k < w * h; k++) { bool a = mc::mix(k, salt) % 2; i.v[3 * k] = a ? 255 : 32; i.v[3 * k + 1] = a ? 128 : 64; i.v[3 * k + 2] = a ? 0 : 96; } return i; }
static std::string stream(unsigned n, unsigned salt, bool comp) { std::ostringstream o; if (comp) { uint64_t m = CN24_CTS_MAGIC; o.write((char*)&m, 8); } for (unsigned i = 0; i < n; i++) { Tensor im = image(4 + i, 5 - i % 2, salt + i), lb = label(4 + i, 5 - i % 2, 2, salt + i); for (Tensor* t : {&im, &lb}) if (comp) { CompressedTensor k; k.Compress(*t); k.Serialize(o); } else t->Serialize(o); } return o.str(); }
static const std::vector<Sc>& scenarios() { static std::vector<Sc> v; if (v.size()) return v;
  std::string cls = "classes=2\nno\nyes\ncolors\n0x204060\n0xff8000\n", none = cls; std::string fcn = "?convolutional size=3x3 kernels=2\n?relu\n?fullyconnected neurons=(o)\n?output\nlr=0.02\niterations=2\npbatchsize=1\nsbatchsize=1\n", patch = "method=patch\n?convolutional size=3x2 kernels=2\n?tanh\n?fullyconnected neurons=(o)\n?output\nlr=0.05\niterations=2\npbatchsize=2\n";
  std::string params; { std::istringstream n(fcn); Cfg k{fcn.c_str(), 2, false, 2}; NetGraph g; ConfigurableFactory f(n, 5, false); auto* in = new NetGraphNode(new InputLayer(*new Tensor(1, 16, 16, 3))); in->is_input = true; g.AddNode(in); f.AddLayers(g, NetGraphConnection(in), 2, false); g.Initialize(); g.InitializeWeights(); std::ostringstream o; g.SerializeParameters(o); params = o.str(); }
  auto add = [&](std::string n, std::string t, std::vector<std::string> a, std::string in, Files f, std::vector<std::string> o, bool text = false) { v.push_back(Sc{n, t, a, in, f, o, text}); };
  add("compressing a stream", "COMPRESSTENSORSTREAM", {"in.dat", "out.dat"}, "", {{"in.dat", stream(2, 3, false)}}, {"out.dat"});
  Files lists{{"set", none}, {"il", "a.png\nb.jpg\n"}, {"ll", "la.png\nlb.png\n"}, {"a.png", png_encode(picture(5, 4, 1))}, {"b.jpg", jpg_encode(picture(9, 8, 2))}, {"la.png", png_encode(mask(5, 4, 3))}, {"lb.png", png_encode(mask(9, 8, 4))}};
  add("importing images", "MAKETENSORSTREAM", {"set", "il", ".", "ll", ".", "out.dat", "false"}, "", lists, {"out.dat"});
  add("importing images to a compressed stream", "MAKECOMPRESSEDTENSORSTREAM", {"set", "il", ".", "ll", ".", "out.dat", "true"}, "", lists, {"out.dat"});
  add("truncating a stream", "TENSORSTREAMTOOL", {"in.dat", "2"}, "", {{"in.dat", stream(2, 5, false)}}, {"in.dat"});
  add("transposing a tensor", "TENSORTOOL", {"in.dat", "1"}, "transpose\nwrite\nquit\n", {{"in.dat", stream(1, 7, false)}}, {"in.dat"});
  add("writing bytes", "TENSORTOOL", {"in.dat", "0"}, "bin\nquit\n", {{"in.dat", stream(1, 7, false)}}, {"binoutput.data"});
  Files cf{{"set", cls}, {"net", fcn}, {"par", params}, {"a.png", png_encode(picture(9, 8, 1))}, {"b.jpg", jpg_encode(picture(8, 7, 2))}};
  add("classifying to PNG", "CLASSIFYIMAGE", {"set", "net", "par", "a.png", "o.png"}, "", cf, {"o.png"}); add("classifying to JPG", "CLASSIFYIMAGE", {"set", "net", "par", "b.jpg", "o.jpg"}, "", cf, {"o.jpg"}); add("classifying to a tensor", "CLASSIFYIMAGE", {"set", "net", "par", "a.png", "o.Tensor"}, "", cf, {"o.Tensor"});
  for (unsigned k = 0; k < 4; k++) { bool list = k == 2, comp = k == 1; Files f = list ? lists : Files(); std::string set = cls; if (list) { f.erase(f.begin()); set += "training=list:il;.;ll;.\ntesting=list:il;.;ll;.\n"; } else { f.push_back({"tr.dat", stream(2, 1, comp)}); f.push_back({"te.dat", stream(1, 9, comp)}); set += "training=tr.dat\ntesting=te.dat\n"; } f.push_back({"set", set}); f.push_back({"net", k == 3 ? patch : fcn}); f.push_back({"script", "set experiment name=x\nsave file=first\ntrain\ntest\nsave file=second\nload file=first\nsave file=third\ngraph file=g\nquit\n"});
    add(std::string("training on ") + (list ? "lists" : comp ? "a compressed dataset" : k == 3 ? "patches" : "a dataset"), "TRAINNETWORK", {"set", "net", "script"}, "", f, {"first", "second", "third", "g", "csv/x.csv"}); }
  for (bool comp : {false, true}) add(std::string("statistics of a ") + (comp ? "compressed " : "") + "dataset", "TENSORSTREAMSTATS", {"set"}, "", {{"set", cls + "training=tr.dat\ntesting=te.dat\n"}, {"tr.dat", stream(2, 1, comp)}, {"te.dat", stream(1, 9, comp)}}, {}, true);
  return v; }
struct Res { int status = -1; std::string text, log; std::vector<std::string> outs; bool hang() const { return WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM; } bool fatal() const { return WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT && text.find("See log for details.") != std::string::npos; } bool clean() const { return WIFEXITED(status) && WEXITSTATUS(status) == 0; } bool crash() const { return !hang() && !fatal() && !(WIFEXITED(status) && WEXITSTATUS(status) != 99); } unsigned said() const { unsigned n = 0; for (const char* w : {"ERR [", "Did not work"}) for (size_t p = text.find(w); p != std::string::npos; p = text.find(w, p + 1)) n++; return n; } };
static bool isdir(const std::string& p) { struct stat s; return !stat(p.c_str(), &s) && S_ISDIR(s.st_mode); }
static void put_away(const std::string& p) { if (isdir(p)) rmdir(p.c_str()); else unlink(p.c_str()); }
// change: 0 nothing, 1 the file is missing, 2 a folder has its name
static Res run(const Sc& s, long at, bool sticky, long space, const std::string& victim = "", unsigned change = 0, unsigned most = 0) { Res r; mkdir("csv", 0755); for (auto& o : s.outs) put_away(o); for (auto& f : s.files) { put_away(f.first); spit(f.first, f.second); } if (change) { put_away(victim); if (change == 2) mkdir(victim.c_str(), 0755); } unlink("iof.log"); if (s.in.size()) spit("stdin.txt", s.in);
  int p[2]; if (pipe(p)) return r; pid_t k = fork(); if (!k) { dup2(p[1], 1); dup2(p[1], 2); close(p[0]); close(p[1]); int i = open(s.in.size() ? "stdin.txt" : "/dev/null", O_RDONLY); dup2(i, 0); close(i); signal(SIGXFSZ, SIG_IGN); alarm(20); rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core); if (space >= 0) { rlimit l{(rlim_t)space, (rlim_t)space}; setrlimit(RLIMIT_FSIZE, &l); } char cwd[4000]; if (!getcwd(cwd, 3900)) _exit(98); setenv("IOF_LOG", (std::string(cwd) + "/iof.log").c_str(), 1); setenv("IOF_AT", std::to_string(at).c_str(), 1); setenv("IOF_MOST", std::to_string(most).c_str(), 1); setenv("IOF_STICKY", sticky ? "1" : "0", 1);
    std::vector<char*> a; const char* exe = getenv(s.tool.c_str()); a.push_back((char*)exe); for (auto& x : s.args) a.push_back((char*)x.c_str()); a.push_back(nullptr); execv(exe, a.data()); _exit(98); }
  close(p[1]); char b[65536]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) if (r.text.size() < (1u << 20)) r.text.append(b, n); close(p[0]); waitpid(k, &r.status, 0); r.log = slurp("iof.log"); for (auto& o : s.outs) { std::string t = isdir(o) ? "(folder)" : slurp(o); if (o.substr(0, 4) == "csv/") { std::istringstream i(t); std::string l, u; std::set<unsigned> timed; for (unsigned n = 0; std::getline(i, l); n++, u += '\n') { std::istringstream q(l); std::string e; for (unsigned f = 0; std::getline(q, e, ','); f++) { if (!n && (e == "SecondsElapsed" || e == "FrameRate" || e == "PixelThroughput")) timed.insert(f); else if (!timed.count(f)) u += e; u += ','; } } t = u; } r.outs.push_back(t); }
  if (s.text) { std::istringstream i(r.text); std::string l, u; while (std::getline(i, l)) if (l.find("System::Init") == std::string::npos) u += l + "\n"; r.outs.push_back(u); } if (change) put_away(victim); return r; }
static std::string last(const std::string& t) { return t.size() > 1200 ? t.substr(t.size() - 1200) : t; }
static void judge(mc::Ctx& c, const Sc& s, const Res& base, const Res& r, const std::string& x, bool must) { c.trans();
  CK(!r.hang(), "io:hang", x + ": does not end\n" + last(r.text)); CK(!r.crash(), "io:crash", x + ": crashes (status " + std::to_string(r.status) + ")\n" + last(r.text)); bool told = !r.clean() || r.said() > base.said(); c.count(told ? "reported" : "harmless"); c.state(mc::mix(r.status, mc::hash_bytes(r.log.data(), r.log.size()))); if (told) return;
  CK(!must, "io:ignored", x + ": nothing says so"); std::string d; for (size_t i = 0; i < base.outs.size(); i++) if (r.outs[i] != base.outs[i]) d += " " + (i < s.outs.size() ? s.outs[i] + " (" + std::to_string(r.outs[i].size()) + " bytes instead of " + std::to_string(base.outs[i].size()) + ")" : std::string("printed text")); CK(d.empty(), "io:silent", x + ": nothing says so, but the output differs:" + d); }
static Res healthy(mc::Ctx& c, const Sc& s) { c.site(s.name); Res b = run(s, 0, false, -1); CK(b.clean() && b.said() <= (s.name == "training on patches"), "io:healthy", s.name + ": fails without a fault (status " + std::to_string(b.status) + ")\n" + last(b.text)); for (size_t i = 0; i < s.outs.size(); i++) CK(b.outs[i].size(), "io:healthy", s.name + ": " + s.outs[i] + " is not written"); return b; }
static const unsigned PARTS = 16;
static void ops(mc::Ctx& c) { auto& S = scenarios(); unsigned k = c.choose(S.size(), "scenario"), part = c.choose(PARTS, "part"); bool sticky = c.flip("sticky"); c.shard(); sys_init(); const Sc& s = S[k]; if (!getenv(s.tool.c_str())) c.skip(); Res b = healthy(c, s); unsigned long total = std::strtoul(b.log.c_str(), nullptr, 10); CK(total > 2, "io:healthy", s.name + ": only " + std::to_string(total) + " file operations");
  for (unsigned long at = 1 + part; at <= total; at += PARTS) { std::string x = s.name + ": file operation " + std::to_string(at) + " of " + std::to_string(total); c.site(x); Res r = run(s, at, sticky, -1); size_t q = r.log.find(' '); x += " (" + (q == std::string::npos ? std::string("?") : r.log.substr(q + 1)) + ")" + (sticky ? " and all further ones fail" : " fails"); judge(c, s, b, r, x, false); c.validated(); } c.nontrivial(); if (c.want_sample()) c.sample(s.name + ", " + std::to_string(total) + " operations"); }
static void space(mc::Ctx& c) { auto& S = scenarios(); unsigned k = c.choose(S.size(), "scenario"), part = c.choose(PARTS, "part"); c.shard(); sys_init(); const Sc& s = S[k]; if (!getenv(s.tool.c_str()) || s.outs.empty()) c.skip(); Res b = healthy(c, s); size_t most = 0; for (auto& o : b.outs) most = std::max(most, o.size()); size_t step = c.thorough() || most < 600 ? 1 : s.tool == "TRAINNETWORK" ? 7 : 3;
  for (size_t n = part * step; n <= most + 8; n += PARTS * step) { std::string x = s.name + ": only " + std::to_string(n) + " bytes can be written to a file"; c.site(x); judge(c, s, b, run(s, 0, false, (long)n), x, false); c.validated(); } c.nontrivial(); if (c.want_sample()) c.sample(s.name + ", up to " + std::to_string(most) + " bytes"); }
static void names(mc::Ctx& c) { auto& S = scenarios(); unsigned k = c.choose(S.size(), "scenario"); c.shard(); sys_init(); const Sc& s = S[k]; if (!getenv(s.tool.c_str())) c.skip(); Res b = healthy(c, s); std::set<std::string> in; for (auto& f : s.files) in.insert(f.first); bool cls = s.tool == "CLASSIFYIMAGE";
  for (auto& f : s.files) { bool used = std::find(s.args.begin(), s.args.end(), f.first) != s.args.end() || (!cls && f.first.find('.') != std::string::npos) || f.first == "il"; for (unsigned ch = 1; ch <= 2; ch++) { std::string x = s.name + ": " + f.first + (ch == 1 ? " is missing" : " is a folder"); c.site(x); judge(c, s, b, run(s, 0, false, -1, f.first, ch), x, used); c.validated(); } }
  for (auto& o : s.outs) if (!in.count(o)) { std::string x = s.name + ": " + o + " is a folder"; c.site(x); judge(c, s, b, run(s, 0, false, -1, o, 2), x, true); c.validated(); } c.nontrivial(); if (c.want_sample()) c.sample(s.name); }
// few bytes at a time are no failure
static void crumbs(mc::Ctx& c) { auto& S = scenarios(); unsigned k = c.choose(S.size(), "scenario"), most = c.choose(c.thorough() ? 40 : 14, "bytes") + 1; c.shard(); sys_init(); const Sc& s = S[k]; if (!getenv(s.tool.c_str())) c.skip(); Res b = healthy(c, s), r = run(s, 0, false, -1, "", 0, most); std::string x = s.name + ": " + std::to_string(most) + " bytes at a time"; CK(r.status == b.status && r.said() == b.said(), "io:crumbs", x + ": ends with status " + std::to_string(r.status) + "\n" + last(r.text)); CK(r.outs == b.outs, "io:crumbs", x + ": the output differs"); c.trans(); c.validated(); c.nontrivial(); c.state(mc::mix(k, most)); }
MC_MAIN({"crumbs", crumbs}, {"ops", ops}, {"space", space}, {"names", names})
