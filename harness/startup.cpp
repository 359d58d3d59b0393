// C39: start-up on every machine, with every configuration and file layout, and every OpenCL call failing once
#include "gpurig.h"
#include <dirent.h>
#include <sys/syscall.h>
#include <alloca.h>
#ifndef BUILD_OPENCL
static void nothing(mc::Ctx& c) { c.shard(); }
MC_MAIN({"nothing", nothing})
#else
// where the program believes to be
static std::string self; static bool asked;
static ssize_t where_(const char* p, char* b, size_t n) { if (self.size() && std::string(p) == "/proc/self/exe") { asked = true; size_t k = std::min(n, self.size()); memcpy(b, self.data(), k); return k; } return syscall(SYS_readlink, p, b, n); }
extern "C" ssize_t readlink(const char* p, char* b, size_t n) { return where_(p, b, n); }
extern "C" ssize_t __readlink_chk(const char* p, char* b, size_t n, size_t) { return where_(p, b, n); }
static cld::State& S() { return cld::state(); }
static void reset() { S().machine = {{"device"}}; S().fail_at = 0; S().calls = 0; S().code = CL_OUT_OF_RESOURCES; S().failed.clear(); S().log.clear(); S().context_platform = -1; S().context_device = S().queue_device = {99, 99}; S().build_devices.clear(); S().sources.clear(); S().problem.clear(); S().late = false; S().order = 0; }
// fill what the stack held before with text
static void __attribute__((noinline)) paint() { volatile char* p = (volatile char*)alloca(60000); for (int i = 0; i < 60000; i++) p[i] = 'X'; }
static std::string printed;
static bool start(int level = 2) { std::ostringstream o; auto *ob = std::cout.rdbuf(o.rdbuf()), *eb = std::cerr.rdbuf(o.rdbuf()); bool ok = true; paint(); try { System::Init(level); } catch (std::runtime_error&) { ok = false; } std::cout.rdbuf(ob); std::cerr.rdbuf(eb); printed = o.str(); return ok; }
static std::vector<std::string> files() { static std::vector<std::string> f; if (f.empty()) { std::string own; char b[4096]; ssize_t n = syscall(SYS_readlink, "/proc/self/exe", b, sizeof b); own.assign(b, n); own = own.substr(0, own.rfind('/') + 1) + "kernels"; DIR* d = opendir(own.c_str()); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') f.push_back(own + "/" + e->d_name); closedir(d); std::sort(f.begin(), f.end()); } return f; }
static std::string leaf(const std::string& p) { return p.substr(p.rfind('/') + 1); }
static std::string place_dir(const char* d) { char b[4096]; return std::string(getcwd(b, sizeof b)) + "/" + d; }
static void layout() { static pid_t done; if (done == getpid()) return; done = getpid(); mkdir("s", 0755); mkdir("s/bin", 0755); mkdir("s/bin/kernels", 0755); mkdir("s/kernels", 0755); for (auto& f : files()) { unlink(("s/kernels/" + leaf(f)).c_str()); spit("s/bin/kernels/" + leaf(f), slurp(f) + "\n// beside\n"); } }
static std::string dev(std::pair<unsigned, unsigned> p) { return p.first == 99 ? "none" : "device " + std::to_string(p.second) + " of platform " + std::to_string(p.first); }
static void done(mc::Ctx& c, const std::string& x, bool big) { c.state(mc::hash_bytes(x.data(), x.size(), 5)); c.validated(); if (big) c.nontrivial(); if (c.want_sample()) c.sample(x); }
// machines and configuration files
static void machines(mc::Ctx& c) {
  unsigned np = c.range(0, 3, "platforms"); std::vector<unsigned> nd; for (unsigned i = 0; i < np; i++) nd.push_back(c.choose(3, "devices")); unsigned where = c.choose(4, "file"); static const char* LINES[] = {"opencl_platform=1", "opencl_device=1", "", "opencl_platform=0", "opencl_platform=2", "opencl_device=0", "opencl_device=2", "opencl_platform=4000000000", "opencl_device=4000000000"};
  std::vector<unsigned> ln; unsigned n = where ? c.range(0, c.thorough() ? 3 : 2, "lines") : 0; for (unsigned i = 0; i < n; i++) ln.push_back(c.choose(9, "line")); unsigned end = n ? c.choose(2, "end") : 0; c.shard(); layout(); reset();
  std::string text; unsigned p = 0, d = 0; for (unsigned i = 0; i < n; i++) { text += LINES[ln[i]]; if (i + 1 < n || end) text += "\n"; std::string l = LINES[ln[i]]; if (l.find("platform=") != std::string::npos) p = std::stoul(l.substr(l.find('=') + 1)); if (l.find("device=") != std::string::npos) d = std::stoul(l.substr(l.find('=') + 1)); }
  unlink("s/bin/config"); unlink("s/config"); std::string other = "opencl_platform=2\nopencl_device=1\n"; if (where == 1) spit("s/bin/config", text); if (where == 2) spit("s/config", text); if (where == 3) { spit("s/bin/config", text); spit("s/config", other); }
  S().machine.clear(); for (unsigned i = 0; i < np; i++) { S().machine.push_back({}); for (unsigned k = 0; k < nd[i]; k++) S().machine[i].push_back(k ? std::string(255, 'n') : "d" + std::to_string(i)); }
  std::string x = "platforms with"; for (unsigned k : nd) x += " " + std::to_string(k); x += " devices, configuration " + std::string(where == 0 ? "missing" : where == 1 ? "beside" : where == 2 ? "above" : "beside, another one above") + " '" + text + "'"; self = place_dir("s/bin/program"); asked = false; c.site(x); bool ok = start(); c.trans(); self.clear(); if (!asked) { reset(); return; }
  bool exists_ = p < np && d < nd[p]; CK(ok == exists_, exists_ ? "startup:refused" : "startup:missing", x + (exists_ ? ": start-up fails" : ": starts although there is no such device"));
  if (ok) { std::pair<unsigned, unsigned> want{p, d}; CK(S().context_device == want && S().context_platform == (long)p, "startup:device", x + ": the context is on " + dev(S().context_device)); CK(S().queue_device == want, "startup:device", x + ": the queue is on " + dev(S().queue_device)); CK(S().build_devices == (std::set<std::pair<unsigned, unsigned>>{want}), "startup:device", x + ": kernels are built for another device"); std::string nm = S().machine[p][d]; CK(printed.find("device: " + nm) != std::string::npos, "startup:name", x + ": another device is announced: " + printed); CK(S().sources.size() == files().size(), "startup:kernels", x + ": " + std::to_string(S().sources.size()) + " kernel files are compiled"); }
  reset(); done(c, x, np > 1 && n > 0); }
// where the kernels are
static void kernelfiles(mc::Ctx& c) {
  auto fs = files(); unsigned all = c.choose(3, "all"), k = c.choose(fs.size(), "file"), one = c.choose(4, "this"), k2 = c.choose(fs.size(), "second file"), two = c.choose(4, "second"); c.require(k2 > k || (k2 == 0 && two == 0)); c.shard(); layout(); reset(); std::vector<unsigned> at(fs.size(), all); at[k] = one; if (k2 > k) at[k2] = two; unlink("s/bin/config"); unlink("s/config");
  // 0 beside, 1 above, 2 both, 3 none
  std::string x = std::string("kernels ") + (all == 0 ? "beside" : all == 1 ? "above" : "in both places"); bool miss = false; for (size_t i = 0; i < fs.size(); i++) { std::string b = "s/bin/kernels/" + leaf(fs[i]), a = "s/kernels/" + leaf(fs[i]); if (at[i] == 0 || at[i] == 2) spit(b, slurp(fs[i]) + "\n// beside\n"); else unlink(b.c_str()); if (at[i] == 1 || at[i] == 2) spit(a, slurp(fs[i]) + "\n// above\n"); else unlink(a.c_str()); miss |= at[i] == 3; if (at[i] != all) x += ", " + leaf(fs[i]) + (at[i] == 0 ? " beside" : at[i] == 1 ? " above" : at[i] == 2 ? " in both" : " missing"); }
  self = place_dir("s/bin/program"); asked = false; c.site(x); bool ok = start(); c.trans(); self.clear(); auto src = S().sources; reset(); for (size_t i = 0; i < fs.size(); i++) { unlink(("s/kernels/" + leaf(fs[i])).c_str()); spit("s/bin/kernels/" + leaf(fs[i]), slurp(fs[i]) + "\n// beside\n"); } if (!asked) return;
  CK(ok == !miss, miss ? "startup:missing" : "startup:refused", x + (miss ? ": starts without it" : ": start-up fails")); if (ok) for (size_t i = 0; i < fs.size(); i++) { std::string t = slurp(fs[i]) + (at[i] == 1 ? "\n// above\n" : "\n// beside\n"); CK(std::count(src.begin(), src.end(), t) == 1, "startup:kernels", x + ": " + leaf(fs[i]) + " is not compiled from " + (at[i] == 1 ? "above" : "beside")); } done(c, x, miss || all); }
// every call of start-up fails once; the next start works
static void failing(mc::Ctx& c) {
  reset(); S().code = CL_OUT_OF_RESOURCES; static unsigned total; if (!total) { layout(); self = place_dir("s/bin/program"); start(); total = S().calls; self.clear(); reset(); } unsigned k = c.choose(total, "call"); static const int CODES[] = {CL_OUT_OF_RESOURCES, CL_INVALID_VALUE, CL_OUT_OF_HOST_MEMORY}; unsigned e = c.choose(3, "error"); static const unsigned LOG[] = {0, 100, 16382, 16383, 16384, 60000}; unsigned l = c.choose(6, "log"), level = c.choose(4, "level"); c.shard(); layout(); unlink("s/bin/config"); unlink("s/config"); reset(); S().fail_at = k + 1; S().code = CODES[e]; S().log = std::string(LOG[l], 'L'); S().machine = {{std::string(l == 5 ? 300 : 100, 'd')}};
  self = place_dir("s/bin/program"); asked = false; std::string x = "call " + std::to_string(k + 1) + " of start-up fails with " + std::to_string(CODES[e]) + ", a build log of " + std::to_string(LOG[l]) + ", level " + std::to_string(level); c.site(x); bool ok = start(level); std::string f = S().failed; c.trans(); x += " (" + f + ")"; self.clear(); bool info = f == "clGetDeviceInfo" || f == "clGetProgramBuildInfo" || f == "clFlush" || f == "clFinish"; CK(f.size(), "startup:calls", x); if (f == "clBuildProgram") { size_t n_ = std::count(printed.begin(), printed.end(), 'L'); CK(n_ >= LOG[l] && n_ < LOG[l] + 40, "startup:log", x + ": the build log is printed with " + std::to_string(n_) + " characters"); } CK(printed.find("XXXX") == std::string::npos, "startup:text", x + ": something is printed that nobody wrote: " + printed); CK(!ok || info, "startup:ignored", x + ": start-up goes on");
  reset(); self = place_dir("s/bin/program"); c.site(x + ", then another start"); CK(start(level) && S().context_device == (std::pair<unsigned, unsigned>{0, 0}), "startup:again", x + ": the next start fails"); c.trans(); self.clear(); reset(); done(c, x, true); }
// what is printed at which level
static void levels(mc::Ctx& c) {
  int lv = c.range(-1, 5, "level"); unsigned k = c.choose(7, "message"), cond = c.choose(2, "condition"); c.shard(); sys_init(); reset(); c.site("level " + std::to_string(lv)); std::ostringstream o, e; auto *ob = std::cout.rdbuf(o.rdbuf()), *eb = std::cerr.rdbuf(e.rdbuf()); bool ok = start(lv), thrown = false, other = false; o.str(""); e.str(""); static const char* N[] = {"error", "warning", "information", "debugging output", "result", "test result", "fatal error"};
  if (k == 6) { try { if (cond) FATAL("text " << 5) else other = true; } catch (std::runtime_error&) { thrown = true; } } else if (k == 0) { if (cond) LOGERROR << "text " << 5; else other = true; } else if (k == 1) { if (cond) LOGWARN << "text " << 5; else other = true; } else if (k == 2) { if (cond) LOGINFO << "text " << 5; else other = true; } else if (k == 3) { if (cond) LOGDEBUG << "text " << 5; else other = true; } else if (k == 4) { if (cond) LOGRESULT << "text " << 5 << LOGRESULTEND; else other = true; } else { if (cond) LOGTRESULT << "text " << 5 << LOGRESULTEND; else other = true; }
  std::cout.rdbuf(ob); std::cerr.rdbuf(eb); c.trans(); int lim = lv == -1 ? 2 : lv; bool show_ = k == 1 ? lim >= 1 : k == 2 ? lim >= 2 : k == 3 ? lim >= 3 : true, err = k < 2 || k == 6; std::string x = std::string("a ") + N[k] + " at level " + std::to_string(lv) + (cond ? "" : ", not reached"); CK(ok, "startup:refused", x); CK(other == !cond, "log:else", x + ": the other branch is " + (other ? "" : "not ") + "taken"); auto n = [](const std::string& s) { size_t q = 0, a = 0; while ((a = s.find("text 5", a)) != std::string::npos) { q++; a++; } return q; };
  CK(n(o.str()) == (cond && show_ && !err) && n(e.str()) == (cond && show_ && err), "log:printed", x + ": printed '" + o.str() + "' and as an error '" + e.str() + "'"); CK(thrown == (k == 6 && cond), "log:exception", x); System::log_level = 0; done(c, x, cond); }
// every OpenCL call of a computation fails once: an exception, or the right result
static void faults(mc::Ctx& c, unsigned b, const Cfg& g, const std::string& name, unsigned wheres, double tol, unsigned part = 0, unsigned parts = 1, unsigned lates = 2) {
  std::string d = name; for (unsigned x : g) d += " " + std::to_string(x); c.site(d); Out want = ask(b, g); if (want.refused) { c.validated(); return; }
  for (unsigned w = 0; w < wheres; w++) for (unsigned late = lates == 1; late < (lates ? 2 : 1); late++) { uint64_t total = 1; for (uint64_t k = 0; k <= total; k++) { if (k && k % parts != part) continue; reset(); S().late = late; S().fail_at = k; std::string x = d + ": placement " + std::to_string(w) + (late ? ", late" : "") + (k ? ", OpenCL call " + std::to_string(k) + " fails" : ""); c.site(x); Out o; bool thrown = false; try { o = compute(b, g, w); } catch (std::runtime_error&) { thrown = true; } std::string f = S().failed, pr = S().problem; uint64_t calls = S().calls; c.trans(); if (!k) { total = calls; CK(!thrown, "fault:exception", x + ": an exception ends it"); } x += f.size() ? " (" + f + ")" : ""; reset(); CK(pr.empty(), "fault:" + pr.substr(0, pr.find(':')), x + ": " + pr);
    if (!thrown) { bool same = o.refused == want.refused && o.v.size() == want.v.size(); for (size_t i = 0; same && i < o.v.size(); i++) { double p = o.v[i], q = want.v[i]; same = p == q || (std::isnan(p) && std::isnan(q)) || std::fabs(p - q) <= tol * std::max(1.0, std::fabs(q)); } CK(same, "fault:ignored", x + ": the result is wrong and nothing says so"); } c.count(thrown ? "reported" : k ? "harmless" : "healthy"); } }
  c.state(mc::hash_bytes(d.data(), d.size(), 1)); c.nontrivial(); c.validated(); if (c.want_sample()) c.sample(d); }
static void layerfaults(mc::Ctx& c) { static const std::vector<Kind> K = kinds(); Cfg g{c.choose((unsigned)K.size(), "layer"), (unsigned)c.range(1, 2, "samples"), (unsigned)c.range(2, c.thorough() ? 4 : 3, "w"), (unsigned)c.range(2, 3, "h"), 2u, 1u}; c.shard(); sys_init(); faults(c, 0, g, K[g[0]].name, c.thorough() ? 8 : 4, 1e-4); }
static void mathfaults(mc::Ctx& c) { Cfg g{c.choose(9, "operation"), (unsigned)c.range(1, 3, "a"), 2u, (unsigned)c.range(1, 2, "d")}; g.push_back(c.choose(g[0] < 4 ? 32 : 9, "flags")); c.shard(); sys_init(); faults(c, 1, g, "operation", 8, 1e-5); }
static void tensorfaults(mc::Ctx& c) { unsigned n = c.range(1, c.thorough() ? 4 : 3, "length"); Cfg g; for (unsigned i = 0; i < n; i++) g.push_back(c.choose(17, "operation")); c.shard(); sys_init(); faults(c, 3, g, "tensors", 1, 0); }
static void trainfaults(mc::Ctx& c) { Cfg g{c.choose(4, "network"), c.choose(2, "method"), 1u + c.choose(2, "classes"), 1, c.choose(2, "optimisation")}; unsigned late = c.choose(2, "late"), part = c.choose(16, "part"); c.require(c.thorough() || (g[1] == g[4] && g[2] == late + 1)); c.shard(); sys_init(); faults(c, 2, g, "training", 1, 1e-4, part, 16, late); }
MC_MAIN({"machines", machines}, {"kernelfiles", kernelfiles}, {"failing", failing}, {"levels", levels}, {"mathfaults", mathfaults}, {"tensorfaults", tensorfaults}, {"layerfaults", layerfaults}, {"trainfaults", trainfaults})
#endif
