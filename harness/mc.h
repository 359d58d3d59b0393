// Stateless bounded model checker for sequential drivers: enumerates every vector of choose() results.
// A driver ("body") is a function over a finite choice tree. The explorer runs the body once per leaf,
// depth first, simplest choices first, in several worker processes (sharded by the hash of the choices drawn
// before shard()). A crash (signal, sanitizer), a hang, an unexpected exception or a call to fail() is a violation;
// it is replayed alone, from its choice vector, before it is reported.
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <chrono>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern "C" inline const char* mc_asan_opts() { return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:quarantine_size_mb=4:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_abort=1"; }
extern "C" __attribute__((used, visibility("default"))) const char* __asan_default_options() { return mc_asan_opts(); }
extern "C" __attribute__((used, visibility("default"))) const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
#endif

namespace mc {

struct Skip {};
struct Fail { std::string key, msg; };

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h; }
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return mix(h, n); }

static const unsigned MAXCH = 8000;
struct Shm {
  volatile uint64_t execs, trans, traces, nontrivial, skipped, known_hits, start_ms;
  volatile uint32_t body, nch, done, capped, violation;
  uint16_t ch[MAXCH], ar[MAXCH];
  char site[400];
};

inline uint64_t now_ms() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

class Ctx;
struct Body { std::string name; std::function<void(Ctx&)> fn; };

class Ctx {
public:
  Shm* shm = nullptr; unsigned worker = 0, workers = 1; bool thorough_ = false, replay_ = false; long seed = 1;
  std::vector<uint16_t> ch, ar; size_t pos = 0; bool sharded = false;
  std::unordered_set<uint64_t> states; uint64_t local_samples = 0; std::vector<std::string> samples; std::string cur_sample;
  std::set<std::string> known; std::map<std::string, uint64_t> known_hit; std::string known_dir;
  std::vector<std::string> trace; std::string scratch; std::map<std::string, uint64_t> counters;

  bool thorough() const { return thorough_; }
  bool replay() const { return replay_; }
  unsigned choose(unsigned n, const char* label = "") {
    if (n == 0) throw std::logic_error(std::string("mc: choose(0) ") + label);
    unsigned v;
    if (pos < ch.size()) { if (ar[pos] != n && ar[pos] != 0) { fprintf(stderr, "mc: replay divergence at %zu (%s): arity %u vs %u\n", pos, label, ar[pos], n); _exit(3); }
      v = ch[pos]; ar[pos] = n; if (v >= n) { fprintf(stderr, "mc: replay choice out of range\n"); _exit(3); } }
    else { v = 0; ch.push_back(0); ar.push_back(n); }
    if (pos < MAXCH) { shm->ch[pos] = v; shm->ar[pos] = n; shm->nch = pos + 1; }
    pos++;
    if (replay_ && label[0]) trace.push_back(std::string(label) + "=" + std::to_string(v) + "/" + std::to_string(n));
    return v;
  }
  template <class T> const T& pick(const std::vector<T>& v, const char* label = "") { return v[choose((unsigned)v.size(), label)]; }
  long range(long lo, long hi, const char* label = "") { return lo + (long)choose((unsigned)(hi - lo + 1), label); }
  bool flip(const char* label = "") { return choose(2, label) == 1; }
  void skip() { throw Skip(); }
  void require(bool c) { if (!c) throw Skip(); }
  // all choices so far select the worker that runs this subtree
  void shard() {
    if (sharded || replay_) { sharded = true; nexec++; return; }
    sharded = true; uint64_t h = 77 + shm->body; for (size_t i = 0; i < pos; i++) h = mix(h, ch[i] + 1);
    if (h % workers != worker) throw Skip();
    nexec++;
  }
  void site(const std::string& s) { strncpy(shm->site, s.c_str(), sizeof(shm->site) - 1); shm->site[sizeof(shm->site) - 1] = 0; if (replay_) trace.push_back("@ " + s); }
  void trans(uint64_t n = 1) { shm->trans += n; }
  void state(uint64_t h) { if (states.size() < 20000000) states.insert(mix(h, shm->body)); }
  void nontrivial() { shm->nontrivial++; }
  void validated(uint64_t n = 1) { shm->traces += n; }
  void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
  uint64_t nexec = 0;
  bool want_sample() { return replay_ || (nexec & (nexec - 1)) == 0; } // executions 1, 2, 4, 8, ... of a worker
  void sample(const std::string& s) { if (replay_) trace.push_back(s); else if (want_sample()) cur_sample = s; }
  void note(const std::string& s) { if (replay_) trace.push_back(s); }
  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Fail{key, msg}; }
  void check(bool c, const std::string& key, const std::string& msg) { if (!c) throw Fail{key, msg}; }
  void begin() { pos = 0; sharded = false; trace.clear(); cur_sample.clear(); shm->nch = 0; shm->site[0] = 0; shm->start_ms = now_ms(); }
  bool advance() { // next vector; choices after pos are stale
    ch.resize(pos); ar.resize(pos);
    while (!ch.empty()) { if (ch.back() + 1u < ar.back()) { ch.back()++; return true; } ch.pop_back(); ar.pop_back(); }
    return false;
  }
};

inline std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
inline void silence() { if (getenv("MC_LOUD")) return; static NullBuf nb; std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); std::clog.rdbuf(&nb); }

struct Opt { std::string outdir = ".", replay; unsigned workers = 8; double deadline = 600; bool thorough = false; long seed = 1; std::vector<std::string> known; std::string only; double hang = 40; };

inline void rmdir_contents_hint() {}

// run one execution, returns 0 ok,1 skip,2 fail
inline int run_one(Ctx& c, Body& b, std::string& key, std::string& msg) {
  c.begin();
  try { b.fn(c); }
  catch (Skip&) { return 1; }
  catch (Fail& f) { key = f.key; msg = f.msg; return 2; }
  catch (std::exception& e) { key = std::string("exception:") + c.shm->site; msg = std::string("unexpected exception: ") + e.what() + " at " + c.shm->site; return 2; }
  return 0;
}

inline std::string vec(const uint16_t* p, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (i ? " " : "") + std::to_string(p[i]); return s; }

inline void write_replay(const std::string& path, const std::string& body, const std::vector<uint16_t>& ch, bool thorough, long seed, const std::string& key, const std::string& msg, const std::vector<std::string>& trace) {
  std::ofstream f(path); f << "body " << body << "\n" << "tier " << (thorough ? "thorough" : "quick") << "\n" << "seed " << seed << "\n" << "choices " << vec(ch.data(), ch.size()) << "\n" << "key " << key << "\n" << "message " << msg << "\n";
  for (auto& t : trace) f << "trace " << t << "\n";
}

inline void worker_main(std::vector<Body>& bodies, Opt& o, Shm* shm, unsigned w, uint32_t body0, std::vector<uint16_t> ch0, std::vector<uint16_t> ar0, bool resume, unsigned gen) {
  std::string log = o.outdir + "/w" + std::to_string(w) + ".log";
  int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); dup2(fd, 1); close(fd);
  silence();
  std::string scratch = o.outdir + "/scratch" + std::to_string(w); mkdir(scratch.c_str(), 0755); if (chdir(scratch.c_str())) _exit(4);
  Ctx c; c.shm = shm; c.worker = w; c.workers = o.workers; c.thorough_ = o.thorough; c.seed = o.seed; c.scratch = scratch;
  for (auto& k : o.known) c.known.insert(k);
  uint64_t tend = 0; { const char* e = getenv("MC_T_END"); if (e) tend = strtoull(e, 0, 10); }
  int code = 0; uint64_t n = 0;
  for (uint32_t bi = body0; bi < bodies.size(); bi++) {
    if (!o.only.empty() && bodies[bi].name != o.only) continue;
    shm->body = bi; c.ch.clear(); c.ar.clear();
    bool go = true;
    if (resume && bi == body0) { c.ch = ch0; c.ar = ar0; c.pos = c.ch.size(); go = c.advance(); }
    while (go) {
      std::string key, msg; int r = run_one(c, bodies[bi], key, msg);
      if (r == 1) { if (!c.sharded || c.pos > 0) shm->skipped++; }
      else { if (!c.sharded && w != 0) { } else shm->execs++; if (r == 0) { if (c.cur_sample.size()) c.samples.push_back("[" + bodies[bi].name + "] " + c.cur_sample); } }
      if (r == 2) {
        if (c.known.count(key)) { c.known_hit[key]++; shm->known_hits++; }
        else { write_replay(o.outdir + "/violation" + std::to_string(w), bodies[bi].name, std::vector<uint16_t>(c.ch.begin(), c.ch.begin() + c.pos), o.thorough, o.seed, key, msg, c.trace); shm->violation = 1; code = 1; goto out; }
      }
      if (++n % 64 == 0) {
        if (tend && now_ms() > tend) { shm->capped = 1; goto out; }
        if (n % 1024 == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); long rss = 0; FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) == 2) rss = b * 4; fclose(f); }
          if (rss > 1800000) { code = 77; goto out; } }
      }
      go = c.advance();
    }
  }
  shm->done = 1;
out: {
    std::ofstream s(o.outdir + "/states" + std::to_string(w) + "." + std::to_string(gen), std::ios::binary);
    for (uint64_t h : c.states) s.write((char*)&h, 8);
    std::ofstream t(o.outdir + "/samples" + std::to_string(w) + "." + std::to_string(gen)); for (size_t i = c.samples.size() > 6 ? c.samples.size() - 6 : 0; i < c.samples.size(); i++) t << c.samples[i].substr(0, 600) << "\n";
    std::ofstream k(o.outdir + "/known" + std::to_string(w) + "." + std::to_string(gen)); for (auto& x : c.known_hit) k << x.second << " " << x.first << "\n";
    std::ofstream cn(o.outdir + "/counters" + std::to_string(w) + "." + std::to_string(gen)); for (auto& x : c.counters) cn << x.second << " " << x.first << "\n";
  }
  _exit(code);
}

inline int shard_sub(std::vector<Body>& bodies, Opt o, unsigned w, const std::string& body, double limit);
inline int replay_main(std::vector<Body>& bodies, Opt& o) {
  std::ifstream f(o.replay); std::string line, body; std::vector<uint16_t> ch; bool shard = false; unsigned sw = 0;
  while (std::getline(f, line)) { if (line.rfind("body ", 0) == 0) body = line.substr(5); if (line.rfind("tier ", 0) == 0) o.thorough = line == "tier thorough"; if (line.rfind("seed ", 0) == 0) o.seed = atol(line.c_str() + 5);
    if (line.rfind("shard ", 0) == 0) { std::istringstream is(line.substr(6)); is >> sw >> o.workers; shard = true; }
    if (line.rfind("choices ", 0) == 0) { std::istringstream is(line.substr(8)); unsigned v; while (is >> v) ch.push_back(v); } }
  if (shard) { int r = shard_sub(bodies, o, sw, body, 850); std::cout << (r ? "REPLAY FAILS (sequence of executions of one worker)" : "REPLAY PASSES") << std::endl; return r; }
  Shm* shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (size_t i = 0; i < bodies.size(); i++) if (bodies[i].name == body) {
    std::string scratch = o.outdir + "/scratch-replay"; mkdir(scratch.c_str(), 0755); if (chdir(scratch.c_str())) return 4;
    Ctx c; c.shm = shm; c.replay_ = true; c.thorough_ = o.thorough; c.seed = o.seed; c.ch = ch; c.ar.assign(ch.size(), 0); shm->body = i; c.scratch = scratch;
    std::streambuf* ob = std::cout.rdbuf(); silence();
    static Ctx* pc; pc = &c;
    std::string key, msg; int r = run_one(c, bodies[i], key, msg);
    std::cout.rdbuf(ob);
    for (auto& t : c.trace) std::cout << t << "\n";
    if (r == 2) { std::cout << "REPLAY FAILS key=" << key << "\n" << msg << std::endl; return 1; }
    std::cout << "REPLAY PASSES" << std::endl; return 0;
  }
  std::cout << "no such body " << body << std::endl; return 4;
}

inline std::string tail(const std::string& path, size_t n) { std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str(); size_t p = s.find("ERROR:"); size_t q = s.find("runtime error"); size_t b = std::min(p, q); if (b != std::string::npos) { b = s.rfind('\n', b); if (b == std::string::npos) b = 0; return s.substr(b, n); } return s.size() > n ? s.substr(s.size() - n) : s; }

// returns: 0 passes, 1 fails, 2 hang, 3 crash
inline int replay_sub(const std::string& file, Opt& o, double limit, std::string& out) {
  std::string log = o.outdir + "/replay.log";
  pid_t p = fork();
  if (p == 0) { int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); dup2(fd, 2); execl("/proc/self/exe", "harness", "--replay", file.c_str(), "--out", o.outdir.c_str(), (char*)0); _exit(5); }
  uint64_t t0 = now_ms(); int st = 0;
  while (true) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; if (now_ms() - t0 > limit * 1000) { kill(p, SIGKILL); waitpid(p, &st, 0); out = "hang"; return 2; } usleep(10000); }
  out = tail(log, 3000);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
  return 3;
}

// re-run the whole sequence of executions of one worker in a fresh process; 1 if it fails again
inline int shard_sub(std::vector<Body>& bodies, Opt o, unsigned w, const std::string& body, double limit) {
  o.outdir += "/shard"; mkdir(o.outdir.c_str(), 0755); o.only = body;
  Shm* shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint32_t b0 = 0; std::vector<uint16_t> ch, ar; bool resume = false; uint64_t t0 = now_ms(); unsigned g = 0;
  while (true) {
    fflush(0); pid_t p = fork(); if (p == 0) { setenv("MC_T_END", "0", 1); worker_main(bodies, o, shm, w, b0, ch, ar, resume, g); }
    int st = 0; while (true) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; if (now_ms() - t0 > limit * 1000) { kill(p, SIGKILL); waitpid(p, &st, 0); return 0; } usleep(5000); }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { resume = true; b0 = shm->body; ch.assign(shm->ch, shm->ch + shm->nch); ar.assign(shm->ar, shm->ar + shm->nch); g++; continue; }
    return (WIFEXITED(st) && WEXITSTATUS(st) == 0) ? 0 : 1;
  }
}

inline int main_(int argc, char** argv, std::vector<Body> bodies) {
  Opt o; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") o.outdir = nx(); else if (a == "--replay") o.replay = nx(); else if (a == "--workers") o.workers = atoi(nx().c_str()); else if (a == "--deadline") o.deadline = atof(nx().c_str());
    else if (a == "--tier") o.thorough = nx() == "thorough"; else if (a == "--seed") o.seed = atol(nx().c_str()); else if (a == "--known") o.known.push_back(nx()); else if (a == "--only") o.only = nx(); else if (a == "--hang") o.hang = atof(nx().c_str()); }
  { char rp[4096]; if (o.outdir[0] != '/' && getcwd(rp, 4096)) o.outdir = std::string(rp) + "/" + o.outdir; }
  if (!o.replay.empty()) return replay_main(bodies, o);
  uint64_t t0 = now_ms(); { char b[32]; snprintf(b, 32, "%llu", (unsigned long long)(t0 + (uint64_t)(o.deadline * 1000))); setenv("MC_T_END", b, 1); }
  std::set<std::string> known(o.known.begin(), o.known.end()); std::map<std::string, uint64_t> known_hit;
  std::vector<Shm*> shm(o.workers); std::vector<pid_t> pid(o.workers, 0); std::vector<unsigned> gen(o.workers, 0); std::vector<bool> live(o.workers, true);
  auto start = [&](unsigned w, bool resume) {
    uint32_t b0 = resume ? shm[w]->body : 0; std::vector<uint16_t> ch(shm[w]->ch, shm[w]->ch + (resume ? shm[w]->nch : 0)), ar(shm[w]->ar, shm[w]->ar + (resume ? shm[w]->nch : 0));
    shm[w]->start_ms = now_ms(); unsigned g = gen[w]++; fflush(0); pid_t p = fork(); if (p == 0) { worker_main(bodies, o, shm[w], w, b0, ch, ar, resume, g); } pid[w] = p; };
  for (unsigned w = 0; w < o.workers; w++) { shm[w] = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); start(w, false); }
  int rc = 0; std::string vkey, vmsg, vfile; uint64_t unreproduced = 0, restarts = 0; std::string errmsg;
  auto killall = [&]() { for (unsigned w = 0; w < o.workers; w++) if (live[w]) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); live[w] = false; } };
  auto report = [&](unsigned w, const std::string& file, const std::string& key, const std::string& msg) -> bool {
    // replay before report
    std::string out; int ok = 0; int r = 0;
    for (int k = 0; k < 2; k++) { r = replay_sub(file, o, key.rfind("hang:", 0) == 0 ? 150 : 100, out); if (r != 0) ok++; }
    if (ok == 0) { // depends on earlier executions in the same process: replay the worker's whole sequence
      std::string bn = bodies[shm[w]->body].name; if (shard_sub(bodies, o, w, bn, 300) && shard_sub(bodies, o, w, bn, 300)) {
        std::ofstream a(file, std::ios::app); a << "shard " << w << " " << o.workers << "\n"; a.close();
        vkey = key; vmsg = msg + " (only after earlier executions in the same process)"; vfile = file; rc = 1; return true; } }
    if (ok < 2) { unreproduced++; errmsg = "not reproduced alone (" + std::to_string(ok) + "/2): " + key + " " + msg; if (ok == 0) return false; }
    vkey = key; vmsg = msg + (r == 3 ? "\n" + out : ""); vfile = file; rc = 1; (void)w; return true; };
  int alive = o.workers;
  while (alive > 0) {
    usleep(3000);
    for (unsigned w = 0; w < o.workers && rc == 0; w++) if (live[w]) {
      int st = 0; pid_t r = waitpid(pid[w], &st, WNOHANG);
      bool hang = false;
      if (r == 0) { uint64_t s = shm[w]->start_ms; if (now_ms() > s && now_ms() - s > o.hang * 1000) { hang = true; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); } else continue; }
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) { live[w] = false; alive--; continue; }
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 77) { restarts++; start(w, true); continue; }
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 1 && shm[w]->violation) {
        std::string f = o.outdir + "/violation" + std::to_string(w); std::ifstream in(f); std::string line, key, msg; bool inmsg = false; while (std::getline(in, line)) { if (line.rfind("key ", 0) == 0) key = line.substr(4); else if (line.rfind("message ", 0) == 0) { msg = line.substr(8); inmsg = true; } else if (inmsg && line.rfind("trace ", 0) != 0) msg += "\n" + line; }
        shm[w]->violation = 0;
        if (!report(w, f, key, msg)) { restarts++; start(w, true); }
        continue;
      }
      if (!hang && WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4)) { errmsg = "harness error in worker " + std::to_string(w) + ": " + tail(o.outdir + "/w" + std::to_string(w) + ".log", 1500); rc = 2; break; }
      // crash or hang
      std::string key = std::string(hang ? "hang:" : "crash:") + shm[w]->site; shm[w]->execs++;
      if (known.count(key)) { known_hit[key]++; restarts++; start(w, true); continue; }
      std::string f = o.outdir + "/violation" + std::to_string(w); std::string msg = hang ? "execution does not finish" : "crash: " + tail(o.outdir + "/w" + std::to_string(w) + ".log", 3000);
      write_replay(f, bodies[shm[w]->body].name, std::vector<uint16_t>(shm[w]->ch, shm[w]->ch + shm[w]->nch), o.thorough, o.seed, key, msg, {});
      if (!report(w, f, key, msg)) { restarts++; if (restarts > 200) { rc = 2; break; } start(w, true); }
    }
    if (rc) { killall(); break; }
  }
  // aggregate
  uint64_t ex = 0, tr = 0, tv = 0, nt = 0; bool capped = false; for (auto* s : shm) { ex += s->execs; tr += s->trans; tv += s->traces; nt += s->nontrivial; capped |= s->capped; }
  std::unordered_set<uint64_t> st; std::vector<std::string> smp; std::map<std::string, uint64_t> cnt;
  for (unsigned w = 0; w < o.workers; w++) for (unsigned g = 0; g < gen[w]; g++) { std::string suf = std::to_string(w) + "." + std::to_string(g);
    { std::ifstream s(o.outdir + "/states" + suf, std::ios::binary); uint64_t h; while (s.read((char*)&h, 8)) st.insert(h); }
    { std::ifstream s(o.outdir + "/samples" + suf); std::string l; while (std::getline(s, l)) if (smp.size() < 60 && l.size()) smp.push_back(l); }
    { std::ifstream s(o.outdir + "/known" + suf); std::string l; while (std::getline(s, l)) { size_t p = l.find(' '); known_hit[l.substr(p + 1)] += strtoull(l.c_str(), 0, 10); } }
    { std::ifstream s(o.outdir + "/counters" + suf); std::string l; while (std::getline(s, l)) { size_t p = l.find(' '); cnt[l.substr(p + 1)] += strtoull(l.c_str(), 0, 10); } } }
  if (smp.size() > 10) { std::vector<std::string> q; for (size_t i = 0; i < 10; i++) q.push_back(smp[i * smp.size() / 10]); smp = q; }
  std::ofstream j(o.outdir + "/result.json");
  j << "{\"rc\":" << rc << ",\"executions\":" << ex << ",\"transitions\":" << tr << ",\"traces\":" << tv << ",\"nontrivial\":" << nt << ",\"states\":" << st.size() << ",\"capped\":" << (capped ? "true" : "false") << ",\"restarts\":" << restarts << ",\"unreproduced\":" << unreproduced << ",\"error\":\"" << jesc(errmsg) << "\",\"wall\":" << (now_ms() - t0) / 1000.0;
  j << ",\"violation\":{\"key\":\"" << jesc(vkey) << "\",\"message\":\"" << jesc(vmsg) << "\",\"file\":\"" << jesc(vfile) << "\"},\"samples\":["; for (size_t i = 0; i < smp.size(); i++) j << (i ? "," : "") << "\"" << jesc(smp[i]) << "\"";
  j << "],\"counters\":{"; { bool f = true; for (auto& k : cnt) { j << (f ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; f = false; } }
  j << "},\"known\":{"; { bool f = true; for (auto& k : known_hit) { j << (f ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; f = false; } } j << "}}\n";
  j.close();
  return rc;
}
} // namespace mc
// checks a condition; the message is only built when it fails
#define CK(cond, key, ...) do { if (!(cond)) c.fail(key, __VA_ARGS__); } while (0)
#define MC_MAIN(...) int main(int argc, char** argv) { return mc::main_(argc, argv, std::vector<mc::Body>{__VA_ARGS__}); }
#endif
