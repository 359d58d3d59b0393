// C26: the statistics aggregator and its sinks
#include "util.h"
#include <chrono>
// time only passes between operations
static long fake_now = 1000, fake_calls = 0;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { fake_calls++; return time_point(std::chrono::seconds(fake_now)); } } } }
struct Report { HardcodedStats hc; std::vector<Stat> stats; };
struct Sink : StatSink { std::vector<StatDescriptor*> d; unsigned inits = 0; std::vector<std::string> exps; std::vector<Report> reports;
  void Initialize(std::vector<StatDescriptor*>& s) override { d = s; inits++; } void SetCurrentExperiment(std::string e) override { exps.push_back(e); }
  void Process(HardcodedStats& h, std::vector<Stat*>& s) override { Report r; r.hc = h; for (auto* q : s) r.stats.push_back(*q); reports.push_back(r); } };
static const char* DESC[] = {"Sum, of (things)", "Last", "Count 1/pixel", "a\"b\nc"};
// kinds: 0 sum, null until updated; 1 last value; 2 count scaled in the report; 3 never null, negative sum
static StatDescriptor* descriptor(int kind) { StatDescriptor* d = new StatDescriptor(); d->description = DESC[kind]; d->unit = "u"; d->nullable = kind != 3;
  d->init_function = [kind](Stat& s) { s.is_null = kind != 3; s.value = 0; };
  d->update_function = [kind](Stat& s, double v) { s.is_null = false; if (kind == 0) s.value += v; else if (kind == 1) s.value = v; else if (kind == 2) s.value += 1; else s.value -= v; };
  d->output_function = [kind](HardcodedStats&, Stat& s) -> Stat { Stat r = s; if (kind == 2) r.value = s.value * 10; return r; }; return d; }
struct Val { bool null; double v; };
struct Model { int state = 0; std::vector<int> kinds; std::vector<Val> vals; std::vector<Val> out; long since = 0; double elapsed = 0; bool training = false; std::string exp = "unnamed";
  Val zero(int k) { return Val{k != 3, 0}; }
  void reg(int k) { kinds.push_back(k); vals.push_back(zero(k)); }
  void reset() { if (state != 1) return; elapsed = 0; for (size_t i = 0; i < kinds.size(); i++) vals[i] = zero(kinds[i]); }
  void update(size_t i, double v) { if (state != 2 || i >= kinds.size()) return; Val& x = vals[i]; x.null = false; int k = kinds[i]; if (k == 0) x.v += v; else if (k == 1) x.v = v; else if (k == 2) x.v += 1; else x.v -= v; }
  std::vector<Val> report() { std::vector<Val> o = vals; for (size_t i = 0; i < o.size(); i++) if (kinds[i] == 2) o[i].v *= 10; return o; } };
struct World {
  mc::Ctx& c; StatAggregator* A; Model m; std::vector<std::unique_ptr<StatDescriptor>> descs; std::vector<std::unique_ptr<Sink>> sinks; std::vector<size_t> seen, seen_exp, seen_init; NetStatus st; std::string x; unsigned updates = 0, reports = 0; bool thirds = false;
  World(mc::Ctx& c) : c(c) { sys_init(); fresh_stats(); A = System::stat_aggregator; fake_now = 1000; st.SetIsTesting(true); }
  void stat(int k) { descs.emplace_back(descriptor(k)); unsigned id = A->RegisterStat(descs.back().get()); m.reg(k); CK(id == m.kinds.size() - 1 && descs.back()->stat_id == id, "stats:id", x); }
  void sink() { sinks.emplace_back(new Sink()); A->RegisterSink(sinks.back().get()); bool late = m.state != 0; seen.push_back(0); seen_exp.push_back(late); seen_init.push_back(late); }
  void init() { if (m.state == 0) { m.state = 1; for (size_t i = 0; i < sinks.size(); i++) { seen_exp[i]++; seen_init[i]++; } } A->Initialize(); }
  void report() { for (size_t i = 0; i < sinks.size(); i++) { Sink& s = *sinks[i]; seen[i]++; CK(s.reports.size() == seen[i], "stats:report-count", x + ": sink " + std::to_string(i) + " got " + std::to_string(s.reports.size()) + " reports, expected " + std::to_string(seen[i])); Report& r = s.reports.back(); std::vector<Val> e = m.report(); CK(r.stats.size() == e.size(), "stats:report-size", x + ": " + std::to_string(r.stats.size()) + " values");
      for (size_t k = 0; k < e.size(); k++) { CK(r.stats[k].is_null == e[k].null, "stats:null", x + ": statistic " + std::to_string(k) + (e[k].null ? " is reported without a value" : " is missing")); CK(e[k].null || r.stats[k].value == e[k].v, "stats:value", x + ": statistic " + std::to_string(k) + " is " + fmt(r.stats[k].value) + ", expected " + fmt(e[k].v)); }
      CK(r.hc.is_training == m.training && r.hc.iterations == 0 && r.hc.weights == 0, "stats:hardcoded", x); CK(r.hc.seconds_elapsed == m.elapsed || fake_calls == 0, "stats:elapsed", x + ": elapsed " + fmt(r.hc.seconds_elapsed) + " expected " + fmt(m.elapsed)); CK(r.hc.current_experiment == m.exp, "stats:experiment", x + ": experiment " + r.hc.current_experiment); } reports++; }
  void stop() { if (m.state == 2) { m.state = 1; m.elapsed += fake_now - m.since; } A->StopRecording(); }
  void start() { if (m.state == 1) { m.state = 2; m.since = fake_now; } A->StartRecording(); }
  void op(unsigned k, unsigned arg) { fake_now += 1 + arg; c.trans();
    switch (k) {
      case 0: x += " start"; start(); break;
      case 1: x += " stop"; stop(); break;
      case 2: x += " reset"; m.reset(); A->Reset(); break;
      case 3: { x += " update" + std::to_string(arg); static const double SC[] = {1, 1e-20, 3e9}; double v = (1.5 + updates * 0.25) * (thirds ? SC[updates % 3] / 3 : 1); if (updates % 3 == 2) v = -v; updates++; m.update(arg, v); A->Update(arg, v); break; }
      case 4: { x += " snapshot"; bool rec = m.state == 2; if (rec) m.elapsed += fake_now - m.since; A->Snapshot(); if (rec) { report(); m.state = 1; m.reset(); m.state = 2; m.since = fake_now; } break; }
      case 5: x += " generate"; A->Generate(); if (m.state != 0) report(); break;
      case 6: { std::string e = arg ? "second" : "first"; x += " experiment " + e; A->SetCurrentExperiment(e); if (m.state == 1) { m.exp = e; for (size_t i = 0; i < sinks.size(); i++) seen_exp[i]++; } break; }
      case 7: x += " mode"; m.training = !m.training; st.SetIsTesting(!m.training); break;
      case 8: x += " stat" + std::to_string(arg); stat(arg); break;
      case 9: x += " sink"; sink(); break;
      case 10: x += " init"; init(); break; }
    for (size_t i = 0; i < sinks.size(); i++) { CK(sinks[i]->reports.size() == seen[i], "stats:report-count", x + ": unexpected or missing report"); CK(sinks[i]->exps.size() == seen_exp[i] && sinks[i]->inits == seen_init[i], "stats:sink-setup", x + ": sink " + std::to_string(i) + " is initialised " + std::to_string(sinks[i]->inits) + " times and told " + std::to_string(sinks[i]->exps.size()) + " experiments"); CK(seen_exp[i] == 0 || sinks[i]->exps.back() == m.exp, "stats:sink-experiment", x); }
    uint64_t h = m.state * 4 + m.training; for (auto& v : m.vals) h = mc::mix(h, v.null ? 1 : mc::hash_bytes(&v.v, 8)); c.state(mc::mix(h, (uint64_t)m.elapsed)); }
};
static void session(mc::Ctx& c) { unsigned ns = c.range(0, 3, "statistics"), nk = c.range(1, 2, "sinks"), base = c.range(0, 1, "kinds"); static const unsigned OPS[][2] = {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {3, 1}, {4, 0}, {5, 0}, {3, 7}, {6, 0}, {7, 0}, {6, 1}}; unsigned depth = c.thorough() ? 7 : 6, nops = c.thorough() ? 11 : 10; if (!c.thorough() && (ns != 2 || nk != 1)) depth = 5; unsigned first = c.choose(nops, "op"); c.shard(); c.site("session");
  World w(c); w.x = std::to_string(ns) + " statistics, " + std::to_string(nk) + " sinks:"; if (nk > 1) w.sink(); for (unsigned i = 0; i < ns; i++) w.stat((i * 3 + base * 2) % 4); w.sink(); w.init(); for (unsigned i = 0; i < depth; i++) { unsigned k = i ? c.choose(nops, "op") : first; w.op(OPS[k][0], OPS[k][1]); }
  c.validated(); if (w.reports && w.updates) c.nontrivial(); if (c.want_sample()) c.sample(w.x); }
// many statistics, sinks, updates or reports
static void large(mc::Ctx& c) { unsigned ns = 3, nk = 2, up = 3, rep = 2; grow(c, {&ns, &nk, &up, &rep}); c.shard(); c.site("large"); World w(c); for (unsigned i = 0; i < ns; i++) w.stat(i % 4); for (unsigned i = 0; i < nk; i++) w.sink(); w.x = std::to_string(ns) + " statistics " + std::to_string(nk) + " sinks " + std::to_string(up) + " updates " + std::to_string(rep) + " reports"; std::string x = w.x; w.op(10, 0); w.op(0, 0); for (unsigned r = 0; r < rep; r++) { for (unsigned u = 0; u < up; u++) for (unsigned i = 0; i < ns; i++) if ((i + u + r) % 3) w.op(3, i); w.x = x; w.op(r % 2 ? 4 : 5, 0); } c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(x); }
static void setup(mc::Ctx& c) { static const unsigned OPS[][2] = {{8, 0}, {8, 3}, {9, 0}, {10, 0}, {0, 0}, {3, 0}, {5, 0}, {2, 0}, {4, 0}, {6, 0}, {3, 1}}; unsigned depth = c.thorough() ? 7 : 6, nops = c.thorough() ? 11 : 9; unsigned a = c.choose(nops, "op"), b = c.choose(nops, "op"); c.shard(); c.site("setup"); World w(c); w.x = "setup:"; for (unsigned i = 0; i < depth; i++) { unsigned k = i == 0 ? a : i == 1 ? b : c.choose(nops, "op"); w.op(OPS[k][0], OPS[k][1]); } c.validated(); if (w.reports) c.nontrivial(); if (c.want_sample()) c.sample(w.x); }
static std::vector<std::string> cells(const std::string& l) { std::vector<std::string> v(1); for (char ch : l) if (ch == ',') v.emplace_back(); else v.back() += ch; return v; }
static std::string alnum(const char* s) { std::string o; for (; *s; s++) if (isalnum((unsigned char)*s)) o += *s; return o; }
// the CSV and console sinks
static void files(mc::Ctx& c) { unsigned ns = c.range(0, 3, "statistics"), base = c.choose(2, "kinds"), dir = c.choose(3, "directory"), depth = c.thorough() ? 6 : 5; static const unsigned OPS[][2] = {{0, 0}, {3, 0}, {3, 1}, {4, 0}, {5, 0}, {1, 0}, {7, 0}, {3, 2}}; unsigned first = c.choose(8, "op"); c.shard(); c.site("files"); static const char* EXPS[][4] = {{"a", "no/such/place", "b c", ""}, {"a", "a", "b c", "a"}}; auto& EXP = EXPS[dir == 2]; std::string x = std::to_string(ns) + " statistics" + (dir == 2 ? " with files of an earlier session" : dir ? "" : " without directory") + ":";
  if (exists("csv")) { std::string r = "rm -rf csv"; unlink("csv/a.csv"); unlink("csv/b c.csv"); unlink("csv/.csv"); unlink("csv/unnamed.csv"); rmdir("csv"); } if (dir) mkdir("csv", 0755); if (dir == 2) for (const char* f : {"csv/a.csv", "csv/b c.csv", "csv/unnamed.csv"}) std::ofstream(f) << "IsTraining,Epoch,Iterations,SecondsElapsed,\n1,2,3,4,\n1,2,3,5,\n";
  std::stringstream console; { World w(c); w.x = x; w.thirds = base == 0; CSVStatSink csv; ConsoleStatSink con; for (unsigned i = 0; i < ns; i++) w.stat((i + base * 2) % 4); w.sink(); w.A->RegisterSink(&csv); w.A->RegisterSink(&con); std::streambuf* ob = std::cout.rdbuf(console.rdbuf()); struct Back { std::streambuf* b; ~Back() { std::cout.rdbuf(b); } } back{ob}; w.init(); std::map<std::string, std::vector<std::pair<Report, std::vector<Val>>>> expect_; std::string file = "unnamed"; expect_[file]; unsigned nexp = 0; std::string want;
    for (unsigned i = 0; i < depth; i++) { unsigned k = i ? c.choose(9, "op") : first; size_t before = w.sinks[0]->reports.size(); if (k == 8) { std::string e = EXP[nexp++ % 4]; w.x += " experiment \"" + e + "\""; w.A->SetCurrentExperiment(e); if (w.m.state == 1) { w.m.exp = file = e; expect_[e].clear(); w.seen_exp[0]++; } continue; } console.str(""); w.op(OPS[k][0], OPS[k][1]); std::string out = console.str();
      if (w.sinks[0]->reports.size() > before) { Report r = w.sinks[0]->reports.back(); std::vector<Val> v; for (auto& s : r.stats) v.push_back(Val{s.is_null, s.value}); expect_[file].push_back({r, v}); for (size_t s = 0; s < v.size(); s++) { size_t at = out.find(w.descs[s]->description); CK((at != std::string::npos) == !v[s].null, "stats:console", w.x + ": console " + (v[s].null ? "reports a missing value" : "does not report a value")); if (!v[s].null) { double got = atof(out.c_str() + at + w.descs[s]->description.size() + 2); CK(std::fabs(got - v[s].v) <= 1e-5 * std::fabs(v[s].v) && out.find(w.descs[s]->unit, at) != std::string::npos, "stats:console", w.x + ": console reports " + fmt(got) + ", expected " + fmt(v[s].v)); } } } }
    for (auto& f : expect_) { std::string path = "csv/" + f.first + ".csv"; bool can = dir && f.first.find('/') == std::string::npos; CK(exists(path) == can, "stats:csv-file", w.x + ": " + path); if (!can) continue; std::vector<std::string> lines; std::string text = slurp(path), l; CK(text.size() && text.back() == '\n', "stats:csv-line", w.x); std::istringstream is(text); while (std::getline(is, l)) lines.push_back(l); CK(lines.size() == f.second.size() + 1, "stats:csv-lines", w.x + ": " + std::to_string(lines.size()) + " lines in " + path); auto head = cells(lines[0]); size_t n = head.size(); CK(n == 4 + std::max<size_t>(ns, 1), "stats:csv-header", w.x + ": " + lines[0]); CK(head[0] == "IsTraining" && head[1] == "Epoch" && head[2] == "Iterations" && head[3] == "SecondsElapsed", "stats:csv-header", w.x + ": " + lines[0]); for (size_t s = 0; s < ns; s++) CK(head[4 + s] == alnum(w.descs[s]->description.c_str()), "stats:csv-header", w.x + ": " + lines[0]);
      for (size_t r = 0; r < f.second.size(); r++) { auto row = cells(lines[r + 1]); auto& e = f.second[r]; CK(row.size() == n, "stats:csv-cells", w.x + ": " + lines[r + 1]); CK(row[0] == (e.first.hc.is_training ? "1" : "0") && row[1] == "0" && row[2] == "0" && std::fabs(atof(row[3].c_str()) - e.first.hc.seconds_elapsed) < 1e-9, "stats:csv-hardcoded", w.x + ": " + lines[r + 1]); for (size_t s = 0; s < ns; s++) CK(e.second[s].null ? row[4 + s].empty() : !row[4 + s].empty() && std::fabs(atof(row[4 + s].c_str()) - e.second[s].v) <= 1e-14 * std::fabs(e.second[s].v), "stats:csv-value", w.x + ": " + lines[r + 1]); } }
    x = w.x; if (w.reports) c.nontrivial(); }
  c.validated(); if (c.want_sample()) c.sample(x); }
// the statistics of layers that come and go
template <HardcodedStats StatAggregator::* M> struct Open { friend HardcodedStats& hardcoded(StatAggregator& a) { return a.*M; } };
HardcodedStats& hardcoded(StatAggregator&); template struct Open<&StatAggregator::hardcoded_stats_>;
static void layers(mc::Ctx& c) { unsigned depth = c.thorough() ? 8 : 7, first = c.choose(6, "op"), second = c.choose(6, "op"); c.shard(); c.site("layers"); sys_init(); fresh_stats(); HMaxActivationFunction::stat_id_a = HMaxActivationFunction::stat_id_b = -1; StatAggregator* A = System::stat_aggregator; std::unique_ptr<Sink> sink(new Sink()); A->RegisterSink(sink.get()); A->Initialize(); struct L { std::unique_ptr<CombinedTensor> in; std::vector<CombinedTensor*> out; std::unique_ptr<HMaxActivationFunction> l; ~L() { if (l) delete l->weights_; l.reset(); for (auto* o : out) delete o; } }; std::vector<std::unique_ptr<L>> ls; bool known = false, rec = false; unsigned its = 0, n = 0, k = 0, gone = 0; double a = 0, b = 0; std::string x; uint64_t h = 0;
  for (unsigned i = 0; i < depth; i++) { unsigned op = i == 0 ? first : i == 1 ? second : c.choose(6, "op"); c.trans();
    switch (op) {
      case 0: { c.require(ls.size() < 2); x += " new"; std::unique_ptr<L> q(new L()); q->in.reset(new CombinedTensor(1, 2)); q->in->data.Clear(1); q->l.reset(new HMaxActivationFunction(1.f, 0.f)); NetStatus st; CK(q->l->CreateOutputs({q->in.get()}, q->out) && ((Layer*)q->l.get())->Connect({q->in.get()}, q->out, &st), "stats:layer-connect", x); k++; q->l->weights_->data[0] = 0.5f * k; q->l->weights_->data[1] = 4 - 0.25f * k; ls.push_back(std::move(q)); known = true; break; }
      case 1: c.require(!ls.empty()); x += " delete"; ls.erase(ls.begin()); gone++; break;
      case 2: x += rec ? " stop" : " start"; rec ? A->StopRecording() : A->StartRecording(); rec = !rec; break;
      case 3: { c.require(!ls.empty()); x += " forward"; L& q = *ls.back(); q.l->FeedForward(); if (rec) { a += q.l->weights_->data[0]; b += q.l->weights_->data[1]; n++; } break; }
      case 4: x += " iteration"; hardcoded(*A).iterations++; its++; break;
      case 5: { x += " report"; A->Generate(); CK(!sink->reports.empty(), "stats:report-count", x); Report& r = sink->reports.back(); CK(r.stats.size() == (known ? 2u : 0u), "stats:layer-count", x + ": " + std::to_string(r.stats.size()) + " statistics"); for (unsigned s = 0; s < r.stats.size(); s++) { if (!its) CK(r.stats[s].is_null, "stats:layer-null", x + ": an average over no iterations is reported"); else if (n) { double want = (s ? b : a) / its; CK(!r.stats[s].is_null && std::fabs(r.stats[s].value - want) <= 1e-9 * std::fabs(want), "stats:layer-value", x + ": statistic " + std::to_string(s) + " is " + fmt(r.stats[s].value) + ", expected " + fmt(want)); } } break; } }
    h = mc::mix(h, op); c.state(h); }
  c.validated(); if (n && gone) c.nontrivial(); if (c.want_sample()) c.sample("layers:" + x); ls.clear(); fresh_stats(); HMaxActivationFunction::stat_id_a = HMaxActivationFunction::stat_id_b = -1; }
MC_MAIN({"large", large}, {"session", session}, {"setup", setup}, {"files", files}, {"layers", layers})
