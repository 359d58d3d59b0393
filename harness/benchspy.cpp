// linked into the benchmark program: counts what it evaluates while it records, whatever it says it did
#include <cn24.h>
#include <cstdio>
#include <cstdlib>
#include <chrono>
using namespace Conv;
static double frames = 0, counted = 0; static bool on = false; static std::chrono::steady_clock::time_point t0; static unsigned passes = 0, backs = 0;
static FILE* out() { static FILE* f = getenv("BENCHSPY") ? fopen(getenv("BENCHSPY"), "a") : nullptr; return f; }
extern "C" {
void __real__ZN4Conv8NetGraph11FeedForwardEv(NetGraph*); void __wrap__ZN4Conv8NetGraph11FeedForwardEv(NetGraph* g) { if (on) { passes++; for (auto* n : g->GetNodes()) if (n->is_input) frames += n->output_buffers[0].combined_tensor->data.samples(); } __real__ZN4Conv8NetGraph11FeedForwardEv(g); }
void __real__ZN4Conv8NetGraph13BackPropagateEv(NetGraph*); void __wrap__ZN4Conv8NetGraph13BackPropagateEv(NetGraph* g) { if (on) backs++; __real__ZN4Conv8NetGraph13BackPropagateEv(g); }
void __real__ZN4Conv14StatAggregator6UpdateEjd(StatAggregator*, unsigned, double); void __wrap__ZN4Conv14StatAggregator6UpdateEjd(StatAggregator* a, unsigned i, double v) { if (on) counted += v; __real__ZN4Conv14StatAggregator6UpdateEjd(a, i, v); }
void __real__ZN4Conv14StatAggregator14StartRecordingEv(StatAggregator*); void __wrap__ZN4Conv14StatAggregator14StartRecordingEv(StatAggregator* a) { __real__ZN4Conv14StatAggregator14StartRecordingEv(a); on = true; t0 = std::chrono::steady_clock::now(); frames = counted = 0; passes = backs = 0; }
void __real__ZN4Conv14StatAggregator13StopRecordingEv(StatAggregator*); void __wrap__ZN4Conv14StatAggregator13StopRecordingEv(StatAggregator* a) { double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); __real__ZN4Conv14StatAggregator13StopRecordingEv(a); on = false; if (out()) { fprintf(out(), "%u %u %.17g %.17g %.17g\n", passes, backs, frames, counted, t); fflush(out()); } }
}
