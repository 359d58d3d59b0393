"""Helper for writing planted bugs: seedlib.bug(id, property, edits, demo, needs, breaks)."""
import json, os, subprocess, shutil
ROOT = "/verif/seeded"; WT = "/tmp/seedwt"
DEMO_SH = r'''#!/bin/bash
# builds and runs demo.cpp against the library in the working directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
inc="-I $repo/include -I $repo/include/cn24 -I $repo/include/cn24/util -I $repo/include/cn24/net -I $repo/include/cn24/math -I $repo/include/cn24/factory -I $repo/include/private"
g++ -std=c++11 -fno-access-control -w -DBUILD_LINUX -DBUILD_POSIX -DBUILD_PNG -DBUILD_JPG $inc "$here/demo.cpp" -o "$d/demo" -L "$repo/_build" -lcn24 -Wl,-rpath,"$repo/_build" || exit 3
cd "$d" && mkdir work && cd work && timeout 120 env REPO="$repo" ../demo
'''
ASAN_SH = r'''#!/bin/bash
# builds the sources in the working directory with the address sanitizer and runs demo.cpp
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
inc="-I $repo/include -I $repo/include/cn24 -I $repo/include/cn24/util -I $repo/include/cn24/net -I $repo/include/cn24/math -I $repo/include/cn24/factory -I $repo/include/private"
for f in @FILES@; do g++ -std=c++11 -fno-access-control -w -g -fsanitize=address -DBUILD_LINUX -DBUILD_POSIX $inc -c "$repo/$f" -o "$d/$(basename $f).o" || exit 3; done
g++ -std=c++11 -fno-access-control -w -g -fsanitize=address -DBUILD_LINUX -DBUILD_POSIX $inc "$here/demo.cpp" "$d"/*.o -o "$d/demo" -L "$repo/_build" -lcn24 -Wl,-rpath,"$repo/_build" || exit 3
cd "$d" && mkdir work && cd work && ASAN_OPTIONS=detect_leaks=0:detect_odr_violation=0 timeout 120 ../demo
'''
HEAD = r'''#include <cn24.h>
#include "Segmentation.h"
#include "ConfigParsing.h"
#include "StatAggregator.h"
#include "CSVStatSink.h"
#include "Init.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <fstream>
#include <sstream>
#include <set>
#include <vector>
#include <string>
#include <algorithm>
using namespace Conv;
static bool Link(Layer& layer, std::vector<CombinedTensor*> in, std::vector<CombinedTensor*> out, NetStatus* status = nullptr) { return layer.Connect(in, out, status); }
#define REQUIRE(cond) do { if (!(cond)) { std::printf("failed: %s (line %d)\n", #cond, __LINE__); return 1; } } while (0)
'''
DATA = r'''
struct Data : Dataset {
  unsigned w, h, nt, ne; Method me; float weight;
  Data(unsigned w, unsigned h, unsigned nt, unsigned ne, Method me = FCN, float weight = 1) : w(w), h(h), nt(nt), ne(ne), me(me), weight(weight) {}
  Task GetTask() const { return SEMANTIC_SEGMENTATION; }
  Method GetMethod() const { return me; }
  unsigned GetWidth() const { return w; }
  unsigned GetHeight() const { return h; }
  unsigned GetInputMaps() const { return 1; }
  unsigned GetLabelMaps() const { return 2; }
  unsigned GetClasses() const { return 2; }
  std::vector<std::string> GetClassNames() const { return {"a", "b"}; }
  std::vector<unsigned> GetClassColors() const { return {1u, 2u}; }
  std::vector<datum> GetClassWeights() const { return {1, 1}; }
  unsigned GetTrainingSamples() const { return nt; }
  unsigned GetTestingSamples() const { return ne; }
  bool SupportsTesting() const { return ne > 0; }
  bool Get(bool t, Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) {
    Tensor* all[4] = {&d, &l, &h, &w};
    for (int k = 0; k < 4; k++) { size_t n = all[k]->elements() / all[k]->samples(); for (size_t e = 0; e < n; e++) (*all[k])[s * n + e] = k == 3 ? weight : 0.25f * (float)((e * 7 + i * 3 + k + (t ? 5 : 0)) % 9) - 1; }
    if (d.elements()) d[s * (d.elements() / d.samples())] = i + 1; // marks the sample
    return true;
  }
  bool GetTrainingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) { return i < nt && Get(false, d, l, h, w, s, i); }
  bool GetTestingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) { return i < ne && Get(true, d, l, h, w, s, i); }
};
'''
def prep():
    if not os.path.isdir(WT): subprocess.check_call(["git", "clone", "-q", "/repo", WT])
    else:
        subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."]); subprocess.check_call(["git", "-C", WT, "pull", "-q"])
def bug(id, prop, edits, demo, needs, breaks, asan=None, data=False, sh=None):
    """edits: list of (file, old, new[, occurrence])"""
    prep()
    for e in edits:
        p = os.path.join(WT, e[0]); s = open(p).read(); n = s.count(e[1]); k = e[3] if len(e) > 3 else 0
        assert n >= 1 and (n == 1 or len(e) > 3), (id, e[0], e[1], n)
        i = -1
        for _ in range(k + 1): i = s.index(e[1], i + 1)
        s = s[:i] + e[2] + s[i + len(e[1]):]; open(p, "w").write(s)
    d = os.path.join(ROOT, id); os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", WT, "diff"]); open(d + "/patch.diff", "wb").write(diff)
    # the removed lines must be lines of the original repository
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
    f = sh or (ASAN_SH.replace("@FILES@", " ".join(asan)) if asan else DEMO_SH)
    open(d + "/demo.sh", "w").write(f); os.chmod(d + "/demo.sh", 0o755)
    if demo is not None: open(d + "/demo.cpp", "w").write(HEAD + (DATA if data else "") + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1); open(d + "/meta.json", "a").write("\n")
    root = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
    touched = []
    for line in diff.decode(errors="replace").splitlines():
        if line.startswith("--- a/"): fn = line[6:]
        elif line.startswith("@@"): ln = int(line.split()[1].split(",")[0][1:]) - 1
        elif line.startswith("-") and not line.startswith("---"):
            ln += 1; bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", "-L%d,%d" % (ln, ln), fn], text=True)
            touched.append(bl.startswith("^"))
        elif line.startswith(" "): ln += 1
    print(id, prop, "original lines: %d of %d" % (sum(touched), len(touched)))
