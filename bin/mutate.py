#!/usr/bin/env python3
"""mutate.py LANE LANES [PER_FILE] [SALT] [FILE...]: mutation sweep. Applies single small changes to a scratch copy of /repo's
sources and runs the checks responsible for the file; survivors are listed in /tmp/mut/survivors. A development aid, no check."""
import os, random, re, subprocess, sys, json, time, shutil, tempfile, signal
lane, lanes = int(sys.argv[1]), int(sys.argv[2]); per = int(sys.argv[3]) if len(sys.argv) > 3 else 10; salt = sys.argv[4] if len(sys.argv) > 4 else "1"; only = sys.argv[5:]
V = "/tmp/mut/v%d" % lane; RP = "/tmp/mut/r%d" % lane; os.makedirs("/tmp/mut", exist_ok=True)
if not os.path.isdir(RP): subprocess.check_call(["git", "clone", "-q", "/repo", RP])
else: subprocess.check_call("git -C %s checkout -q -- . && git -C %s pull -q" % (RP, RP), shell=True)
os.makedirs(V, exist_ok=True); subprocess.check_call("cp -r /verif/bin /verif/harness %s/" % V, shell=True)
os.environ["CN24_REPO"] = RP; sys.path.insert(0, V + "/bin")
import build
from checks import CHECKS
MAP = {
 "src/util/Tensor.cpp": "C01 C02 C32 C06 C33", "src/util/CompressedTensor.cpp": "C03 C32 C04 C37 C02", "src/util/FloatTensorStream.cpp": "C04 C02 C32", "src/util/CompressedTensorStream.cpp": "C04 C32", "src/util/TensorStream.cpp": "C04",
 "src/util/ListTensorStream.cpp": "C05", "src/util/TensorStreamDataset.cpp": "C07 C28", "src/util/TensorStreamPatchDataset.cpp": "C08", "src/util/PNGUtil.cpp": "C06", "src/util/JPGUtil.cpp": "C06", "src/util/ConfigParsing.cpp": "C29", "src/util/StatAggregator.cpp": "C26", "src/util/CSVStatSink.cpp": "C26", "src/util/Segmentation.cpp": "C30",
 "src/math/TensorMath.cpp": "C16 C10 C33", "src/net/ConvolutionLayer.cpp": "C10 C31 C22 C23", "src/net/MaxPoolingLayer.cpp": "C11 C31", "src/net/AdvancedMaxPoolingLayer.cpp": "C11 C31 C23", "src/net/InputDownSamplingLayer.cpp": "C13 C31", "src/net/NonLinearityLayer.cpp": "C12 C31", "src/net/LocalResponseNormalizationLayer.cpp": "C12 C31", "src/net/HMaxActivationFunction.cpp": "C12 C31",
 "src/net/ConcatenationLayer.cpp": "C13 C31", "src/net/SumLayer.cpp": "C13 C31", "src/net/UpscaleLayer.cpp": "C13 C31", "src/net/ResizeLayer.cpp": "C13 C31", "src/net/SpatialPriorLayer.cpp": "C13 C31", "src/net/GradientAccumulationLayer.cpp": "C13 C31", "src/net/ActivationFunctions.cpp": "C12", "src/net/InputLayer.cpp": "C31", "src/util/Colorize.cpp": "C06",
 "src/net/ErrorLayer.cpp": "C15 C31", "src/net/DatasetInputLayer.cpp": "C09 C21 C22", "src/net/NetGraph.cpp": "C17 C18 C19 C38 C36", "src/net/NetGraphNode.cpp": "C17", "src/net/Trainer.cpp": "C20 C21 C34", "src/net/BinaryStatLayer.cpp": "C27 C31", "src/net/ConfusionMatrixLayer.cpp": "C27 C31", "src/net/LayerFactory.cpp": "C23 C24", "src/net/SimpleLayer.cpp": "C31 C12", 
 "src/factory/ConfigurableFactory.cpp": "C24 C25 C34", "src/util/KITTIData.cpp": "C07", "src/util/GradientTester.cpp": "C35", "tools/tensorStreamStats.cpp": "C36", "src/util/Init.cpp": "C26", "src/util/Log.cpp": "", "tools/trainNetwork.cpp": "C34", "tools/classifyImage.cpp": "C34", "tools/tensorTool.cpp": "C30", "tools/compressTensorStream.cpp": "C04", "tools/makeTensorStream.cpp": "C05", "tools/makeCompressedTensorStream.cpp": "C05", "tools/tensorStreamTool.cpp": "C02",
}
for k in os.listdir(RP + "/kernels"): MAP["kernels/" + k] = "C33"
SW = [("width", "height"), ("_x", "_y"), ("samples", "maps"), ("kx", "ky"), ("input", "output"), ("left", "top"), ("data", "delta"), ("training", "testing")]
def mutants(f):
    out = []; lines = open(os.path.join(RP, f), encoding="latin-1").read().split("\n"); com = False; off = 0; stack = []
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#if"): stack.append(("OPENCL" in s or "CLBLAS" in s) and not f.startswith("kernels") and "ndef" not in s)
        elif s.startswith("#else") and stack: stack[-1] = not stack[-1] and False
        elif s.startswith("#endif") and stack: stack.pop()
        if "/*" in s: com = True
        if com:
            if "*/" in s: com = False
            continue
        if any(stack) and "Tensor.cpp" not in f and "TensorMath" not in f: continue
        if not s or s.startswith(("//", "#", "LOG", "case ", "using", "*")) or re.search(r"LOG(INFO|DEBUG|ERROR|WARN|RESULT|TRESULT|TRACE)|ss <<|description|std::cout|#pragma|FATAL|namespace|GetStatusDescription", s): continue
        code = l.split("//")[0]; nostr = re.sub(r'"[^"]*"', lambda m: "\x01" * len(m.group()), code)
        def add(a, b, new, op): out.append((n, op, l[:a] + new + l[b:]))
        for m in re.finditer(r"(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])", nostr):
            if re.search(r"(template|vector|_cast|std::|pair|map|for \(auto|unique_ptr|numeric_limits)", nostr): continue
            for r in {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group()]: add(m.start(), m.end(), r, "rel")
        for m in re.finditer(r"(?<=[\w\)\]] )([+\-*/%])(?= [\w\(])|(?<=[\w\)\]])([+\-*/%])(?=[\w\(])", nostr):
            o = m.group(); add(m.start(), m.end(), {"+": "-", "-": "+", "*": "/", "/": "*", "%": "/"}[o], "arith")
        for m in re.finditer(r"\+=|-=", nostr): add(m.start(), m.end(), "=" if m.group() == "+=" else "+=", "assign")
        for m in re.finditer(r"&&|\|\|", nostr): add(m.start(), m.end(), "||" if m.group() == "&&" else "&&", "logic")
        for m in re.finditer(r"!(?=[\w\(])", nostr): add(m.start(), m.end(), "", "not")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", nostr): add(m.start(), m.end(), str(int(m.group()) + 1), "const"); (add(m.start(), m.end(), "0", "const0") if m.group() not in "0" else None)
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*)f?(?![\w.])", nostr): add(m.start(), m.end(), str(float(m.group().rstrip("f")) + 0.5), "fconst")
        for m in re.finditer(r"\b(true|false)\b", nostr): add(m.start(), m.end(), "false" if m.group() == "true" else "true", "bool")
        for m in re.finditer(r"[A-Za-z_]\w*", nostr):
            w = m.group()
            for a, b in SW:
                for p, q in ((a, b), (b, a)):
                    if p in w and q not in w: add(m.start(), m.end(), w.replace(p, q, 1), "swap"); break
        if s.endswith(";") and not s.startswith(("return", "break", "delete", "unsigned", "const", "datum ", "int ", "std::", "Tensor", "auto", "}", "bool ", "char", "double", "float", "size_t", "cl_")) and re.search(r"[=(]|\+\+|--", s) and nostr.count("(") == nostr.count(")"): out.append((n, "delete", "/* gone */;"))
        if re.match(r"if ?\(.*\)( \{)?$", s) and nostr.count("(") == nostr.count(")"): k = nostr.index("("); add(k, k + 1, "(false && ", "never"); add(k, k + 1, "(true || ", "always")
        if s in ("continue;", "break;"): out.append((n, "delete", "/* gone */;"))
    return out
todo = []
for f in sorted(MAP):
    if only and f not in only: continue
    if not MAP[f] or not os.path.exists(os.path.join(RP, f)): continue
    m = mutants(f); rnd = random.Random(salt + f); rnd.shuffle(m); n = per if per else len(m)
    n = max(n, int(len(m) * n / 150)) if per else n
    todo += [(f,) + x for x in m[:n]]
random.Random(salt).shuffle(todo)
if lane < 0: print(len(todo)); sys.exit()
subprocess.call([sys.executable, V + '/bin/setup.py'])
for pid in sorted(set(p for t in todo for p in MAP[t[0]].split())):
    for r in CHECKS[pid]['runs']:
        build.harness(r['harness'], r.get('flavour', 'asan'), 3, (), ())
        for k, t in r.get('tools', {}).items(): build.tool(t, r.get('flavour', 'asan'), 3)
time.sleep(2); T0 = int(time.time())
DONE = "/tmp/mut/done.%s" % salt; done = set(open(DONE).read().split("\n")) if os.path.exists(DONE) else set()
def sig(t): return json.dumps(t)
def drive(pid, limit):
    c = CHECKS[pid]
    for r in c["runs"]:
        if r.get("thorough_only"): continue
        W = tempfile.mkdtemp(prefix="mut", dir="/dev/shm")
        try:
            exe = build.harness(r["harness"], r.get("flavour", "asan"), 3, (), ())
            env = dict(os.environ, LC_ALL="C", HOME=W, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99")
            for k, t in r.get("tools", {}).items(): env[k] = build.tool(t, r.get("flavour", "asan"), 3)
            cmd = [exe, "--out", W, "--tier", "quick", "--seed", "1", "--workers", "2", "--deadline", str(limit), "--hang", "20"]
            if r.get("only"): cmd += ["--only", r["only"]]
            for l in open("/verif/known_findings.txt"):
                m = re.match(r"known: property=%s key=(\S+)" % pid, l)
                if m: cmd += ["--known", m.group(1)]
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit + 120)
            res = json.load(open(W + "/result.json"))
            if res["rc"]: return "%s %s" % (pid, res["violation"]["key"] if res["rc"] == 1 else "error " + str(res["error"])[:80])
            if res["capped"]: capped.append(pid)
        except build.BuildError as e: return "nobuild " + str(e)[-300:].replace("\n", " ")
        except subprocess.TimeoutExpired: return "%s timeout" % pid
        finally: shutil.rmtree(W, ignore_errors=True)
    return None
for i, t in enumerate(todo):
    if i % lanes != lane or sig(t) in done: continue
    if os.path.exists("/tmp/mut/stop"): break
    f, n, op, new = t; p = os.path.join(RP, f); src = open(p, encoding="latin-1").read(); L = src.split("\n"); old = L[n]; L[n] = new; open(p, "w", encoding="latin-1").write("\n".join(L)); t0 = time.time(); res = None; capped = []
    try:
        for pid in MAP[f].split():
            res = drive(pid, 150)
            if res: break
    except Exception as e: res = "exception %r" % e
    finally: open(p, "w", encoding="latin-1").write(src)
    open(DONE, "a").write(sig(t) + "\n")
    line = "%s:%d %s | %s | %s => %s %s%.0fs\n" % (f, n + 1, op, old.strip(), new.strip(), res, "capped:" + ",".join(capped) + " " if capped else "", time.time() - t0)
    open("/tmp/mut/log.%s" % salt, "a").write(line)
    if not res or "exception" in str(res): open("/tmp/mut/survivors.%s" % salt, "a").write(line)
    # keep the build directory small
    if i % 5 == 0: subprocess.call("find %s/build -type f -mmin +10 -newermt @%d -delete 2>/dev/null" % (V, T0), shell=True)
