#!/usr/bin/env python3
"""Content-addressed builder: compiles /repo's current sources (and the drivers of /verif/harness) into /verif/build.
An object is reused only when its flags, its source text and the text of every repository header are the same."""
import glob, hashlib, os, re, subprocess, sys, fcntl, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CN24_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = ["include", "include/cn24"] + ["include/cn24/" + d for d in ("util", "net", "math", "factory")] + ["include/private"]
DEFS = ['-DBUILD_LINUX', '-DBUILD_POSIX', '-DBUILD_PNG', '-DBUILD_JPG', '-DGIT_SHA1="verif"', '-DBUILD_DATE="verif"']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,nonnull-attribute', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
FLAVOURS = {
    "asan": dict(cxx="g++", flags=['-O1', '-g1'] + SAN, link=['-lpng', '-ljpeg'], defs=[]),
    "atlas": dict(cxx="g++", flags=['-O1', '-g1', '-pthread'] + SAN, link=['-lpng', '-ljpeg', '-L/usr/lib/x86_64-linux-gnu/atlas', '-lcblas', '-latlas', '-pthread'], defs=['-DBUILD_BLAS', '-DBLAS_ATLAS']),
    "plain": dict(cxx="g++", flags=['-O1', '-g1'], link=['-lpng', '-ljpeg'], defs=[]),
    # multi-threaded build: OpenMP code generation + memory access callbacks, both served by harness/omp_sched.cpp
    "omp": dict(cxx="g++", flags=['-O1', '-g1', '-fopenmp', '-fsanitize=thread'], link=['-lpng', '-ljpeg'], defs=[], nolink=['-fopenmp', '-fsanitize=thread']),
    # OpenCL build: the device is harness/cl_device.cpp, which runs the repository's kernels
    "gpu": dict(cxx="g++", flags=['-O1', '-g1'] + SAN, link=['-lpng', '-ljpeg'], defs=['-DBUILD_OPENCL', '-DCL_TARGET_OPENCL_VERSION=120', '-DCL_USE_DEPRECATED_OPENCL_1_1_APIS', '-DCL_USE_DEPRECATED_OPENCL_1_2_APIS']),
}
FLAVOURS["gpublas"] = dict(FLAVOURS["gpu"], defs=FLAVOURS["gpu"]["defs"] + ["-DBUILD_CLBLAS", "-I" + os.path.join(VERIF, "harness", "clblas")])

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()

def read(p):
    with open(p, "rb") as f: return f.read()

def tree_digest(root, pats):
    fs = sorted(set(f for pat in pats for f in glob.glob(os.path.join(root, pat), recursive=True) if os.path.isfile(f)))
    return sha(*[x for f in fs for x in (os.path.relpath(f, root), read(f))])

class BuildError(Exception): pass

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])

def compile_one(args):
    cmd, src, out = args
    tmp = out + ".%d.tmp" % os.getpid() + str(abs(hash(src)) % 100000)
    run(cmd + ["-c", src, "-o", tmp]); os.rename(tmp, out)

def objects(flavour, jobs, sources, extra_flags=(), extra_digest="", std="c++11"):
    fl = FLAVOURS[flavour]; od = os.path.join(BUILD, flavour); os.makedirs(od, exist_ok=True)
    hd = tree_digest(REPO, ["include/**/*", "src/**/*.h", "tools/*.h"])
    todo, outs = [], []
    for s in sources:
        flags = ["-std=" + std, "-w"] + fl["flags"] + list(extra_flags) + DEFS + fl["defs"] + ["-I" + os.path.join(REPO, i) for i in INC]
        out = os.path.join(od, os.path.basename(s) + "." + sha(" ".join([fl["cxx"]] + flags), read(s), hd, extra_digest)[:24] + ".o")
        outs.append(out)
        if not os.path.exists(out): todo.append(([fl["cxx"]] + flags, s, out))
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(compile_one, t) for t in todo]: f.result()
    return outs

def link(flavour, objs, out, extra=()):
    fl = FLAVOURS[flavour]
    name = out + "." + sha(*[os.path.basename(o) for o in objs], " ".join(extra))[:24]
    if not os.path.exists(name):
        lf = [f for f in fl["flags"] if f not in fl.get("nolink", [])]
        tmp = name + ".%d.tmp" % os.getpid()
        run([fl["cxx"]] + lf + ["-rdynamic"] + objs + ["-o", tmp] + fl["link"] + list(extra)); os.rename(tmp, name)
    return name

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True); self.f = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def lib_sources(): return sorted(glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True))

def kernels(flavour, jobs):
    # every kernel file as a C++ source: shim, text of the file, registration of its kernels
    od = os.path.join(BUILD, flavour, "src"); os.makedirs(od, exist_ok=True); kd = os.path.join(BUILD, flavour, "kernels"); os.makedirs(kd, exist_ok=True); out = []
    for f in sorted(glob.glob(os.path.join(REPO, "kernels", "*.cl"))):
        text = read(f).decode("latin-1"); names = re.findall(r"\b(?:__)?kernel\s+(?:__attribute__\s*\(\(.*?\)\)\s*)?void\s+(\w+)", re.sub(r"/\*.*?\*/|//[^\n]*", "", text, flags=re.S))
        t = '#include "cl_shim.h"\n#line 1 "%s"\n' % f + text + '\n#include "cl_device.h"\n' + "".join('static cld::Registration reg_%s("%s", &%s);\n' % (n, n, n) for n in names)
        for p, x in ((os.path.join(od, "kernel_" + os.path.basename(f) + ".cpp"), t), (os.path.join(kd, os.path.basename(f)), text)):
            if not os.path.exists(p) or read(p) != x.encode("latin-1"):
                with open(p, "w", encoding="latin-1") as g: g.write(x)
        out.append(os.path.join(od, "kernel_" + os.path.basename(f) + ".cpp"))
    return objects(flavour, jobs, out, ["-I" + os.path.join(VERIF, "harness"), "-fno-sanitize=all", "-fsanitize=thread"], tree_digest(os.path.join(VERIF, "harness"), ["cl_*.h"]), "c++17")

def harness(name, flavour, jobs=8, extra_src=(), link_extra=()):
    with Lock():
        hsrc = os.path.join(VERIF, "harness", name + ".cpp")
        if flavour == "omp": extra_src = tuple(extra_src) + ("omp_sched.cpp",); link_extra = tuple(link_extra) + ("-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-ldl")
        hdig = tree_digest(os.path.join(VERIF, "harness"), ["*.h", "clblas/*.h"])
        lib = objects(flavour, jobs, lib_sources())
        xf = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "tools")]
        if flavour == "omp": xf += ["-fno-sanitize=thread", "-fno-openmp", "-D_OPENMP_DRIVER"]
        if flavour in ("gpu", "gpublas"): extra_src = tuple(extra_src) + ("cl_device.cpp",); lib = lib + kernels(flavour, jobs); xf += ["-D_GPU_DRIVER"]
        src = [hsrc] + [os.path.join(VERIF, "harness", s) for s in extra_src]
        ho = objects(flavour, jobs, src, xf, hdig, "c++17")
        return link(flavour, ho + lib, os.path.join(BUILD, flavour, name), link_extra)

def tool(name, flavour, jobs=8):
    # a program of the repository, or "driver:<name>:<flavour>", one of the drivers
    if name.startswith("driver:"): return harness(name.split(":")[1], name.split(":")[2], jobs)
    # "fault:<program>": the program with file operations that can be made to fail
    # "spy:<program>": the program with the passes and statistics calls recorded
    fault = name.startswith("fault:"); spy = name.startswith("spy:"); name = name.split(":")[-1]
    with Lock():
        lib = objects(flavour, jobs, lib_sources())
        to = objects(flavour, jobs, [os.path.join(REPO, "tools", name + ".cpp")])
        if fault: to = to + objects(flavour, jobs, [os.path.join(VERIF, "harness", "iofault.cpp")], ["-fno-sanitize=all"], "", "c++17")
        if spy: to = to + objects(flavour, jobs, [os.path.join(VERIF, "harness", "benchspy.cpp")], [], "", "c++17")
        if spy: return link(flavour, to + lib, os.path.join(BUILD, flavour, "spy_" + name), ["-Wl,--wrap=_ZN4Conv8NetGraph11FeedForwardEv,--wrap=_ZN4Conv8NetGraph13BackPropagateEv,--wrap=_ZN4Conv14StatAggregator6UpdateEjd,--wrap=_ZN4Conv14StatAggregator14StartRecordingEv,--wrap=_ZN4Conv14StatAggregator13StopRecordingEv"])
        return link(flavour, to + lib, os.path.join(BUILD, flavour, ("fault_" if fault else "tool_") + name), ["-ldl"] if fault else ())

if __name__ == "__main__":
    print(harness(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "asan"))
