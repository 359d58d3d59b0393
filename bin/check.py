#!/usr/bin/env python3
"""check.py <property> : builds the property's drivers against /repo's working tree, explores, writes evidence/<id>.json.
exit 0 held, exit 1 + 'VIOLATION property=<id> replay=<path>', exit 2 error of the check."""
import json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS
VERIF = build.VERIF

def known(pid):
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=" + pid + " key="):
                k, _, d = l[len("known: property=" + pid + " key="):].partition(" :: ")
                r[k] = d
    return r

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1")); c = CHECKS[pid]; t0 = time.time()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base); rc = 0
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    kn = known(pid); hit = {}; tot = dict(executions=0, states=0, transitions=0, traces=0, nontrivial=0); runs = []; samples = []; capped = False; viol = 0; err = None
    jobs = os.cpu_count() or 8
    budget = c.get("budget", 420) if tier == "quick" else c.get("tbudget", 3600)
    try:
        for i, r in enumerate(c["runs"]):
            if r.get("thorough_only") and tier != "thorough": continue
            exe = build.harness(r["harness"], r.get("flavour", "asan"), jobs, r.get("extra_src", ()), r.get("link", ()))
            env = dict(os.environ, LC_ALL="C", HOME=work, VERIF_DIR=VERIF, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99")
            for k, tname in r.get("tools", {}).items(): env[k] = build.tool(tname, r.get("flavour", "asan"), jobs)
            out = os.path.join(work, "r%d" % i); os.makedirs(out)
            cmd = [exe, "--out", out, "--tier", tier, "--seed", str(seed), "--workers", str(r.get("workers", jobs)), "--deadline", str(max(20, budget - (time.time() - t0))), "--hang", str(r.get("hang", 40))]
            if r.get("only"): cmd += ["--only", r["only"]]
            for k in kn: cmd += ["--known", k]
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            try: res = json.load(open(os.path.join(out, "result.json")))
            except Exception as e: err = "no result (%s) rc=%s: %s" % (e, p.returncode, p.stdout[-2000:]); rc = 2; break
            for k in tot: tot[k] += res[k]
            capped = capped or res["capped"]; samples += res["samples"]
            for k, n in res["known"].items(): hit[k] = hit.get(k, 0) + n
            runs.append(dict(driver=r["harness"], build=r.get("flavour", "asan"), **{k: res[k] for k in ("executions", "states", "transitions", "traces", "capped", "wall", "counters", "restarts", "unreproduced")}))
            if res["rc"] == 1:
                rp = os.path.join(VERIF, "evidence", "replays", "%s-%s.txt" % (pid, r["harness"])); shutil.copy(res["violation"]["file"], rp)
                with open(rp, "a") as f: f.write("harness %s\nflavour %s\n" % (r["harness"], r.get("flavour", "asan")))
                print(res["violation"]["key"]); print(res["violation"]["message"][:3000])
                print("VIOLATION property=%s replay=%s" % (pid, rp)); viol += 1; rc = 1; break
            if res["rc"] != 0 or p.returncode != 0: err = res["error"] or "rc %s" % p.returncode; rc = 2; break
            if res["error"]: print("note:", res["error"][:2000])
    except build.BuildError as e:
        err = "build failed: " + str(e); rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for k, d in kn.items():
        if k in hit: print("KNOWN-FINDING: property=%s %s" % (pid, d or k))
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"], samples=(samples if len(samples) <= 10 else [samples[i * len(samples) // 10] for i in range(10)]) or ["none"],
               evaluations=tot["executions"], distinct_nontrivial=tot["nontrivial"], rule=c.get("rule", "an execution is one leaf of the driver's choice tree; non-trivial as marked by the driver"),
               exhaustive=not capped and rc == 0, runs=runs, known_findings_hit={k: hit[k] for k in hit}, bounds=c.get("bounds", ""))
    ev = dict(property=pid, tier=tier, seed=seed, level=c["level"], coverage=cov, assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=viol)
    if err: ev["error"] = err[:4000]
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if err: print("ERROR:", err[:4000])
    print("%s %s: executions=%d states=%d transitions=%d%s %.1fs rc=%d" % (pid, tier, tot["executions"], tot["states"], tot["transitions"], " CAPPED" if capped else "", time.time() - t0, rc))
    sys.exit(rc)
main()
