#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: build, run the monitored workloads, judge, write evidence.

exit 0: held on everything explored; 1: VIOLATION printed; 3: no verdict (build or harness failure).
"""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
import props

VERIF = vbuild.VERIF
REPLAYS = os.path.join(VERIF, "replays")
MAX_DEATHS = 6
VARIANT = os.environ.get("VERIF_VARIANT", "san")  # by hand only: all workloads against another build


def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)\s+(.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def run_env(scratch):
    e = vbuild.env()
    e.update(NATRIUM_DIR=vbuild.REPO, NATRIUM_HOME=scratch, TMPDIR=scratch, HOME=scratch,
             OMP_NUM_THREADS="1", DEAL_II_NUM_THREADS="1", OMPI_MCA_ess_singleton_isolated="1",
             OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_ALLOW_RUN_AS_ROOT="1",
             OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_orte_tmpdir_base=scratch, OMPI_MCA_mpi_yield_when_idle="1", LC_ALL="C",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                          "detect_stack_use_after_return=1:handle_abort=0:malloc_context_size=12:"
                          "max_malloc_fill_size=1000000:malloc_fill_byte=255",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77")
    return e


def classify(err, rc):
    """the witness of a dead process -> (key, message)"""
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", err)
    if m:
        kind = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*", "N", m.group(3))[:80].strip().replace(" ", "_")
        f = re.sub(r".*/(natrium|harness|deal\.II|trilinos)/", r"\1/", m.group(1))
        return "ubsan:%s:%s" % (f, kind), m.group(0)[:400]
    m = re.search(r"ERROR: AddressSanitizer:? (\S+)", err)
    if m:
        fr = re.findall(r"#\d+ \S+ in (.+?) (\S+?)(?::\d+)*\s*$", err, re.M)
        fr = [(a, b) for a, b in fr if "/natrium/" in b] or fr
        where = re.sub(r"\(.*|<.*", "", fr[0][0]).strip().replace(" ", "_") if fr else "?"
        return "asan:%s:%s" % (m.group(1), where), err[err.find("ERROR: Addr"):][:1200]
    m = re.search(r"(\S+?):(\d+): (.*?): Assertion [`'](.*?)' failed", err)
    if m:
        return "assert:%s:%s" % (os.path.basename(m.group(1)),
                                 re.sub(r"\s+", "", m.group(4))[:60]), m.group(0)[:400]
    m = re.search(r"An error occurred in line <(\d+)> of file <(.*?)> in function\s+(.*?)\n.*?violated condition was:\s*(.*?)\n", err, re.S)
    if m:
        return "dealii:%s:%s" % (os.path.basename(m.group(2)), re.sub(r"\s+", "", m.group(4))[:60]), err[m.start():][:1500]
    m = re.search(r"terminate called.*", err)
    tail = err[-600:]
    return ("terminate" if m else "died:rc%d" % rc), tail


class Proc:
    pass


def run_one(prop, run, exe, shard, nshards, seed, tier, scratch_root, filt=None, frm=0):
    """one shard to the end, restarting after a death behind the case that died"""
    res = {"cases": [], "viol": [], "samples": [], "deaths": 0, "incomplete": None}
    np = run.get("np", 1)
    timeout = run.get("timeout", 150 if tier == "quick" else 3000)
    hang_retry = {}
    while True:
        scratch = tempfile.mkdtemp(prefix="s", dir=scratch_root)
        out = os.path.join(scratch, "out.jsonl")
        args = [exe, "--out", out, "--seed", str(seed), "--tier", tier, "--shard",
                "%d/%d" % (shard, nshards), "--from", str(frm), "--scratch", scratch]
        f = filt or run.get("filter")
        if f:
            args += ["--filter", f]
        args += run.get("args", [])
        if np > 1:
            args = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(np)] + args
        e = run_env(scratch)
        if np > 1:
            e.pop("OMPI_MCA_ess_singleton_isolated")
        timed_out = False
        with open(os.path.join(scratch, "err"), "wb") as fe, \
                open(os.path.join(scratch, "stdout"), "wb") as fo:
            p = subprocess.Popen(args, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=e,
                                 cwd=scratch, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                timed_out = True
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
        cur, done = None, False
        if os.path.exists(out):
            for l in open(out):
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                if r["t"] == "begin":
                    cur = r
                elif r["t"] == "end":
                    r["case"] = cur["case"]
                    res["cases"].append(r)
                    cur = None
                elif r["t"] == "viol":
                    r["run"] = run["harness"]
                    res["viol"].append(r)
                elif r["t"] == "sample":
                    res["samples"].append(r)
                elif r["t"] == "done":
                    done = True
        err = open(os.path.join(scratch, "err"), errors="replace").read()
        shutil.rmtree(scratch, ignore_errors=True)
        if done and rc == 0:
            return res
        if timed_out and done:
            return res
        if cur is None:
            if done:
                # all cases over, died on the way out: the sanitizer's word counts, else nothing
                if rc == 77:
                    k, msg = classify(err, rc)
                    res["viol"].append({"case": "exit", "key": k, "msg": msg, "run": run["harness"]})
                return res
            res["incomplete"] = "no case running, rc=%d: %s" % (rc, err[-1500:])
            return res
        if timed_out:
            n = hang_retry.get(cur["idx"], 0)
            hang_retry[cur["idx"]] = n + 1
            if n == 0:
                frm = cur["idx"]
                continue
            res["viol"].append({"case": cur["case"], "key": "hang:" + cur["case"], "run": run["harness"],
                                "msg": "no end within %d s, twice" % timeout})
        else:
            k, msg = classify(err, rc)
            if not k.startswith(("ubsan", "asan", "assert")):
                k += ":" + cur["case"]
            res["viol"].append({"case": cur["case"], "key": k, "msg": msg, "run": run["harness"]})
        res["deaths"] += 1
        if res["deaths"] >= MAX_DEATHS:
            return res
        frm = cur["idx"] + 1


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    filt = None
    if "--filter" in sys.argv:
        filt = sys.argv[sys.argv.index("--filter") + 1]
    spec = props.CHECKS[pid]
    seed += spec.get("seed_offset", 0)
    runs = [r for r in spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
    try:
        exes = {}
        for variant in sorted(set(r.get("variant", VARIANT) for r in runs)):
            names = sorted(set(r["harness"] for r in runs if r.get("variant", VARIANT) == variant))
            for n, x in vbuild.build_harnesses(variant, names).items():
                exes[(variant, n)] = x
    except vbuild.BuildError as e:
        print("build failed:\n" + str(e)[:4000])
        sys.exit(3)
    t_build = time.time() - t0
    scratch_root = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    results = []
    try:
        with concurrent.futures.ThreadPoolExecutor(vbuild.JOBS) as ex:
            futs = []
            for r in runs:
                n = r.get("shards", 8)
                for s in range(n):
                    futs.append(ex.submit(run_one, pid, r, exes[(r.get("variant", VARIANT), r["harness"])],
                                          s, n, seed, tier, scratch_root, filt))
            for f in futs:
                results.append(f.result())
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)
    incomplete = [r["incomplete"] for r in results if r["incomplete"]]
    cases = [c for r in results for c in r["cases"]]
    viols = [v for r in results for v in r["viol"]]
    if "only" in spec:
        viols = [v for v in viols if v["key"].startswith(spec["only"])]
    samples = [s for r in results for s in r["samples"]]
    evals = sum(c["evals"] for c in cases)
    distinct = sum(c["distinct"] for c in cases)
    metrics = {}
    for c in cases:
        for k, v in c["metrics"].items():
            if v is None:
                continue
            metrics[k] = max(metrics.get(k, v), v) if k.startswith("max:") else metrics.get(k, 0) + v
    known = [(k, d) for p, k, d in known_findings() if p == pid]
    seen_known, fresh = {}, {}
    for v in viols:
        hit = [(k, d) for k, d in known if k == v["key"]]
        if hit:
            seen_known[hit[0][0]] = hit[0][1]
        else:
            fresh.setdefault(v["key"], v)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": spec["rule"],
            "samples": ["%s: %s" % (s["case"], s["s"]) for s in samples[:12]] or ["none"],
            "cases_run": len(cases), "processes": len(results),
            "sanitizers": "AddressSanitizer+UndefinedBehaviorSanitizer, libstdc++ assertions, project asserts",
            "observed": metrics, "known_findings_observed": sorted(seen_known),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d evaluations, %d distinct; build %.1f s, total %.1f s" %
          (pid, tier, len(cases), evals, distinct, t_build, time.time() - t0))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, seen_known[k]))
    if os.environ.get("VERIF_TIMES"):
        for c in sorted(cases, key=lambda c: -c.get("s", 0))[:12]:
            print("  %6.1f s %s" % (c.get("s", 0), c["case"]))
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        for key, v in sorted(fresh.items())[:20]:
            path = os.path.join(REPLAYS, "%s-%s.json" % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "seed": seed, "key": key, "case": v["case"],
                           "harness": v["run"], "message": v["msg"],
                           "replay": "VERIF_SEED=%d python3 lib/check.py %s %s --filter '%s'" %
                                     (seed, pid, tier, v["case"])}, f, indent=1)
            print("  %s: [%s] %s" % (key, v["case"], v["msg"][:500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if incomplete:
        print("inconclusive: " + incomplete[0])
        sys.exit(3)
    minimum = spec.get("min_evals", 1)
    if not filt and (evals < minimum or not cases):
        print("inconclusive: only %d evaluations, expected at least %d" % (evals, minimum))
        sys.exit(3)
    sys.exit(0)


if __name__ == "__main__":
    main()
