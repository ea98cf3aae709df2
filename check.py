#!/usr/bin/env python3
"""Runs the checks: ./check.py <property-id> | setup | list | probe <harness> <entry> [args]

Every run recompiles the harness together with /repo's current sources to LLVM IR, executes the
entry points symbolically with vsym (deciding every branch and assertion with Z3), and replays what
the solver reports against a native build of the same harness before reporting it.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
# a check has 900 s; leave room for replays and the report
DEADLINE = T0 + (820 if TIER == "quick" else 7200)
NPROC = max(1, min(8, os.cpu_count() or 1))

ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def run(cmd, cwd, env, log):
    with open(log, "wb") as f:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT)
    return p.returncode


def tail(path, n=40):
    try:
        return "\n".join(open(path, errors="replace").read().splitlines()[-n:])
    except OSError:
        return ""


_sysroot = None


def llvm(tool):
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=ENV, capture_output=True, text=True).stdout.strip()
    return os.path.join(_sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin", tool)


# functions the engine replaces by a summary: they must survive the optimiser as calls
KEEP = ("hash_one", "12format_inner", "converts9from_utf8", "4core3fmt", "vs_format_stub", "6stdio6__print", "6stdio7__eprint")
SUMMARISED = ("hash_one", "12format_inner", "converts9from_utf8", "6stdio6_print", "6stdio7_eprint")


def patch_ir(src, dst):
    with open(src, errors="surrogateescape") as f, open(dst, "w", errors="surrogateescape") as g:
        for line in f:
            if line.startswith("define "):
                head = line[:600]
                if any(k in head for k in SUMMARISED) and " noinline" not in line:
                    i = line.find(") unnamed_addr")
                    if i >= 0:
                        j = i + len(") unnamed_addr")
                        line = line[:j] + " noinline" + line[j:]
            g.write(line)


def build_vsym():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "vsym"))
    log = os.path.join(BUILD, "vsym.log")
    if run(["cargo", "build", "--release", "--offline"], os.path.join(ROOT, "vsym"), env, log):
        die("building vsym failed\n" + tail(log))
    return os.path.join(BUILD, "vsym/release/vsym")


def build_ir(h):
    d = os.path.join(ROOT, "harness", h["dir"])
    out = os.path.join(BUILD, h["dir"] + "-ir")
    os.makedirs(out, exist_ok=True)
    rf = "--cfg vsym --cfg vaux_verif -C no-prepopulate-passes"
    env = dict(ENV, CARGO_TARGET_DIR=out, RUSTFLAGS=rf)
    log = out + ".log"
    deps = os.path.join(out, "release/deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.endswith(".ll"):
                os.unlink(os.path.join(deps, f))
    # force the final crate to be emitted again (the .ll was removed)
    if run(["cargo", "rustc", "--release", "--offline", "--bin", h["bin"], "--", "--emit=llvm-ir", "-C", "linker=/bin/true"], d, env, log):
        return None, tail(log)
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.endswith(".ll")] if os.path.isdir(deps) else []
    if not lls:
        # cargo considered it fresh: touch the root source and retry
        shutil.rmtree(os.path.join(out, "release/.fingerprint"), ignore_errors=True)
        if run(["cargo", "rustc", "--release", "--offline", "--bin", h["bin"], "--", "--emit=llvm-ir", "-C", "linker=/bin/true"], d, env, log):
            return None, tail(log)
        lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.endswith(".ll")]
    x = os.path.join(out, "x.ll")
    y = os.path.join(out, "y.ll")
    patch_ir(max(lls, key=os.path.getsize), x)
    for f in lls:
        os.unlink(f)
    cmd = [llvm("opt"), "-S", "-passes=default<O2>", "-vectorize-loops=0", "-vectorize-slp=0", x, "-o", y]
    if run(cmd, out, ENV, log):
        return None, tail(log)
    os.unlink(x)
    return y, None


def build_native(h):
    d = os.path.join(ROOT, "harness", h["dir"])
    out = os.path.join(BUILD, h["dir"] + "-native")
    os.makedirs(out, exist_ok=True)
    env = dict(ENV, CARGO_TARGET_DIR=out, RUSTFLAGS="--cfg vaux_verif")
    log = out + ".log"
    if run(["cargo", "build", "--offline", "--bin", h["bin"]], d, env, log):
        return None, tail(log)
    return os.path.join(out, "debug", h["bin"]), None


def build(h):
    os.makedirs(BUILD, exist_ok=True)
    if os.environ.get("VSYM_REUSE"):  # development only: the last build
        return (os.path.join(BUILD, "vsym/release/vsym"), os.path.join(BUILD, h["dir"] + "-ir/y.ll"), os.path.join(BUILD, h["dir"] + "-native/debug", h["bin"]))
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(3) as ex:
            v = ex.submit(build_vsym)
            i = ex.submit(build_ir, h)
            n = ex.submit(build_native, h)
            vs = v.result()
            ir, e1 = i.result()
            nat, e2 = n.result()
    if ir is None:
        die("building the IR of harness %s failed\n%s" % (h["dir"], e1))
    if nat is None:
        die("building the native harness %s failed\n%s" % (h["dir"], e2))
    return vs, ir, nat


def native(binary, entry, args, tape, timeout=20):
    """Runs the real code on a tape -> (kind, detail, reach marks)"""
    env = dict(ENV, VS_TAPE=tape, RUST_BACKTRACE="0")
    try:
        p = subprocess.run([binary, entry] + [str(a) for a in args], env=env, capture_output=True, timeout=timeout,
                           text=True, errors="replace", preexec_fn=limit_mem)
    except subprocess.TimeoutExpired:
        return "hang", "no result within %d s" % timeout, []
    reach = [l[9:] for l in p.stdout.splitlines() if l.startswith("VS-REACH ")]
    fails = [l[8:] for l in p.stdout.splitlines() if l.startswith("VS-FAIL ")]
    if p.returncode == 99 and fails:
        return "fail", fails[-1], reach
    if p.returncode == 77:
        return "assume", "", reach
    if p.returncode < 0:
        return "crash", "signal %d: %s" % (-p.returncode, p.stderr.strip()[:600]), reach
    if p.returncode == 0 and "VS-OK" in p.stdout:
        return "ok", "", reach
    return "error", "exit %d: %s" % (p.returncode, p.stderr.strip()[:600]), reach


def limit_mem():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def norm_fail(code):
    return code


class Job:
    def __init__(self, entry, args, opts):
        self.entry, self.args, self.opts = entry, list(args), opts
        self.shard = opts.get("shard", (0, 1))

    def name(self):
        s = "%s(%s)" % (self.entry, ",".join(map(str, self.args)))
        return s if self.shard[1] == 1 else s + "[%d/%d]" % self.shard


def run_job(vsym, ir, job, idx, tmp):
    out = os.path.join(tmp, "%d.json" % idx)
    left = DEADLINE - time.time()
    limit = min(job.opts.get("max_time", 300 if TIER == "quick" else 3000), max(left, 1))
    cmd = [vsym, "--ll", ir, "--entry", job.entry, "--out", out, "--max-time", "%.0f" % max(limit, 1),
           "--max-steps", str(job.opts.get("max_steps", 20_000_000)), "--smt-timeout", str(job.opts.get("smt_timeout", 30000)),
           "--shard", "%d/%d" % job.shard] + [str(a) for a in job.args]
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    with LOCK:
        PROCS.add(p)
    try:
        _, err = p.communicate(timeout=limit + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"error": "vsym did not stop at its time limit"}
    finally:
        with LOCK:
            PROCS.discard(p)
    if p.returncode != 0 or not os.path.exists(out):
        return {"error": "vsym ended with %s: %s" % (p.returncode, (err or "")[-800:])}
    return json.load(open(out))


LOCK = threading.Lock()
PROCS = set()


def known_findings():
    """known/findings.txt: 'fixed: ...' lines are history and suppress nothing; 'known: {json}' lines list open findings"""
    res = []
    p = os.path.join(ROOT, "known", "findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                res.append(json.loads(l[7:]))
    return res


def demangle(names):
    if not names:
        return []
    try:
        p = subprocess.run([llvm("llvm-cxxfilt")], input="\n".join(names), capture_output=True, text=True)
        return p.stdout.split("\n")[: len(names)]
    except OSError:
        return names


def check(pid):
    sys.path.insert(0, ROOT)
    import checks
    spec = checks.CHECKS.get(pid)
    if spec is None:
        die("no check for property " + pid)
    h = checks.HARNESSES[spec["harness"]]
    vsym, ir, nat = build(h)
    t_build = time.time() - T0
    tmp = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    jobs = []
    for j in spec["jobs"](TIER):
        entry, args, opts = (list(j) + [{}])[:3] if len(j) == 2 else j
        n = opts.get("shards", 1)
        for i in range(n):
            jobs.append(Job(entry, args, dict(opts, shard=(i, n))))
    kf = [k for k in known_findings() if k["property"] == pid]
    kf_hit = {}
    viols, errors, incomplete = [], [], []
    results = [None] * len(jobs)
    validated = [0]
    mismatches = []
    stop = threading.Event()
    per = 12 if TIER == "quick" else 40

    def handle(i):
        job = jobs[i]
        if stop.is_set():
            return
        if time.time() > DEADLINE - 2:
            results[i] = {"error": None, "skipped": True}
            incomplete.append((job, {"not started": 1}))
            return
        r = run_job(vsym, ir, job, i, tmp)
        results[i] = r
        if stop.is_set():
            return
        if r.get("error"):
            errors.append("%s: %s" % (job.name(), r["error"]))
            return
        for n, v in enumerate(r["violations"]):
            kind, detail, reach = native(nat, job.entry, job.args, v["tape"])
            code = v["code"]
            if kind == "fail":
                what = detail
                ok = detail == code
            elif kind == "crash":
                what = "the code aborts: " + code
                ok = not code.startswith("check: ") and not v.get("assertion", False)
                ok = True
            else:
                ok, what = False, code
            if not ok:
                errors.append("%s: the solver's counterexample for '%s' does not reproduce natively (%s %s) tape=%s loc=%s" % (job.name(), code, kind, detail, v["tape"], v["loc"]))
                continue
            k = match_known(kf, job, code, v)
            if k is not None:
                with LOCK:
                    kf_hit.setdefault(k["id"], []).append((job.name(), code))
                continue
            path = os.path.join(rdir, "%s_%d_%d.json" % (pid, i, n))
            with open(path, "w") as f:
                json.dump({"property": pid, "harness": spec["harness"], "entry": job.entry, "args": job.args, "tape": v["tape"],
                           "what": what, "engine": code, "where": v["loc"], "notes": v.get("notes", {}), "native": [kind, detail],
                           "stack": demangle(v.get("stack", [])),
                           "replay": "VS_TAPE=%s %s %s %s" % (v["tape"], os.path.relpath(nat, ROOT), job.entry, " ".join(map(str, job.args)))}, f, indent=1)
            with LOCK:
                viols.append((job, what, path, v))
            stop.set()
        lim = dict(r["limits"])
        if "step limit" in lim:
            n_hang = 0
            for t in r.get("limit_tapes", []):
                if t["limit"] == "step limit":
                    kind, detail, _ = native(nat, job.entry, job.args, t["tape"], 15)
                    if kind == "hang" or kind == "crash":
                        path = os.path.join(rdir, "%s_%d_hang.json" % (pid, i))
                        json.dump({"property": pid, "harness": spec["harness"], "entry": job.entry, "args": job.args, "tape": t["tape"], "what": "the code does not terminate", "native": [kind, detail]}, open(path, "w"), indent=1)
                        with LOCK:
                            viols.append((job, "the code does not terminate", path, {"notes": {}, "loc": "", "tape": t["tape"]}))
                        stop.set()
                        break
        if lim:
            incomplete.append((job, lim))
        # translation validation: solver models of completed paths, run natively, must behave the same
        for s in r.get("samples", [])[:per]:
            kind, detail, reach = native(nat, job.entry, job.args, s["tape"])
            if kind == "ok" and sorted(set(reach)) == sorted(set(s["reach"])):
                with LOCK:
                    validated[0] += 1
            else:
                mismatches.append("%s: native run of a completed path gave %s %s reach=%s, expected reach=%s, tape=%s" % (job.name(), kind, detail, reach, s["reach"], s["tape"]))

    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].opts.get("weight", 1))
    with ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(handle, i) for i in order]
        while not all(f.done() for f in futs):
            if stop.wait(0.1):
                with LOCK:
                    for p in list(PROCS):
                        p.kill()
                break
        for f in futs:
            f.result()
    shutil.rmtree(tmp, ignore_errors=True)
    done = [(j, r) for j, r in zip(jobs, results) if r and not r.get("error") and not r.get("skipped")]
    # vacuity: every reach mark the check demands must have been met
    reach = {}
    for j, r in done:
        for k, v in r["reach"].items():
            reach.setdefault(j.entry, {}).setdefault(k, 0)
            reach[j.entry][k] += v
    vac = []
    if not stop.is_set():
        for entry, marks in spec.get("reach", {}).items():
            for m in marks:
                if not reach.get(entry, {}).get(m):
                    vac.append("%s: no path reaches '%s'" % (entry, m))
    # a time limit leaves paths unexplored (printed, and in the evidence); any other limit is a failure of the machinery
    core_inc = [(j, l) for j, l in incomplete if not j.opts.get("best_effort") and set(l) - {"time limit", "not started"}]
    write_evidence(pid, spec, checks, jobs, done, viols, kf_hit, validated[0], incomplete, errors + mismatches + vac, t_build)
    for k in kf:
        if k["id"] in kf_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
    if viols:
        job, what, path, v = viols[0]
        print("  %s: %s" % (job.name(), what))
        print("  at %s" % v.get("loc", ""))
        for a, b in v.get("notes", {}).items():
            print("  %s = %s" % (a, b))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        sys.exit(1)
    for j, l in incomplete:
        print("%s %s: %s" % ("INCOMPLETE" if not j.opts.get("best_effort") else "not completed (best effort)", j.name(), l))
    for e in errors + mismatches + vac:
        print("ERROR " + e)
    if errors or mismatches or vac or core_inc:
        sys.exit(2)
    tot = sum(r["paths"] for _, r in done)
    print("OK property=%s: %d jobs, %d paths, %d queries (%.1f s in the solver), %d native replays agree, %.0f s (build %.0f s)" % (
        pid, len(done), tot, sum(r["queries"] for _, r in done), sum(r["solver_s"] for _, r in done), validated[0], time.time() - T0, t_build))


def match_known(kf, job, code, v):
    for k in kf:
        m = k["match"]
        if m.get("entry") not in (None, job.entry):
            continue
        if "args" in m and m["args"] != job.args:
            continue
        if "code" in m and m["code"] != code:
            continue
        if "notes" in m and any(v.get("notes", {}).get(a) != b for a, b in m["notes"].items()):
            continue
        return k
    return None


def write_evidence(pid, spec, checks, jobs, done, viols, kf_hit, validated, incomplete, problems, t_build):
    tot = lambda k: sum(r[k] for _, r in done)
    funcs = set()
    for _, r in done:
        funcs.update(r["functions"])
    dem = demangle(sorted(funcs))
    real = sorted({re.sub(r"::h[0-9a-f]{16}$", "", d) for d in dem if "vaux" in d})
    samples = []
    for j, r in done:
        for s in r.get("samples", [])[:1]:
            samples.append({"job": j.name(), "reach": s["reach"], "tape": s["tape"]})
    for job, what, path, v in viols[:3]:
        samples.insert(0, {"job": job.name(), "violation": what, "replay": path})
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("forks") + tot("paths"), "traces_validated_against_impl": validated,
            "samples": samples[:25],
            "infeasible_paths": tot("infeasible"), "branches_merged": tot("merged"), "instructions": tot("steps"), "assertions_decided": tot("checks"),
            "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "answered_from_cache": tot("cached"),
            "solver_s": round(tot("solver_s"), 2), "max_query_s": max([r["max_query_s"] for _, r in done] or [0]),
            "solver": done[0][1]["solver"] if done else "", "jobs": len(done), "jobs_planned": len(jobs), "build_s": round(t_build, 1),
            "per_job": [{"job": j.name(), "paths": r["paths"], "queries": r["queries"], "solver_s": round(r["solver_s"], 2), "s": round(r["total_s"], 2), "limits": r["limits"], "reach": r["reach"]} for j, r in done],
            "bounds": spec["bounds"], "outside_the_claim": spec.get("outside", ""),
            "functions_encoded_total": len(funcs), "functions_encoded": real[:400],
            "known_findings_hit": {k: len(v) for k, v in kf_hit.items()},
            "incomplete": [{"job": j.name(), "limits": l, "best_effort": bool(j.opts.get("best_effort"))} for j, l in incomplete],
            "problems": problems[:20],
        },
        "assumptions": spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1), "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def probe(a):
    """check.py probe <harness> entry arg.. [-- more vsym options]: run one job and print the result"""
    import checks
    h = checks.HARNESSES[a[0]]
    vsym, ir, nat = build(h)
    print(ir, nat)


if __name__ == "__main__":
    if len(sys.argv) < 2:
        die("usage: check.py <property>|setup|list|probe")
    sys.path.insert(0, ROOT)
    c = sys.argv[1]
    if c == "setup":
        import checks
        os.makedirs(BUILD, exist_ok=True)
        for h in checks.HARNESSES.values():
            build(h)
        print("setup done in %.0f s" % (time.time() - T0))
    elif c == "list":
        import checks
        print("\n".join(checks.CHECKS))
    elif c == "build":
        import checks
        print(build(checks.HARNESSES[sys.argv[2]]))
    else:
        check(c)
