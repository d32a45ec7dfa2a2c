#!/usr/bin/env python3
"""Decide one property:  run.py <PID> [--tier quick|thorough] [--job NAME]
Replay a recorded counterexample:  run.py --replay <file>

Each job of the property compiles the harness and the real /repo sources to
LLVM IR with clang, executes them symbolically with engine/sse (every harness
input a bit-vector, every branch/assertion/memory access decided by z3), and
replays what the solver returns - counterexamples and a sample of the explored
paths - against a native build of the same sources.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SSE = os.path.join(VERIF, "build", "sse")
H = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
import specs  # noqa: E402

NCPU = os.cpu_count() or 4


def ensure_engine():
    if not os.path.exists(SSE):
        subprocess.run(["make", "-s", "-C", VERIF], check=True)


def incs(cfg):
    return ["-I", os.path.join(H, "cfg", cfg), "-I", H,
            "-I", os.path.join(REPO, "include", "small"),
            "-I", os.path.join(REPO, "include"),
            "-I", os.path.join(REPO, "third_party")]


def cdefs(job, defs):
    d = ["-D_GNU_SOURCE", "-DNVALGRIND=1"]
    if job.get("ndebug"):
        d.append("-DNDEBUG")
    for k, v in defs.items():
        d.append("-D%s=%s" % (k, v) if v is not None else "-D" + k)
    return d


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


def build_bc(job, defs, wd):
    cfg = job.get("cfg", "plain")
    objs = []
    procs = []
    for i, (src, harness) in enumerate([(os.path.join(H, job["harness"]), True)] +
                                       [(os.path.join(REPO, s), False) for s in job["srcs"]]):
        o = os.path.join(wd, "m%d.bc" % i)
        cmd = ["clang", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c",
               "-Wno-everything", "-std=gnu11" if harness else "-std=gnu99"]
        if cfg == "asan" and not harness:
            cmd += ["-fsanitize=address"]
        if cfg == "asan" and harness:
            cmd += ["-D__SANITIZE_ADDRESS__=1"]
        cmd += incs(cfg) + cdefs(job, defs) + [src, "-o", o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        objs.append(o)
    for cmd, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            raise BuildError(" ".join(cmd) + "\n" + out)
    a, b = os.path.join(wd, "all.bc"), os.path.join(wd, "opt.bc")
    r = sh(["llvm-link-18"] + objs + ["-o", a])
    if r.returncode:
        raise BuildError(r.stdout)
    r = sh(["opt-18", "-passes=sroa,early-cse,instsimplify,simplifycfg,early-cse,simplifycfg", a, "-o", b])
    if r.returncode:
        raise BuildError(r.stdout)
    return b


def build_native(job, defs, wd, bc):
    """Native executable fed by recorded inputs."""
    out = os.path.join(wd, "native")
    cfg = job.get("cfg", "plain")
    if job.get("threads"):
        ibc = os.path.join(wd, "instr.bc")
        r = sh([SSE, "--instrument", bc, ibc])
        if r.returncode:
            raise BuildError(r.stdout)
        cmd = ["clang", "-w", "-O0", "-DVP_THREADS", "-I", H, ibc, os.path.join(H, "vp_rt.c"), "-lm", "-o", out]
    else:
        cmd = ["gcc", "-g", "-O1", "-w", "-std=gnu11", "-fsanitize=address,shift-exponent", "-fno-sanitize-recover=shift-exponent", "-fno-omit-frame-pointer"]
        cmd += incs(cfg) + cdefs(job, defs)
        cmd += [os.path.join(H, job["harness"]), os.path.join(H, "vp_rt.c")]
        cmd += [os.path.join(REPO, s) for s in job["srcs"]] + ["-lm", "-lpthread", "-o", out]
    r = sh(cmd)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout)
    return out


def run_native(exe, inputs, sched, wd, timeout=20, fill=None):
    f = os.path.join(wd, "in.%d.txt" % threading.get_ident())
    with open(f, "w") as fp:
        for v in inputs:
            fp.write("i %s\n" % v)
        for v in sched:
            fp.write("s %d\n" % v)
    env = dict(os.environ, VP_INPUTS=f)
    opts = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0"
    if fill is not None:
        opts += ":max_malloc_fill_size=1048576:malloc_fill_byte=%d" % fill
    env["ASAN_OPTIONS"] = opts
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                           timeout=timeout, text=True, errors="replace", cwd=wd)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return "timeout", o.decode(errors="replace") if isinstance(o, bytes) else o


def native_failed(rc):
    return rc not in (0, 78, 79, 80)


def merge_results(files):
    t = {"incomplete": {}, "witnesses": {}, "functions": {}, "violations": [], "samples": []}
    missing = 0
    for f in files:
        try:
            r = json.load(open(f))
        except (OSError, ValueError):
            missing += 1
            continue
        for k, v in r.items():
            if k in ("incomplete", "witnesses", "functions"):
                for a, b in v.items():
                    t[k][a] = t[k].get(a, 0) + b
            elif k in ("violations", "samples"):
                t[k] += v
            elif k == "max_depth":
                t[k] = max(t.get(k, 0), v)
            elif isinstance(v, (int, float)):
                t[k] = t.get(k, 0) + v
    if missing:
        t["incomplete"]["result file missing"] = missing
    return t


def run_job(job, tier, seed, budget, wd):
    t0 = time.time()
    defs = dict(job.get("defs", {}))
    if tier == "thorough":
        defs.update(job.get("thorough", {}))
    limit = job.get("time", 120) if tier == "quick" else job.get("thorough_time", 900)
    limit = max(5, min(limit, budget))
    bc = build_bc(job, defs, wd)
    nat = {}

    def nb():
        try:
            nat["exe"] = build_native(job, defs, wd, bc)
        except BuildError as e:
            nat["err"] = str(e)
    th = threading.Thread(target=nb)
    th.start()
    out = os.path.join(wd, "r.json")
    workers = job.get("workers", NCPU)
    cmd = [SSE, bc, "--out", out, "--workers", str(workers), "--max-time", str(limit),
           "--seed", str(seed), "--samples", str(job.get("samples", 3)), "--repo", REPO + "/",
           "--mem-mb", str(20000 // workers), "--max-instr", str(job.get("max_instr", 3000000)),
           "--preempt", str(defs.get("PREEMPT", job.get("preempt", 1000))),
           "--query-ms", str(job.get("query_ms", 60000))] + (["--sym-write"] if job.get("sym_write") else [])
    try:
        r = sh(cmd, timeout=limit + 90)
        log = r.stdout
        rc = r.returncode
    except subprocess.TimeoutExpired:
        log, rc = "engine timed out", -1
    th.join()
    files = [out] + sorted(glob.glob(out + ".w*"))
    res = merge_results([f for f in files if not f.endswith(".tmp")])
    if rc != 0:
        res["incomplete"]["engine exit %s: %s" % (rc, log[-300:])] = 1
    res["engine_s"] = round(time.time() - t0, 2)
    res["defs"] = defs
    res["confirmed"], res["unconfirmed"], res["mismatch"] = [], [], []
    res["validated"] = 0
    if "exe" not in nat:
        raise BuildError("native build: " + nat.get("err", "?"))
    exe = nat["exe"]
    for v in res["violations"]:
        tries = [None] if job.get("threads") else [None, 0, 255, 1]
        ok = False
        for fill in tries:
            rc, o = run_native(exe, v["inputs"], v["sched"], wd, 20, fill)
            if native_failed(rc):
                ok = True
                break
        v["native_rc"], v["native_out"] = rc, o[-2500:]
        (res["confirmed"] if ok else res["unconfirmed"]).append(v)
    if not res["violations"]:
        for s in res["samples"][:job.get("samples", 3) * 3]:
            rc, o = run_native(exe, s["inputs"], s["sched"], wd, 20)
            logs = [l.split()[1:] for l in o.splitlines() if l.startswith("LOG ")]
            want = [list(x) for x in s["log"]]
            s["native_rc"] = rc
            if rc == 0 and logs == want:
                res["validated"] += 1
            elif native_failed(rc):
                s.update(kind="native", msg="the native run of an explored path fails", loc="-", stack="-",
                         native_out=o[-2500:])
                res["confirmed"].append(s)
            else:
                s["native_out"] = o[-800:]
                res["mismatch"].append(s)
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "known"]


def is_known(kf, pid, job, v):
    for k in kf:
        if k["property"] == pid and k.get("job", job) == job and k.get("kind", v["kind"]) == v["kind"] and \
           k.get("msg", "") in v["msg"] and k.get("func", "") in v["stack"]:
            return k
    return None


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--job":
            only = a.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = specs.PROPS[pid]
    ensure_engine()
    t0 = time.time()
    total = 660 if tier == "quick" else 6 * 3600
    kf = known_findings()
    results, errors, viol, known, notes = [], [], [], {}, []
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    for f in glob.glob(os.path.join(evdir, "replays", pid + "-*")):
        os.unlink(f)
    for job in prop["jobs"]:
        if only and job["name"] != only:
            continue
        if tier == "quick" and job.get("tier") == "thorough":
            continue
        wd = tempfile.mkdtemp(prefix="sse-%s-" % pid)
        try:
            left = total - (time.time() - t0)
            if left < 15 and results:
                notes.append("job %s not run: time budget" % job["name"])
                continue
            res = run_job(job, tier, seed, left, wd)
        except BuildError as e:
            errors.append("job %s: build failed: %s" % (job["name"], str(e)[-1500:]))
            continue
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        res["name"] = job["name"]
        results.append(res)
        for v in res["confirmed"]:
            k = is_known(kf, pid, job["name"], v)
            if k:
                known[k["what"]] = k
                continue
            path = os.path.join(evdir, "replays", "%s-%s-%d.json" % (pid, job["name"], len(viol)))
            json.dump({"property": pid, "job": job["name"], "tier": tier, "kind": v["kind"], "msg": v["msg"],
                       "loc": v["loc"], "stack": v["stack"], "inputs": v["inputs"], "sched": v["sched"],
                       "log": v["log"], "native_rc": v.get("native_rc"), "native_out": v.get("native_out")},
                      open(path, "w"), indent=1)
            viol.append((path, v))
        for v in res["unconfirmed"]:
            if is_known(kf, pid, job["name"], v):
                continue
            if v["kind"] == "no-termination" and v.get("native_rc") == 0:
                # the path is just longer than the budget
                notes.append("job %s explored only part of its bound: a path needs more than the instruction budget at %s" % (job["name"], v["loc"]))
                continue
            errors.append("job %s: solver counterexample not reproduced natively: %s %s at %s [%s]" %
                          (job["name"], v["kind"], v["msg"], v["loc"], v["stack"]) + " inputs %s, native rc %s %s" % (v.get("inputs"), v.get("native_rc"), (v.get("native_out") or "")[-200:]))
        for s in res["mismatch"]:
            errors.append("job %s: encoding and native build disagree on inputs %s sched %s: native rc %s %s, expected log %s" %
                          (job["name"], s["inputs"], s["sched"], s["native_rc"], s["native_out"], s["log"]))
        if not res["violations"]:
            for w in job.get("witnesses", ["end"]):
                if not res["witnesses"].get(w):
                    errors.append("job %s: witness %r not reached (vacuous): %s" % (job["name"], w, res["incomplete"]))
        if res["incomplete"]:
            notes.append("job %s explored only part of its bound: %s" % (job["name"], res["incomplete"]))
        print("job %-28s paths %-8d merged %-7d instrs %-11d queries %-6d (unsat %d, cached %d) obligations %-8d solver %.1fs wall %.1fs%s" % (
            job["name"], res.get("paths", 0), res.get("merged", 0), res.get("instrs", 0), res.get("queries", 0), res.get("unsat", 0),
            res.get("cached", 0), res.get("obligations", 0), res.get("solver_s", 0), res["wall_s"],
            " INCOMPLETE %s" % res["incomplete"] if res["incomplete"] else ""), flush=True)
        if viol and tier == "quick":
            break
    S = lambda k: sum(r.get(k, 0) for r in results)  # noqa: E731
    funcs = {}
    for r in results:
        for k, v in r["functions"].items():
            funcs[k] = funcs.get(k, 0) + v
    samp = []
    for r in results:
        for s in (r["confirmed"] or r["samples"])[:2]:
            samp.append({"job": r["name"], "inputs": s["inputs"][:60], "schedule": s["sched"][:80], "observed": s["log"][:40]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": specs.LEVEL,
        "coverage": {
            "states": S("forks") + len(results),
            "transitions": S("instrs"),
            "traces_validated_against_impl": S("validated"),
            "samples": samp[:12],
            "exhaustive": not any(r["incomplete"] for r in results) and not notes and bool(results),
            "explanation": "states: symbolic path states created (initial states and forks); transitions: LLVM instructions of the "
                           "harness and of the /repo functions executed symbolically; traces_validated_against_impl: explored paths "
                           "whose solver-chosen inputs were run natively with the same observations.",
            "symbolic_paths_completed": S("paths"), "paths_merged_into_seen_states": S("merged"),
            "paths_cut_by_assumptions": S("killed"),
            "assertion_obligations": S("obligations"), "memory_access_obligations": S("memchecks"),
            "solver_queries": S("queries"), "solver_sat": S("sat"), "solver_unsat": S("unsat"), "solver_unknown": S("unknown"),
            "solver_answers_from_cache": S("cached"), "solver_s": round(S("solver_s"), 2),
            "schedule_forks": S("sched_forks"),
            "functions_encoded": sorted(funcs),
            "jobs": [{"name": r["name"], "bounds": next(j for j in prop["jobs"] if j["name"] == r["name"])["bounds"],
                      "defines": r["defs"], "paths": r.get("paths", 0), "queries": r.get("queries", 0),
                      "witnesses": r["witnesses"], "incomplete": r["incomplete"], "wall_s": r["wall_s"]} for r in results],
            "notes": notes, "errors": errors,
        },
        "assumptions": specs.ASSUMPTIONS + prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    for n in notes:
        print("NOTE " + n)
    for k in known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        for path, v in viol[:3]:
            print("violated: %s: %s at %s\n  %s\n  native: rc=%s %s" % (v["kind"], v["msg"], v["loc"], v["stack"], v.get("native_rc"),
                  " | ".join((v.get("native_out") or "").strip().splitlines()[-3:])[:400]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for e in errors:
        print("ERROR " + e)
    if errors or not results:
        return 2
    print("property %s holds on everything explored (%.1fs)" % (pid, time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    job = next(j for j in specs.PROPS[d["property"]]["jobs"] if j["name"] == d["job"])
    ensure_engine()
    wd = tempfile.mkdtemp(prefix="sse-replay-")
    try:
        defs = dict(job.get("defs", {}))
        if d["tier"] == "thorough":
            defs.update(job.get("thorough", {}))
        bc = build_bc(job, defs, wd) if job.get("threads") else None
        exe = build_native(job, defs, wd, bc)
        for fill in (None, 0, 255, 1):
            rc, o = run_native(exe, d["inputs"], d["sched"], wd, 20, fill)
            if native_failed(rc):
                break
        print(o)
        print("native exit:", rc)
        return 1 if native_failed(rc) else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
