#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--job SUBSTR] [-v]
Decides one property: every harness registered for it is executed symbolically
over /repo's current source; counterexamples are replayed natively."""
import sys, os, time, json, argparse, glob, multiprocessing as mp, resource, signal, traceback, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
import warnings; warnings.simplefilter("ignore", DeprecationWarning)
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {f["id"]: f for f in json.load(open(p))["findings"]}


def child(job, path, seed, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception:
        pass
    from symex import run
    try:
        out = run.run_job(job, seed)
    except BaseException:
        out = dict(job=job.name, status="error", status2="error", error=traceback.format_exc()[-3000:], violations=[], stats={}, checks=0,
                   validated=0, spurious=[], mismatch=[], covers={}, findings={})
    with open(path + ".tmp", "w") as f:
        json.dump(out, f, default=repr)
    os.rename(path + ".tmp", path)
    os._exit(0)


def run_all(jobs, seed, nproc, budget, verbose):
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="verif_jobs_")
    pend = list(enumerate(jobs))
    live = {}
    outs = {}
    t0 = time.time()
    mem = (28 << 30) // nproc + (2 << 30)
    try:
        while pend or live:
            while pend and len(live) < nproc:
                i, job = pend.pop(0)
                path = os.path.join(d, "%d.json" % i)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    child(job, path, seed, mem)
                live[pid] = (i, job, path, time.time())
            time.sleep(0.05)
            for pid in list(live):
                i, job, path, ts = live[pid]
                p, st = os.waitpid(pid, os.WNOHANG)
                late = time.time() - ts > job.timeout or time.time() - t0 > budget
                if p == 0 and late:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    p = pid
                if p:
                    del live[pid]
                    if os.path.exists(path):
                        outs[i] = json.load(open(path))
                    else:
                        outs[i] = dict(job=job.name, status="timeout" if late else "crash", status2="error", violations=[], stats={"time": time.time() - ts},
                                       checks=0, validated=0, spurious=[], mismatch=[], covers={}, findings={}, error="timeout" if late else "process died")
                    if verbose:
                        o = outs[i]
                        st_ = o.get("stats", {})
                        print("  [%6.1fs] %-9s %s  checks=%s queries=%s steps=%s forks=%s %s" % (
                            time.time() - ts, o["status2"], o["job"], o.get("checks"), st_.get("queries"), st_.get("steps"), st_.get("forks"),
                            (o.get("error") or "")[:1500] if o["status2"] not in ("ok",) else ""))
                        for k in ("spurious", "mismatch"):
                            for x in (o.get(k) or [])[:3]:
                                print("     ", k, json.dumps(x, default=repr)[:1500])
                        if o.get("trace") and o["status2"] != "ok":
                            print(o["trace"])
                        sys.stdout.flush()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return [outs[i] for i in range(len(jobs))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.environ.setdefault("TMPDIR", "/tmp")
    from symex import registry
    import symex.logic, symex.interp, symex.nd
    jobs = registry.load_for(a.prop)
    jobs = [j for j in jobs if (j.tier == "quick" or a.tier == "thorough")]
    if a.job:
        jobs = [j for j in jobs if a.job in j.name]
    if not jobs:
        print("no harness for", a.prop)
        return 2
    budget = a.budget or (780 if a.tier == "quick" else 6 * 3600)
    outs = run_all(jobs, seed, a.procs, budget, a.v)
    known = load_findings()
    viol, code, said = [], 0, set()
    for job, o in zip(jobs, outs):
        for v in o["violations"]:
            viol.append((job, v))
        for fid, f in (o.get("findings") or {}).items():
            kf = known.get(fid)
            if kf is not None and f.get("reproduced"):
                if fid not in said:
                    print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, fid, kf["what"]))
                said.add(fid)
            elif f.get("reproduced"):
                viol.append((job, {"msg": f["msg"], "inputs": f["inputs"], "symbolic_msg": "finding %s is not listed" % fid, "trace": ""}))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.job:
        for old in glob.glob(os.path.join(VERIF, "evidence", a.prop + ".*.replay.json")):
            os.unlink(old)
    shown = set()
    for job, v in viol:
        key = (job.name, v["msg"])
        if key in shown:
            continue
        shown.add(key)
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:10]
        rp = os.path.join(VERIF, "evidence", "%s.%s.replay.json" % (a.prop, h))
        with open(rp, "w") as f:
            json.dump({"property": a.prop, "harness": job.name, "module": job.fn.__module__, "function": job.fn.__name__, "params": job.params, **v,
                       "how": "python /verif/replay.py %s" % rp}, f, indent=1, default=repr)
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        print("   %s: %s   inputs=%s" % (job.name, v["msg"], json.dumps(v["inputs"])[:600]))
        if a.v and v.get("trace"):
            print(v["trace"])
        code = 1
    bad = [o for o in outs if o["status2"] not in ("ok", "violation")]
    for o in bad:
        print("INCONCLUSIVE %s: %s %s" % (o["job"], o["status"], (o.get("error") or "")[:300]))
    S = lambda k: sum((o.get("stats") or {}).get(k, 0) for o in outs)
    fns = sorted(set(x for o in outs for x in (o.get("stats") or {}).get("functions", [])))
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking",
          "coverage": {
              "states": int(S("steps")), "transitions": int(S("branches")),
              "traces_validated_against_impl": sum(o.get("validated", 0) for o in outs),
              "samples": [{"harness": o["job"], "solver_model": (o.get("validate") or [{}])[0].get("inputs")} for o in outs[:6]],
              "harnesses": [{"name": o["job"], "result": o["status2"], "checks": o.get("checks"), "seconds": round((o.get("stats") or {}).get("time", 0), 2),
                             "queries": (o.get("stats") or {}).get("queries"), "witnesses": o.get("covers"),
                             "bounds": " ".join((j.fn._bounds or "").split()), "doc": " ".join(j.doc.split()),
                             **({"error": (o.get("error") or "")[:500], "fallback_runs": o.get("fallback_runs")} if o["status2"] not in ("ok", "violation") else {})}
                            for j, o in zip(jobs, outs)],
              "assertions": sum(o.get("checks", 0) for o in outs),
              "assertions_decided_without_solver": int(S("trivial")),
              "queries_discharged": int(S("queries")), "solver_unknown": int(S("unknown")), "solver_seconds": round(S("solver_time"), 2),
              "merged_forks": int(S("forks")), "statements_executed_symbolically": int(S("steps")),
              "functions_encoded": fns,
              "undecided_harnesses": [o["job"] for o in bad],
              "rule": "states = statements executed symbolically (each over all inputs at once); transitions = guarded branches opened; traces = solver models replayed on the real code whose observations agreed with the encoding",
          },
          "assumptions": ["bounds of every harness as listed", "environment models of symex/envmodel.py (sqlite3, joblib, filesystem, pandas) as described in DESIGN.md",
                          "set iteration order is insertion order"],
          "wall_s": round(time.time() - t0, 2), "violations": len(shown)}
    if not a.job:
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
    print("%s %s: %d harnesses, %d assertions, %d solver queries (%.1fs solver), %d native replays agree, %d undecided, %.1fs" % (
        a.prop, "VIOLATED" if code else "holds within bounds", len(outs), ev["coverage"]["assertions"], ev["coverage"]["queries_discharged"],
        ev["coverage"]["solver_seconds"], ev["coverage"]["traces_validated_against_impl"], len(bad), ev["wall_s"]))
    if code == 0 and bad and all(o["status2"] == "error" for o in outs):
        return 3
    return code


if __name__ == "__main__":
    sys.exit(main())
