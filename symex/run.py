"""Run one harness symbolically; replay solver models natively."""
import sys, os, time, json, traceback, threading, tempfile, shutil, subprocess, random, resource, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def new_interp():
    from . import interp, logic
    I = interp.Interp([os.path.join(REPO, "mandala") + os.sep, os.path.join(VERIF, "harness") + os.sep])
    try:
        from . import envmodel
    except ImportError:
        envmodel = None
    if envmodel:
        envmodel.install(I)
    return I


def run_symbolic(job, nvalid=3):
    """-> result dict (no replay)"""
    from .nd import SymND, concretize, NoCompare
    from .state import PathDead, Abrupt, InterpRaise
    from .values import Unsupported, res, Union, PObj
    from .logic import band, restrict
    t0 = time.time()
    I = new_interp()
    nd = SymND(I)
    out = dict(job=job.name, status="ok", cex=[], validate=[], notes=[])
    exc = []

    def handler(kind, v):
        if kind is None:
            return "done"

        def one(e):
            e = res(e)
            exc.append((I.pc, e))
            return "raised"
        return I.each(v, one)
    done = None
    try:
        done = I.scoped(("raise",), lambda: I.call(job.fn, [nd], dict(job.params)), handler)
    except PathDead:
        out["notes"].append("no completed path")
    except Unsupported as e:
        out["status"] = "unsupported"
        out["error"] = "%s: %s" % (type(e).__name__, e) + where(I)
        out["trace"] = traceback.format_exc()[-3000:]
        pc = getattr(e, "pc", None)
        if pc is not None and I.solver.feasible(pc):
            # a path through the unwinding bound: does the real code terminate on it?
            nd.cex.append({"msg": "unwinding bound exceeded: %s" % e, "inputs": nd.model_inputs(pc.model if pc.core else None), "hang": True})
    except RecursionError as e:
        t = traceback.format_exc().split("\n")
        out["trace"] = "\n".join(t[:6] + ["..."] + t[-40:])
        out["status"] = "unsupported"
        out["error"] = "recursion limit"
    except MemoryError:
        out["status"] = "unsupported"
        out["error"] = "memory limit"
    for pc, e in exc:
        if I.feasible(pc):
            m = pc.model if pc.core else None
            if pc.core and m is None:
                out["status"] = "unknown"
                continue
            try:
                args = repr(I.to_native(e.c.get("args", ())))
            except Exception:
                args = repr(e.c.get("args", ()))[:200]
            nd.cex.append({"msg": "uncaught %s%s" % (e.cls.__name__, args), "inputs": nd.model_inputs(m)})
    out["cex"] = nd.cex
    out["findings"] = nd.findings
    out["checks"] = nd.checks
    out["covers"] = nd.covers
    if nd.unknown and out["status"] == "ok":
        out["status"] = "unknown"
    if out["status"] == "ok" and not nd.cex:
        bad = [c for c, v in nd.covers.items() if not v]
        if bad:
            out["status"] = "vacuous"
            out["error"] = "unreachable witness: %s" % bad
        elif nd.checks == 0:
            out["status"] = "vacuous"
            out["error"] = "no check reached"
    # models for translator validation
    models = list(getattr(nd, "obs_models", []))[:nvalid] + list(I.solver.models)
    if not models:
        models = [None]
    seen, val = set(), []
    from .logic import z3
    for m in models:
        if m is None:
            s = z3.Solver()
            s.check()
            m = (s.model(), {})
        inp = nd.model_inputs(m)
        key = json.dumps(inp, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        exp = []
        for pc, label, snap in nd.obslog:
            if all(I.solver.ev(x, m) for x in pc.core):
                try:
                    exp.append([label, concretize(I, snap, m)])
                except NoCompare:
                    exp.append([label, None])
        val.append({"inputs": inp, "obs": exp})
        if len(val) >= nvalid:
            break
    out["validate"] = val
    out["stats"] = dict(time=time.time() - t0, steps=I.steps, queries=I.solver.queries, solver_time=I.solver.time, unknown=I.solver.unknown,
                        **I.stats, trivial=nd.trivial,
                        functions=sorted("%s:%s" % (os.path.relpath(f, REPO), q) for f, q in I.encoded if f.startswith(REPO)))
    return out


def where(I):
    n = I.cur
    try:
        import ast
        return " [near line %d: %s]" % (n.lineno, ast.unparse(n)[:100])
    except Exception:
        return ""


def in_big_thread(fn):
    r = []

    def go():
        try:
            r.append(("ok", fn()))
        except BaseException as e:
            r.append(("err", traceback.format_exc()))
    sys.setrecursionlimit(60000)
    threading.stack_size(1 << 30)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if r[0][0] == "err":
        raise RuntimeError(r[0][1])
    return r[0][1]


def run_native(job, inputs, timeout=60, random_nd=None):
    """run the harness natively in a forked child -> dict"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(timeout)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            res = native_child(job, inputs, random_nd)
            data = json.dumps(res).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return {"outcome": "crash", "failures": [], "obs": []}
    return json.loads(data)


def native_child(job, inputs, random_nd):
    from .nd import NativeND, Violation, Assumed
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    sys.setrecursionlimit(1200)
    cwd = os.getcwd()
    os.chdir(scratch)
    nd = NativeND(inputs, scratch) if random_nd is None else RandomND(random_nd, scratch)
    res = {"outcome": "ok"}
    if "mandala.storage_utils" in sys.modules:
        from harness.env import real
        real.install()
    try:
        job.fn(nd, **job.params)
    except Violation as e:
        res["outcome"] = "violation"
    except Assumed:
        res["outcome"] = "assumed"
    except Exception as e:
        res["outcome"] = "exception"
        nd.failures.append("uncaught %s%r" % (type(e).__name__, e.args))
        res["trace"] = traceback.format_exc()[-2500:]
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    res["failures"] = nd.failures
    res["obs"] = nd.obslog
    res["inputs"] = nd.inputs
    res["checks"] = nd.checks
    res["findings"] = nd.findings
    return res


def RandomND(seed, scratch):
    from .nd import NativeND
    rnd = random.Random(seed)

    class R(NativeND):
        def __init__(self):
            NativeND.__init__(self, {}, scratch)

        def bool(self, name):
            if name not in self.inputs:
                self.inputs[name] = rnd.random() < 0.5
            return self.inputs[name]

        def choice(self, name, options):
            options = list(options)
            if name not in self.inputs:
                self.inputs[name] = rnd.randrange(len(options))
            return options[self.inputs[name]]

        def int(self, name, lo=None, hi=None):
            if name not in self.inputs:
                lo = -3 if lo is None else lo
                self.inputs[name] = rnd.randint(lo, lo + 6 if hi is None else hi)
            return self.inputs[name]
    return R()


def run_job(job, seed=1, fallback_s=60):
    """symbolic run + replays, in this process"""
    try:
        out = in_big_thread(lambda: run_symbolic(job))
    except RuntimeError as e:
        out = dict(job=job.name, status="error", error=str(e)[-3000:], cex=[], validate=[], notes=[], stats={}, checks=0, covers={}, findings={})
    finish(job, out, seed, fallback_s)
    return out


def finish(job, out, seed=1, fallback_s=60):
    out["violations"] = []
    out["spurious"] = []
    out["validated"] = 0
    out["mismatch"] = []
    tried = {}
    for c in out["cex"]:
        r = run_native(job, c["inputs"], timeout=30 if c.get("hang") else 60)
        if r["outcome"] == "crash" and c.get("hang"):
            r = {"outcome": "exception", "failures": ["the call does not terminate (30 s, or the process died)"]}
        if r["outcome"] in ("violation", "exception"):
            out["violations"].append({"msg": r["failures"][-1], "symbolic_msg": c["msg"], "inputs": c["inputs"], "trace": r.get("trace", "")})
        elif c.get("hang"):
            pass
        else:
            out["spurious"].append({"msg": c["msg"], "inputs": c["inputs"], "native": r["outcome"]})
    for v in out["validate"]:
        r = run_native(job, v["inputs"])
        if r["outcome"] in ("violation", "exception"):
            if not out["cex"]:
                out["mismatch"].append({"inputs": v["inputs"], "native": r})
            out["violations"].append({"msg": r["failures"][-1], "symbolic_msg": "(validation replay)", "inputs": v["inputs"], "trace": r.get("trace", "")})
            continue
        if r["outcome"] == "assumed":
            continue
        if r["outcome"] == "crash":
            out["mismatch"].append({"inputs": v["inputs"], "native": "crash"})
            continue
        a = [x for x in v["obs"]]
        b = r["obs"]
        ok = len(a) == len(b) and all(x[0] == y[0] and (x[1] is None or same_obs(x[1], y[1])) for x, y in zip(a, b))
        if ok:
            out["validated"] += 1
        elif not out["cex"]:
            out["mismatch"].append({"inputs": v["inputs"], "symbolic": a, "native": b})
    for fid, f in (out.get("findings") or {}).items():
        r = run_native(job, f["inputs"])
        f["reproduced"] = fid in r.get("findings", ())
    if out["violations"]:
        out["status2"] = "violation"
    elif out["status"] in ("unsupported", "error", "unknown", "vacuous") or out["spurious"] or out["mismatch"]:
        # the encoding does not decide this harness: solver-free fall back,
        # reported as degraded
        out["status2"] = "degraded"
        t0 = time.time()
        n = 0
        seen = set()
        i = 0
        while time.time() - t0 < fallback_s and i < 4000:
            i += 1
            r = run_native(job, None, random_nd=seed * 100003 + i)
            if r["outcome"] == "crash":
                continue
            seen.add(json.dumps(r["inputs"], sort_keys=True))
            if r["outcome"] in ("violation", "exception"):
                out["violations"].append({"msg": r["failures"][-1], "symbolic_msg": "(degraded: native exploration)", "inputs": r["inputs"], "trace": r.get("trace", "")})
                out["status2"] = "violation"
                break
        out["fallback_runs"] = i
        out["fallback_distinct"] = len(seen)
    else:
        out["status2"] = "ok"


def same_obs(a, b):
    return json.loads(json.dumps(a)) == b
