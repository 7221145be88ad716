"""Sources of nondeterminism: symbolic (interpreted harness) and native
(replay of a solver model)."""
import sys
from .logic import z3, B, band, bor, bnot, atom, restrict, var, or_guards
from .values import *
from .state import *
from .interp import Interp


def canon(v, depth=0):
    """JSON-able canonical form of an observed native value"""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return ["float", repr(v)]
    if isinstance(v, bytes):
        return ["bytes", v.hex()]
    if isinstance(v, (tuple, list)) or type(v).__name__ == "deque":
        return [type(v).__name__] + [canon(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted((canon(x) for x in v), key=repr)
    if isinstance(v, dict):
        return ["dict"] + sorted(([canon(k), canon(x)] for k, x in v.items()), key=repr)
    if isinstance(v, type):
        return ["class", v.__name__]
    return ["object", type(v).__name__]


class Violation(Exception):
    pass


class Assumed(Exception):
    """an assumption does not hold in this run"""


class NativeND:
    def __init__(self, inputs, scratch=None):
        self.inputs = inputs
        self.obslog = []
        self.failures = []
        self.checks = 0
        self.covered = []
        self.scratch = scratch
        self.symbolic = False
        self.findings = []

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def choice(self, name, options):
        options = list(options)
        i = self.inputs.get(name, 0)
        return options[i if i < len(options) else 0]

    def int(self, name, lo=None, hi=None):
        v = int(self.inputs.get(name, lo if lo is not None else 0))
        return v

    def assume(self, c):
        if not c:
            raise Assumed()

    def check(self, c, msg):
        self.checks += 1
        if not c:
            self.failures.append(msg)
            raise Violation(msg)

    def cover(self, c, label):
        if c:
            self.covered.append(label)

    def obs(self, label, v):
        self.obslog.append([label, canon(v)])

    def finding(self, fid, c, msg):
        """a check that is expected to fail for the listed finding `fid`"""
        if not c:
            self.findings.append(fid)


class SymND(HObj):
    def __init__(self, interp):
        HObj.__init__(self)
        self.I = interp
        self.inputs = {}      # name -> (kind, data)
        self.cex = []
        self.checks = 0
        self.trivial = 0
        self.unknown = []
        self.covers = {}
        self.obslog = []
        self.findings = {}
        self.failed = {}
        self.max_cex = 6

    def getattr(self, I, name):
        if name == "symbolic":
            return True
        if name == "scratch":
            return "/scratch"
        return HM(self, name) if hasattr(self, "m_" + name) else MISSING_

    def m_bool(self, I, a, k):
        n = a[0]
        self.inputs.setdefault(n, ("bool", var(n)))
        return self.inputs[n][1]

    def m_choice(self, I, a, k):
        n = a[0]
        opts = [v if g is True else Opt(g, v) for g, v in I.iter_slots(a[1])]
        opts = I.spine(opts)
        if n not in self.inputs:
            self.inputs[n] = ("choice", self.tree(n, 0, len(opts)))
        gs = self.inputs[n][1]
        if len(gs) != len(opts):
            raise Unsupported("choice %s used with different numbers of options" % n)
        if len(opts) == 1:
            return opts[0]
        return I.narrow(I.merge_vals(list(gs), list(opts)))

    def tree(self, n, lo, hi):
        if hi - lo == 1:
            return [True]
        m = (lo + hi) // 2
        v = var("%s#%d-%d" % (n, lo, hi))
        return [band(v, g) for g in self.tree(n, lo, m)] + [band(bnot(v), g) for g in self.tree(n, m, hi)]

    def m_int(self, I, a, k):
        n = a[0]
        if n not in self.inputs:
            x = z3.Int(n)
            lo = a[1] if len(a) > 1 else k.get("lo")
            hi = a[2] if len(a) > 2 else k.get("hi")
            if lo is not None:
                I.solver.add(x >= lo)
            if hi is not None:
                I.solver.add(x <= hi)
            self.inputs[n] = ("int", SInt(x))
        return self.inputs[n][1]

    def m_assume(self, I, a, k):
        c = restrict(I.truth(a[0]), I.pc.lits)
        if c is True:
            return None
        p = I.pc.extend(c)
        if p is None or not I.feasible(p):
            raise PathDead
        I.pc = p

    def model_inputs(self, m):
        out = {}
        for n, (kind, d) in self.inputs.items():
            if m is None:
                out[n] = 0 if kind != "bool" else False
                continue
            if kind == "bool":
                out[n] = self.I.solver.ev(d, m)
            elif kind == "choice":
                for i, g in enumerate(d):
                    if self.I.solver.ev(g, m):
                        out[n] = i
                        break
            else:
                out[n] = m[0].eval(d.e, model_completion=True).as_long()
        return out

    def m_check(self, I, a, k):
        cond, msg = a[0], a[1]
        if not isinstance(msg, str):
            msg = "check"
        self.checks += 1
        c = restrict(I.truth(cond), I.pc.lits)
        if c is True:
            self.trivial += 1
            return None
        if len(self.failed.get(msg, ())) >= self.max_cex:
            r, m = ("skip", None)
        else:
            r, m = I.solver.check_holds(I.pc, c)
        if r == "fails":
            self.add_cex(msg, m)
        elif r == "unknown":
            self.unknown.append(msg)
        if r != "holds":
            p = I.pc.extend(c)
            if p is None or not I.feasible(p):
                raise PathDead
            I.pc = p
        return None

    def add_cex(self, msg, m):
        self.failed.setdefault(msg, []).append(1)
        self.cex.append({"msg": msg, "inputs": self.model_inputs(m)})

    def m_finding(self, I, a, k):
        fid, cond, msg = a
        c = restrict(I.truth(cond), I.pc.lits)
        r, m = I.solver.check_holds(I.pc, c) if c is not True else ("holds", None)
        if r == "fails" and fid not in self.findings:
            self.findings[fid] = {"msg": msg, "inputs": self.model_inputs(m)}

    def m_cover(self, I, a, k):
        c = restrict(I.truth(a[0]), I.pc.lits)
        label = a[1]
        if self.covers.get(label):
            return
        self.covers.setdefault(label, False)
        if c is False:
            return
        p = I.pc.extend(c)
        if p is not None and I.feasible(p):
            m = p.model if p.core else None
            self.covers[label] = True
            self.obs_models = getattr(self, "obs_models", [])
            if m is not None:
                self.obs_models.append(m)

    def m_obs(self, I, a, k):
        self.obslog.append((I.pc, a[0], snapshot(I, a[1], {})))


class _M:
    pass


from .interp import MISSING as MISSING_


def snapshot(I, v, memo):
    """immutable structure of the current value"""
    t = type(v)
    if t is Union:
        return ("U", [(g, snapshot(I, x, memo)) for g, x in v.alts])
    if t is tuple:
        return ("tuple", [(True, snapshot(I, x, memo)) for x in v])
    if isinstance(v, HObj):
        v = res(v)
        t = type(v)
        if t is PList:
            return (v.kind.__name__, [(g, snapshot(I, x, memo)) for g, x in I._slots(v.c)])
        if t is PSet:
            return ("set", [(g, snapshot(I, x, memo)) for x, g in I.set_entries(v)])
        if t is PDict:
            return ("dict", [(g, snapshot(I, k, memo), snapshot(I, x, memo)) for k, g, x in I.dict_entries(v)])
        if t is PObj:
            return ("object", v.cls.__name__)
        return ("object", I.type_of(v).__name__)
    if t in (SInt, B):
        return (t.__name__, v)
    if t is Tok:
        return ("tok", None)
    if t in (PFunc, BM, HM, View, LazyGen):
        return ("other", None)
    return ("const", v)


class NoCompare(Exception):
    pass


def concretize(I, s, m):
    k = s[0]
    ev = lambda g: I.solver.ev(g, m)
    if k == "U":
        for g, x in s[1]:
            if ev(g):
                return concretize(I, x, m)
        raise NoCompare
    if k in ("tuple", "list", "deque"):
        return [k] + [concretize(I, x, m) for g, x in s[1] if ev(g)]
    if k == "set":
        return ["set"] + sorted((concretize(I, x, m) for g, x in s[1] if ev(g)), key=repr)
    if k == "dict":
        return ["dict"] + sorted(([concretize(I, kk, m), concretize(I, x, m)] for g, kk, x in s[1] if ev(g)), key=repr)
    if k == "object":
        return ["object", s[1]]
    if k == "SInt":
        return m[0].eval(s[1].e, model_completion=True).as_long()
    if k == "B":
        return ev(s[1])
    if k == "const":
        return canon(s[1])
    raise NoCompare
