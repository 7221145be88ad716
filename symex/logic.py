"""Boolean layer: hash-consed And/Not DAG over z3 atoms, path conditions, solver.

Constants are the Python values True/False; everything else is a `B` node.
"""
import sys, time
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3


class B:
    __slots__ = ("kind", "arg", "id", "neg", "lit", "name", "__weakref__")

    def __bool__(self):
        raise TypeError("symbolic boolean used as a native bool")

    def __repr__(self):
        return show(self)


_next = [0]
_ands = {}
_atoms = {}
_keep = []


def _mk(kind, arg):
    b = B()
    b.kind, b.arg, b.neg, b.lit, b.name = kind, arg, None, None, None
    _next[0] += 1
    b.id = _next[0]
    return b


def reset():
    _ands.clear()
    _atoms.clear()
    _keep.clear()
    _next[0] = 0


def show(b, d=3):
    if b is True or b is False:
        return str(b)
    if b.kind == "atom":
        return str(b.arg)
    if d == 0:
        return "..."
    if b.kind == "not":
        return "!" + show(b.arg, d)
    return "(" + " & ".join(show(x, d - 1) for x in sorted(b.arg, key=lambda x: x.id)) + ")"


def atom(e):
    """z3 Bool expression -> B"""
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_not(e):
        return bnot(atom(e.arg(0)))
    k = e.get_id()
    r = _atoms.get(k)
    if r is None:
        r = _mk("atom", e)
        _atoms[k] = r
        _keep.append(e)
    return r


def var(name):
    return atom(z3.Bool(name))


def bnot(a):
    if a is True:
        return False
    if a is False:
        return True
    n = a.neg
    if n is None:
        n = _mk("not", a)
        n.neg = a
        a.neg = n
    return n


def _lits(x, out):
    """flatten a conjunct into `out`; False when contradictory"""
    if x is True:
        return True
    if x is False:
        return False
    if x.kind == "and":
        for y in x.arg:
            if y.neg is not None and y.neg in out:
                return False
            out.add(y)
        return True
    if x.neg is not None and x.neg in out:
        return False
    out.add(x)
    return True


def band(*xs):
    out = set()
    for x in xs:
        if not _lits(x, out):
            return False
    if not out:
        return True
    if len(out) == 1:
        return next(iter(out))
    # unit propagation through negated conjunctions (i.e. disjunctions)
    changed = False
    for y in list(out):
        if y.kind == "not" and y.arg.kind == "and":
            s = y.arg.arg
            inter = s & out
            if inter:
                rest = s - out
                if not rest:
                    return False
                out.discard(y)
                out.add(bnot(_mkand(rest)))
                changed = True
            else:
                for z in s:
                    if z.neg is not None and z.neg in out:
                        out.discard(y)  # already satisfied
                        changed = True
                        break
    if changed:
        return band(*out)
    return _mkand(out)


def _mkand(s):
    if not s:
        return True
    if len(s) == 1:
        return next(iter(s))
    f = frozenset(s)
    r = _ands.get(f)
    if r is None:
        r = _mk("and", f)
        _ands[f] = r
    return r


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bimp(a, b):
    return bor(bnot(a), b)


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is True:
        return bor(c, b)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if b is False:
        return band(c, a)
    return bnot(band(bnot(band(c, a)), bnot(band(bnot(c), b))))


def beq(a, b):
    if a is b:
        return True
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return bnot(b)
    if b is False:
        return bnot(a)
    return bite(a, b, bnot(b))


def or_guards(gs):
    """Or of (usually mutually exclusive) guards, with cheap factoring:
    (A & x) | (A & !x) -> A ;  (A & b) | !A -> b | !A"""
    gs = [g for g in gs if g is not False]
    if not gs:
        return False
    if any(g is True for g in gs):
        return True
    sets = [set(g.arg) if g.kind == "and" else {g} for g in gs]
    changed = True
    while changed and len(sets) > 1:
        changed = False
        for i in range(len(sets)):
            for j in range(i + 1, len(sets)):
                a, b = sets[i], sets[j]
                if a <= b:
                    del sets[j]; changed = True; break
                if b <= a:
                    del sets[i]; changed = True; break
                d1, d2 = a - b, b - a
                if len(d1) == 1 and len(d2) == 1:
                    x, y = next(iter(d1)), next(iter(d2))
                    if x.neg is y:
                        new = a & b
                        if not new:
                            return True
                        sets[i] = new
                        del sets[j]; changed = True; break
                elif len(d1) == 1:
                    x = next(iter(d1))
                    if x.neg is not None and x.neg in b:
                        b.discard(x.neg); changed = True; break
                elif len(d2) == 1:
                    y = next(iter(d2))
                    if y.neg is not None and y.neg in a:
                        a.discard(y.neg); changed = True; break
            if changed:
                break
    return bor(*[_mkand(s) for s in sets])


class Lits(frozenset):
    """literals known to hold, with a memo of restrictions under them"""
    __slots__ = ("memo",)

    def __new__(cls, xs=()):
        r = frozenset.__new__(cls, xs)
        r.memo = {}
        return r


def restrict(x, lits):
    """simplify x assuming all literals in `lits`"""
    if x is True or x is False or not lits:
        return x
    if x in lits:
        return True
    if x.neg is not None and x.neg in lits:
        return False
    if x.kind == "atom":
        return x
    memo = lits.memo
    r = memo.get(x)
    if r is None:
        r = _restrict(x, lits, memo, 0)
        if r is not True and r is not False and r is not x:
            if r in lits:
                r = True
            elif r.neg is not None and r.neg in lits:
                r = False
        memo[x] = r
    return r


def _restrict(x, lits, memo, depth):
    if x in lits:
        return True
    if x.neg is not None and x.neg in lits:
        return False
    if x.kind == "atom" or depth > 1:
        return x
    if x.kind == "not":
        y = x.arg
        if y.kind != "and":
            return x
        r = memo.get(y)
        if r is None:
            r = memo[y] = _restrict(y, lits, memo, depth)
        return x if r is y else bnot(r)
    new = []
    ch = False
    for y in x.arg:
        if y.kind == "atom":
            if y in lits:
                ch = True
                continue
            if y.neg is not None and y.neg in lits:
                return False
            new.append(y)
            continue
        r = memo.get(y)
        if r is None:
            r = memo[y] = _restrict(y, lits, memo, depth + 1)
        if r is False:
            return False
        if r is not y:
            ch = True
        if r is not True:
            new.append(r)
    if not ch:
        return x
    return band(*new) if new else True


class PC:
    """path condition: `core` is a set of literals whose conjunction is the
    condition; `lits` adds literals implied by it (for recognition only)"""
    __slots__ = ("core", "lits", "model")

    def __init__(self, core=frozenset(), lits=None, model=None):
        self.core = core
        self.lits = Lits(core) if lits is None else lits
        self.model = model

    def extend(self, g):
        """-> PC or None if syntactically infeasible"""
        if g is True:
            return self
        g0 = g
        g = restrict(g, self.lits)
        if g is True:
            if g0 in self.lits:
                return self
            core = self.core
        elif g is False:
            return None
        else:
            r = band(g, *self.core)
            if r is False:
                return None
            core = r.arg if r.kind == "and" else frozenset((r,))
        known = set(core)
        known |= self.lits
        for x in (g0, g):
            if x is True:
                continue
            known.add(x)
            if x.kind == "and":
                known |= x.arg
            else:
                known.add(x)
        return PC(core, Lits(known), self.model if core is self.core else None)

    def strip(self, base):
        """guard of self relative to base"""
        d = self.core - base.core
        return _mkand(d) if d else True


from z3 import z3core as _zc
import ctypes as _ct


class _Raw:
    def __getattr__(self, n):
        return getattr(_zc, n).__defaults__[0].f


_lib = _Raw()
_Ast = _zc.Ast
_CTX = z3.main_ctx()
_C = _CTX.ref()
_mk_and, _mk_iff, _mk_not = _lib.Z3_mk_and, _lib.Z3_mk_iff, _lib.Z3_mk_not
_inc_ref, _assert_raw = _lib.Z3_inc_ref, _lib.Z3_solver_assert
_mk_const, _mk_int_symbol = _lib.Z3_mk_const, _lib.Z3_mk_int_symbol
_check_assumptions = _lib.Z3_solver_check_assumptions
_boolsort = z3.BoolSort()
_BOOL = _boolsort.ast


class Solver:
    """incremental z3; purely boolean problems use the finite-domain engine.
    Definitions of DAG nodes are asserted through the raw C interface (the
    Python wrappers dominate the running time otherwise)."""

    def __init__(self, timeout_ms=60000):
        self.timeout = timeout_ms
        self.s = z3.SolverFor("QF_FD")
        self.s.set("timeout", timeout_ms)
        self.pure = True
        self.all = []
        self.cache = {}
        self.models = []
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.side = []
        self.base = 0

    def _assert_ast(self, a):
        _inc_ref(_C, a)
        self.all.append(a)
        _assert_raw(_C, self.s.solver, a)

    def _assert(self, e):
        _keep.append(e)
        self._assert_ast(e.as_ast())

    def general(self):
        """leave the purely boolean fragment"""
        if self.pure:
            self.pure = False
            self.s = z3.Solver()
            self.s.set("timeout", self.timeout)
            for a in self.all:
                _assert_raw(_C, self.s.solver, a)

    def add(self, e):
        self.general()
        self._assert(e)
        self.side.append(e)
        self.models = []
        self.cache = {k: v for k, v in self.cache.items() if v[0] == "unsat"}

    def _fresh(self, i):
        a = _mk_const(_C, _mk_int_symbol(_C, i), _BOOL)
        _inc_ref(_C, a)
        return a

    def lit(self, b):
        if b.lit is not None:
            return b.lit
        todo = [b]
        while todo:
            x = todo[-1]
            if x.lit is not None:
                todo.pop()
                continue
            if x.kind == "atom":
                e = x.arg
                if z3.is_const(e):
                    x.lit = e.as_ast()
                else:
                    self.general()
                    l = self._fresh(x.id)
                    self._assert_ast(_mk_iff(_C, l, e.as_ast()))
                    x.lit = l
                todo.pop()
            elif x.kind == "not":
                if x.arg.lit is None:
                    todo.append(x.arg)
                else:
                    l = _mk_not(_C, x.arg.lit)
                    _inc_ref(_C, l)
                    x.lit = l
                    todo.pop()
            else:
                miss = [y for y in x.arg if y.lit is None]
                if miss:
                    todo.extend(miss)
                else:
                    l = self._fresh(x.id)
                    n = len(x.arg)
                    arr = (_Ast * n)(*[y.lit for y in x.arg])
                    self._assert_ast(_mk_iff(_C, l, _mk_and(_C, n, arr)))
                    x.lit = l
                    todo.pop()
        return b.lit

    # -- evaluation under a model (python side, memoised per model)
    def ev(self, b, m):
        if b is True or b is False:
            return b
        memo = m[1]
        r = memo.get(b.id)
        if r is not None:
            return r
        todo = [b]
        while todo:
            x = todo[-1]
            if x.id in memo:
                todo.pop()
                continue
            if x.kind == "atom":
                memo[x.id] = z3.is_true(m[0].eval(x.arg, model_completion=True))
                todo.pop()
            elif x.kind == "not":
                r = memo.get(x.arg.id)
                if r is None:
                    todo.append(x.arg)
                else:
                    memo[x.id] = not r
                    todo.pop()
            else:
                r = True
                miss = None
                for y in x.arg:
                    v = memo.get(y.id)
                    if v is None:
                        miss = y
                    elif v is False:
                        r = False
                        break
                if r is False or miss is None:
                    memo[x.id] = r
                    todo.pop()
                else:
                    todo.append(miss)
        return memo[b.id]

    def sat_lits(self, lits):
        """-> 'sat' | 'unsat' | 'unknown' (model kept in self.last)"""
        if not lits:
            return "sat"
        r = self.cache.get(lits)
        if r is not None:
            self.last = r[1]
            return r[0]
        for m in self.models:
            if all(self.ev(x, m) for x in lits):
                self.cache[lits] = ("sat", m)
                self.last = m
                return "sat"
        t = time.time()
        n = len(lits)
        arr = (_Ast * n)(*[self.lit(x) for x in lits])
        t = time.time()
        res = _check_assumptions(_C, self.s.solver, n, arr)
        self.time += time.time() - t
        self.queries += 1
        if res == 1:
            m = (self.s.model(), {})
            self.models.insert(0, m)
            del self.models[12:]
            self.cache[lits] = ("sat", m)
            self.last = m
            return "sat"
        if res == -1:
            self.cache[lits] = ("unsat", None)
            return "unsat"
        self.unknown += 1
        return "unknown"

    def feasible(self, pc):
        if pc is None:
            return False
        m = pc.model
        if m is not None:
            return True
        r = self.sat_lits(pc.core)
        if r == "sat":
            pc.model = self.last if pc.core else None
            return True
        return r == "unknown"

    def check_holds(self, pc, b):
        """is b implied by pc?  -> ('holds'|'fails'|'unknown', model)"""
        x = pc.extend(bnot(b))
        if x is None:
            return "holds", None
        r = self.sat_lits(x.core)
        if r == "unsat":
            return "holds", None
        if r == "sat":
            m = self.last if x.core else None
            return "fails", m
        return "unknown", None
