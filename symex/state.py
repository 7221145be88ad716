"""Guarded state: trail levels, forks, joins, value merging."""
import types
from .logic import z3, B, PC, Solver, band, bor, bnot, bite, beq, atom, restrict, or_guards
from .values import *
from .values import _birth


class PathDead(Exception):
    """the current path has no continuation"""


class Abrupt(Exception):
    pass


class ReturnExc(Abrupt):
    kind = "return"

    def __init__(self, value):
        self.value = value


class BreakExc(Abrupt):
    kind = "break"
    value = None


class ContinueExc(Abrupt):
    kind = "continue"
    value = None


class InterpRaise(Abrupt):
    kind = "raise"

    def __init__(self, exc):
        self.value = exc


MAKE = {"return": ReturnExc, "break": lambda v: BreakExc(), "continue": lambda v: ContinueExc(), "raise": InterpRaise}


class Level:
    __slots__ = ("notes", "own", "start", "start0", "excl")

    def __init__(self):
        self.notes = {}
        self.own = set()
        self.start = self.start0 = _birth[0]
        # objects born on this path after this are seen by no other live path
        self.excl = _birth[0]


class Scope:
    __slots__ = ("kinds", "idx", "pend", "pc0", "level")


def same(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        if isinstance(a, HObj) and isinstance(b, HObj):
            return res(a) is res(b)
        return False
    if ta in (int, str, bool, bytes, type(None)):
        return a == b
    if ta is float:
        return a == b or (a != a and b != b)
    if ta is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, HObj):
        return res(a) is res(b)
    if ta is Tok:
        return a.kind == b.kind and same(a.parts, b.parts)
    if ta is SInt:
        return a.e.eq(b.e)
    if ta is Union:
        return len(a.alts) == len(b.alts) and all(g is h and same(v, w) for (g, v), (h, w) in zip(a.alts, b.alts))
    if ta is BM:
        return a.fn is b.fn and same(a.self_, b.self_)
    if ta is HM:
        return a.name == b.name and same(a.obj, b.obj)
    if ta in (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType):
        return False
    if ta is types.MethodType:
        return a == b
    return False


def is_scalar_tuple(t):
    for x in t:
        if type(x) is tuple:
            if not is_scalar_tuple(x):
                return False
        elif not (x is None or type(x) in (int, str, bool, float, bytes)):
            return False
    return True


class State:
    MAXALTS = 4000

    def __init__(self, solver=None):
        self.solver = solver or Solver()
        self.levels = [Level()]
        self.scopes = []
        self.pc = PC(frozenset())
        self.npend = 0
        self.stats = dict(forks=0, joins=0, branches=0, pruned=0)

    # ------------------------------------------------------------ trail
    def w(self, o):
        """writable content of o"""
        o = res(o)
        lv = self.levels[-1]
        if o in lv.own or o.birth > lv.start:
            return o.c
        if o not in lv.notes:
            lv.notes[o] = o.c
        o.c = o.copyc(o.c)
        lv.own.add(o)
        return o.c

    def setc(self, o, c, own=False):
        o = res(o)
        lv = self.levels[-1]
        if o.birth <= lv.start and o not in lv.notes:
            lv.notes[o] = o.c
        o.c = c
        if own:
            lv.own.add(o)
        else:
            lv.own.discard(o)

    def push(self):
        lv = Level()
        self.levels.append(lv)
        return lv

    def fold(self):
        """pop the top level keeping its effects"""
        lv = self.levels.pop()
        p = self.levels[-1]
        for o, saved in lv.notes.items():
            if o.birth <= p.start:
                if o not in p.notes:
                    p.notes[o] = saved
                if o in lv.own:
                    p.own.add(o)
                else:
                    p.own.discard(o)

    def undo(self):
        """pop the top level reverting its effects -> delta"""
        lv = self.levels.pop()
        delta = {}
        for o, saved in lv.notes.items():
            delta[o] = o.c
            o.c = saved
        return delta

    # ------------------------------------------------------------ scopes
    def convert(self, e):
        """the current path exits abruptly with e through a fork: park it at
        the scope that intercepts it"""
        k = e.kind
        for sc in reversed(self.scopes):
            if k in sc.kinds:
                break
        else:
            raise Unsupported("no scope for %s" % k)
        delta = {}
        excl = self.levels[-1].excl
        for lv in self.levels[sc.idx:]:
            for o in lv.notes:
                delta[o] = o.c
            lv.own.clear()
            lv.start = _birth[0]
            # what this path shares with those that go on is older
            lv.excl = max(lv.excl, excl)
        sc.pend.append((self.pc, k, e.value, delta, excl))
        self.npend += 1

    def scoped(self, kinds, thunk, handler):
        """run thunk; exits of the given kinds (and normal completion, kind
        None) are merged per kind and continue with handler(kind, value)"""
        sc = Scope()
        sc.kinds = kinds
        sc.pend = []
        sc.pc0 = pc0 = self.pc
        lv = self.push()
        sc.idx = len(self.levels) - 1
        self.scopes.append(sc)
        nlev, nsc = len(self.levels), len(self.scopes)
        out = None
        try:
            v = thunk()
            out = (None, v)
        except PathDead:
            pass
        except Abrupt as e:
            del self.levels[nlev:]
            del self.scopes[nsc:]
            if e.kind in kinds:
                out = (e.kind, e.value)
            elif sc.pend:
                self.scopes.pop()
                self.convert(e)
                self.scopes.append(sc)
            else:
                self.scopes.pop()
                self.fold()
                raise
        except BaseException:
            del self.levels[nlev:]
            del self.scopes[nsc:]
            self.scopes.pop()
            self.fold()
            raise
        assert len(self.levels) == nlev and len(self.scopes) == nsc
        self.scopes.pop()
        self.npend -= len(sc.pend)
        if not sc.pend:
            self.fold()
            if out is None:
                raise PathDead
            return handler(*out)
        outs = list(sc.pend)
        if out is not None:
            delta = {o: o.c for o in lv.notes}
            outs.append((self.pc, out[0], out[1], delta, lv.excl))
        self.undo()
        self.pc = pc0
        groups = {}
        for o in outs:
            groups.setdefault(o[1], []).append(o)
        if len(groups) == 1:
            (k, g), = groups.items()
            v = self.join(pc0, [(p, val, d, x) for p, _, val, d, x in g])
            return handler(k, v)
        br = []
        for k, g in groups.items():
            guard = or_guards([o[0].strip(pc0) for o in g])

            def th(k=k, g=g):
                v = self.join(self.pc, [(p, val, d, x) for p, _, val, d, x in g], setpc=False)
                return handler(k, v)
            br.append((guard, th))
        return self.fork(br)

    # ------------------------------------------------------------ fork/join
    def feasible(self, pc):
        return self.solver.feasible(pc)

    def fork(self, branches):
        pc0 = self.pc
        feas = []
        for g, th in branches:
            p = pc0.extend(g)
            if p is None:
                continue
            if not self.solver.feasible(p):
                self.stats["pruned"] += 1
                continue
            feas.append((p, th))
        if not feas:
            raise PathDead
        if len(feas) == 1:
            self.pc = feas[0][0]
            return feas[0][1]()
        self.stats["forks"] += 1
        self.stats["branches"] += len(feas)
        outs = []
        nlev, nsc = len(self.levels), len(self.scopes)
        for p, th in feas:
            self.push()
            self.pc = p
            try:
                v = th()
                excl = self.levels[-1].excl
                delta = self.undo()
                outs.append((self.pc, v, delta, excl))
            except PathDead:
                del self.scopes[nsc:]
                while len(self.levels) > nlev:
                    self.undo()
            except Abrupt as e:
                assert len(self.levels) == nlev + 1 and len(self.scopes) == nsc, (len(self.levels), nlev)
                self.convert(e)
                self.undo()
            self.pc = pc0
        if not outs:
            raise PathDead
        full = len(outs) == len(feas) and all(o[0] is f[0] for o, f in zip(outs, feas)) and len(feas) == len(branches)
        return self.join(pc0, outs, full=full)

    def join(self, pc0, outs, full=False, setpc=True):
        self.stats["joins"] += 1
        if len(outs) == 1:
            pc, v, delta, _ = outs[0]
            for o, c in delta.items():
                self.setc(o, c)
            self.pc = pc
            return v
        gs = [o[0].strip(pc0) for o in outs]
        if setpc and not full:
            g = or_guards(gs)
            if g is not True:
                p = pc0.extend(g)
                if p is None:
                    raise PathDead
                self.pc = p
            else:
                self.pc = pc0
        else:
            self.pc = pc0
        J = Join(self, gs, [o[2] for o in outs], [o[3] for o in outs])
        v = J.merge([o[1] for o in outs])
        objs = {}
        for _, _, d, _ in outs:
            for o in d:
                objs[o] = None
        for o in objs:
            J.merge_obj(o)
        J.finish()
        return v

    # ------------------------------------------------------------ values
    def narrow(self, v):
        """drop alternatives that contradict the path condition"""
        t = type(v)
        if t is Union:
            lits = self.pc.lits
            if not lits:
                return v
            out = []
            ch = False
            for g, x in v.alts:
                r = restrict(g, lits)
                if r is False:
                    ch = True
                    continue
                if r is True:
                    return x
                if r is not g:
                    ch = True
                out.append((r, x))
            if not out:
                raise PathDead
            if len(out) == 1:
                return out[0][1]
            return Union(out) if ch else v
        if t is B:
            return restrict(v, self.pc.lits)
        return v

    def merge_vals(self, gs, vs):
        J = Join(self, gs, None, None)
        r = J.merge(vs)
        return r

    def each(self, v, fn):
        """apply fn to every alternative of v (forking), merge results"""
        v = self.narrow(v)
        if type(v) is not Union:
            return fn(v)
        return self.fork([(g, (lambda x=x: fn(x))) for g, x in v.alts])

    def pure_each(self, v, fn):
        """like each, for side-effect free, non-raising fn"""
        v = self.narrow(v)
        if type(v) is not Union:
            return fn(v)
        return self.merge_vals([g for g, x in v.alts], [fn(x) for g, x in v.alts])

    def z(self, b):
        """B -> z3 Bool expression"""
        if b is True:
            return z3.BoolVal(True)
        if b is False:
            return z3.BoolVal(False)
        return zexpr(b)


_zx = {}


def zexpr(b):
    """the expression itself, not the solver's name for it: cached models know
    no names introduced after them"""
    e = _zx.get(b.id)
    if e is None:
        todo = [b]
        while todo:
            x = todo[-1]
            if x.id in _zx:
                todo.pop()
                continue
            if x.kind == "atom":
                _zx[x.id] = x.arg
                continue
            args = [x.arg] if x.kind == "not" else list(x.arg)
            miss = [y for y in args if y.id not in _zx]
            if miss:
                todo.extend(miss)
            elif x.kind == "not":
                _zx[x.id] = z3.Not(_zx[x.arg.id])
            else:
                _zx[x.id] = z3.And([_zx[y.id] for y in args])
        e = _zx[b.id]
    return e


class Join:
    def __init__(self, st, gs, deltas, starts):
        self.st = st
        self.gs = gs
        self.deltas = deltas
        self.starts = starts     # per branch: see Level.excl
        self.unify_ok = deltas is not None
        self.done = {}
        self.used = set()
        self.todo = []

    def content(self, i, o):
        if self.deltas is None:
            return o.c
        d = self.deltas[i]
        return d[o] if o in d else o.c

    # value merging: vs parallel to self.gs
    def merge(self, vs, gs=None):
        if gs is None:
            gs = self.gs
        v0 = vs[0]
        if all(same(v0, v) for v in vs):
            return v0
        # group identical values
        gv, gg, idx = [], [], []
        for i, (g, v) in enumerate(zip(gs, vs)):
            if g is False:
                continue
            for j, u in enumerate(gv):
                if same(u, v):
                    gg[j].append(g)
                    idx[j].append(i)
                    break
            else:
                gv.append(v)
                gg.append([g])
                idx.append([i])
        if len(gv) == 1:
            return gv[0]
        gg = [or_guards(x) if len(x) > 1 else x[0] for x in gg]
        tys = set(type(v) for v in gv)
        if tys <= {bool, B}:
            r = gv[-1]
            for g, v in zip(gg[-2::-1], gv[-2::-1]):
                r = bite(g, v, r)
            return r
        if SInt in tys and all(self._intlike(v) for v in gv):
            r = self._z(gv[-1])
            for g, v in zip(gg[-2::-1], gv[-2::-1]):
                r = z3.If(self.st.z(g), self._z(v), r)
            return mkint(r)
        if len(tys) == 1:
            t = next(iter(tys))
            if t is tuple and len(set(len(v) for v in gv)) == 1 and not all(is_scalar_tuple(v) for v in gv):
                return tuple(self.merge([v[k] for v in gv], gg) for k in range(len(gv[0])))
            if issubclass(t, HObj):
                u = self.unify(gv, gg, idx)
                if u is not None:
                    return u
            if t is View:
                if len(set(v.what for v in gv)) == 1:
                    d = self.merge([v.d for v in gv], gg)
                    return View(d, gv[0].what) if type(d) is not Union else Union([(g, View(x, gv[0].what)) for g, x in d.alts])
            if t is BM and len(set(id(v.fn) for v in gv)) == 1:
                d = self.merge([v.self_ for v in gv], gg)
                return BM(d, gv[0].fn, gv[0].cls)
        # general: union; flatten, try to unify fresh heap objects among alternatives
        alts = []
        for g, v in zip(gg, gv):
            if type(v) is Union:
                for h, x in v.alts:
                    q = band(g, h)
                    if q is not False:
                        alts.append((q, x))
            else:
                alts.append((g, v))
        # regroup
        out = []
        byk = {}
        for g, v in alts:
            try:
                k = (type(v), v) if type(v) in (str, int, bool, bytes, type(None)) else id(res(v)) if isinstance(v, HObj) else None
            except TypeError:
                k = None
            if k is None:
                for e in out:
                    if same(e[1], v):
                        e[0].append(g)
                        break
                else:
                    out.append([[g], v])
            elif k in byk:
                byk[k][0].append(g)
            else:
                e = [[g], v]
                byk[k] = e
                out.append(e)
        alts = [(or_guards(gl) if len(gl) > 1 else gl[0], v) for gl, v in out]
        if len(alts) == 1:
            return alts[0][1]
        if len(alts) > self.st.MAXALTS:
            raise Unsupported("union too large")
        return Union(alts)

    @staticmethod
    def _intlike(v):
        if type(v) is SInt or type(v) is int:
            return True
        return type(v) is Union and all(type(x) is int or type(x) is SInt for g, x in v.alts)

    def _z(self, v):
        if type(v) is SInt:
            return v.e
        if type(v) is Union:
            r = self._z(v.alts[-1][1])
            for g, x in v.alts[-2::-1]:
                r = z3.If(self.st.z(g), self._z(x), r)
            return r
        return z3.IntVal(v)

    # fresh heap objects created in different branches become one object
    def unify(self, vs, gs, idx):
        if not self.unify_ok:
            return None
        vs = [res(v) for v in vs]
        key = tuple(id(v) for v in vs)
        if key in self.done:
            return self.done[key]
        t = type(vs[0])
        if t is PObj:
            if len(set(v.cls for v in vs)) != 1 or any(v.payload is not None for v in vs):
                return None
        elif t in (PList, PSet):
            if len(set(v.kind for v in vs)) != 1:
                return None
        elif t is PDict:
            if len(set((v.kind, v.factory) for v in vs)) != 1:
                return None
        elif t is not PIter:
            return None
        # every one fresh, created in exactly one branch, each used once
        seen = set()
        for v, ix in zip(vs, idx):
            if v.birth <= self.starts[ix[0]] or id(v) in self.used or id(v) in seen or len(ix) != 1:
                return None
            seen.add(id(v))
        if len(set(tuple(i) for i in idx)) != len(idx):
            return None
        for v in vs:
            self.used.add(id(v))
        a = vs[0]
        self.done[key] = a
        self.todo.append((vs, gs, [i[0] for i in idx]))
        self.done[id(a)] = a
        return a

    def finish(self):
        while self.todo:
            todo, self.todo = self.todo, []
            for vs, gs, ix in todo:
                cs = [self.content(i, v) for v, i in zip(vs, ix)]
                a = vs[0]
                c = self.merge_content(a, cs, gs)
                self.st.setc(a, c)
                for b in vs[1:]:
                    b.fwd = a

    def merge_obj(self, o):
        if o.fwd is not None:
            return
        cs = [self.content(i, o) for i in range(len(self.gs))]
        c0 = cs[0]
        if all(c is c0 for c in cs):
            if c0 is not o.c:
                self.st.setc(o, c0)
            return
        if id(o) in self.used:
            return
        # o may be fresh in one branch only: other branches never see it
        alive = [i for i in range(len(self.gs)) if self.deltas is not None and o in self.deltas[i]]
        if len(alive) == 1 and o.birth > self.starts[alive[0]]:
            self.st.setc(o, cs[alive[0]])
            return
        self.st.setc(o, self.merge_content(o, cs, self.gs))

    def merge_content(self, o, cs, gs):
        t = type(o)
        if t is PObj or t is Frame:
            keys = {}
            for c in cs:
                for k in c:
                    keys[k] = None
            out = {}
            ov = t is PObj and o.cls is Overlay
            for k in keys:
                vs = [c.get(k, ABSENT) for c in cs]
                if ov and any(v is ABSENT for v in vs):
                    d = o.payload(k)
                    vs = [d if v is ABSENT else v for v in vs]
                out[k] = self.merge(vs, gs)
            return out
        if t is PDict or t is PSet:
            return self.merge_dict(cs, gs)
        if t is PList or t is PIter:
            return self.merge_list(cs, gs)
        return o.mergec(self, cs, gs)

    def merge_guard(self, hs, gs):
        """presence guard: hs[i] under gs[i]"""
        h0 = hs[0]
        if all(h is h0 for h in hs):
            return h0
        r = hs[-1]
        for g, h in zip(gs[-2::-1], hs[-2::-1]):
            r = bite(g, h, r)
        return r

    def merge_dict(self, cs, gs):
        n = len(cs)
        ds = [c.d for c in cs]
        out = {}
        # order: keep the order of the longest, insert others after their predecessor
        keys = merge_orders([list(d) for d in ds])
        for k in keys:
            es = [d.get(k) for d in ds]
            e0 = es[0]
            if all(e is e0 for e in es):
                out[k] = e0
                continue
            hs = [e[0] if e is not None else False for e in es]
            h = self.merge_guard(hs, gs)
            if h is False:
                continue
            pres = [(g, e[1]) for g, e in zip(gs, es) if e is not None and e[0] is not False]
            v = self.merge([x for _, x in pres], [g for g, _ in pres])
            out[k] = (h, v)
        s = ()
        if any(c.s for c in cs):
            ids = {}
            for c in cs:
                for e in c.s:
                    ids[e[0]] = None
            sl = []
            for i in ids:
                es = []
                for c in cs:
                    es.append(next((e for e in c.s if e[0] == i), None))
                e0 = next(e for e in es if e is not None)
                if all(e is e0 for e in es):
                    sl.append(e0)
                    continue
                h = self.merge_guard([e[2] if e is not None else False for e in es], gs)
                if h is False:
                    continue
                pres = [(g, e[3]) for g, e in zip(gs, es) if e is not None]
                v = self.merge([x for _, x in pres], [g for g, _ in pres])
                sl.append((i, e0[1], h, v))
            s = tuple(sl)
        return DictC(out, s)

    def merge_list(self, cs, gs):
        m = min(len(c) for c in cs)
        # common prefix
        p = 0
        while p < m and all(self._slot_same(cs[0][p], c[p]) for c in cs):
            p += 1
        s = 0
        while s < m - p and all(self._slot_same(cs[0][-1 - s], c[-1 - s]) for c in cs):
            s += 1
        pre = cs[0][:p]
        suf = cs[0][len(cs[0]) - s:] if s else []
        mids = [c[p:len(c) - s] for c in cs]
        mid = []
        L = max(len(x) for x in mids)
        mn = min(len(x) for x in mids)
        if mn and mn != L and len(cs) == 2:
            # one is a subsequence of the other by identity?
            a, b = (mids[0], mids[1]) if len(mids[0]) > len(mids[1]) else (mids[1], mids[0])
            ga = gs[0] if a is mids[0] else gs[1]
            pos = []
            j = 0
            for x in a:
                if j < len(b) and self._slot_same(x, b[j]):
                    pos.append(True)
                    j += 1
                else:
                    pos.append(False)
            if j == len(b):
                out = []
                for x, keep in zip(a, pos):
                    if keep:
                        out.append(x)
                    else:
                        h, v = (x.g, x.v) if type(x) is Opt else (True, x)
                        out.append(Opt(band(ga, h), v))
                return pre + out + suf
        for k in range(L):
            hs, vs, vg = [], [], []
            for i, x in enumerate(mids):
                if k < len(x):
                    e = x[k]
                    if type(e) is Opt:
                        hs.append(e.g)
                        vs.append(e.v)
                    else:
                        hs.append(True)
                        vs.append(e)
                    vg.append(gs[i])
                else:
                    hs.append(False)
            h = self.merge_guard(hs, gs)
            if h is False:
                continue
            v = self.merge(vs, vg)
            mid.append(v if h is True else Opt(h, v))
        return pre + mid + suf

    @staticmethod
    def _slot_same(a, b):
        if a is b:
            return True
        if type(a) is Opt or type(b) is Opt:
            return type(a) is type(b) and a.g is b.g and same(a.v, b.v)
        return same(a, b)


def merge_orders(lists):
    base = max(lists, key=len)
    res_ = dict.fromkeys(base)
    missing = False
    for l in lists:
        for k in l:
            if k not in res_:
                missing = True
                break
    if not missing:
        return list(res_)
    out = list(base)
    have = set(out)
    for l in lists:
        prev = None
        for k in l:
            if k not in have:
                if prev is None:
                    # before everything or append
                    out.insert(0, k) if l and l[0] is k and len(l) > 1 and l[1] in have else out.append(k)
                else:
                    out.insert(out.index(prev) + 1, k)
                have.add(k)
            prev = k
    return out
