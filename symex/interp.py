"""Merging symbolic interpreter for Python source (see DESIGN.md)."""
import ast
import math, builtins, inspect, types, os, sys, operator, enum, collections, functools, itertools
from .logic import z3, B, PC, Solver, band, bor, bnot, bite, beq, atom, restrict, or_guards, bimp, var
from .values import *
from .values import _birth
from .state import *

MISSING = object()


class UnwindLimit(Unsupported):
    """the unwinding bound is exceeded; `pc` is the path that exceeds it"""
    pc = None


# ------------------------------------------------------------------ source
_files = {}


def _index(path):
    ent = _files.get(path)
    if ent is None:
        src = open(path).read()
        tree = ast.parse(src)
        idx = {}
        lam = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx[(line, n.name)] = n
            elif isinstance(n, ast.Lambda):
                lam.setdefault(n.lineno, []).append(n)
        ent = _files[path] = (idx, lam)
    return ent


def find_node(code):
    try:
        idx, lam = _index(code.co_filename)
    except (OSError, SyntaxError):
        return None
    if code.co_name == "<lambda>":
        c = lam.get(code.co_firstlineno, [])
        if len(c) == 1:
            return c[0]
        names = code.co_varnames[:code.co_argcount]
        pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None and p[2] != p[3]]
        for n in c:
            lo, hi = (n.body.lineno, n.body.col_offset), (n.body.end_lineno, n.body.end_col_offset)
            if tuple(a.arg for a in n.args.args) == names and pos and all(lo <= (p[0], p[2]) and (p[1], p[3]) <= hi for p in pos):
                return n
        return None
    return idx.get((code.co_firstlineno, code.co_name))


class FnInfo:
    """static facts about a function node"""
    __slots__ = ("own", "globs", "nonl", "gen", "doc")

    def __init__(self, node):
        own, gl, nl = set(), set(), set()
        self.gen = False
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            own.add(x.arg)
        if a.vararg:
            own.add(a.vararg.arg)
        if a.kwarg:
            own.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                own.add(n.name)
                for d in n.decorator_list:
                    walk(d)
                if not isinstance(n, ast.ClassDef):
                    for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                        walk(d)
                return
            if isinstance(n, ast.Lambda):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    walk(d)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                walk(n.generators[0].iter)
                for m in ast.walk(n):
                    if isinstance(m, ast.NamedExpr):
                        own.add(m.target.id)
                return
            if isinstance(n, ast.Global):
                gl.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                nl.update(n.names)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.gen = True
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                own.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                own.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    own.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.MatchAs) and n.name:
                own.add(n.name)
            for c in ast.iter_child_nodes(n):
                walk(c)
        for s in body:
            walk(s)
        self.own = frozenset(own - gl - nl)
        self.globs = gl
        self.nonl = nl


def fninfo(node):
    r = getattr(node, "_info", None)
    if r is None:
        r = node._info = FnInfo(node)
    return r


def loop_flags(node):
    r = getattr(node, "_flags", None)
    if r is None:
        brk = cont = False

        def walk(n, inner):
            nonlocal brk, cont
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                return
            if isinstance(n, ast.Break) and not inner:
                brk = True
            elif isinstance(n, ast.Continue) and not inner:
                cont = True
            if isinstance(n, (ast.For, ast.While)):
                for c in n.body:
                    walk(c, True)
                for c in n.orelse:
                    walk(c, inner)
                return
            for c in ast.iter_child_nodes(n):
                walk(c, inner)
        for s in node.body:
            walk(s, False)
        r = node._flags = (brk, cont)
    return r


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
          ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
          ast.MatMult: operator.matmul}
DUNDER = {operator.add: "add", operator.sub: "sub", operator.mul: "mul", operator.truediv: "truediv", operator.floordiv: "floordiv",
          operator.mod: "mod", operator.pow: "pow", operator.or_: "or", operator.and_: "and", operator.xor: "xor",
          operator.lshift: "lshift", operator.rshift: "rshift", operator.matmul: "matmul"}
CMP_D = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}
CMP_F = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
SWAP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}

CONTAINER = (PList, PDict, PSet, View, PIter)
FUNC_TYPES = (types.FunctionType, types.BuiltinFunctionType, types.MethodType, PFunc, BM, HM, types.MethodDescriptorType,
              types.WrapperDescriptorType, types.MethodWrapperType, types.ClassMethodDescriptorType, functools.partial)


def toreal(v):
    """exact z3 number; None for inf and nan"""
    if type(v) is SInt:
        return v.e
    if type(v) is float:
        if not math.isfinite(v):
            return None
        n, d = v.as_integer_ratio()
        return z3.Q(n, d)
    return z3.IntVal(int(v))


class Interp(State):
    LOOP_LIMIT = 80
    DEPTH_LIMIT = 400

    MISSING = MISSING

    def __init__(self, roots, solver=None):
        State.__init__(self, solver)
        self.roots = tuple(roots)
        self.models = {}          # id(native callable/class) -> model function(interp, args, kwargs)
        self.keep = []
        self.class_models = {}    # native class -> constructor model
        self.attr_models = {}     # (native obj id, name) -> value/model
        self.identity = {}        # id(native) -> (native, interp value)
        self.overlays = {}        # class/module -> PObj holding overwritten attributes
        self.mro_cache = {}
        self.encoded = {}
        self.exc_stack = []
        self.depth = 0
        self.wants_locals = ()
        self.silent = set()       # native callables whose calls (and arguments) are skipped
        self.fclosure = {}
        self.steps = 0
        self.cur = None
        self.interp_files = {}
        self.extra_interp = set()  # code objects outside the roots that are interpreted too
        self.tokreg = {}
        from . import builtins_model
        builtins_model.install(self)
        self._str_method = builtins_model.str_method
        self._tuple_method = builtins_model.tuple_method

    # ================================================================ errors
    def mkexc(self, cls, *args):
        o = PObj(cls, {"args": tuple(args)})
        return o

    def unwind(self, msg):
        if not self.feasible(self.pc):
            raise PathDead
        e = UnwindLimit(msg)
        e.pc = self.pc
        raise e

    def raise_(self, cls, *args):
        raise InterpRaise(self.mkexc(cls, *args))

    def from_native_exc(self, e):
        o = PObj(type(e), {"args": self.adopt(tuple(e.args))})
        o.payload = e
        return o

    def native(self, fn, *args, **kw):
        """run native code, turning its exceptions into interpreted ones"""
        try:
            return fn(*args, **kw)
        except (Unsupported, PathDead, Abrupt):
            raise
        except RecursionError:
            raise
        except Exception as e:
            raise InterpRaise(self.from_native_exc(e))

    # ================================================================ adoption of native values
    def interpretable_cls(self, cls):
        r = self.mro_cache.get(("I", cls))
        if r is None:
            r = False
            if isinstance(cls, type) and not issubclass(cls, (enum.Enum, type)):
                f = getattr(sys.modules.get(cls.__module__), "__file__", None)
                r = bool(f) and f.startswith(self.roots) or cls in self.extra_interp
            self.mro_cache[("I", cls)] = r
        return r

    def adopt(self, x):
        t = type(x)
        if t in (int, str, bool, float, bytes, type(None), types.FunctionType, type, types.ModuleType, types.BuiltinFunctionType):
            return x
        if isinstance(x, (HObj, B, SInt, Tok, Union, View, PFunc, BM, HM, Super, LazyGen)):
            return x
        if t is tuple:
            if all(type(v) in (int, str, bool, float, bytes, type(None)) for v in x):
                return x
            return tuple(self.adopt(v) for v in x)
        if t in (list, set, dict, collections.defaultdict, collections.OrderedDict, collections.deque, collections.Counter) or \
                self.interpretable_cls(t):
            if t is dict and "__name__" in x and getattr(sys.modules.get(x["__name__"]), "__dict__", None) is x:
                if id(x) not in self.identity:
                    self.identity[id(x)] = (x, GView(x))
                return self.identity[id(x)][1]
            ent = self.identity.get(id(x))
            if ent is not None:
                return ent[1]
            return self._adopt_new(x, t)
        if isinstance(x, BaseException):
            return self.from_native_exc(x)
        if t is types.MethodType and self.interpretable_cls(type(x.__self__)):
            return BM(self.adopt(x.__self__), x.__func__)
        return x

    def _adopt_new(self, x, t):
        if t in (list, collections.deque):
            o = PList((), t)
            self.identity[id(x)] = (x, o)
            o.birth = 0   # exists on every path: changes are undone with the path
            o.c = [self.adopt(v) for v in x]
        elif t is set:
            o = PSet(set)
            self.identity[id(x)] = (x, o)
            o.birth = 0   # exists on every path: changes are undone with the path
            for v in x:
                o.c.d[self.adopt(v)] = (True, None)
        elif issubclass(t, dict) and not self.interpretable_cls(t):
            o = PDict(t, getattr(x, "default_factory", None))
            self.identity[id(x)] = (x, o)
            o.birth = 0   # exists on every path: changes are undone with the path
            for k, v in x.items():
                o.c.d[self.adopt(k)] = (True, self.adopt(v))
        else:
            o = PObj(t)
            self.identity[id(x)] = (x, o)
            o.birth = 0   # exists on every path: changes are undone with the path
            d = dict(getattr(x, "__dict__", {}))
            for c in t.__mro__:
                for s in getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else ():
                    if hasattr(x, s):
                        d[s] = getattr(x, s)
            o.c = {k: self.adopt(v) for k, v in d.items()}
        return o

    def to_native(self, v, depth=0):
        """fully concrete value -> native; raises NeedSplit/Unsupported"""
        v = self.narrow(v)
        t = type(v)
        if t in (int, str, bool, float, bytes, type(None)):
            return v
        if t is tuple:
            return tuple(self.to_native(x) for x in v)
        if t is B:
            raise NeedSplit(v)
        if t is Union:
            raise NeedSplit(v.alts[0][0])
        if isinstance(v, HObj):
            v = res(v)
            t = type(v)
            if t is PList:
                return v.kind(self.to_native(x) for x in self.spine(v.c))
            if t is PIter:
                return iter([self.to_native(x) for x in self.spine(v.c)])
            if t is PDict:
                if v.c.s:
                    raise Unsupported("symbolic keys to native")
                d = {}
                for k, (g, x) in v.c.d.items():
                    g = restrict(g, self.pc.lits)
                    if g is False:
                        continue
                    if g is not True:
                        raise NeedSplit(g)
                    d[self.to_native(k)] = self.to_native(x)
                if v.kind is collections.defaultdict:
                    return collections.defaultdict(v.factory, d)
                return d if v.kind is dict else v.kind(d)
            if t is PSet:
                if v.c.s:
                    raise Unsupported("symbolic keys to native")
                out = []
                for k, (g, x) in v.c.d.items():
                    g = restrict(g, self.pc.lits)
                    if g is False:
                        continue
                    if g is not True:
                        raise NeedSplit(g)
                    out.append(self.to_native(k))
                return v.kind(out)
            if t is PObj and isinstance(v.cls, type) and issubclass(v.cls, BaseException):
                if v.payload is not None:
                    return v.payload
                return v.cls(*self.to_native(v.c.get("args", ())))
            h = getattr(v, "to_native", None)
            if h is not None:
                return h(self)
            raise Unsupported("to_native %r" % (v,))
        if t is View:
            o = self.iter_slots(v)
            return [self.to_native(x) for x in self.spine([Opt(g, x) if g is not True else x for g, x in o])]
        if t is LazyGen:
            return [self.to_native(x) for x in self.spine(self.force_gen(v).c)]
        if t in (SInt, Tok):
            raise Unsupported("symbolic scalar to native: %r" % (v,))
        if t in (BM, HM):
            raise Unsupported("method to native")
        if t is PFunc:
            raise Unsupported("pfunc to native")
        return v

    def spine(self, slots):
        out = []
        lits = self.pc.lits
        for s in slots:
            if type(s) is Opt:
                g = restrict(s.g, lits)
                if g is False:
                    continue
                if g is not True:
                    raise NeedSplit(s.g)
                out.append(s.v)
            else:
                out.append(s)
        return out

    def split(self, thunk):
        """run thunk; whenever it needs an undecided guard decided, fork"""
        try:
            return thunk()
        except NeedSplit as e:
            g = e.g
        return self.fork([(g, lambda: self.split(thunk)), (bnot(g), lambda: self.split(thunk))])

    def native_call(self, f, args, kwargs):
        def go():
            a = [self.to_native(x) for x in args]
            k = {n: self.to_native(x) for n, x in kwargs.items()}
            if self.levels[-1] is not self.levels[0] and self.impure(f):
                raise Unsupported("impure native call %r under a symbolic branch" % (f,))
            r = self.native(f, *a, **k)
            for n, (x, y) in enumerate(zip(args, a)):
                self.writeback(x, y)
            return self.adopt_result(r)
        return self.split(go)

    def impure(self, f):
        return False

    def writeback(self, x, y):
        """native code may have mutated the native copy of a container"""
        if isinstance(x, PList) and isinstance(y, list):
            cur = self.spine(res(x).c)
            if len(cur) != len(y) or any(type(a) is not type(b) or a != b for a, b in zip(cur, y) if is_scalar(a)):
                if all(is_scalar(v) or type(v) is tuple for v in y):
                    self.setc(x, [self.adopt(v) for v in y])

    def adopt_result(self, r):
        t = type(r)
        if t in (list, set, dict, collections.defaultdict, collections.OrderedDict, collections.deque):
            # fresh native result: convert without identity
            if t in (list, collections.deque):
                return PList([self.adopt_result(v) for v in r], t)
            if t is set:
                o = PSet(set)
                for v in r:
                    o.c.d[self.adopt(v)] = (True, None)
                return o
            o = PDict(t, getattr(r, "default_factory", None))
            for k, v in r.items():
                o.c.d[self.adopt(k)] = (True, self.adopt_result(v))
            return o
        if t is tuple:
            return tuple(self.adopt_result(v) for v in r)
        return self.adopt(r)

    # ================================================================ truth / equality / order
    def truth(self, v):
        v = self.narrow(v)
        t = type(v)
        if t is bool or t is B:
            return v
        if t in (int, str, float, bytes, type(None), tuple):
            return bool(v)
        if t is Union:
            r = []
            simple = all(not isinstance(x, PObj) for g, x in v.alts)
            if simple:
                return or_guards([band(g, self.truth(x)) for g, x in v.alts])
            return self.fork([(g, (lambda x=x: self.truth(x))) for g, x in v.alts])
        if t is SInt:
            return atom(z3.simplify(v.e != 0))
        if t is Tok:
            return True
        if t is LazyGen or t in (PFunc, BM, HM):
            return True
        if isinstance(v, HObj):
            v = res(v)
            t = type(v)
            if t in (PList,):
                return bor(*[s.g if type(s) is Opt else True for s in v.c])
            if t in (PDict, PSet):
                return bor(*[g for g, x in v.c.d.values()], *[e[2] for e in v.c.s])
            if t is PObj:
                f = self.cls_lookup(v.cls, "__bool__")
                if f is not MISSING:
                    return self.truth(self.call(BM(v, f), [], {}))
                f = self.cls_lookup(v.cls, "__len__")
                if f is not MISSING and isinstance(f, (types.FunctionType, PFunc)):
                    return self.truth(self.call(BM(v, f), [], {}))
                return True
            h = getattr(v, "m___bool__", None)
            if h is not None:
                return self.truth(h(self, [], {}))
            h = getattr(v, "m___len__", None)
            if h is not None:
                return self.truth(h(self, [], {}))
            return True
        if t is View:
            return self.truth(v.d)
        return self.native(bool, v)

    def not_(self, v):
        return bnot(self.truth(v))

    def is_(self, a, b):
        a, b = self.narrow(a), self.narrow(b)
        if type(a) is Union:
            return or_guards([band(g, self.is_(x, b)) for g, x in a.alts])
        if type(b) is Union:
            return or_guards([band(g, self.is_(a, x)) for g, x in b.alts])
        if type(a) is B or type(b) is B:
            if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
                return beq(a, b)
            return False
        if isinstance(a, HObj) or isinstance(b, HObj):
            return isinstance(a, HObj) and isinstance(b, HObj) and res(a) is res(b)
        if a is b:
            return True
        ta = type(a)
        if ta is type(b) and ta in (int, str, bytes, float, tuple):
            return a == b if ta is not tuple else same(a, b)
        if ta in (SInt, Tok) or type(b) in (SInt, Tok):
            return self.eq(a, b) if ta is type(b) else False
        if ta is BM and type(b) is BM:
            return False
        return False

    def eq(self, a, b):
        a, b = self.narrow(a), self.narrow(b)
        if a is b and not isinstance(a, PObj):
            return True
        ta, tb = type(a), type(b)
        if ta is Union:
            return self._eq_union(a, b)
        if tb is Union:
            return self._eq_union(b, a)
        N = (int, str, bool, float, bytes, type(None))
        if ta in N and tb in N:
            return a == b
        if ta is B or tb is B:
            if ta is B and tb is B:
                return beq(a, b)
            x, y = (a, b) if ta is B else (b, a)
            if type(y) is bool:
                return beq(x, y)
            if type(y) is int:
                return x if y == 1 else bnot(x) if y == 0 else False
            return False
        if ta is SInt or tb is SInt:
            x, y = (a, b) if ta is SInt else (b, a)
            if type(y) is SInt:
                p, q = x.e, y.e
                if p.is_int() != q.is_int():
                    return self.compare_eq_mixed(x, y)
                if p.get_id() > q.get_id():
                    p, q = q, p
                return atom(z3.simplify(p == q, arith_lhs=True))
            if type(y) in (int, bool):
                return atom(z3.simplify(x.e == int(y), arith_lhs=True))
            if type(y) is float:
                return self.compare_eq_mixed(x, y)
            return False
        if ta is Tok or tb is Tok:
            return self.tok_eq(a, b)
        if ta is tuple or tb is tuple:
            if ta is not tb or len(a) != len(b):
                if isinstance(a, (HObj,)) or isinstance(b, HObj):
                    return self._eq_dunder(a, b)
                return False
            r = []
            for x, y in zip(a, b):
                e = self.eq(x, y)
                if e is False:
                    return False
                r.append(e)
            return band(*r)
        if isinstance(a, HObj):
            a = res(a)
            ta = type(a)
        if isinstance(b, HObj):
            b = res(b)
            tb = type(b)
        if ta is PList and tb is PList:
            if a is b:
                return True
            return self.seq_eq(a.c, b.c)
        if ta is PDict and tb is PDict:
            return True if a is b else self.dict_eq(a, b)
        sa, sb = self._setlike(a), self._setlike(b)
        if sa is not None and sb is not None:
            return True if sa is sb else self.set_eq(sa, sb)
        return self._eq_dunder(a, b)

    def _setlike(self, a):
        if type(a) is PSet:
            return a
        if type(a) in (set, frozenset):
            o = PSet(type(a))
            for k in a:
                o.c.d[k] = (True, None)
            return o
        if type(a) is View and a.what in ("keys", "items"):
            return self.mkset(a)
        return None

    def _eq_dunder(self, a, b):
        if isinstance(a, HObj) and isinstance(b, HObj) and res(a) is res(b):
            if type(a) is not PObj:
                return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, HObj):
                x = res(x)
                if type(x) is PObj:
                    f = self.cls_lookup(x.cls, "__eq__")
                    if f is not MISSING and f is not object.__eq__:
                        r = self.call(BM(x, f), [y], {})
                        if r is NotImplemented:
                            continue
                        return self.truth(r)
                else:
                    h = getattr(x, "m___eq__", None)
                    if h is not None:
                        return h(self, [y], {})
        if isinstance(a, HObj) or isinstance(b, HObj):
            return isinstance(a, HObj) and isinstance(b, HObj) and res(a) is res(b)
        if type(a) in (PFunc, BM, HM, View) or type(b) in (PFunc, BM, HM, View):
            return same(a, b)
        r = self.native(operator.eq, a, b)
        return self.truth(self.adopt_result(r))

    def _eq_union(self, u, b):
        if type(b) is Union:
            bt = [self._conc(x) for g, x in b.alts]
            if all(bt) and all(self._conc(x) for g, x in u.alts):
                bd = {}
                for h, y in b.alts:
                    bd[y] = bor(bd[y], h) if y in bd else h
                gs = []
                for g, x in u.alts:
                    h = bd.get(x)
                    if h is not None:
                        gs.append(band(g, h))
                return or_guards(gs)
        gs = []
        for g, x in u.alts:
            if isinstance(x, PObj) or isinstance(b, PObj):
                gs.append(self.fork([(g, lambda x=x: self.eq(x, b)), (bnot(g), lambda: False)]))
            else:
                gs.append(band(g, self.eq(x, b)))
        return or_guards(gs)

    @staticmethod
    def _conc(x):
        return type(x) in (int, str, bool, bytes, type(None)) or type(x) is tuple and is_scalar_tuple(x)

    def seq_eq(self, xs, ys):
        if any(type(x) is Opt for x in xs) or any(type(y) is Opt for y in ys):
            # dynamic programming over (i, j): sequences xs[i:], ys[j:] equal
            X = [(x.g, x.v) if type(x) is Opt else (True, x) for x in xs]
            Y = [(y.g, y.v) if type(y) is Opt else (True, y) for y in ys]
            memo = {}

            def go(i, j):
                k = (i, j)
                if k in memo:
                    return memo[k]
                if i == len(X):
                    r = band(*[bnot(g) for g, _ in Y[j:]])
                elif j == len(Y):
                    r = band(*[bnot(g) for g, _ in X[i:]])
                else:
                    gx, gy = X[i][0], Y[j][0]
                    r = bor(band(bnot(gx), go(i + 1, j)) if gx is not True else False,
                            band(gx, bnot(gy), go(i, j + 1)) if gy is not True else False,
                            band(gx, gy, self.eq(X[i][1], Y[j][1]), go(i + 1, j + 1)))
                memo[k] = r
                return r
            return go(0, 0)
        if len(xs) != len(ys):
            return False
        r = []
        for x, y in zip(xs, ys):
            e = self.eq(x, y)
            if e is False:
                return False
            r.append(e)
        return band(*r)

    def dict_eq(self, a, b):
        ca, cb = a.c, b.c
        conj = []
        if ca.s or cb.s:
            for k, g, v in self.dict_entries(a):
                hit = or_guards([band(h, self.eq(k, k2), self.eq(v, v2)) for k2, h, v2 in self.dict_entries(b)])
                conj.append(bimp(g, hit))
            for k, g, v in self.dict_entries(b):
                hit = or_guards([band(h, self.eq(k, k2)) for k2, h, v2 in self.dict_entries(a)])
                conj.append(bimp(g, hit))
            return band(*conj)
        for k in dict.fromkeys(list(ca.d) + list(cb.d)):
            ea, eb = ca.d.get(k), cb.d.get(k)
            if ea is None:
                ka = self._alt_key(k, ca.d) if isinstance(k, HObj) else None
                ea = ca.d.get(ka) if ka is not None else None
            if eb is None:
                kb = self._alt_key(k, cb.d) if isinstance(k, HObj) else None
                eb = cb.d.get(kb) if kb is not None else None
            if ea is None:
                conj.append(bnot(eb[0]))
            elif eb is None:
                conj.append(bnot(ea[0]))
            else:
                conj.append(beq(ea[0], eb[0]))
                if ea[1] is not eb[1]:
                    g = band(ea[0], eb[0])
                    if g is not False:
                        gg = restrict(g, self.pc.lits)
                        if gg is False:
                            continue
                        if isinstance(ea[1], PObj) and gg is not True:
                            e = self.fork([(g, lambda: self.eq(ea[1], eb[1])), (bnot(g), lambda: True)])
                        else:
                            e = self.eq(ea[1], eb[1])
                        conj.append(bimp(g, e))
            if conj and conj[-1] is False:
                return False
        return band(*conj)

    def _alt_key(self, k, d):
        for x in d:
            if isinstance(x, HObj) and res(x) is res(k):
                return x
        return None

    def set_eq(self, a, b):
        ca, cb = a.c, b.c
        if not ca.s and not cb.s and not any(isinstance(k, HObj) for k in ca.d):
            conj = []
            for k in dict.fromkeys(list(ca.d) + list(cb.d)):
                ga = ca.d[k][0] if k in ca.d else False
                gb = cb.d[k][0] if k in cb.d else False
                conj.append(beq(ga, gb))
                if conj[-1] is False:
                    return False
            return band(*conj)
        return band(self.subset(a, b), self.subset(b, a))

    def subset(self, a, b):
        conj = []
        for k, g in self.set_entries(a):
            conj.append(bimp(g, self.contains(b, k)))
        return band(*conj)

    def tok_eq(self, a, b):
        if type(a) is Tok and type(b) is Tok:
            if a.kind != b.kind:
                return False
            return self.tok_parts_eq(a.parts, b.parts)
        t, s = (a, b) if type(a) is Tok else (b, a)
        if not isinstance(s, str):
            return False
        if t.kind == "hash":
            reg = self.tokreg.get(s)
            if reg is None:
                return False
            return self.tok_parts_eq(t.parts, reg)
        if t.kind == "cat":
            return self.cat_eq(t, s)
        raise Unsupported("compare %r with %r" % (a, b))

    def str_lt(self, a, b):
        """order of strings of which one is opaque: arbitrary, but the same for
        equal strings"""
        same = self.eq(a, b)
        if same is True:
            return False
        ka, kb = repr(a), repr(b)
        reg = self.__dict__.setdefault("str_order", {})
        hit = reg.get((ka, kb))
        if hit is None:
            hit = (a, b, var("str_lt_%d" % (len(reg) // 2)))
            reg[(ka, kb)] = hit
            reg[(kb, ka)] = (b, a, bnot(hit[2]))
        v = hit[2]
        for k2, (x, y, w) in list(reg.items()):
            if k2 == (ka, kb) or k2 == (kb, ka):
                continue
            both = band(self.eq(a, x), self.eq(b, y))
            c = restrict(bor(bnot(both), beq(v, w)), self.pc.lits)
            if c is not True:
                p = self.pc.extend(c)
                if p is None:
                    raise PathDead
                self.pc = p
        return band(bnot(same), v)

    def tok_parts_eq(self, p, q):
        if type(p) is Tok or type(q) is Tok:
            return self.tok_eq(p, q)
        if type(p) is tuple and type(q) is tuple:
            if len(p) != len(q):
                return False
            r = []
            for x, y in zip(p, q):
                e = self.tok_parts_eq(x, y)
                if e is False:
                    return False
                r.append(e)
            return band(*r)
        if type(p) is Union or type(q) is Union:
            u, o = (p, q) if type(p) is Union else (q, p)
            return or_guards([band(g, self.tok_parts_eq(x, o)) for g, x in u.alts])
        if type(p) is B or type(q) is B:
            return self.eq(p, q) if isinstance(p, (bool, B)) and isinstance(q, (bool, B)) else False
        if type(p) is SInt or type(q) is SInt:
            if type(p) in (SInt, int) and type(q) in (SInt, int):
                return self.eq(p, q)
            return False
        if type(p) is not type(q):
            return False
        return self.eq(p, q)

    def cat_eq(self, t, s):
        """concatenation token against a concrete string: match literal parts"""
        parts = t.parts
        syms = [p for p in parts if not isinstance(p, str)]
        if len(syms) == 1:
            i = parts.index(syms[0]) if not isinstance(parts[0], Tok) else 0
            for i, p in enumerate(parts):
                if not isinstance(p, str):
                    break
            pre, post = "".join(parts[:i]), "".join(parts[i + 1:])
            if not (s.startswith(pre) and s.endswith(post) and len(s) >= len(pre) + len(post)):
                return False
            mid = s[len(pre):len(s) - len(post)]
            p = parts[i]
            if type(p) is SInt:
                if mid.lstrip("-").isdigit() and str(int(mid)) == mid:
                    return self.eq(p, int(mid))
                return False
            return self.tok_eq(p, mid)
        raise Unsupported("string match %r vs %r" % (t, s))

    def compare(self, op, a, b):
        """op: ast.Lt etc -> B"""
        a, b = self.narrow(a), self.narrow(b)
        ta, tb = type(a), type(b)
        if ta is Union:
            if self._simple_alts(a) and not isinstance(b, PObj):
                return or_guards([band(g, self.compare(op, x, b)) for g, x in a.alts])
            return self.fork([(g, (lambda x=x: self.compare(op, x, b))) for g, x in a.alts])
        if tb is Union:
            if self._simple_alts(b) and not isinstance(a, PObj):
                return or_guards([band(g, self.compare(op, a, x)) for g, x in b.alts])
            return self.fork([(g, (lambda x=x: self.compare(op, a, x))) for g, x in b.alts])
        if ta is B:
            return self.compare(op, Union([(a, 1), (bnot(a), 0)]), b)
        if tb is B:
            return self.compare(op, a, Union([(b, 1), (bnot(b), 0)]))
        if ta is SInt or tb is SInt:
            if ta in (SInt, int, bool, float) and tb in (SInt, int, bool, float):
                x, y = toreal(a), toreal(b)
                if x is None or y is None:
                    return self.compare_inf(op, a, b)
                if x.is_int() != y.is_int():
                    x = z3.ToReal(x) if x.is_int() else x
                    y = z3.ToReal(y) if y.is_int() else y
                return atom(z3.simplify(CMP_F[op](x, y)))
            self.raise_(TypeError, "unorderable")
        if ta is tuple and tb is tuple or (isinstance(a, PList) and isinstance(b, PList)):
            if ta is tuple and self._conc(a) and self._conc(b):
                return self.native(CMP_F[op], a, b)
            xs = a if ta is tuple else self.spine(res(a).c)
            ys = b if tb is tuple else self.spine(res(b).c)
            strict = ast.Lt if op in (ast.Lt, ast.LtE) else ast.Gt
            if not xs or not ys:
                return CMP_F[op](len(xs), len(ys))
            e = self.eq(xs[0], ys[0])
            rest = self.compare(op, tuple(xs[1:]), tuple(ys[1:])) if e is not False else False
            if e is True:
                return rest
            return bor(band(bnot(e), self.compare(strict, xs[0], ys[0])), band(e, rest))
        sa, sb = self._setlike(res(a) if isinstance(a, HObj) else a), self._setlike(res(b) if isinstance(b, HObj) else b)
        if sa is not None and sb is not None:
            if op is ast.LtE:
                return self.subset(sa, sb)
            if op is ast.GtE:
                return self.subset(sb, sa)
            if op is ast.Lt:
                return band(self.subset(sa, sb), bnot(self.subset(sb, sa)))
            return band(self.subset(sb, sa), bnot(self.subset(sa, sb)))
        if isinstance(a, PObj):
            a = res(a)
            f = self.cls_lookup(a.cls, CMP_D[op])
            if f is not MISSING and f is not getattr(object, CMP_D[op]):
                r = self.call(BM(a, f), [b], {})
                if r is not NotImplemented:
                    return self.truth(r)
        if isinstance(b, PObj):
            b = res(b)
            f = self.cls_lookup(b.cls, CMP_D[SWAP[op]])
            if f is not MISSING and f is not getattr(object, CMP_D[SWAP[op]]):
                r = self.call(BM(b, f), [a], {})
                if r is not NotImplemented:
                    return self.truth(r)
        if isinstance(a, (HObj, Tok)) or isinstance(b, (HObj, Tok)):
            if isinstance(a, HObj) and hasattr(a, "m_" + CMP_D[op]):
                return getattr(a, "m_" + CMP_D[op])(self, [b], {})
            if isinstance(a, Tok) and isinstance(b, (str, Tok)) or isinstance(b, Tok) and isinstance(a, str):
                lt = self.str_lt(a, b)
                if op is ast.Lt:
                    return lt
                if op is ast.GtE:
                    return bnot(lt)
                e = self.eq(a, b)
                return bor(lt, e) if op is ast.LtE else bnot(bor(lt, e))
            self.raise_(TypeError, "unorderable types")
        return self.truth(self.adopt_result(self.native(CMP_F[op], a, b)))

    @staticmethod
    def _simple_alts(u):
        return all(type(x) in (int, str, float, bool, tuple, SInt) for g, x in u.alts)

    # ================================================================ dict / set primitives
    def symkey(self, k):
        """is k a key that must be compared symbolically?"""
        t = type(k)
        if t in (SInt, Tok, B):
            return True
        if t is tuple:
            return any(self.symkey(x) for x in k)
        if t is PObj:
            f = self.cls_lookup(k.cls, "__eq__")
            return f is not MISSING and f is not object.__eq__
        if t is PSet:
            return True
        return False

    def check_hashable(self, k):
        t = type(k)
        if t is PList or t is PDict or (t is PSet and k.kind is set):
            self.raise_(TypeError, "unhashable type: %r" % k.kind.__name__)
        if t is tuple:
            for x in k:
                self.check_hashable(x)
        if t is PObj and "__hash__" in k.cls.__dict__ and k.cls.__dict__["__hash__"] is None:
            self.raise_(TypeError, "unhashable type: %r" % k.cls.__name__)
        if t is PObj:
            for c in k.cls.__mro__:
                h = c.__dict__.get("__hash__", MISSING)
                if h is not MISSING:
                    if isinstance(h, types.FunctionType) and c.__name__ == "ValuePointer":
                        self.call(BM(k, h), [], {})
                    elif h is None:
                        self.raise_(TypeError, "unhashable type: %r" % k.cls.__name__)
                    break

    def key_alts(self, k):
        """k -> list of (guard, key) without unions at any tuple depth"""
        k = self.narrow(k)
        t = type(k)
        if t is Union:
            out = []
            for g, x in k.alts:
                for h, y in self.key_alts(x):
                    q = band(g, h)
                    if q is not False:
                        out.append((q, y))
            return out
        if t is tuple and not self._conc(k):
            outs = [(True, ())]
            for x in k:
                xa = self.key_alts(x)
                if len(xa) == 1 and xa[0][0] is True:
                    outs = [(g, p + (xa[0][1],)) for g, p in outs]
                else:
                    new = []
                    for g, p in outs:
                        for h, y in xa:
                            q = band(g, h)
                            if q is not False and restrict(q, self.pc.lits) is not False:
                                new.append((q, p + (y,)))
                    outs = new
            return outs
        if isinstance(k, HObj):
            k = res(k)
            if type(k) is PSet and k.kind is frozenset and not k.c.s:
                try:
                    return [(True, self.to_native(k))]
                except NeedSplit:
                    pass
        return [(True, k)]

    def with_key(self, k, fn):
        ka = self.key_alts(k)
        if len(ka) == 1:
            self.check_hashable(ka[0][1])
            return fn(ka[0][1])

        def one(x):
            self.check_hashable(x)
            return fn(x)
        return self.fork([(g, (lambda x=x: one(x))) for g, x in ka])

    def dict_entries(self, o):
        """[(key, guard, value)] of a dict/set content, narrowed"""
        c = res(o).c
        lits = self.pc.lits
        out = []
        for k, (g, v) in c.d.items():
            g = restrict(g, lits)
            if g is not False:
                out.append((k, g, v))
        for _, k, g, v in c.s:
            g = restrict(g, lits)
            if g is not False:
                out.append((k, g, v))
        return out

    def set_entries(self, o):
        return [(k, g) for k, g, v in self.dict_entries(o)]

    def dict_find(self, o, k):
        """-> list of (guard, value) for entries matching union-free key k"""
        o = res(o)
        c = o.c
        lits = self.pc.lits
        if not c.s and not self.symkey(k):
            e = c.d.get(k)
            if e is None:
                if isinstance(k, HObj):
                    out = []
                    for x, (g, v) in c.d.items():
                        if isinstance(x, HObj) and res(x) is k:
                            g = restrict(g, lits)
                            if g is not False:
                                out.append((g, v))
                    return out
                return []
            g = restrict(e[0], lits)
            return [] if g is False else [(g, e[1])]
        out = []
        for x, g, v in self.dict_entries(o):
            q = restrict(band(g, self.eq(x, k)), lits)
            if q is not False:
                out.append((q, v))
        return out

    def contains_key(self, o, k):
        ka = self.key_alts(k)
        gs = []
        for g, x in ka:
            if len(ka) == 1:
                self.check_hashable(x)
            gs.append(band(g, or_guards([h for h, v in self.dict_find(o, x)])))
        return restrict(or_guards(gs), self.pc.lits)

    def dict_get(self, o, k, default):
        """default: thunk producing the value (may raise)"""
        o = res(o)

        def one(x):
            found = self.dict_find(o, x)
            if len(found) == 1 and found[0][0] is True:
                return self.narrow(found[0][1])
            if not found:
                return default(x)
            miss = restrict(band(*[bnot(g) for g, v in found]), self.pc.lits)
            br = [(g, (lambda v=v: self.narrow(v))) for g, v in found]
            if miss is not False:
                br.append((miss, lambda: default(x)))
            return self.fork(br)
        return self.with_key(k, one)

    def keyerror(self, k):
        self.raise_(KeyError, k)

    def dict_getitem(self, o, k):
        o = res(o)
        if o.kind is collections.defaultdict and o.factory is not None:
            def dflt(x):
                v = self.call(o.factory, [], {})
                self.dict_set1(o, x, v)
                return v
            return self.dict_get(o, k, dflt)
        if o.kind is collections.Counter:
            return self.dict_get(o, k, lambda x: 0)
        return self.dict_get(o, k, self.keyerror)

    def dict_set(self, o, k, v):
        self.with_key(k, lambda x: self.dict_set1(o, x, v))

    def dict_set1(self, o, k, v):
        o = res(o)
        c = self.w(o)
        if not c.s and not self.symkey(k):
            if isinstance(k, HObj):
                for x in c.d:
                    if isinstance(x, HObj) and x is not k and res(x) is k:
                        ent = c.d.pop(x)
                        break
            c.d[k] = (True, v)
            return
        # symbolic: update every possibly equal entry
        lits = self.pc.lits
        covered = []
        for x, (g, old) in list(c.d.items()):
            e = self.eq(x, k)
            e = restrict(e, lits)
            if e is False:
                continue
            hit = band(g, e)
            if hit is False:
                continue
            covered.append(hit)
            c.d[x] = (g, self.merge_vals([e, bnot(e)], [v, old]) if e is not True else v)
        ns = []
        for ent in c.s:
            i, x, g, old = ent
            e = restrict(self.eq(x, k), lits)
            if e is False or band(g, e) is False:
                ns.append(ent)
                continue
            covered.append(band(g, e))
            ns.append((i, x, g, self.merge_vals([e, bnot(e)], [v, old]) if e is not True else v))
        g = restrict(band(*[bnot(h) for h in covered]), lits)
        if g is not False and not self.feasible(self.pc.extend(g)):
            g = False
        if g is not False:
            _birth[0] += 1
            if not self.symkey(k) and k not in c.d:
                c.d[k] = (g, v)
            else:
                ns.append((_birth[0], k, g, v))
        c.s = tuple(ns)

    def dict_del1(self, o, k, missing):
        o = res(o)
        found = self.dict_find(o, k)
        miss = restrict(band(*[bnot(g) for g, v in found]), self.pc.lits)

        def dele():
            c = self.w(o)
            if not c.s and not self.symkey(k):
                if k in c.d:
                    del c.d[k]
                else:
                    for x in list(c.d):
                        if isinstance(x, HObj) and res(x) is k:
                            del c.d[x]
                return
            lits = self.pc.lits
            for x, (g, v) in list(c.d.items()):
                e = restrict(self.eq(x, k), lits)
                if e is False:
                    continue
                h = restrict(band(g, bnot(e)), lits)
                if h is False:
                    del c.d[x]
                else:
                    c.d[x] = (h, v)
            ns = []
            for i, x, g, v in c.s:
                e = restrict(self.eq(x, k), lits)
                h = restrict(band(g, bnot(e)), lits)
                if h is not False:
                    ns.append((i, x, h, v))
            c.s = tuple(ns)
        if miss is False:
            return dele()
        if miss is True or not found:
            return missing(k)
        return self.fork([(bnot(miss), dele), (miss, lambda: missing(k))])

    def set_add(self, o, k):
        self.with_key(k, lambda x: self.set_add1(o, x, True))

    def set_add1(self, o, k, g):
        """add k under extra guard g (no fork)"""
        o = res(o)
        c = self.w(o)
        if not c.s and not self.symkey(k):
            if isinstance(k, HObj) and k not in c.d:
                for x in c.d:
                    if isinstance(x, HObj) and res(x) is k:
                        k = x
                        break
            e = c.d.get(k)
            c.d[k] = (True if g is True else bor(e[0], g) if e is not None else g, None)
            return
        lits = self.pc.lits
        have = or_guards([h for h, v in self.dict_find(o, k)])
        g = restrict(band(g, bnot(have)), lits)
        if g is False:
            return
        if not self.feasible(self.pc.extend(g)):
            return
        if not self.symkey(k):
            e = c.d.get(k)
            c.d[k] = (bor(e[0], g) if e is not None else g, None)
        else:
            _birth[0] += 1
            c.s = c.s + ((_birth[0], k, g, None),)

    def mkset(self, it, kind=set):
        o = PSet(kind)
        for g, v in self.iter_slots(it):
            for h, k in self.key_alts(v):
                q = restrict(band(g, h), self.pc.lits)
                if q is False:
                    continue
                if q is True:
                    self.check_hashable(k)
                self.set_add1(o, k, q)
        return o

    def mkdict(self, items=()):
        o = PDict()
        for k, v in items:
            o.c.d[k] = (True, v)
        return o

    def contains(self, c, k):
        """k in c -> B"""
        c = self.narrow(c)
        t = type(c)
        if t is Union:
            if any(isinstance(x, PObj) for g, x in c.alts):
                return self.fork([(g, (lambda x=x: self.contains(x, k))) for g, x in c.alts])
            return or_guards([band(g, self.contains(x, k)) for g, x in c.alts])
        if isinstance(c, HObj):
            c = res(c)
            t = type(c)
            if t in (PDict, PSet):
                return self.contains_key(c, k)
            if t is PList:
                return self._seq_contains([(s.g, s.v) if type(s) is Opt else (True, s) for s in c.c], k)
            if t is PObj:
                f = self.cls_lookup(c.cls, "__contains__")
                if f is not MISSING:
                    return self.truth(self.call(BM(c, f), [k], {}))
            h = getattr(c, "m___contains__", None)
            if h is not None:
                return self.truth(h(self, [k], {}))
            return self._seq_contains(self.iter_slots(c), k)
        if t is tuple:
            return self._seq_contains([(True, x) for x in c], k)
        if t is View:
            if c.what == "keys":
                return self.contains(c.d, k)
            return self._seq_contains(self.iter_slots(c), k)
        if t in (LazyGen, ):
            return self._seq_contains(self.iter_slots(c), k)
        if t is str:
            k = self.narrow(k)
            if type(k) is Union:
                return or_guards([band(g, self.contains(c, x)) for g, x in k.alts])
            if type(k) is Tok:
                raise Unsupported("substring of opaque")
        if t is Tok:
            raise Unsupported("substring in opaque")
        k = self.narrow(k)
        if type(k) is Union:
            return or_guards([band(g, self.contains(c, x)) for g, x in k.alts])
        if isinstance(k, (HObj, SInt, Tok, B)) or (type(k) is tuple and not self._conc(k)):
            try:
                return self._seq_contains(self.iter_slots(c), k)
            except Unsupported:
                return False
        return self.truth(self.adopt_result(self.native(operator.contains, c, k)))

    def _seq_contains(self, slots, k):
        gs = []
        for g, v in slots:
            if isinstance(v, HObj) and isinstance(k, HObj) and res(v) is res(k):
                gs.append(g)
            else:
                gs.append(band(g, self.eq(v, k)))
            if gs[-1] is True:
                return True
        return or_guards(gs)

    # ================================================================ iteration
    def iter_slots(self, v):
        """-> list of (guard, value) snapshot"""
        v = self.narrow(v)
        t = type(v)
        if t is tuple or t is str or t is range or t is bytes:
            return [(True, x) for x in v]
        if t is Union:
            out = []
            for g, x in v.alts:
                if isinstance(x, (PList, PDict, PSet, PIter)) or type(x) in (tuple, str, range, View):
                    for h, y in self.iter_slots(x):
                        q = restrict(band(g, h), self.pc.lits)
                        if q is not False:
                            out.append((q, y))
                else:
                    r = PList()

                    def th(x=x, r=r):
                        self.setc(r, [y if h is True else Opt(h, y) for h, y in self.iter_slots(x)])
                    self.fork([(g, th), (bnot(g), lambda: None)])
                    out.extend(self.iter_slots(r))
            return out
        if isinstance(v, HObj):
            v = res(v)
            t = type(v)
            if t is PList:
                return self._slots(v.c)
            if t is PIter:
                s = self._slots(v.c)
                self.setc(v, [])
                return s
            if t is PDict or t is PSet:
                return [(g, k) for k, g, x in self.dict_entries(v)]
            if t is PObj:
                f = self.cls_lookup(v.cls, "__iter__")
                if f is not MISSING:
                    return self.iter_slots(self.call(BM(v, f), [], {}))
                f = self.cls_lookup(v.cls, "__getitem__")
                if f is not MISSING:
                    out = PList()

                    def step(i):
                        def h(kind, x):
                            if kind is None:
                                self.w(out).append(x)
                                step(i + 1)
                            else:
                                def chk(e):
                                    if not issubclass(res(e).cls, (IndexError, StopIteration)):
                                        raise InterpRaise(e)
                                self.each(x, chk)
                        if i > 200:
                            self.unwind("sequence protocol")
                        self.scoped(("raise",), lambda: self.call(BM(v, f), [i], {}), h)
                    step(0)
                    return self._slots(out.c)
                self.raise_(TypeError, "%r object is not iterable" % v.cls.__name__)
            h = getattr(v, "m___iter__", None)
            if h is not None:
                return self.iter_slots(h(self, [], {}))
            raise Unsupported("iterate %r" % (v,))
        if t is View:
            ents = self.dict_entries(v.d)
            if v.what == "keys":
                return [(g, k) for k, g, x in ents]
            if v.what == "values":
                return [(g, x) for k, g, x in ents]
            return [(g, (k, x)) for k, g, x in ents]
        if t is LazyGen:
            return self._slots(self.force_gen(v).c)
        if v is None or t in (int, float, bool, SInt, B, Tok):
            self.raise_(TypeError, "%r object is not iterable" % t.__name__)
        if t is type and issubclass(v, enum.Enum):
            return [(True, x) for x in v]
        return [(True, self.adopt(x)) for x in self.native(list, v)]

    def _slots(self, c):
        lits = self.pc.lits
        out = []
        for s in c:
            if type(s) is Opt:
                g = restrict(s.g, lits)
                if g is not False:
                    out.append((g, s.v))
            else:
                out.append((True, s))
        return out

    def plist(self, slots, kind=list):
        return PList([v if g is True else Opt(g, v) for g, v in slots], kind)

    def count(self, guards):
        """number of true guards -> int or Union"""
        base = 0
        cnt = {0: True}
        for g in guards:
            if g is True:
                base += 1
                continue
            if g is False:
                continue
            new = {}
            for n, h in cnt.items():
                for m, q in ((n + 1, band(h, g)), (n, band(h, bnot(g)))):
                    if q is not False:
                        new[m] = bor(new[m], q) if m in new else q
            cnt = new
        if len(cnt) == 1:
            return base + next(iter(cnt))
        return Union([(g, base + n) for n, g in cnt.items()])

    def with_spine(self, v, fn):
        """fn(list of values) with all slot guards decided by forking"""
        return self.split(lambda: fn(self.spine([x if g is True else Opt(g, x) for g, x in self.iter_slots_peek(v)])))

    def iter_slots_peek(self, v):
        return self.iter_slots(v)

    def force_gen(self, g):
        out = PList()
        if g.done:
            return out
        g.done = True
        self.comp(g.node.generators, 0, g.frame, lambda fr: self.w(out).append(self.ev(g.node.elt, fr)))
        return out

    # ================================================================ attributes
    def cls_lookup(self, cls, name):
        ov = self.overlays.get(cls)
        k = (cls, name)
        r = self.mro_cache.get(k)
        if r is None:
            r = MISSING
            for c in cls.__mro__:
                if name in c.__dict__:
                    r = c.__dict__[name]
                    break
            self.mro_cache[k] = r
        if self.overlays:
            for c in cls.__mro__:
                ov = self.overlays.get(c)
                if ov is not None:
                    x = self.ov_get(ov, name)
                    if x is not ABSENT:
                        return x
                if name in c.__dict__:
                    break
        return r

    def overlay(self, o):
        """holder of the overwritten attributes of a class or globals"""
        k = o if isinstance(o, type) else id(o)
        ov = self.overlays.get(k)
        if ov is None:
            ov = self.overlays[k] = PObj(object)
            ov.birth = 0
            # value of an attribute that was overwritten in some branches only
            def default(name):
                if isinstance(o, type):
                    return next((c.__dict__[name] for c in o.__mro__ if name in c.__dict__), ABSENT)
                if name not in o:
                    return ABSENT
                v = o[name]
                return v if type(v) in (types.FunctionType, type, types.ModuleType, int, str) else self.adopt(v)
            ov.payload = default
            ov.cls = Overlay
        return ov

    def ov_get(self, ov, name):
        x = res(ov).c.get(name, ABSENT)
        if type(x) is Union and any(y is ABSENT for _, y in x.alts):
            x = self.narrow(x)
            if type(x) is Union and any(y is ABSENT for _, y in x.alts):
                raise NeedSplit(next(g for g, y in x.alts if y is ABSENT))
        return x

    def getattr(self, o, name, default=MISSING):
        o = self.narrow(o)
        t = type(o)
        if t is Union:
            # fast path: plain data attributes, no forking needed
            vals = []
            for g, x in o.alts:
                x = res(x) if isinstance(x, HObj) else x
                if type(x) is PObj and name in x.c and not self._is_data_desc(x.cls, name):
                    v = x.c[name]
                    if v is ABSENT or (type(v) is Union and any(y is ABSENT for _, y in v.alts)):
                        vals = None
                        break
                    vals.append(v)
                else:
                    vals = None
                    break
            if vals is not None:
                return self.narrow(self.merge_vals([g for g, x in o.alts], vals))
            return self.each(o, lambda x: self.getattr(x, name, default))
        if isinstance(o, HObj):
            o = res(o)
            t = type(o)
            if t is PObj:
                return self.pobj_getattr(o, name, default)
            if t in (PList, PDict, PSet, PIter):
                if hasattr(o.kind if t is not PIter else type(iter([])), name):
                    if name == "__class__":
                        return o.kind
                    return HM(o, name)
                if t is PDict and name == "default_factory":
                    return o.factory
                if t is PDict and name == "maxlen":
                    return None
                return self.attr_missing(o, name, default)
            r = o.getattr(self, name) if hasattr(o, "getattr") else MISSING
            if r is not MISSING:
                return r
            if hasattr(o, "m_" + name):
                return HM(o, name)
            return self.attr_missing(o, name, default)
        if t in (View, LazyGen):
            return HM(o, name)
        if t is PFunc:
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.__name__
            if name == "__qualname__":
                return o.qualname
            if name == "__module__":
                return o.module
            if name == "__doc__":
                return None
            if name == "__wrapped__":
                return self.attr_missing(o, name, default)
            if name in ("__defaults__",):
                return tuple(o.defaults) or None
            if name == "__call__":
                return o
            return self.attr_missing(o, name, default)
        if t is BM:
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.fn
            return self.getattr(o.fn, name, default)
        if t is HM:
            if name == "__name__":
                return o.name
            return self.attr_missing(o, name, default)
        if t is Super:
            return self.super_getattr(o, name, default)
        if t in (SInt, B):
            if hasattr(int, name):
                return HM(o, name)
            return self.attr_missing(o, name, default)
        if t is Tok:
            if hasattr(str, name):
                return HM(o, name)
            return self.attr_missing(o, name, default)
        if isinstance(o, type):
            return self.class_getattr(o, name, default)
        am = self.attr_models.get((id(o), name), MISSING)
        if am is not MISSING:
            return am
        ov = self.overlays.get(id(vars(o))) if isinstance(o, types.ModuleType) else None
        if ov is not None:
            x = self.ov_get(ov, name)
            if x is not ABSENT:
                return x
        try:
            r = getattr(o, name)
        except AttributeError:
            return self.attr_missing(o, name, default)
        except Exception as e:
            raise InterpRaise(self.from_native_exc(e))
        return self.adopt(r)

    def attr_missing(self, o, name, default):
        if default is not MISSING:
            return default
        tn = o.cls.__name__ if isinstance(o, PObj) else type(o).__name__
        self.raise_(AttributeError, "%r object has no attribute %r" % (tn, name))

    def _is_data_desc(self, cls, name):
        k = ("D", cls, name)
        r = self.mro_cache.get(k)
        if r is None:
            d = self.cls_lookup(cls, name)
            r = d is not MISSING and isinstance(d, (property,)) or (d is not MISSING and hasattr(type(d), "__set__") and not isinstance(d, HObj))
            if isinstance(d, types.MemberDescriptorType):
                r = False
            self.mro_cache[k] = r
        return r

    def pobj_getattr(self, o, name, default=MISSING):
        cls = o.cls
        if name == "__class__":
            return cls
        if name == "__dict__":
            d = PDict()
            for k, v in o.c.items():
                d.c.d[k] = (True, v)
            return d
        if self._is_data_desc(cls, name):
            d = self.cls_lookup(cls, name)
            if isinstance(d, property):
                return self.call(d.fget, [o], {})
            raise Unsupported("data descriptor %s.%s" % (cls.__name__, name))
        v = o.c.get(name, ABSENT)
        if v is not ABSENT:
            v = self.narrow(v)
            if type(v) is Union and any(x is ABSENT for g, x in v.alts):
                return self.fork([(g, (lambda x=x: x if x is not ABSENT else self.pobj_getattr2(o, name, default))) for g, x in v.alts])
            if v is not ABSENT:
                return v
        return self.pobj_getattr2(o, name, default)

    def pobj_getattr2(self, o, name, default):
        cls = o.cls
        d = self.cls_lookup(cls, name)
        if d is not MISSING and not isinstance(d, types.MemberDescriptorType):
            return self.bind(d, o, cls)
        ga = self.cls_lookup(cls, "__getattr__")
        if ga is not MISSING:
            if default is MISSING:
                return self.call(BM(o, ga), [name], {})
            return self.scoped(("raise",), lambda: self.call(BM(o, ga), [name], {}),
                               lambda k, v: v if k is None else default)
        if issubclass(cls, BaseException):
            if o.payload is not None and hasattr(o.payload, name):
                return self.adopt(getattr(o.payload, name))
            if name in ("__traceback__", "__cause__", "__context__"):
                return None
            if name == "with_traceback":
                return HM(o, name)
        return self.attr_missing(o, name, default)

    def bind(self, d, o, cls):
        if isinstance(d, (types.FunctionType, PFunc)):
            return BM(o, d, cls) if o is not None else d
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, classmethod):
            return BM(cls, d.__func__, cls)
        if isinstance(d, property):
            return self.call(d.fget, [o], {}) if o is not None else d
        if isinstance(d, functools.cached_property):
            if o is None:
                return d
            v = self.call(d.func, [o], {})
            self.w(o)[d.attrname] = v
            return v
        if isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType, types.ClassMethodDescriptorType)):
            if o is not None:
                return BM(o, d, cls)
            return d
        return self.adopt(d)

    def class_getattr(self, cls, name, default=MISSING):
        if name in ("__name__", "__qualname__", "__module__", "__mro__", "__bases__", "__doc__"):
            return getattr(cls, name)
        if name == "__dict__":
            return cls.__dict__
        am = self.attr_models.get((id(cls), name), MISSING)
        if am is not MISSING:
            return am
        d = self.cls_lookup(cls, name)
        if d is MISSING:
            try:
                return self.adopt(getattr(cls, name))
            except AttributeError:
                return self.attr_missing(cls, name, default)
        if type(d) is Union:
            d = self.narrow(d)
            if type(d) is Union:
                return d
        if isinstance(d, (types.FunctionType, PFunc)):
            return d
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, classmethod):
            return BM(cls, d.__func__, cls)
        if isinstance(d, HObj) or isinstance(d, (B, SInt, Tok, Union)):
            return d
        if self.overlays and d is not MISSING:
            for c in cls.__mro__:
                if c in self.overlays and name in res(self.overlays[c]).c:
                    return d
                if name in c.__dict__:
                    break
        try:
            return self.adopt(getattr(cls, name))
        except AttributeError:
            return self.attr_missing(cls, name, default)

    def super_getattr(self, s, name, default):
        mro = s.start.__mro__
        i = mro.index(s.after) + 1
        for c in mro[i:]:
            if name in c.__dict__:
                d = c.__dict__[name]
                if isinstance(s.obj, type):
                    if isinstance(d, (classmethod,)):
                        return BM(s.obj, d.__func__, s.obj)
                    return d
                return self.bind(d, s.obj, s.start)
        return self.attr_missing(s.obj, name, default)

    def setattr(self, o, name, v):
        o = self.narrow(o)
        if type(o) is Union:
            self.each(o, lambda x: self.setattr(x, name, v))
            return
        if isinstance(o, HObj):
            o = res(o)
            if type(o) is PObj:
                d = self.cls_lookup(o.cls, name)
                if isinstance(d, property):
                    if d.fset is None:
                        self.raise_(AttributeError, "can't set attribute %r" % name)
                    self.call(d.fset, [o, v], {})
                    return
                f = self.cls_lookup(o.cls, "__setattr__")
                if f is not MISSING and isinstance(f, (types.FunctionType, PFunc)) and not self._frozen_dc(o.cls):
                    self.call(BM(o, f), [name, v], {})
                    return
                if self._frozen_dc(o.cls) and self.cls_lookup(o.cls, "__init__") and o.extra != "init":
                    import dataclasses
                    self.raise_(dataclasses.FrozenInstanceError, "cannot assign to field %r" % name)
                self.w(o)[name] = v
                return
            if hasattr(o, "setattr"):
                o.setattr(self, name, v)
                return
            self.raise_(AttributeError, "cannot set %s" % name)
        if type(o) is PFunc:
            o.attrs[name] = v
            return
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            self.w(self.overlay(o if isinstance(o, type) else vars(o)))[name] = v
            return
        if type(o) in (SInt, B, Tok, int, str, float, tuple, type(None), bool):
            self.raise_(AttributeError, "%r object has no attribute %r" % (type(o).__name__, name))
        if len(self.levels) > 1 and self._sym_path():
            raise Unsupported("native setattr under a branch: %r.%s" % (type(o), name))
        self.native(setattr, o, name, self.to_native(v))

    def _frozen_dc(self, cls):
        p = getattr(cls, "__dataclass_params__", None)
        return p is not None and p.frozen

    def _sym_path(self):
        return bool(self.pc.lits)

    def delattr(self, o, name):
        o = self.narrow(o)
        if type(o) is Union:
            self.each(o, lambda x: self.delattr(x, name))
            return
        if isinstance(o, PObj):
            o = res(o)
            v = self.narrow(o.c.get(name, ABSENT))
            if v is ABSENT:
                self.raise_(AttributeError, name)
            if type(v) is Union and any(x is ABSENT for g, x in v.alts):
                def th(x):
                    if x is ABSENT:
                        self.raise_(AttributeError, name)
                    self.w(o).pop(name)
                self.each(v, th)
                return
            self.w(o).pop(name)
            return
        raise Unsupported("delattr %r" % (o,))

    # ================================================================ calls
    def interpretable_fn(self, f):
        code = f.__code__
        if code in self.extra_interp:
            return True
        return code.co_filename.startswith(self.roots)

    def call(self, f, args, kwargs):
        f = self.narrow(f)
        t = type(f)
        if t is PFunc:
            return self.call_fn(f.node, f.frame, f.globs, f.defaults, f.kwdefaults, args, kwargs, f.qualname, f.cls)
        if t is BM:
            fn = f.fn
            if type(fn) in (types.FunctionType, PFunc):
                m = self.models.get(id(fn))
                if m is None:
                    return self.call_function(fn, [f.self_] + list(args), kwargs, f.cls)
            return self.call(fn, [f.self_] + list(args), kwargs)
        if t is HM:
            return self.call_hm(f, args, kwargs)
        if t is Union:
            return self.each(f, lambda x: self.call(x, args, kwargs))
        try:
            m = self.models.get(id(f))
        except TypeError:
            m = None
        if m is not None:
            return m(self, args, kwargs)
        if t is types.BuiltinMethodType:
            m = self.models.get((id(f.__self__), f.__name__))
            if m is not None:
                return m(self, args, kwargs)
        if t is types.FunctionType:
            return self.call_function(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, HObj):
            f = res(f)
            if type(f) is PObj:
                c = self.cls_lookup(f.cls, "__call__")
                if c is not MISSING:
                    return self.call(BM(f, c, f.cls), args, kwargs)
                self.raise_(TypeError, "%r object is not callable" % f.cls.__name__)
            if hasattr(f, "m___call__"):
                return f.m___call__(self, args, kwargs)
        if t is functools.partial:
            return self.call(f.func, [self.adopt(a) for a in f.args] + list(args), {**{k: self.adopt(v) for k, v in f.keywords.items()}, **kwargs})
        if t is types.MethodType:
            return self.call(f.__func__, [self.adopt(f.__self__)] + list(args), kwargs)
        if t is types.BuiltinFunctionType and type(f.__self__) in (str, tuple):
            if type(f.__self__) is str:
                return self._str_method(self, f.__self__, f.__name__, args, kwargs)
            return self._tuple_method(self, f.__self__, f.__name__, args, kwargs)
        if t is types.BuiltinFunctionType or t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
            # unbound container methods such as set.union / dict.get
            if args and isinstance(self.narrow(args[0]), (PList, PDict, PSet, SInt, Tok, B, Union, View)) and hasattr(f, "__objclass__"):
                return self.call(self.getattr(args[0], f.__name__), args[1:], kwargs)
            if t is types.WrapperDescriptorType and args:
                a0 = self.narrow(args[0])
                if isinstance(a0, PObj):
                    return self.object_slot(f, a0, args[1:], kwargs)
        if not callable(f):
            self.raise_(TypeError, "%r object is not callable" % t.__name__)
        return self.native_call(f, args, kwargs)

    def object_slot(self, f, o, args, kwargs):
        n = f.__name__
        if n == "__init__":
            if issubclass(o.cls, BaseException):
                self.w(o)["args"] = tuple(args)
            return None
        if n == "__repr__" or n == "__str__":
            return "<%s object>" % o.cls.__name__
        if n == "__setattr__":
            self.w(o)[args[0]] = args[1]
            return None
        if n == "__getattribute__":
            return self.pobj_getattr(o, args[0])
        if n == "__eq__":
            return True if res(o) is res(args[0]) else NotImplemented
        if n == "__ne__":
            return bnot(self.eq(o, args[0]))
        if n == "__hash__":
            return o.birth
        if n == "__delattr__":
            return self.delattr(o, args[0])
        raise Unsupported("slot %s" % n)

    def call_function(self, f, args, kwargs, cls=None):
        if type(f) is PFunc:
            return self.call_fn(f.node, f.frame, f.globs, f.defaults, f.kwdefaults, args, kwargs, f.qualname, f.cls)
        m = self.models.get(id(f))
        if m is not None:
            return m(self, args, kwargs)
        if not self.interpretable_fn(f):
            if f.__code__.co_filename == "<string>" and args and isinstance(args[0], PObj):
                return self.dataclass_method(f, args, kwargs)
            return self.native_call(f, args, kwargs)
        ent = self.fclosure.get(f)
        if ent is None:
            node = find_node(f.__code__)
            if node is None:
                raise Unsupported("no source for %r" % f)
            fr = self.closure_frame(f.__code__, f.__closure__, f.__globals__)
            ent = self.fclosure[f] = (node, fr, f.__globals__, [self.adopt(d) for d in f.__defaults__ or ()],
                                      {k: self.adopt(v) for k, v in (f.__kwdefaults__ or {}).items()}, f.__qualname__)
        node, fr, globs, dfl, kwd, qn = ent
        return self.call_fn(node, fr, globs, dfl, kwd, args, kwargs, qn, cls, f.__code__.co_filename)

    def closure_frame(self, code, closure, globs):
        if not closure:
            return None
        fr = Frame()
        fr.parent = None
        fr.globs = globs
        fr.own = frozenset(code.co_freevars)
        for n, c in zip(code.co_freevars, closure):
            try:
                fr.c[n] = self.adopt(c.cell_contents)
            except ValueError:
                pass
        fr.birth = 0
        return fr

    def call_fn(self, node, parent, globs, defaults, kwdefaults, args, kwargs, qualname, cls=None, filename=None):
        info = fninfo(node)
        if filename is not None:
            k = (filename, qualname)
            self.encoded[k] = self.encoded.get(k, 0) + 1
        fr = Frame()
        fr.parent = parent
        fr.globs = globs
        fr.own = info.own
        fr.fn = (node, qualname, cls)
        fr.yields = None
        fr.nonlocals = info.nonl
        fr.globdecl = info.globs
        self.bind_args(node.args, fr.c, defaults, kwdefaults, args, kwargs, qualname)
        self.depth += 1
        if self.depth > self.DEPTH_LIMIT:
            self.depth -= 1
            self.unwind("recursion depth in %s" % qualname)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if info.gen:
                fr.yields = PList()
                self.scoped(("return",), lambda: self.exec_block(node.body, fr), lambda k, v: None)
                return PIter(res(fr.yields).c)
            return self.scoped(("return",), lambda: self.exec_block(node.body, fr), lambda k, v: v)
        finally:
            self.depth -= 1

    def bind_args(self, a, loc, defaults, kwdefaults, args, kwargs, name):
        pos = a.posonlyargs + a.args
        n = len(pos)
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(pos):
            if i < len(args):
                loc[p.arg] = args[i]
                if p.arg in kwargs and i >= len(a.posonlyargs):
                    self.raise_(TypeError, "%s() got multiple values for argument %r" % (name, p.arg))
            elif p.arg in kwargs and i >= len(a.posonlyargs):
                loc[p.arg] = kwargs.pop(p.arg)
            else:
                j = i - (n - len(defaults))
                if j >= 0:
                    loc[p.arg] = defaults[j]
                else:
                    self.raise_(TypeError, "%s() missing required positional argument: %r" % (name, p.arg))
        if len(args) > n:
            if a.vararg is None:
                self.raise_(TypeError, "%s() takes %d positional arguments but %d were given" % (name, n, len(args)))
            loc[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                loc[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwdefaults:
                loc[p.arg] = kwdefaults[p.arg]
            else:
                self.raise_(TypeError, "%s() missing required keyword-only argument: %r" % (name, p.arg))
        if a.kwarg is not None:
            d = PDict()
            for k, v in kwargs.items():
                d.c.d[k] = (True, v)
            loc[a.kwarg.arg] = d
        elif kwargs:
            self.raise_(TypeError, "%s() got an unexpected keyword argument %r" % (name, next(iter(kwargs))))

    def instantiate(self, cls, args, kwargs):
        m = self.class_models.get(cls)
        if m is not None:
            return m(self, args, kwargs)
        if issubclass(cls, BaseException):
            o = PObj(cls, {"args": tuple(args)})
            init = self.cls_lookup(cls, "__init__")
            if isinstance(init, types.FunctionType) and self.interpretable_fn(init):
                self.call(BM(o, init, cls), args, kwargs)
            return o
        if self.interpretable_cls(cls):
            if cls in (types.SimpleNamespace,):
                pass
            if inspect.isabstract(cls):
                self.raise_(TypeError, "Can't instantiate abstract class %s" % cls.__name__)
            new = self.cls_lookup(cls, "__new__")
            o = None
            if isinstance(new, staticmethod) and isinstance(new.__func__, types.FunctionType) and self.interpretable_fn(new.__func__):
                o = self.call(new.__func__, [cls] + list(args), kwargs)
                if not isinstance(o, PObj) or not issubclass(res(o).cls, cls):
                    return o
            if o is None:
                own = lambda n: isinstance(self.cls_lookup(cls, n), types.FunctionType)
                if issubclass(cls, (dict, list, set, str, int, tuple)) and not (issubclass(cls, dict) and own("__init__") and own("__getitem__")):
                    raise Unsupported("instance of builtin subclass %s" % cls.__name__)
                o = PObj(cls)
            init = self.cls_lookup(cls, "__init__")
            if init is MISSING or init is object.__init__:
                if args or kwargs:
                    self.raise_(TypeError, "%s() takes no arguments" % cls.__name__)
            else:
                o.extra = "init"
                self.call(BM(o, init, cls), args, kwargs)
                o.extra = None
            return o
        if cls is type and len(args) == 1:
            return self.type_of(args[0])
        return self.native_call(cls, args, kwargs)

    def dataclass_method(self, f, args, kwargs):
        import dataclasses
        o = res(args[0])
        n = f.__name__
        fs = dataclasses.fields(o.cls)
        if n == "__init__":
            vals = list(args[1:])
            kw = dict(kwargs)
            for fl in fs:
                if not fl.init:
                    if fl.default_factory is not dataclasses.MISSING:
                        self.w(o)[fl.name] = self.call(fl.default_factory, [], {})
                    elif fl.default is not dataclasses.MISSING:
                        self.w(o)[fl.name] = self.adopt(fl.default)
                    continue
                if vals:
                    v = vals.pop(0)
                elif fl.name in kw:
                    v = kw.pop(fl.name)
                elif fl.default is not dataclasses.MISSING:
                    v = self.adopt(fl.default)
                elif fl.default_factory is not dataclasses.MISSING:
                    v = self.call(fl.default_factory, [], {})
                else:
                    self.raise_(TypeError, "missing argument %s" % fl.name)
                self.w(o)[fl.name] = v
            if vals or kw:
                self.raise_(TypeError, "unexpected dataclass arguments")
            pi = self.cls_lookup(o.cls, "__post_init__")
            if pi is not MISSING:
                self.call(BM(o, pi, o.cls), [], {})
            return None
        if n == "__eq__":
            b = self.narrow(args[1])
            if not isinstance(b, PObj) or res(b).cls is not o.cls:
                return NotImplemented
            return band(*[self.eq(self.getattr(o, fl.name), self.getattr(b, fl.name)) for fl in fs if fl.compare])
        if n == "__repr__":
            return "%s(...)" % o.cls.__name__
        raise Unsupported("dataclass method %s" % n)

    def type_of(self, v):
        v = self.narrow(v)
        t = type(v)
        if t is Union:
            return self.pure_each(v, self.type_of)
        if isinstance(v, HObj):
            v = res(v)
            if type(v) is PObj:
                return v.cls
            if type(v) in (PList, PDict, PSet):
                return v.kind
            return getattr(v, "pytype", type(v))
        if t is SInt:
            return int
        if t is B:
            return bool
        if t is Tok:
            return str
        if t is PFunc:
            return types.FunctionType
        if t is BM:
            return types.MethodType
        if t is HM:
            return types.BuiltinFunctionType
        if t is LazyGen:
            return types.GeneratorType
        if t is View:
            return {"keys": type({}.keys()), "values": type({}.values()), "items": type({}.items())}[v.what]
        return t

    def isinstance_(self, v, c):
        v = self.narrow(v)
        if type(v) is Union:
            return or_guards([band(g, self.isinstance_(x, c)) for g, x in v.alts])
        if type(c) is tuple:
            return or_guards([self.isinstance_(v, x) for x in c])
        if type(c) is Union:
            return or_guards([band(g, self.isinstance_(v, x)) for g, x in c.alts])
        if isinstance(c, types.UnionType):
            return or_guards([self.isinstance_(v, x) for x in c.__args__])
        t = self.type_of(v)
        if c is types.FunctionType and type(v) is PFunc:
            return True
        if type(v) is PIter:
            return c in (collections.abc.Iterator, collections.abc.Iterable, types.GeneratorType)
        if isinstance(v, (HObj, SInt, B, Tok, PFunc, BM, HM, View, LazyGen)):
            if hasattr(c, "__origin__") and not isinstance(c, type):
                c = c.__origin__
            return self.native(issubclass, t, c)
        return self.native(isinstance, v, c)

    # ================================================================ containers' methods
    def call_hm(self, m, args, kwargs):
        o = m.obj
        if isinstance(o, HObj):
            o = res(o)
        t = type(o)
        if t is PList:
            fn = getattr(self, "list_" + m.name, None)
        elif t is PDict:
            fn = getattr(self, "dict_m_" + m.name, None)
        elif t is PSet:
            fn = getattr(self, "set_m_" + m.name, None)
        elif t is PIter or t is LazyGen:
            fn = getattr(self, "iter_m_" + m.name, None)
        elif t is View:
            fn = getattr(self, "view_m_" + m.name, None)
        elif t is Tok:
            return self.tok_method(o, m.name, args, kwargs)
        elif t in (SInt, B):
            return self.num_method(o, m.name, args, kwargs)
        elif t is PObj:
            if m.name == "with_traceback":
                return o
            fn = None
        else:
            return getattr(o, "m_" + m.name)(self, args, kwargs)
        if fn is None:
            raise Unsupported("method %s of %s" % (m.name, t.__name__))
        return fn(o, *args, **kwargs)

    def tok_pieces(self, o):
        """characters and 32-character digests, or None"""
        if type(o) is Tok and o.kind == "hash":
            return [o]
        out = []
        if type(o) is not Tok or o.kind != "cat":
            return None
        for p in o.parts:
            if isinstance(p, str):
                out.extend(p)
            elif type(p) is Tok and p.kind == "hash":
                out.append(p)
            else:
                return None
        return out

    def tok_len(self, o):
        ps = self.tok_pieces(o)
        return None if ps is None else sum(1 if isinstance(p, str) else 32 for p in ps)

    def tok_affix(self, o, a, end):
        parts = o.parts if o.kind == "cat" else (o,)
        if end:
            parts, a = parts[::-1], a[::-1]
        for p in parts:
            if not a:
                return True
            if isinstance(p, str):
                q = p[::-1] if end else p
                n = min(len(q), len(a))
                if q[:n] != a[:n]:
                    return False
                a = a[n:]
            elif type(p) is Tok and p.kind == "hash" and a[0] not in "0123456789abcdef":
                return False
            elif type(p) is SInt and a[0] not in "-0123456789":
                return False
            else:
                return None
        return not a

    def tok_slice(self, o, lo, hi, st):
        ps = self.tok_pieces(o)
        if ps is None or st not in (None, 1):
            return None
        n = self.tok_len(o)
        lo, hi, _ = slice(lo, hi).indices(n)
        out, at = [], 0
        for p in ps:
            w = 1 if isinstance(p, str) else 32
            if at >= lo and at + w <= hi:
                out.append(p)
            elif at + w > lo and at < hi:
                return None
            at += w
        return self.cat(out)

    def tok_method(self, o, name, args, kwargs):
        if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], str):
            r = self.tok_affix(o, args[0], name == "endswith")
            if r is not None:
                return r
        if name == "__str__":
            return o
        raise Unsupported("method %s of an opaque string" % name)

    def num_method(self, o, name, args, kwargs):
        if name == "bit_length":
            raise Unsupported("bit_length")
        if name in ("__add__", "__sub__", "__mul__"):
            return self.binop({"__add__": ast.Add, "__sub__": ast.Sub, "__mul__": ast.Mult}[name], o, args[0])
        raise Unsupported("int method %s" % name)

    # ================================================================ evaluation
    def ev(self, n, f):
        return EV[type(n)](self, n, f)

    def ev_Constant(self, n, f):
        return n.value

    def ev_Name(self, n, f):
        return self.load_name(n.id, f)

    def load_name(self, name, f):
        fr = f
        while fr is not None:
            if name in fr.own:
                v = fr.c.get(name, ABSENT)
                if v is ABSENT:
                    if fr is not f and False:
                        pass
                    self.raise_(UnboundLocalError if fr is f else NameError, "local variable %r referenced before assignment" % name)
                if type(v) is Union:
                    v = self.narrow(v)
                    if v is ABSENT:
                        self.raise_(UnboundLocalError, name)
                    if type(v) is Union and any(x is ABSENT for g, x in v.alts):
                        def th(x):
                            if x is ABSENT:
                                self.raise_(UnboundLocalError, name)
                            return x
                        return self.each(v, th)
                return v
            fr = fr.parent
        return self.load_global(name, f.globs)

    def load_global(self, name, globs):
        if type(globs) is not dict and (type(globs) is PObj or self.interpretable_cls(type(globs))):
            # globals of a function built over a dict subclass: looked up by its __getitem__
            g = res(self.adopt(globs))

            def h(k, v):
                if k is None:
                    return v

                def one(e):
                    if issubclass(res(e).cls, KeyError):
                        return self.load_builtin(name)
                    raise InterpRaise(e)
                return self.each(v, one)

            return self.scoped(("raise",), lambda: self.call(BM(g, self.cls_lookup(g.cls, "__getitem__"), g.cls), [name], {}), h)
        v = self.gload(name, globs)
        return self.load_builtin(name) if v is MISSING else v

    def load_builtin(self, name):
        v = getattr(builtins, name, MISSING)
        if v is MISSING:
            self.raise_(NameError, "name %r is not defined" % name)
        return v

    def gload(self, name, globs):
        ov = self.overlays.get(id(globs))
        if ov is not None:
            x = self.ov_get(ov, name)
            if x is not ABSENT:
                return x
        if name in globs:
            v = globs[name]
            t = type(v)
            if t in (types.FunctionType, type, types.ModuleType, int, str):
                return v
            return self.adopt(v)
        return MISSING

    def store_name(self, name, v, f):
        fr = f
        while fr is not None:
            if name in fr.own:
                c = self.w(fr)
                c[name] = v
                return
            fr = fr.parent
        self.w(self.overlay(f.globs))[name] = v

    def ev_Attribute(self, n, f):
        o = self.ev(n.value, f)
        return self.getattr(o, self.mangle(n.attr, f))

    def mangle(self, name, f):
        return name

    def ev_Subscript(self, n, f):
        o = self.ev(n.value, f)
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            lo = self.ev(s.lower, f) if s.lower else None
            hi = self.ev(s.upper, f) if s.upper else None
            st = self.ev(s.step, f) if s.step else None
            return self.getslice(o, lo, hi, st)
        return self.getitem(o, self.ev(n.slice, f))

    def ev_Slice(self, n, f):
        return slice(self.ev(n.lower, f) if n.lower else None, self.ev(n.upper, f) if n.upper else None, self.ev(n.step, f) if n.step else None)

    def with_bounds(self, k, n, f):
        """f(slice with concrete bounds) for a slice of a list of at most n elements"""
        ps = [self.narrow(x) for x in (k.start, k.stop, k.step)]
        for i, x in enumerate(ps):
            if type(x) not in (Union, SInt):
                continue

            def th(y, i=i):
                q = list(ps)
                q[i] = y
                return self.with_bounds(slice(*q), n, f)

            def out():
                raise Unsupported("slice bound out of range")
            if type(x) is Union:
                return self.each(x, th)
            return self.int_split(x, range(-n, n + 1), th, out)
        return f(slice(*ps))

    def getslice(self, o, lo, hi, st):
        o, lo, hi, st = map(self.narrow, (o, lo, hi, st))
        for i, x in enumerate((o, lo, hi, st)):
            if type(x) is Union:
                def th(y, i=i):
                    a = [o, lo, hi, st]
                    a[i] = y
                    return self.getslice(*a)
                return self.each(x, th)
        if isinstance(o, HObj):
            o = res(o)
        if type(o) is PList:
            if lo is None and hi is None and st is None:
                return PList(o.c, o.kind)
            if SInt in (type(lo), type(hi), type(st)):
                return self.with_bounds(slice(lo, hi, st), len(o.c), lambda k: self.getslice(o, k.start, k.stop, k.step))
            return self.split(lambda: PList(self.spine(o.c)[lo:hi:st], o.kind))
        if type(o) in (tuple, str, bytes):
            return o[lo:hi:st]
        if type(o) is Tok:
            r = self.tok_slice(o, lo, hi, st)
            if r is not None:
                return r
            return Tok("slice", (o, lo, hi, st))
        if isinstance(o, PObj) or isinstance(o, HObj):
            return self.getitem(o, slice(lo, hi, st))
        return self.adopt_result(self.native(operator.getitem, o, slice(lo, hi, st)))

    def getitem(self, o, k):
        o = self.narrow(o)
        t = type(o)
        if t is Union:
            return self.each(o, lambda x: self.getitem(x, k))
        if isinstance(o, HObj):
            o = res(o)
            t = type(o)
            if t is PDict:
                return self.dict_getitem(o, k)
            if t is PList:
                return self.list_getidx(o, k)
            if t is PObj:
                g = self.cls_lookup(o.cls, "__getitem__")
                if g is MISSING:
                    self.raise_(TypeError, "%r object is not subscriptable" % o.cls.__name__)
                return self.call(BM(o, g, o.cls), [k], {})
            if hasattr(o, "m___getitem__"):
                return o.m___getitem__(self, [k], {})
            self.raise_(TypeError, "not subscriptable")
        k = self.narrow(k)
        if t is tuple:
            if type(k) is Union:
                return self.each(k, lambda x: self.getitem(o, x))
            if type(k) is SInt:
                return self.int_split(k, range(-len(o), len(o)), lambda i: o[i], lambda: self.raise_(IndexError, "tuple index out of range"))
            return self.native(operator.getitem, o, k)
        if t is Tok:
            return Tok("item", (o, k))
        if type(k) is Union:
            return self.each(k, lambda x: self.getitem(o, x))
        if o is None or t in (int, float, bool, SInt, B):
            self.raise_(TypeError, "%r object is not subscriptable" % t.__name__)
        if isinstance(o, type) and not isinstance(o, enum.EnumMeta):
            return self.native(operator.getitem, o, k)
        if isinstance(k, (HObj, SInt, Tok)) or type(k) is tuple and not self._conc(k):
            k = self.to_native(k)
        return self.adopt(self.native(operator.getitem, o, k))

    def int_split(self, s, rng, fn, other):
        br = [(self.eq(s, i), (lambda i=i: fn(i))) for i in rng]
        br.append((band(*[bnot(g) for g, _ in br]), other))
        return self.fork(br)

    def list_getidx(self, o, k):
        o = res(o)
        k = self.narrow(k)
        if type(k) is Union:
            return self.each(k, lambda x: self.list_getidx(o, x))
        if type(k) is slice:
            return self.getslice(o, k.start, k.stop, k.step)
        if type(k) is SInt:
            n = len(o.c)
            return self.int_split(k, range(-n, n), lambda i: self.list_getidx(o, i), lambda: self.raise_(IndexError, "list index out of range"))
        if type(k) not in (int, bool):
            if hasattr(k, "__index__"):
                k = k.__index__()
            else:
                self.raise_(TypeError, "list indices must be integers")
        slots = self._slots(o.c)
        if all(g is True for g, v in slots):
            if -len(slots) <= k < len(slots):
                return self.narrow(slots[k][1])
            self.raise_(IndexError, "list index out of range")
        if k < 0:
            slots = slots[::-1]
            k = -k - 1
        br = []
        cnt = {0: True}
        for g, v in slots:
            q = band(cnt.get(k, False), g)
            if q is not False:
                br.append((q, (lambda v=v: self.narrow(v))))
            new = {}
            for m, h in cnt.items():
                for j, p in ((m + 1, band(h, g)), (m, band(h, bnot(g)))):
                    if p is not False and j <= k + 1:
                        new[j] = bor(new[j], p) if j in new else p
            cnt = new
        miss = or_guards([h for m, h in cnt.items() if m <= k])
        miss = restrict(miss, self.pc.lits)
        if miss is not False:
            br.append((miss, lambda: self.raise_(IndexError, "list index out of range")))
        return self.fork(br)

    def setitem(self, o, k, v):
        o = self.narrow(o)
        t = type(o)
        if t is Union:
            return self.each(o, lambda x: self.setitem(x, k, v))
        if isinstance(o, HObj):
            o = res(o)
            t = type(o)
            if t is PDict:
                return self.dict_set(o, k, v)
            if t is PList:
                k = self.narrow(k)
                if type(k) is slice and any(type(self.narrow(x)) in (Union, SInt) for x in (k.start, k.stop, k.step)):
                    return self.with_bounds(k, len(o.c), lambda q: self.setitem(o, q, v))
                if type(k) in (Union, SInt):
                    if type(k) is SInt:
                        return self.int_split(k, range(-len(o.c), len(o.c)), lambda i: self.setitem(o, i, v), lambda: self.raise_(IndexError, "list assignment index out of range"))
                    return self.each(k, lambda x: self.setitem(o, x, v))

                def go():
                    c = list(self.spine(res(o).c))
                    if type(k) is slice:
                        c[k] = self.spine([x if g is True else Opt(g, x) for g, x in self.iter_slots(v)])
                    else:
                        if not -len(c) <= k < len(c):
                            self.raise_(IndexError, "list assignment index out of range")
                        c[k] = v
                    self.setc(o, c, own=True)
                return self.split(go)
            if t is PObj:
                g = self.cls_lookup(o.cls, "__setitem__")
                if g is MISSING:
                    self.raise_(TypeError, "item assignment")
                return self.call(BM(o, g, o.cls), [k, v], {})
            if hasattr(o, "m___setitem__"):
                return o.m___setitem__(self, [k, v], {})
        if t is tuple or t is str:
            self.raise_(TypeError, "%r object does not support item assignment" % t.__name__)
        if self._sym_path():
            raise Unsupported("native setitem under a branch on %r" % t)
        self.native(operator.setitem, o, self.to_native(k), self.to_native(v))

    def delitem(self, o, k):
        o = self.narrow(o)
        if type(o) is Union:
            return self.each(o, lambda x: self.delitem(x, k))
        if isinstance(o, HObj):
            o = res(o)
            if type(o) is PDict:
                return self.with_key(k, lambda x: self.dict_del1(o, x, self.keyerror))
            if type(o) is PList:
                k = self.narrow(k)
                if type(k) is Union:
                    return self.each(k, lambda x: self.delitem(o, x))
                if type(k) is slice and any(type(self.narrow(x)) in (Union, SInt) for x in (k.start, k.stop, k.step)):
                    return self.with_bounds(k, len(o.c), lambda q: self.delitem(o, q))
                if type(k) is SInt:
                    return self.int_split(k, range(-len(o.c), len(o.c)), lambda i: self.delitem(o, i), lambda: self.raise_(IndexError, "list assignment index out of range"))

                def go():
                    c = list(self.spine(res(o).c))
                    if type(k) is slice:
                        del c[k]
                    else:
                        if not -len(c) <= k < len(c):
                            self.raise_(IndexError, "list assignment index out of range")
                        del c[k]
                    self.setc(o, c, own=True)
                return self.split(go)
            if type(o) is PObj:
                g = self.cls_lookup(o.cls, "__delitem__")
                if g is not MISSING:
                    return self.call(BM(o, g, o.cls), [k], {})
            if hasattr(o, "m___delitem__"):
                return o.m___delitem__(self, [k], {})
        raise Unsupported("delitem %r" % (o,))

    # ---- operators
    def ev_BinOp(self, n, f):
        return self.binop(type(n.op), self.ev(n.left, f), self.ev(n.right, f))

    def binop(self, op, a, b, inplace=False):
        a, b = self.narrow(a), self.narrow(b)
        ta, tb = type(a), type(b)
        if ta is Union:
            return self.each(a, lambda x: self.binop(op, x, b, inplace))
        if tb is Union:
            return self.each(b, lambda x: self.binop(op, a, x, inplace))
        N = (int, float, str, bytes, bool)
        if ta in N and tb in N:
            return self.native(BINOPS[op], a, b)
        if ta is B and tb in (B, bool) or tb is B and ta is bool:
            if op is ast.BitAnd:
                return band(a, b)
            if op is ast.BitOr:
                return bor(a, b)
            if op is ast.BitXor:
                return bnot(beq(a, b))
        if ta is B:
            return self.binop(op, Union([(a, 1), (bnot(a), 0)]), b)
        if tb is B:
            return self.binop(op, a, Union([(b, 1), (bnot(b), 0)]))
        if ta is SInt or tb is SInt:
            return self.arith(op, a, b)
        if ta is Tok or tb is Tok:
            if op is ast.Add and ta in (str, Tok) and tb in (str, Tok):
                return self.cat([a, b])
            raise Unsupported("operator on opaque string")
        if isinstance(a, HObj):
            a = res(a)
            ta = type(a)
        if isinstance(b, HObj):
            b = res(b)
            tb = type(b)
        if ta is tuple and tb is tuple and op is ast.Add:
            return a + b
        if ta is tuple and tb is int and op is ast.Mult:
            return a * b
        if ta is PList and op is ast.Add:
            if tb is PList:
                return PList(a.c + b.c, a.kind)
            self.raise_(TypeError, "can only concatenate list")
        if op is ast.Mult and (ta is PList and tb is int or tb is PList and ta is int):
            return PList(a.c * b if ta is PList else b.c * a)
        if ta is str and op is ast.Mod:
            return self.native_call(operator.mod, [a, b], {})
        sa, sb = self._setlike(a), self._setlike(b)
        if sa is not None and sb is not None and op in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
            r = self.setop(op, sa, sb)
            return r
        if ta is PDict and tb is PDict and op is ast.BitOr:
            r = PDict(a.kind, a.factory)
            r.c = a.c.copy()
            self.dict_update_from(r, b)
            return r
        d = DUNDER[BINOPS[op]]
        if ta is PObj:
            if inplace:
                g = self.cls_lookup(a.cls, "__i%s__" % d)
                if g is not MISSING:
                    r = self.call(BM(a, g, a.cls), [b], {})
                    if r is not NotImplemented:
                        return r
            g = self.cls_lookup(a.cls, "__%s__" % d)
            if g is not MISSING:
                r = self.call(BM(a, g, a.cls), [b], {})
                if r is not NotImplemented:
                    return r
        if tb is PObj:
            g = self.cls_lookup(b.cls, "__r%s__" % d)
            if g is not MISSING:
                r = self.call(BM(b, g, b.cls), [a], {})
                if r is not NotImplemented:
                    return r
        for x, y, nm in ((a, b, "m___%s__" % d), (b, a, "m___r%s__" % d)):
            if isinstance(x, HObj) and hasattr(x, nm):
                return getattr(x, nm)(self, [y], {})
        if isinstance(a, HObj) or isinstance(b, HObj):
            self.raise_(TypeError, "unsupported operand types")
        return self.adopt_result(self.native(BINOPS[op], a, b))

    def cat(self, parts):
        out = []
        for p in parts:
            if type(p) is Tok and p.kind == "cat":
                out.extend(p.parts)
            else:
                out.append(p)
        m = []
        for p in out:
            if isinstance(p, str) and m and isinstance(m[-1], str):
                m[-1] += p
            elif p != "" or not isinstance(p, str):
                m.append(p)
        if not m:
            return ""
        if len(m) == 1 and (isinstance(m[0], str) or type(m[0]) is Tok):
            return m[0]
        return Tok("cat", tuple(m))

    def arith(self, op, a, b):
        if not isinstance(a, (int, float, SInt)) or not isinstance(b, (int, float, SInt)):
            if op is ast.Mult and isinstance(a, (str, PList, tuple)) or isinstance(b, (str, PList, tuple)):
                raise Unsupported("sequence * symbolic int")
            self.raise_(TypeError, "unsupported operand")
        if isinstance(a, float) or isinstance(b, float) or op is ast.Div:
            return self.real_arith(op, a, b)
        x = a.e if type(a) is SInt else z3.IntVal(int(a))
        y = b.e if type(b) is SInt else z3.IntVal(int(b))
        if not x.is_int() or not y.is_int():
            raise Unsupported("float arithmetic on a symbolic number")
        if op is ast.Add:
            return mkint(x + y)
        if op is ast.Sub:
            return mkint(x - y)
        if op is ast.Mult:
            return mkint(x * y)
        if op in (ast.FloorDiv, ast.Mod):
            def go():
                if type(b) is SInt:
                    q = z3.If(y > 0, x / y, (-x) / (-y))
                    return mkint(q if op is ast.FloorDiv else x - q * y)
                if b > 0:
                    return mkint(x / y if op is ast.FloorDiv else x % y)
                q = (-x) / (-y)
                return mkint(q if op is ast.FloorDiv else x - q * y)
            z = self.eq(b, 0)
            if z is False:
                return go()
            return self.fork([(z, lambda: self.raise_(ZeroDivisionError, "division by zero")), (bnot(z), go)])
        raise Unsupported("symbolic %s" % op.__name__)

    def real_arith(self, op, a, b):
        """int / 2**k is exact (below 2**53); other float arithmetic is not supported"""
        if op is ast.Div and type(a) is SInt and type(b) in (int, float) and b > 0 and math.frexp(b)[0] == 0.5:
            x = a.e if not a.e.is_int() else z3.ToReal(a.e)
            return SInt(z3.simplify(x / toreal(b)))
        raise Unsupported("float arithmetic on symbolic int")

    def compare_eq_mixed(self, a, b):
        x, y = toreal(a), toreal(b)
        if x is None or y is None:
            return False
        return atom(z3.simplify((z3.ToReal(x) if x.is_int() else x) == (z3.ToReal(y) if y.is_int() else y)))

    def compare_inf(self, op, a, b):
        """a comparison with an infinite or undefined float"""
        return CMP_F[op](0.0 if type(a) is SInt else a, 0.0 if type(b) is SInt else b)

    def setop(self, op, a, b):
        r = PSet(a.kind)
        ca, cb = a.c, b.c
        if not ca.s and not cb.s and not any(isinstance(k, HObj) for k in ca.d) and not any(isinstance(k, HObj) for k in cb.d):
            d = r.c.d
            lits = self.pc.lits
            if op is ast.BitOr:
                for k, (g, _) in ca.d.items():
                    d[k] = (g, None)
                for k, (g, _) in cb.d.items():
                    if k in d:
                        d[k] = (bor(d[k][0], g), None)
                    else:
                        d[k] = (g, None)
            elif op is ast.BitAnd:
                for k, (g, _) in ca.d.items():
                    e = cb.d.get(k)
                    if e is not None:
                        q = restrict(band(g, e[0]), lits)
                        if q is not False:
                            d[k] = (q, None)
            elif op is ast.Sub:
                for k, (g, _) in ca.d.items():
                    e = cb.d.get(k)
                    q = g if e is None else restrict(band(g, bnot(e[0])), lits)
                    if q is not False:
                        d[k] = (q, None)
            else:
                for k in dict.fromkeys(list(ca.d) + list(cb.d)):
                    ga = ca.d[k][0] if k in ca.d else False
                    gb = cb.d[k][0] if k in cb.d else False
                    q = bnot(beq(ga, gb))
                    if q is not False:
                        d[k] = (q, None)
            return r
        if op is ast.BitOr:
            for s in (a, b):
                for k, g in self.set_entries(s):
                    self.set_add1(r, k, g)
        else:
            for s, o in ((a, b), (b, a)) if op is ast.BitXor else ((a, b),):
                for k, g in self.set_entries(s):
                    h = self.contains_key(o, k)
                    q = band(g, h if op is ast.BitAnd else bnot(h))
                    if q is not False:
                        self.set_add1(r, k, q)
        return r

    def ev_UnaryOp(self, n, f):
        v = self.ev(n.operand, f)
        if isinstance(n.op, ast.Not):
            return self.not_(v)
        return self.unary(type(n.op), v)

    def unary(self, op, v):
        v = self.narrow(v)
        if type(v) is Union:
            return self.each(v, lambda x: self.unary(op, x))
        if op is ast.USub:
            if type(v) is SInt:
                return mkint(-v.e)
            if type(v) is B:
                return Union([(v, -1), (bnot(v), 0)])
            return self.native(operator.neg, v)
        if op is ast.UAdd:
            return v
        if op is ast.Not:
            return self.not_(v)
        if isinstance(v, PObj):
            return self.call(self.getattr(v, "__invert__"), [], {})
        if isinstance(v, HObj) and hasattr(v, "m___invert__"):
            return v.m___invert__(self, [], {})
        return self.native(operator.invert, v)

    def ev_BoolOp(self, n, f):
        return self.boolop(n.values, 0, isinstance(n.op, ast.And), f)

    def boolop(self, vals, i, is_and, f):
        v = self.ev(vals[i], f)
        if i == len(vals) - 1:
            return v
        c = restrict(self.truth(v), self.pc.lits)
        if c is True or c is False:
            if c is is_and:
                return self.boolop(vals, i + 1, is_and, f)
            return v
        go = lambda: self.boolop(vals, i + 1, is_and, f)
        stay = lambda: self.narrow(v)
        if type(v) is B:
            stay = lambda: (not is_and)
        return self.fork([(c, go if is_and else stay), (bnot(c), stay if is_and else go)])

    def ev_Compare(self, n, f):
        left = self.ev(n.left, f)
        return self.cmp_chain(n, 0, left, f)

    def cmp_chain(self, n, i, left, f):
        right = self.ev(n.comparators[i], f)
        r = self.cmp1(type(n.ops[i]), left, right)
        if i == len(n.ops) - 1:
            return r
        c = self.truth(r)
        if c is False:
            return r
        if c is True:
            return self.cmp_chain(n, i + 1, right, f)
        return self.fork([(c, lambda: self.cmp_chain(n, i + 1, right, f)), (bnot(c), lambda: False)])

    def cmp1(self, op, a, b):
        if op is ast.Eq or op is ast.NotEq:
            na, nb = self.narrow(a), self.narrow(b)
            # model objects may return non-boolean comparisons (column filters)
            for x, y in ((na, nb), (nb, na)):
                if isinstance(x, HObj):
                    h = getattr(res(x), "m_cmp", None)
                    if h is not None:
                        return h(self, "eq" if op is ast.Eq else "ne", y)
            if not isinstance(na, (HObj, Union, B, SInt, Tok, tuple, PFunc, BM, HM, View)) and not isinstance(nb, (HObj, Union, B, SInt, Tok, tuple, PFunc, BM, HM, View)):
                return self.adopt_result(self.native(operator.eq if op is ast.Eq else operator.ne, na, nb))
            if op is ast.NotEq and isinstance(na, PObj):
                g = self.cls_lookup(res(na).cls, "__ne__")
                if g is not MISSING and isinstance(g, types.FunctionType):
                    return self.call(BM(res(na), g), [nb], {})
            if op is ast.Eq and isinstance(na, PObj):
                g = self.cls_lookup(res(na).cls, "__eq__")
                if isinstance(g, types.FunctionType):
                    r = self.call(BM(res(na), g), [nb], {})
                    if r is not NotImplemented:
                        return r
            e = self.eq(na, nb)
            return e if op is ast.Eq else bnot(e)
        if op is ast.In:
            return self.contains(b, a)
        if op is ast.NotIn:
            return bnot(self.contains(b, a))
        if op is ast.Is:
            return self.is_(a, b)
        if op is ast.IsNot:
            return bnot(self.is_(a, b))
        na = self.narrow(a)
        if isinstance(na, HObj) and hasattr(res(na), "m_cmp"):
            return res(na).m_cmp(self, CMP_D[op].strip("_"), b)
        return self.compare(op, a, b)

    def ev_IfExp(self, n, f):
        c = restrict(self.truth(self.ev(n.test, f)), self.pc.lits)
        if c is True:
            return self.ev(n.body, f)
        if c is False:
            return self.ev(n.orelse, f)
        return self.fork([(c, lambda: self.ev(n.body, f)), (bnot(c), lambda: self.ev(n.orelse, f))])

    def ev_Call(self, n, f):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not n.args and "super" not in f.own:
            return self.mksuper(f)
        func = self.ev(fn, f)
        if self.silent and self.is_silent(func):
            return None
        if func is builtins.locals:
            d = PDict()
            for k, v in f.c.items():
                d.c.d[k] = (True, v)
            return d
        if func is builtins.globals:
            return self.adopt(f.globs)
        args = []
        star = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, f)
                slots = self.iter_slots(v)
                for g, x in slots:
                    if g is True:
                        args.append(x)
                    else:
                        args.append(Opt(g, x))
                        star = True
            else:
                args.append(self.ev(a, f))
        kwargs = {}
        optk = None
        for k in n.keywords:
            if k.arg is None:
                d = self.narrow(self.ev(k.value, f))
                if type(d) is Union:
                    optk = optk or []
                    optk.append(d)
                    continue
                if isinstance(d, HObj) and type(res(d)) is PObj:
                    ks = self.iter_slots(self.call(self.getattr(d, "keys"), [], {}))
                    for g, key in ks:
                        kwargs[key] = self.getitem(d, key)
                    continue
                if not isinstance(d, PDict):
                    d = self.adopt_result(dict(d)) if not isinstance(d, HObj) else d
                for key, g, x in self.dict_entries(d):
                    if g is True:
                        if key in kwargs:
                            self.raise_(TypeError, "got multiple values for keyword argument %r" % (key,))
                        kwargs[key] = x
                    else:
                        kwargs[key] = Opt(g, x)
                        star = True
            else:
                kwargs[k.arg] = self.ev(k.value, f)
        if optk:
            return self._call_union_kwargs(func, args, kwargs, optk)
        for k in kwargs:
            if not isinstance(k, str):
                self.raise_(TypeError, "keywords must be strings")
        if star:
            def go():
                a = self.spine(args)
                kw = {}
                for k, x in kwargs.items():
                    if type(x) is Opt:
                        g = restrict(x.g, self.pc.lits)
                        if g is False:
                            continue
                        if g is not True:
                            raise NeedSplit(g)
                        kw[k] = x.v
                    else:
                        kw[k] = x
                return ("ok", a, kw)
            return self._split_call(func, go)
        self.cur = n
        if type(func) is BM and self.wants_locals and func.fn in self.wants_locals:
            kwargs["_locals"] = self.frame_locals(f)
        return self.call(func, args, kwargs)

    def frame_locals(self, f):
        d = PDict()
        while f is not None:
            for k, v in f.c.items():
                if k not in d.c.d and v is not ABSENT:
                    d.c.d[k] = (True, v)
            f = f.parent
        return d

    def _split_call(self, func, go):
        try:
            _, a, kw = go()
        except NeedSplit as e:
            g = e.g
            return self.fork([(g, lambda: self._split_call(func, go)), (bnot(g), lambda: self._split_call(func, go))])
        return self.call(func, a, kw)

    def _call_union_kwargs(self, func, args, kwargs, ds):
        d = ds[0]

        def th(x):
            kw = dict(kwargs)
            for key, g, v in self.dict_entries(x):
                if g is not True:
                    raise Unsupported("guarded keyword in union of dicts")
                kw[key] = v
            return self.call(func, args, kw) if len(ds) == 1 else self._call_union_kwargs(func, args, kw, ds[1:])
        return self.each(d, th)

    def is_silent(self, func):
        try:
            return func in self.silent
        except TypeError:
            return False

    def mksuper(self, f):
        fr = f
        while fr is not None and not isinstance(getattr(fr, "fn", None), tuple):
            fr = fr.parent
        node, qualname, cls = fr.fn
        self_ = fr.c[node.args.args[0].arg] if node.args.args else fr.c[node.args.posonlyargs[0].arg]
        start = self_.cls if isinstance(self_, PObj) else (self_ if isinstance(self_, type) else type(self_))
        # the class whose body defines this function
        cname = qualname.split(".")[-2]
        for c in start.__mro__:
            if c.__name__ == cname:
                d = c.__dict__.get(node.name)
                return Super(self_, c, start)
        raise Unsupported("super()")

    def ev_Tuple(self, n, f):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.starred_elts(n.elts, f, tuple)
        return tuple([self.ev(e, f) for e in n.elts])

    def starred_elts(self, elts, f, kind):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                for g, v in self.iter_slots(self.ev(e.value, f)):
                    out.append(v if g is True else Opt(g, v))
            else:
                out.append(self.ev(e, f))
        if kind is tuple:
            return self.split(lambda: tuple(self.spine(out)))
        return out

    def ev_List(self, n, f):
        return PList(self.starred_elts(n.elts, f, list))

    def ev_Set(self, n, f):
        o = PSet()
        for x in self.starred_elts(n.elts, f, list):
            g, v = (x.g, x.v) if type(x) is Opt else (True, x)
            for h, k in self.key_alts(v):
                self.check_hashable(k)
                self.set_add1(o, k, band(g, h))
        return o

    def ev_Dict(self, n, f):
        o = PDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update_from(o, self.ev(v, f))
            else:
                kv = self.ev(k, f)
                vv = self.ev(v, f)
                self.dict_set(o, kv, vv)
        return o

    def dict_update_from(self, o, src):
        src = self.narrow(src)
        if type(src) is Union:
            self.each(src, lambda x: self.dict_update_from(o, x))
            return
        if isinstance(src, HObj):
            src = res(src)
        if isinstance(src, PDict):
            for k, g, v in self.dict_entries(src):
                if g is True:
                    self.dict_set1(o, k, v) if type(k) is not Union else self.dict_set(o, k, v)
                else:
                    self.fork([(g, lambda: self.dict_set1(o, k, self.narrow(v))), (bnot(g), lambda: None)])
            return
        if isinstance(src, PObj):
            kf = self.getattr(src, "keys", None)
            if kf is not None:
                for g, k in self.iter_slots(self.call(kf, [], {})):
                    self.dict_set(o, k, self.getitem(src, k))
                return
        if not isinstance(src, (HObj, tuple, View, LazyGen)) and hasattr(src, "items"):
            for k, v in src.items():
                self.dict_set(o, self.adopt(k), self.adopt(v))
            return
        for g, kv in self.iter_slots(src):
            def th():
                k, v = self.unpack(kv, 2)
                self.dict_set(o, k, v)
            if g is True:
                th()
            else:
                self.fork([(g, th), (bnot(g), lambda: None)])

    # ---- comprehensions
    def sub_frame(self, names, f):
        fr = Frame()
        fr.parent = f
        fr.globs = f.globs
        fr.own = names
        fr.fn = None
        fr.yields = None
        return fr

    def comp_names(self, n):
        r = getattr(n, "_cn", None)
        if r is None:
            s = set()
            for g in n.generators:
                for m in ast.walk(g.target):
                    if isinstance(m, ast.Name):
                        s.add(m.id)
            r = n._cn = frozenset(s)
        return r

    def comp(self, gens, i, fr, emit):
        g = gens[i]
        for h, v in self.iter_slots(self.ev(g.iter, fr)):
            def body():
                self.assign(g.target, v, fr)
                self.comp_ifs(g.ifs, 0, fr, lambda: emit(fr) if i == len(gens) - 1 else self.comp(gens, i + 1, fr, emit))
            if h is True:
                body()
            else:
                self.fork([(h, body), (bnot(h), lambda: None)])

    def comp_ifs(self, ifs, j, fr, k):
        if j == len(ifs):
            k()
            return
        c = restrict(self.truth(self.ev(ifs[j], fr)), self.pc.lits)
        if c is True:
            self.comp_ifs(ifs, j + 1, fr, k)
        elif c is not False:
            self.fork([(c, lambda: self.comp_ifs(ifs, j + 1, fr, k)), (bnot(c), lambda: None)])

    def ev_ListComp(self, n, f):
        out = PList()
        self.comp(n.generators, 0, self.sub_frame(self.comp_names(n), f), lambda fr: self._append(out, self.ev(n.elt, fr)))
        return out

    def _append(self, out, v):
        self.w(out).append(v)

    def ev_SetComp(self, n, f):
        out = PSet()
        self.comp(n.generators, 0, self.sub_frame(self.comp_names(n), f), lambda fr: self.set_add(out, self.ev(n.elt, fr)))
        return out

    def ev_DictComp(self, n, f):
        out = PDict()

        def emit(fr):
            k = self.ev(n.key, fr)
            v = self.ev(n.value, fr)
            self.dict_set(out, k, v)
        self.comp(n.generators, 0, self.sub_frame(self.comp_names(n), f), emit)
        return out

    def ev_GeneratorExp(self, n, f):
        return LazyGen(n, self.sub_frame(self.comp_names(n), f))

    # ---- strings
    def ev_JoinedStr(self, n, f):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, f)
                conv = {115: "s", 114: "r", 97: "a", -1: ""}[v.conversion]
                spec = self.ev(v.format_spec, f) if v.format_spec is not None else ""
                parts.append(self.format1(x, conv, spec))
        return self.join_parts(parts)

    def join_parts(self, parts):
        for i, p in enumerate(parts):
            if type(p) is Union:
                def th(y, i=i):
                    q = list(parts)
                    q[i] = y
                    return self.join_parts(q)
                return self.each(p, th)
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return self.cat(parts)

    def format1(self, x, conv, spec):
        x = self.narrow(x)
        if type(x) is Union:
            return self.pure_each(x, lambda y: self.format1(y, conv, spec)) if self._simple_alts(x) else self.each(x, lambda y: self.format1(y, conv, spec))
        if type(x) is SInt and not spec:
            return Tok("cat", (x,))
        if type(x) is Tok and not spec and conv != "r":
            return x
        if type(spec) is Union:
            return self.each(spec, lambda s: self.format1(x, conv, s))
        if isinstance(x, (HObj, SInt, Tok, B, PFunc, BM, HM, View, LazyGen)) or (type(x) is tuple and not self._conc(x)):
            return self.str_(x) if conv != "r" else self.repr_(x)
        if conv == "r":
            x = self.native(repr, x)
        elif conv == "s":
            x = self.native(str, x)
        return self.native(format, x, spec)

    def ev_FormattedValue(self, n, f):
        return self.format1(self.ev(n.value, f), "", "")

    def str_(self, x):
        x = self.narrow(x)
        if type(x) is Union:
            return self.each(x, self.str_)
        if type(x) in (str, Tok):
            return x
        if type(x) is SInt:
            return Tok("cat", (x,))
        if type(x) is B:
            return Union([(x, "True"), (bnot(x), "False")])
        if isinstance(x, PObj):
            x = res(x)
            s = self.cls_lookup(x.cls, "__str__")
            if s is not MISSING and isinstance(s, (types.FunctionType, PFunc)):
                return self.call(BM(x, s, x.cls), [], {})
            if issubclass(x.cls, BaseException):
                a = x.c.get("args", ())
                if type(a) is tuple and len(a) == 1:
                    return self.str_(a[0]) if not issubclass(x.cls, KeyError) else self.repr_(a[0])
                return self.repr_(a)
        return self.repr_(x)

    def repr_(self, x):
        x = self.narrow(x)
        if type(x) is Union:
            return self.each(x, self.repr_)
        if isinstance(x, PObj):
            x = res(x)
            s = self.cls_lookup(x.cls, "__repr__")
            if s is not MISSING and isinstance(s, (types.FunctionType, PFunc)):
                if s.__code__.co_filename.startswith(self.roots):
                    return self.call(BM(x, s, x.cls), [], {})
            return Tok("repr", ("obj", x.cls.__name__, x.birth))
        try:
            return self.split(lambda: repr(self.to_native(x)))
        except Unsupported:
            return Tok("repr", self.repr_parts(x))

    def repr_parts(self, x):
        x = self.narrow(x)
        if isinstance(x, HObj):
            x = res(x)
            if type(x) is PList:
                return ("list",) + tuple(self.repr_parts(v) if not type(v) is Opt else ("opt", v.g, self.repr_parts(v.v)) for v in x.c)
            if type(x) is PDict:
                return ("dict",) + tuple((self.repr_parts(k), g, self.repr_parts(v)) for k, g, v in self.dict_entries(x))
            if type(x) is PSet:
                return ("set",) + tuple((self.repr_parts(k), g) for k, g in self.set_entries(x))
            return ("obj", id(x))
        if type(x) is tuple:
            return ("tuple",) + tuple(self.repr_parts(v) for v in x)
        return x

    def ev_Lambda(self, n, f):
        return self.mkfunc(n, f, "<lambda>")

    def mkfunc(self, n, f, name):
        a = n.args
        dfl = [self.ev(d, f) for d in a.defaults]
        kwd = {p.arg: self.ev(d, f) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        base = f.fn[1] + ".<locals>." if isinstance(getattr(f, "fn", None), tuple) else ""
        return PFunc(n, f, f.globs, name, dfl, kwd, base + name, f.globs.get("__name__"))

    def ev_NamedExpr(self, n, f):
        v = self.ev(n.value, f)
        fr = f
        while fr is not None and not isinstance(getattr(fr, "fn", None), tuple):
            fr = fr.parent
        self.store_name(n.target.id, v, fr or f)
        return v

    def ev_Starred(self, n, f):
        raise Unsupported("starred")

    def ev_Yield(self, n, f):
        v = self.ev(n.value, f) if n.value else None
        fr = f
        while getattr(fr, "yields", None) is None:
            fr = fr.parent
        self.w(fr.yields).append(v)
        return None

    def ev_YieldFrom(self, n, f):
        for g, v in self.iter_slots(self.ev(n.value, f)):
            self.w(f.yields).append(v if g is True else Opt(g, v))
        return None

    # ================================================================ statements
    def exec_block(self, body, f):
        for s in body:
            self.steps += 1
            EX[type(s)](self, s, f)

    def ex_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, f)

    def ex_Pass(self, s, f):
        pass

    def ex_Assign(self, s, f):
        v = self.ev(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def ex_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, f), f)

    def assign(self, t, v, f):
        tt = type(t)
        if tt is ast.Name:
            self.store_name(t.id, v, f)
        elif tt is ast.Attribute:
            self.setattr(self.ev(t.value, f), t.attr, v)
        elif tt is ast.Subscript:
            o = self.ev(t.value, f)
            self.setitem(o, self.ev(t.slice, f), v)
        elif tt in (ast.Tuple, ast.List):
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                rest = len(t.elts) - i - 1

                def th():
                    xs = self.spine([x if g is True else Opt(g, x) for g, x in self.iter_slots(v)])
                    if len(xs) < i + rest:
                        self.raise_(ValueError, "not enough values to unpack")
                    return tuple(xs[:i]) + (PList(xs[i:len(xs) - rest]),) + tuple(xs[len(xs) - rest:])
                vals = self.split(th)
            else:
                vals = self.unpack(v, len(t.elts))
            if type(vals) is Union:
                vals = tuple(self.getitem(vals, i) for i in range(len(t.elts)))
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, f)
        elif tt is ast.Starred:
            self.assign(t.value, v, f)
        else:
            raise Unsupported("assign to %s" % tt.__name__)

    def unpack(self, v, n):
        """-> tuple of n values (merged elementwise over unions)"""
        v = self.narrow(v)
        if type(v) is tuple:
            if len(v) != n:
                self.raise_(ValueError, "unpack: expected %d values, got %d" % (n, len(v)))
            return v
        if type(v) is Union:
            if all(type(x) is tuple and len(x) == n for g, x in v.alts):
                gs = [g for g, x in v.alts]
                return tuple(self.merge_vals(gs, [x[i] for g, x in v.alts]) for i in range(n))
            # force elementwise merging by wrapping
            r = self.each(v, lambda x: self.unpack(x, n))
            if type(r) is Union:
                gs = [g for g, x in r.alts]
                return tuple(self.merge_vals(gs, [x[i] for g, x in r.alts]) for i in range(n))
            return r

        def th():
            xs = self.spine([x if g is True else Opt(g, x) for g, x in slots])
            if len(xs) != n:
                self.raise_(ValueError, "unpack: expected %d values, got %d" % (n, len(xs)))
            return tuple(xs)
        slots = self.iter_slots(v)
        r = self.split(th)
        if type(r) is Union:
            gs = [g for g, x in r.alts]
            return tuple(self.merge_vals(gs, [x[i] for g, x in r.alts]) for i in range(n))
        return r

    def ex_AugAssign(self, s, f):
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, f)
            new = self.augop(op, old, self.ev(s.value, f))
            self.store_name(t.id, new, f)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, f)
            old = self.getattr(o, t.attr)
            new = self.augop(op, old, self.ev(s.value, f))
            self.setattr(o, t.attr, new)
        else:
            o = self.ev(t.value, f)
            k = self.ev(t.slice, f)
            old = self.getitem(o, k)
            new = self.augop(op, old, self.ev(s.value, f))
            self.setitem(o, k, new)

    def augop(self, op, a, b):
        a = self.narrow(a)
        if type(a) is Union:
            return self.each(a, lambda x: self.augop(op, x, b))
        if isinstance(a, HObj):
            a = res(a)
            if type(a) is PList and op is ast.Add:
                self.list_extend(a, b)
                return a
            if type(a) is PSet and a.kind is set and op in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
                nb = self.narrow(b)
                if type(nb) is Union:
                    return self.each(nb, lambda y: self.augop(op, a, y))
                sb = self._setlike(res(nb) if isinstance(nb, HObj) else nb)
                if sb is None:
                    self.raise_(TypeError, "unsupported operand for set")
                r = self.setop(op, a, sb)
                self.setc(a, r.c, own=True)
                return a
            if type(a) is PDict and op is ast.BitOr:
                self.dict_update_from(a, b)
                return a
        return self.binop(op, a, b, inplace=True)

    def ex_Delete(self, s, f):
        for t in s.targets:
            self.delete(t, f)

    def delete(self, t, f):
        if isinstance(t, ast.Name):
            self.load_name(t.id, f)
            fr = f
            while fr is not None and t.id not in fr.own:
                fr = fr.parent
            self.w(fr)[t.id] = ABSENT
        elif isinstance(t, ast.Attribute):
            self.delattr(self.ev(t.value, f), t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, f)
            self.delitem(o, self.ev(t.slice, f))
        else:
            for e in t.elts:
                self.delete(e, f)

    def ex_If(self, s, f):
        c = restrict(self.truth(self.ev(s.test, f)), self.pc.lits)
        if c is True:
            self.exec_block(s.body, f)
        elif c is False:
            self.exec_block(s.orelse, f)
        else:
            self.fork([(c, lambda: self.exec_block(s.body, f)), (bnot(c), lambda: self.exec_block(s.orelse, f))])

    def ex_For(self, s, f):
        brk, cont = loop_flags(s)
        it = self.narrow(self.ev(s.iter, f))
        src = res(it) if isinstance(it, HObj) else it

        def loop():
            slots = self.iter_slots(it)
            i = 0
            c0 = src.c if type(src) is PList else None
            while i < len(slots):
                g, v = slots[i]
                i += 1
                g = restrict(g, self.pc.lits)
                if g is False:
                    continue

                def body():
                    self.assign(s.target, v, f)
                    if cont:
                        self.scoped(("continue",), lambda: self.exec_block(s.body, f), lambda k, x: None)
                    else:
                        self.exec_block(s.body, f)
                if g is True:
                    body()
                else:
                    self.fork([(g, body), (bnot(g), lambda: None)])
                if c0 is not None and src.c is not c0 and i >= len(slots):
                    # list grew while being iterated
                    n = len(slots)
                    if len(src.c) > n and n == len(c0) and all(Join._slot_same(x, y) for x, y in zip(c0, src.c)):
                        slots = slots + self._slots(src.c[n:])
                        c0 = src.c
                elif c0 is not None and src.c is c0 and len(src.c) > len(slots) and i >= len(slots):
                    slots = slots + self._slots(src.c[len(slots):])
            self.exec_block(s.orelse, f)
        if brk:
            self.scoped(("break",), loop, lambda k, v: None)
        else:
            loop()

    def ex_While(self, s, f):
        brk, cont = loop_flags(s)

        def body():
            if cont:
                self.scoped(("continue",), lambda: self.exec_block(s.body, f), lambda k, x: None)
            else:
                self.exec_block(s.body, f)

        def loop(nsym):
            n = 0
            while True:
                c = restrict(self.truth(self.ev(s.test, f)), self.pc.lits)
                if c is False:
                    self.exec_block(s.orelse, f)
                    return
                if c is True:
                    n += 1
                    if n > 3000:
                        self.unwind("while loop")
                    if self._sym_path() and n % 4 == 0 and not self.feasible(self.pc):
                        raise PathDead
                    if n > self.LOOP_LIMIT and self._sym_path():
                        self.unwind("while loop at line %d" % s.lineno)
                    body()
                    continue
                if nsym > self.LOOP_LIMIT:
                    self.unwind("while loop at line %d" % s.lineno)

                def go():
                    body()
                    loop(nsym + 1)
                self.fork([(c, go), (bnot(c), lambda: self.exec_block(s.orelse, f))])
                return
        if brk:
            self.scoped(("break",), lambda: loop(0), lambda k, v: None)
        else:
            loop(0)

    def ex_Break(self, s, f):
        raise BreakExc()

    def ex_Continue(self, s, f):
        raise ContinueExc()

    def ex_Return(self, s, f):
        raise ReturnExc(self.ev(s.value, f) if s.value is not None else None)

    def ex_Raise(self, s, f):
        if s.exc is None:
            if not self.exc_stack:
                self.raise_(RuntimeError, "No active exception to reraise")
            raise InterpRaise(self.exc_stack[-1])
        e = self.ev(s.exc, f)
        if s.cause is not None:
            self.ev(s.cause, f)

        def th(e):
            if isinstance(e, type) and issubclass(e, BaseException):
                e = self.instantiate(e, [], {})
            if not isinstance(e, PObj) or not issubclass(res(e).cls, BaseException):
                self.raise_(TypeError, "exceptions must derive from BaseException")
            raise InterpRaise(e)
        self.each(e, th)

    def ex_Assert(self, s, f):
        c = restrict(self.truth(self.ev(s.test, f)), self.pc.lits)
        if c is True:
            return

        def bad():
            msg = (self.msg_ev(s.msg, f),) if s.msg is not None else ()
            raise InterpRaise(PObj(AssertionError, {"args": msg}))
        if c is False:
            bad()
        self.fork([(c, lambda: None), (bnot(c), bad)])

    def msg_ev(self, n, f):
        return self.ev(n, f)

    def ex_Try(self, s, f):
        if s.finalbody:
            def fin(k, v):
                self.exec_block(s.finalbody, f)
                if k is not None:
                    raise MAKE[k](v)
            self.scoped(("return", "break", "continue", "raise"), lambda: self.try_core(s, f), fin)
        else:
            self.try_core(s, f)

    def try_core(self, s, f):
        if not s.handlers:
            self.exec_block(s.body, f)
            self.exec_block(s.orelse, f)
            return

        def h(k, v):
            if k is None:
                self.exec_block(s.orelse, f)
                return
            self.each(v, lambda e: self.handle(s.handlers, 0, e, f))
        self.scoped(("raise",), lambda: self.exec_block(s.body, f), h)

    def handle(self, hs, i, e, f):
        if i == len(hs):
            raise InterpRaise(e)
        h = hs[i]
        e = res(e)
        if h.type is not None:
            m = restrict(self.isinstance_(e, self.ev(h.type, f)), self.pc.lits)
            if m is False:
                return self.handle(hs, i + 1, e, f)
            if m is not True:
                return self.fork([(m, lambda: self.run_handler(h, e, f)), (bnot(m), lambda: self.handle(hs, i + 1, e, f))])
        self.run_handler(h, e, f)

    def run_handler(self, h, e, f):
        if h.name:
            self.store_name(h.name, e, f)
        self.exc_stack.append(e)
        n = len(self.exc_stack)
        try:
            self.exec_block(h.body, f)
        finally:
            del self.exc_stack[n - 1:]
        if h.name:
            self.store_name(h.name, ABSENT, f)

    def ex_With(self, s, f):
        self.with_items(s.items, 0, s.body, f)

    def with_items(self, items, i, body, f):
        if i == len(items):
            self.exec_block(body, f)
            return
        it = items[i]
        cm = self.ev(it.context_expr, f)

        def go(cm):
            exitf = self.getattr(cm, "__exit__")
            v = self.call(self.getattr(cm, "__enter__"), [], {})

            def inner():
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, f)
                self.with_items(items, i + 1, body, f)

            def h(k, x):
                if k == "raise":
                    def one(e):
                        self.exc_stack.append(e)
                        n = len(self.exc_stack)
                        try:
                            r = self.truth(self.call(exitf, [res(e).cls, e, None], {}))
                        finally:
                            del self.exc_stack[n - 1:]
                        r = restrict(r, self.pc.lits)

                        def again():
                            raise InterpRaise(e)
                        if r is True:
                            return
                        if r is False:
                            again()
                        self.fork([(r, lambda: None), (bnot(r), again)])
                    self.each(x, one)
                    return
                self.call(exitf, [None, None, None], {})
                if k is not None:
                    raise MAKE[k](x)
            self.scoped(("return", "break", "continue", "raise"), inner, h)
        cm = self.narrow(cm)
        if type(cm) is Union:
            self.each(cm, go)
        else:
            go(cm)

    def ex_FunctionDef(self, s, f):
        fn = self.mkfunc(s, f, s.name)
        for d in reversed(s.decorator_list):
            dec = self.ev(d, f)
            fn = self.call(dec, [fn], {})
        self.store_name(s.name, fn, f)

    def ex_Import(self, s, f):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for p in a.name.split(".")[1:]:
                    m = getattr(m, p)
                self.store_name(a.asname, m, f)
            else:
                self.store_name(a.name.split(".")[0], m, f)

    def ex_ImportFrom(self, s, f):
        import importlib
        pkg = f.globs.get("__package__")
        m = importlib.import_module("." * s.level + (s.module or ""), pkg if s.level else None)
        for a in s.names:
            if a.name == "*":
                raise Unsupported("import * in function")
            self.store_name(a.asname or a.name, self.adopt(getattr(m, a.name)), f)

    def ex_Global(self, s, f):
        pass

    ex_Nonlocal = ex_Global

    def ex_ClassDef(self, s, f):
        raise Unsupported("class definition inside an interpreted function")

    def ex_Match(self, s, f):
        subj = self.ev(s.subject, f)
        self.each(subj, lambda x: self.match_cases(s.cases, 0, x, f))

    def match_cases(self, cases, i, x, f):
        if i == len(cases):
            return
        c = cases[i]
        m = self.pattern(c.pattern, x, f)

        def yes():
            if c.guard is not None:
                g = restrict(self.truth(self.ev(c.guard, f)), self.pc.lits)
                if g is True:
                    return self.exec_block(c.body, f)
                if g is False:
                    return self.match_cases(cases, i + 1, x, f)
                return self.fork([(g, lambda: self.exec_block(c.body, f)), (bnot(g), lambda: self.match_cases(cases, i + 1, x, f))])
            self.exec_block(c.body, f)
        m = restrict(m, self.pc.lits)
        if m is True:
            return yes()
        if m is False:
            return self.match_cases(cases, i + 1, x, f)
        self.fork([(m, yes), (bnot(m), lambda: self.match_cases(cases, i + 1, x, f))])

    def pattern(self, p, x, f):
        if isinstance(p, ast.MatchValue):
            return self.eq(x, self.ev(p.value, f))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(x, p.value)
        if isinstance(p, ast.MatchAs):
            r = True if p.pattern is None else self.pattern(p.pattern, x, f)
            if p.name:
                self.store_name(p.name, x, f)
            return r
        if isinstance(p, ast.MatchOr):
            return bor(*[self.pattern(q, x, f) for q in p.patterns])
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance_(x, self.ev(p.cls, f))
        if isinstance(p, ast.MatchSequence) and isinstance(x, tuple):
            if len(p.patterns) != len(x):
                return False
            return band(*[self.pattern(q, y, f) for q, y in zip(p.patterns, x)])
        raise Unsupported("pattern %s" % type(p).__name__)


class NeedSplit(Unsupported):
    def __init__(self, g):
        Unsupported.__init__(self, "needs case split")
        self.g = g


EV = {getattr(ast, k[3:]): v for k, v in vars(Interp).items() if k.startswith("ev_")}
EX = {getattr(ast, k[3:]): v for k, v in vars(Interp).items() if k.startswith("ex_")}
