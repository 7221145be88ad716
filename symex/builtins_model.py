"""Models of Python builtins, container methods and small stdlib helpers."""
import ast, builtins, collections, copy, functools, itertools, inspect, operator, types, enum, time, uuid, logging, contextlib, dataclasses
from .logic import z3, B, band, bor, bnot, bite, beq, atom, restrict, or_guards, bimp
from .values import *
from .values import _birth
from .state import *
from . import interp as _I
from .interp import Interp, NeedSplit, MISSING, BM

MODELS = {}


def model(*fns):
    def deco(f):
        for x in fns:
            if type(x) is types.BuiltinMethodType and isinstance(x.__self__, type):
                # bound anew at every access
                MODELS[(id(x.__self__), x.__name__)] = (x, f)
            else:
                MODELS[id(x)] = (x, f)
        return f
    return deco


def method(cls_prefix, *names):
    def deco(f):
        for n in names:
            setattr(Interp, cls_prefix + n, f)
        return f
    return deco


def slots_to_list(slots):
    return [v if g is True else Opt(g, v) for g, v in slots]


# ====================================================================== builtins
@model(len)
def m_len(I, a, k):
    v = I.narrow(a[0])
    return length(I, v)


def length(I, v):
    v = I.narrow(v)
    t = type(v)
    if t is Union:
        return I.each(v, lambda x: length(I, x))
    if t in (str, bytes, tuple, range):
        return len(v)
    if isinstance(v, HObj):
        v = res(v)
        t = type(v)
        if t is PList or t is PIter and False:
            return I.count([g for g, x in I._slots(v.c)])
        if t in (PDict, PSet):
            return I.count([g for _, g, _ in I.dict_entries(v)])
        if t is PObj:
            f = I.cls_lookup(v.cls, "__len__")
            if f is MISSING:
                I.raise_(TypeError, "object of type %r has no len()" % v.cls.__name__)
            return I.call(BM(v, f, v.cls), [], {})
        h = getattr(v, "m___len__", None)
        if h is not None:
            return h(I, [], {})
        I.raise_(TypeError, "no len()")
    if t is View:
        return length(I, v.d)
    if t is Tok:
        n = I.tok_len(v)
        if n is not None:
            return n
        raise Unsupported("len of opaque string")
    if t in (SInt, B, LazyGen):
        I.raise_(TypeError, "no len()")
    return I.native(len, v)


@model(isinstance)
def m_isinstance(I, a, k):
    return I.isinstance_(a[0], a[1])


@model(issubclass)
def m_issubclass(I, a, k):
    c = I.narrow(a[0])
    if type(c) is Union:
        return or_guards([band(g, m_issubclass(I, [x, a[1]], k)) for g, x in c.alts])
    return I.native(issubclass, c, a[1])


@model(callable)
def m_callable(I, a, k):
    v = I.narrow(a[0])
    if type(v) is Union:
        return or_guards([band(g, m_callable(I, [x], k)) for g, x in v.alts])
    if type(v) in (PFunc, BM, HM):
        return True
    if isinstance(v, HObj):
        v = res(v)
        if type(v) is PObj:
            return I.cls_lookup(v.cls, "__call__") is not MISSING
        return hasattr(v, "m___call__")
    return callable(v)


@model(hasattr)
def m_hasattr(I, a, k):
    o, n = a
    n = I.narrow(n)
    if type(n) is Union:
        return I.each(n, lambda x: m_hasattr(I, [o, x], k))
    tag = object()

    def one(x):
        r = I.scoped(("raise",), lambda: (I.getattr(x, n), True)[1],
                     lambda kind, v: True if kind is None else attrerr(I, v))
        return r
    return I.each(o, one)


def attrerr(I, v):
    def one(e):
        if issubclass(res(e).cls, AttributeError):
            return False
        raise InterpRaise(e)
    return I.each(v, one)


@model(getattr)
def m_getattr(I, a, k):
    o, n = a[0], I.narrow(a[1])
    if type(n) is Union:
        return I.each(n, lambda x: m_getattr(I, [o, x] + list(a[2:]), k))
    if len(a) > 2:
        def one(x):
            def h(kind, v):
                if kind is None:
                    return v

                def e1(e):
                    if issubclass(res(e).cls, AttributeError):
                        return a[2]
                    raise InterpRaise(e)
                return I.each(v, e1)
            return I.scoped(("raise",), lambda: I.getattr(x, n), h)
        return I.each(o, one)
    return I.getattr(o, n)


@model(setattr)
def m_setattr(I, a, k):
    n = I.narrow(a[1])
    if type(n) is Union:
        return I.each(n, lambda x: I.setattr(a[0], x, a[2]))
    I.setattr(a[0], n, a[2])


@model(object.__setattr__)
def m_osetattr(I, a, k):
    o = res(a[0])
    I.w(o)[a[1]] = a[2]


@model(delattr)
def m_delattr(I, a, k):
    I.delattr(a[0], a[1])


@model(type)
def m_type(I, a, k):
    if len(a) == 1:
        return I.type_of(a[0])
    raise Unsupported("type() with 3 arguments")


@model(id)
def m_id(I, a, k):
    def one(x):
        if isinstance(x, HObj):
            return 10 ** 9 + res(x).birth
        return id(x)
    return I.pure_each(a[0], one)


@model(hash)
def m_hash(I, a, k):
    def one(x):
        if isinstance(x, PObj):
            x = res(x)
            h = I.cls_lookup(x.cls, "__hash__")
            if isinstance(h, (types.FunctionType, PFunc)):
                return I.call(BM(x, h, x.cls), [], {})
            if h is None:
                I.raise_(TypeError, "unhashable type")
            return 10 ** 9 + x.birth
        I.check_hashable(x)
        try:
            return I.split(lambda: hash(I.to_native(x)))
        except Unsupported:
            # an opaque but deterministic number
            return Tok("pyhash", (x,))
    return I.each(a[0], one)


@model(print)
def m_print(I, a, k):
    return None


@model(repr)
def m_repr(I, a, k):
    return I.repr_(a[0])


@model(str)
def m_str(I, a, k):
    if not a:
        return ""
    return I.str_(a[0])


@model(bool)
def m_bool(I, a, k):
    return I.truth(a[0]) if a else False


@model(int)
def m_int(I, a, k):
    if not a:
        return 0

    def one(v):
        if type(v) is SInt or type(v) is int:
            return v
        if type(v) is B:
            return Union([(v, 1), (bnot(v), 0)])
        if type(v) is Tok and v.kind == "cat" and len(v.parts) == 1 and type(v.parts[0]) is SInt:
            return v.parts[0]
        return I.native_call(int, [v] + list(a[1:]), k)
    return I.each(a[0], one)


@model(float)
def m_float(I, a, k):
    return I.native_call(float, a, k)


@model(abs)
def m_abs(I, a, k):
    def one(v):
        if type(v) is SInt:
            return mkint(z3.If(v.e >= 0, v.e, -v.e))
        return I.native_call(abs, [v], {})
    return I.each(a[0], one)


@model(iter)
def m_iter(I, a, k):
    if len(a) == 2:
        raise Unsupported("iter(callable, sentinel)")

    def one(v):
        if type(v) is PIter:
            return v
        if isinstance(v, PObj):
            f = I.cls_lookup(v.cls, "__iter__")
            if f is not MISSING:
                return I.call(BM(v, f, v.cls), [], {})
        return PIter(slots_to_list(I.iter_slots(v)))
    return I.each(a[0], one)


@model(next)
def m_next(I, a, k):
    def one(it):
        if type(it) is LazyGen:
            # first element of a generator expression; a generator consumed
            # again afterwards keeps its remaining elements
            l = I.force_gen(it)
            v = first(I, l, a[1:])
            return v
        it = res(it) if isinstance(it, HObj) else it
        if type(it) is PIter:
            return first(I, it, a[1:])
        if isinstance(it, PObj):
            f = I.cls_lookup(it.cls, "__next__")
            if f is not MISSING:
                return I.call(BM(it, f, it.cls), [], {})
        if isinstance(it, HObj) and hasattr(it, "m___next__"):
            return it.m___next__(I, [], {})
        I.raise_(TypeError, "%r object is not an iterator" % I.type_of(it).__name__)
    return I.each(a[0], one)


def take(I, o, last, empty):
    """remove and return the first/last present slot of o"""
    o = res(o)
    slots = I._slots(o.c)
    none = restrict(band(*[bnot(g) for g, v in slots]), I.pc.lits)

    def go():
        sl = I._slots(o.c)
        seq = sl[::-1] if last else sl
        taken = False
        gs, vs, new = [], [], []
        for g, v in seq:
            here = restrict(band(g, bnot(taken)), I.pc.lits)
            if here is not False:
                gs.append(here)
                vs.append(v)
            rest = restrict(band(g, taken), I.pc.lits)
            if rest is not False:
                new.append((rest, v))
            taken = bor(taken, g)
        I.setc(o, slots_to_list(new[::-1] if last else new), own=True)
        return vs[0] if len(vs) == 1 else I.merge_vals(gs, vs)
    if none is True:
        return empty()
    if none is False:
        return go()
    return I.fork([(bnot(none), go), (none, empty)])


def first(I, it, dflt):
    def empty():
        if dflt:
            return dflt[0]
        I.raise_(StopIteration)
    return take(I, it, False, empty)


@model(range)
def m_range(I, a, k):
    a = [I.narrow(x) for x in a]
    a = [Union([(x, 1), (bnot(x), 0)]) if type(x) is B else x for x in a]
    if all(type(x) is int for x in a):
        return I.native(range, *a)
    if len(a) <= 2 and type(a[-1]) is Union and all(type(x) is int for g, x in a[-1].alts) and (len(a) == 1 or type(a[0]) is int):
        lo = 0 if len(a) == 1 else a[0]
        hi = max(x for g, x in a[-1].alts)
        out = []
        for i in range(lo, hi):
            g = restrict(or_guards([h for h, x in a[-1].alts if x > i]), I.pc.lits)
            out.append(i if g is True else Opt(g, i))
        return PList(out)
    for i, x in enumerate(a):
        if type(x) is Union:
            return I.each(x, lambda y: m_range(I, a[:i] + [y] + a[i + 1:], k))
        if type(x) is SInt:
            lim = I.LOOP_LIMIT
            if len(a) == 1 or (len(a) == 2 and i == 1 and type(a[0]) is int):
                lo = 0 if len(a) == 1 else a[0]
                out = []
                for j in range(lo, lo + 64):
                    g = restrict(I.compare(ast.Gt, x, j), I.pc.lits)
                    if g is False or not I.feasible(I.pc.extend(g)):
                        return PList(out)
                    out.append(Opt(g, j))
                raise _I.UnwindLimit("range over an unbounded symbolic int")
        if type(x) not in (int, bool):
            I.raise_(TypeError, "range() expects int")
    raise Unsupported("range of symbolic bounds")


@model(enumerate)
def m_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    out = []
    prev = []
    for g, v in I.iter_slots(a[0]):
        n = I.count(prev)
        if start:
            n = I.binop(ast.Add, n, start)
        out.append((g, (n, v)))
        prev.append(g)
    return PIter(slots_to_list(out))


@model(zip)
def m_zip(I, a, k):
    ss = [I.iter_slots(x) for x in a]
    if all(g is True for s in ss for g, v in s):
        if k.get("strict") and len(set(len(s) for s in ss)) > 1:
            I.raise_(ValueError, "zip() argument lengths differ")
        return PIter([tuple(x[1] for x in t) for t in zip(*ss)])
    # identical guard structure: zip slotwise
    if len(set(len(s) for s in ss)) == 1 and all(len(set(id(x[0]) for x in t)) == 1 for t in zip(*ss)):
        return PIter([v if g is True else Opt(g, v) for g, v in [(t[0][0], tuple(x[1] for x in t)) for t in zip(*ss)]])
    lists = [slots_to_list(s) for s in ss]

    def go():
        return PList([tuple(t) for t in zip(*[I.spine(l) for l in lists])])
    r = I.split(go)
    return PIter(slots_to_list(I.iter_slots(r)))


@model(map)
def m_map(I, a, k):
    f = a[0]
    if len(a) == 2:
        src = I.iter_slots(a[1])
    else:
        src = I.iter_slots(m_zip(I, a[1:], {}))
    out = PList()
    for g, v in src:
        args = [v] if len(a) == 2 else list(v)

        def th():
            I.w(out).append(I.call(f, args, {}))
        if g is True:
            th()
        else:
            I.fork([(g, th), (bnot(g), lambda: None)])
    return PIter(res(out).c)


@model(filter)
def m_filter(I, a, k):
    f = a[0]
    out = []
    for g, v in I.iter_slots(a[1]):
        def t():
            return I.truth(v if f is None else I.call(f, [v], {}))
        c = t() if g is True else I.fork([(g, t), (bnot(g), lambda: False)])
        c = restrict(band(g, c), I.pc.lits)
        if c is not False:
            out.append((c, v))
    return PIter(slots_to_list(out))


@model(reversed)
def m_reversed(I, a, k):
    def one(v):
        if isinstance(v, PObj):
            f = I.cls_lookup(v.cls, "__reversed__")
            if f is not MISSING:
                return I.call(BM(v, f, v.cls), [], {})
        return PIter(slots_to_list(I.iter_slots(v)[::-1]))
    return I.each(a[0], one)


def concrete_key(k):
    return Interp._conc(k) or type(k) is float


def sort_slots(I, slots, key, reverse):
    keys = []
    for g, v in slots:
        if key is None:
            keys.append(I.narrow(v))
        elif g is True:
            keys.append(I.narrow(I.call(key, [v], {})))
        else:
            keys.append(I.narrow(I.fork([(g, lambda: I.call(key, [v], {})), (bnot(g), lambda: None)])))
    if len(slots) <= 1:
        return slots
    conc = []
    for (g, v), kk in zip(slots, keys):
        if type(kk) is Union and g is not True:
            al = [(h, x) for h, x in kk.alts if restrict(band(g, h), I.pc.lits) is not False]
            if len(al) == 1:
                kk = al[0][1]
        conc.append(kk)
    keys = conc
    if all(concrete_key(x) for x in keys):
        idx = list(range(len(slots)))
        try:
            idx.sort(key=lambda i: keys[i], reverse=bool(reverse))
        except TypeError:
            # incomparable keys: only an error when two such slots coexist
            return sort_split(I, slots, keys, reverse)
        return [slots[i] for i in idx]
    # expand unions of concrete keys: every alternative becomes a slot
    if all(concrete_key(x) or (type(x) is Union and all(concrete_key(y) for _, y in x.alts)) for x in keys):
        ex, exk = [], []
        for (g, v), kk in zip(slots, keys):
            if type(kk) is Union:
                for h, x in kk.alts:
                    q = restrict(band(g, h), I.pc.lits)
                    if q is not False:
                        if key is None:
                            ex.append((q, x))
                        else:
                            ex.append((q, v))
                        exk.append(x)
            else:
                ex.append((g, v))
                exk.append(kk)
        try:
            idx = list(range(len(ex)))
            idx.sort(key=lambda i: exk[i], reverse=bool(reverse))
            return [ex[i] for i in idx]
        except TypeError:
            return sort_split(I, slots, keys, reverse)
    return sort_split(I, slots, keys, reverse)


def sort_split(I, slots, keys, reverse):
    """insertion sort by forking on comparisons"""
    def go():
        xs = I.spine(slots_to_list([(g, (kk, v)) for (g, v), kk in zip(slots, keys)]))
        out = []
        for kk, v in xs:
            pos = len(out)
            while pos > 0:
                a, b = (kk, out[pos - 1][0])
                lt = I.compare(ast.Lt, a, b) if not reverse else I.compare(ast.Lt, b, a)
                lt = restrict(lt, I.pc.lits)
                if lt is True:
                    pos -= 1
                elif lt is False:
                    break
                else:
                    raise NeedSplit(lt)
            out.insert(pos, (kk, v))
        return PList([v for _, v in out])
    r = I.split(go)
    return I.iter_slots(r)


@model(sorted)
def m_sorted(I, a, k):
    return PList(slots_to_list(sort_slots(I, I.iter_slots(a[0]), k.get("key"), k.get("reverse", False))))


def extremum(I, a, k, op):
    key = k.get("key")
    slots = I.iter_slots(a[0]) if len(a) == 1 else [(True, x) for x in a]

    def go():
        xs = I.spine(slots_to_list(slots))
        if not xs:
            if "default" in k:
                return k["default"]
            I.raise_(ValueError, "arg is an empty sequence")
        best = xs[0]
        bk = I.call(key, [best], {}) if key is not None else best
        for x in xs[1:]:
            xk = I.call(key, [x], {}) if key is not None else x
            c = restrict(I.compare(op, xk, bk), I.pc.lits)
            if c is True:
                best, bk = x, xk
            elif c is not False:
                best = I.merge_vals([c, bnot(c)], [x, best])
                bk = I.merge_vals([c, bnot(c)], [xk, bk])
        return best
    return I.split(go)


@model(min)
def m_min(I, a, k):
    return extremum(I, a, k, ast.Lt)


@model(max)
def m_max(I, a, k):
    return extremum(I, a, k, ast.Gt)


@model(sum)
def m_sum(I, a, k):
    acc = a[1] if len(a) > 1 else k.get("start", 0)
    for g, v in I.iter_slots(a[0]):
        if g is True:
            acc = I.binop(ast.Add, acc, v)
        else:
            if type(v) in (int, B, bool, SInt) and type(acc) in (int, Union, SInt):
                acc = I.fork([(g, lambda: I.binop(ast.Add, I.narrow(acc), v)), (bnot(g), lambda: I.narrow(acc))])
            else:
                acc = I.fork([(g, lambda: I.binop(ast.Add, I.narrow(acc), v)), (bnot(g), lambda: I.narrow(acc))])
    return acc


def anyall(I, src, is_any):
    src = I.narrow(src)
    if type(src) is not LazyGen:
        gs = []
        for g, v in I.iter_slots(src):
            t = I.truth(v)
            gs.append(band(g, t) if is_any else band(g, bnot(t)))
        r = or_guards(gs)
        return r if is_any else bnot(r)
    if src.done:
        return not is_any
    src.done = True
    cell = PList([False])

    def emit(fr):
        acc = restrict(res(cell).c[0], I.pc.lits)
        if acc is True:
            return

        def el():
            t = I.truth(I.ev(src.node.elt, fr))
            return t if is_any else bnot(t)
        if acc is False:
            t = el()
        else:
            t = I.fork([(bnot(acc), el), (acc, lambda: False)])
        I.w(cell)[0] = bor(acc, t)
    I.comp(src.node.generators, 0, src.frame, emit)
    r = restrict(res(cell).c[0], I.pc.lits)
    return r if is_any else bnot(r)


@model(any)
def m_any(I, a, k):
    return anyall(I, a[0], True)


@model(all)
def m_all(I, a, k):
    return anyall(I, a[0], False)


@model(list)
def m_list(I, a, k):
    return PList(slots_to_list(I.iter_slots(a[0])) if a else [])


@model(collections.deque)
def m_deque(I, a, k):
    if k.get("maxlen") is not None or len(a) > 1:
        raise Unsupported("deque(maxlen)")
    return PList(slots_to_list(I.iter_slots(a[0])) if a else [], collections.deque)


@model(tuple)
def m_tuple(I, a, k):
    if not a:
        return ()
    v = I.narrow(a[0])
    if type(v) is tuple:
        return v
    if type(v) is Union and all(type(x) is tuple for g, x in v.alts):
        return v
    l = slots_to_list(I.iter_slots(v))
    return I.split(lambda: tuple(I.spine(l)))


@model(set)
def m_set(I, a, k):
    return I.mkset(a[0]) if a else PSet()


@model(frozenset)
def m_frozenset(I, a, k):
    return I.mkset(a[0], frozenset) if a else PSet(frozenset)


def mk_dict(kind, factory=None):
    def f(I, a, k):
        o = PDict(kind, factory)
        if a:
            I.dict_update_from(o, a[0])
        for n, v in k.items():
            I.dict_set(o, n, v)
        return o
    return f


model(dict)(mk_dict(dict))
model(collections.OrderedDict)(mk_dict(collections.OrderedDict))


@model(collections.Counter)
def m_counter(I, a, k):
    o = PDict(collections.Counter)
    if a:
        for g, v in I.iter_slots(a[0]):
            def th():
                I.dict_set(o, v, I.binop(ast.Add, I.dict_getitem(o, v), 1))
            if g is True:
                th()
            else:
                I.fork([(g, th), (bnot(g), lambda: None)])
    return o


@model(collections.defaultdict)
def m_defaultdict(I, a, k):
    o = PDict(collections.defaultdict, a[0] if a else None)
    if len(a) > 1:
        I.dict_update_from(o, a[1])
    for n, v in k.items():
        I.dict_set(o, n, v)
    return o


@model(dict.fromkeys)
def m_fromkeys(I, a, k):
    o = PDict()
    for g, v in I.iter_slots(a[0]):
        def th():
            I.dict_set(o, v, a[1] if len(a) > 1 else None)
        if g is True:
            th()
        else:
            I.fork([(g, th), (bnot(g), lambda: None)])
    return o


@model(vars)
def m_vars(I, a, k):
    return I.getattr(a[0], "__dict__")


@model(super)
def m_super(I, a, k):
    o = I.narrow(a[1])
    if isinstance(o, HObj):
        o = res(o)
    return Super(o, a[0], o.cls if isinstance(o, PObj) else o)


@model(slice)
def m_slice(I, a, k):
    return slice(*a)


@model(getattr(operator, "itemgetter"))
def m_itemgetter(I, a, k):
    return NativeFn(lambda I, b, kk: I.getitem(b[0], a[0]) if len(a) == 1 else tuple(I.getitem(b[0], x) for x in a))


@model(operator.attrgetter)
def m_attrgetter(I, a, k):
    def get(I, b, kk):
        def one(n):
            v = b[0]
            for p in n.split("."):
                v = I.getattr(v, p)
            return v
        return one(a[0]) if len(a) == 1 else tuple(one(x) for x in a)
    return NativeFn(get)


class NativeFn(HObj):
    """callable implemented by the machinery"""
    def __init__(self, f):
        HObj.__init__(self)
        self.f = f

    def m___call__(self, I, a, k):
        return self.f(I, a, k)


for _n, _op in (("add", ast.Add), ("sub", ast.Sub), ("mul", ast.Mult), ("or_", ast.BitOr), ("and_", ast.BitAnd), ("xor", ast.BitXor),
                ("concat", ast.Add)):
    def _mk(op):
        return lambda I, a, k: I.binop(op, a[0], a[1])
    model(getattr(operator, _n))(_mk(_op))
for _n, _op in (("eq", ast.Eq), ("ne", ast.NotEq), ("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE), ("is_", ast.Is), ("is_not", ast.IsNot)):
    def _mk2(op):
        return lambda I, a, k: I.cmp1(op, a[0], a[1])
    model(getattr(operator, _n))(_mk2(_op))
model(operator.not_)(lambda I, a, k: I.not_(a[0]))
model(operator.contains)(lambda I, a, k: I.contains(a[0], a[1]))
model(operator.getitem)(lambda I, a, k: I.getitem(a[0], a[1]))
model(operator.setitem)(lambda I, a, k: I.setitem(a[0], a[1], a[2]))
model(operator.delitem)(lambda I, a, k: I.delitem(a[0], a[1]))


@model(functools.reduce)
def m_reduce(I, a, k):
    slots = I.iter_slots(a[1])
    l = slots_to_list(slots)
    if len(a) > 2 and True:
        acc = a[2]
        for g, v in slots:
            def step():
                return I.call(a[0], [I.narrow(acc), v], {})
            acc = step() if g is True else I.fork([(g, step), (bnot(g), lambda: I.narrow(acc))])
        return acc

    def go():
        xs = I.spine(l)
        if not xs:
            I.raise_(TypeError, "reduce() of empty iterable with no initial value")
        return ("xs", PList(xs))
    r = I.split(go)

    def fold(t):
        xs = res(t[1]).c
        acc = xs[0]
        for x in xs[1:]:
            acc = I.call(a[0], [acc, x], {})
        return acc
    if type(r) is tuple and type(r[1]) is PList and any(type(s) is Opt for s in res(r[1]).c):
        return I.split(lambda: fold(("xs", PList(I.spine(res(r[1]).c)))))
    if type(r) is tuple and type(r[1]) is Union:
        return I.each(r[1], lambda p: fold(("xs", p)))
    return I.each(r, fold)


@model(functools.update_wrapper)
def m_update_wrapper(I, a, k):
    return I.call(m_wraps(I, [a[1]], k), [a[0]], {})


@model(types.FunctionType)
def m_function(I, a, k):
    """a copy of a native function, over other globals"""
    p = dict(zip(("code", "globals", "name", "argdefs", "closure"), a))
    p.update(k)
    code = p["code"]
    if type(code) is not types.CodeType or not code.co_filename.startswith(I.roots):
        raise Unsupported("function made from %r" % (code,))
    node = _I.find_node(code)
    if node is None:
        raise Unsupported("no source for %r" % (code,))
    fr = I.closure_frame(code, p.get("closure"), p["globals"])
    f = PFunc(node, fr, p["globals"], p.get("name") or code.co_name, list(p.get("argdefs") or ()), {}, qualname=code.co_qualname)
    f.attrs["__code__"] = code
    f.attrs["__defaults__"] = p.get("argdefs")
    return f


@model(functools.wraps)
def m_wraps(I, a, k):
    def deco(I, b, kk):
        f = b[0]
        if type(f) is PFunc:
            src = a[0]
            for n in ("__name__", "__qualname__", "__module__", "__doc__"):
                try:
                    f.attrs[n] = I.getattr(src, n)
                except Abrupt:
                    pass
            f.attrs["__wrapped__"] = src
        return f
    return NativeFn(deco)


@model(functools.partial)
def m_partial(I, a, k):
    f, pre = a[0], list(a[1:])
    return NativeFn(lambda I, b, kk: I.call(f, pre + list(b), {**k, **kk}))


@model(itertools.chain)
def m_chain(I, a, k):
    out = []
    for x in a:
        out.extend(I.iter_slots(x))
    return PIter(slots_to_list(out))


@model(itertools.chain.from_iterable)
def m_chain_fi(I, a, k):
    out = []
    for g, v in I.iter_slots(a[0]):
        for h, x in I.iter_slots(v):
            q = restrict(band(g, h), I.pc.lits)
            if q is not False:
                out.append((q, x))
    return PIter(slots_to_list(out))


@model(itertools.product)
def m_product(I, a, k):
    rep = k.get("repeat", 1)
    ss = [I.iter_slots(x) for x in a] * rep
    out = []
    for t in itertools.product(*ss):
        g = restrict(band(*[x[0] for x in t]), I.pc.lits)
        if g is not False:
            out.append((g, tuple(x[1] for x in t)))
    return PIter(slots_to_list(out))


def _comb(fn):
    def f(I, a, k):
        s = I.iter_slots(a[0])
        out = []
        for t in fn(s, *a[1:]):
            g = restrict(band(*[x[0] for x in t]), I.pc.lits)
            if g is not False:
                out.append((g, tuple(x[1] for x in t)))
        return PIter(slots_to_list(out))
    return f


model(itertools.combinations)(_comb(itertools.combinations))
model(itertools.permutations)(_comb(itertools.permutations))


@model(itertools.islice)
def m_islice(I, a, k):
    l = PList(slots_to_list(I.iter_slots(a[0])))
    s = slice(*a[1:])
    return PIter(res(I.getslice(l, s.start, s.stop, s.step)).c)


@model(itertools.zip_longest)
def m_zip_longest(I, a, k):
    fv = k.get("fillvalue")
    lists = [slots_to_list(I.iter_slots(x)) for x in a]
    r = I.split(lambda: PList([tuple(t) for t in itertools.zip_longest(*[I.spine(l) for l in lists], fillvalue=fv)]))
    return PIter(slots_to_list(I.iter_slots(r)))


# ---------------------------------------------------------------------- copy
def shallow(I, v):
    v = I.narrow(v)
    if type(v) is Union:
        return I.each(v, lambda x: shallow(I, x))
    if isinstance(v, HObj):
        v = res(v)
        t = type(v)
        if t is PList:
            return PList(v.c, v.kind)
        if t is PDict:
            o = PDict(v.kind, v.factory)
            o.c = v.c.copy()
            return o
        if t is PSet:
            o = PSet(v.kind)
            o.c = v.c.copy()
            return o
        if t is PObj:
            f = I.cls_lookup(v.cls, "__copy__")
            if f is not MISSING:
                return I.call(BM(v, f, v.cls), [], {})
            if issubclass(v.cls, BaseException):
                return v
            return PObj(v.cls, dict(v.c))
        h = getattr(v, "m_copy", None)
        if h is not None:
            return h(I, [], {})
        raise Unsupported("copy.copy of %s" % t.__name__)
    return v


def deep(I, v, memo):
    v = I.narrow(v)
    t = type(v)
    if t is Union:
        return Union([(g, deep(I, x, memo)) for g, x in v.alts])
    if t is tuple:
        if Interp._conc(v):
            return v
        return tuple(deep(I, x, memo) for x in v)
    if isinstance(v, HObj):
        v = res(v)
        o = memo.get(id(v))
        if o is not None:
            return o
        t = type(v)
        if t is PList or t is PIter:
            o = PList((), v.kind) if t is PList else PIter(())
            memo[id(v)] = o
            o.c = [Opt(s.g, deep(I, s.v, memo)) if type(s) is Opt else deep(I, s, memo) for s in v.c]
            return o
        if t is PDict or t is PSet:
            o = PDict(v.kind, v.factory) if t is PDict else PSet(v.kind)
            memo[id(v)] = o
            d = {deep(I, k, memo): (g, deep(I, x, memo)) for k, (g, x) in v.c.d.items()}
            s = tuple((i, deep(I, k, memo), g, deep(I, x, memo)) for i, k, g, x in v.c.s)
            o.c = DictC(d, s)
            return o
        if t is PObj:
            f = I.cls_lookup(v.cls, "__deepcopy__")
            if f is not MISSING:
                return I.call(BM(v, f, v.cls), [PDict()], {})
            if issubclass(v.cls, BaseException):
                return v
            o = PObj(v.cls)
            memo[id(v)] = o
            o.c = {k: deep(I, x, memo) for k, x in v.c.items()}
            return o
        h = getattr(v, "deepcopy", None)
        if h is not None:
            return h(I, memo)
        raise Unsupported("deepcopy of %s" % t.__name__)
    if t in (int, str, bool, float, bytes, type(None), SInt, B, Tok, PFunc, types.FunctionType, type, types.ModuleType) or v is ABSENT:
        return v
    if isinstance(v, (BM, HM, View)):
        return v
    return I.native(copy.deepcopy, v)


@model(copy.copy)
def m_copy(I, a, k):
    return shallow(I, a[0])


@model(copy.deepcopy)
def m_deepcopy(I, a, k):
    return deep(I, a[0], {})


# ---------------------------------------------------------------------- misc stdlib
@model(dataclasses.replace)
def m_dreplace(I, a, k):
    def one(o):
        kw = {fl.name: I.getattr(o, fl.name) for fl in dataclasses.fields(o.cls) if fl.init}
        kw.update(k)
        return I.call(o.cls, [], kw)
    return I.each(a[0], one)


@model(time.sleep)
def m_sleep(I, a, k):
    return None


@model(time.time, time.perf_counter, time.monotonic)
def m_time(I, a, k):
    return 0.0


_uid = [0]


@model(uuid.uuid4)
def m_uuid4(I, a, k):
    _uid[0] += 1
    return uuid.UUID(int=_uid[0])


@model(inspect.isclass)
def m_isclass(I, a, k):
    return isinstance(I.narrow(a[0]), type)


@model(inspect.getsource)
def m_getsource(I, a, k):
    def go(v):
        v = I.narrow(v)
        if type(v) is Union:
            raise NeedSplit(v.alts[0][0])
        if type(v) is BM:
            return go(v.fn)
        return I.native(inspect.getsource, I.to_native(v))
    return I.split(lambda: go(a[0]))


class _Box:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def sig_bind(partial):
    def f(I, a, k):
        sig = a[0]
        m = sig.bind_partial if partial else sig.bind
        ba = I.native(lambda: m(*[_Box(x) for x in a[1:]], **{n: _Box(x) for n, x in k.items()}))
        d = PDict()
        for n, v in ba.arguments.items():
            if type(v) is tuple:
                x = tuple(b.v for b in v)
            elif type(v) is dict:
                x = PDict()
                for kk, b in v.items():
                    x.c.d[kk] = (True, b.v)
            else:
                x = v.v
            d.c.d[n] = (True, x)
        return PObj(inspect.BoundArguments, {"_signature": sig, "arguments": d})
    return f


model(inspect.Signature.bind)(sig_bind(False))
model(inspect.Signature.bind_partial)(sig_bind(True))


# ====================================================================== list methods
@method("list_", "append")
def l_append(I, o, v):
    I.w(o).append(v)


@method("list_", "appendleft")
def l_appendleft(I, o, v):
    I.w(o).insert(0, v)


@method("list_", "extend")
def l_extend(I, o, it):
    s = slots_to_list(I.iter_slots(it))
    I.w(o).extend(s)


@method("list_", "__iadd__")
def l_iadd(I, o, it):
    l_extend(I, o, it)
    return o


@method("list_", "extendleft")
def l_extendleft(I, o, it):
    for s in slots_to_list(I.iter_slots(it)):
        I.w(o).insert(0, s)


@method("list_", "pop")
def l_pop(I, o, k=-1):
    k = I.narrow(k)
    if type(k) is Union:
        return I.each(k, lambda x: l_pop(I, o, x))
    empty = lambda: I.raise_(IndexError, "pop from empty list")
    if k == -1:
        return take(I, o, True, empty)
    if k == 0:
        return take(I, o, False, empty)

    def go():
        c = list(I.spine(res(o).c))
        if not -len(c) <= k < len(c):
            I.raise_(IndexError, "pop index out of range")
        v = c.pop(k)
        I.setc(o, c, own=True)
        return v
    return I.split(go)


@method("list_", "popleft")
def l_popleft(I, o):
    return take(I, o, False, lambda: I.raise_(IndexError, "pop from an empty deque"))


@method("list_", "insert")
def l_insert(I, o, k, v):
    k = I.narrow(k)
    if type(k) is Union:
        return I.each(k, lambda x: l_insert(I, o, x, v))
    if k == 0:
        I.w(o).insert(0, v)
        return

    def go():
        c = list(I.spine(res(o).c))
        c.insert(k, v)
        I.setc(o, c, own=True)
    I.split(go)


@method("list_", "remove")
def l_remove(I, o, v):
    slots = I._slots(res(o).c)
    done = False
    new = []
    for g, x in slots:
        hit = band(g, bnot(done), I.is_(x, v) if isinstance(x, HObj) and isinstance(v, HObj) and res(x) is res(v) else I.eq(x, v))
        hit = restrict(hit, I.pc.lits)
        rest = restrict(band(g, bnot(hit)), I.pc.lits)
        if rest is not False:
            new.append((rest, x))
        done = bor(done, hit)

    def go():
        I.setc(o, slots_to_list(new), own=True)
    done = restrict(done, I.pc.lits)
    if done is True:
        return go()
    bad = lambda: I.raise_(ValueError, "list.remove(x): x not in list")
    if done is False:
        bad()
    I.fork([(done, go), (bnot(done), bad)])


@method("list_", "index")
def l_index(I, o, v, *rng):
    slots = I._slots(o.c) if isinstance(o, HObj) else [(True, x) for x in o]
    if rng:
        raise Unsupported("index with range")
    done = False
    br = []
    prev = []
    for g, x in slots:
        hit = restrict(band(g, bnot(done), I.eq(x, v)), I.pc.lits)
        if hit is not False:
            br.append((hit, I.count(prev)))
        done = bor(done, hit)
        prev.append(g)
    miss = restrict(bnot(done), I.pc.lits)
    if miss is False:
        if len(br) == 1:
            return br[0][1]
        return I.merge_vals([g for g, _ in br], [n for _, n in br])
    bad = lambda: I.raise_(ValueError, "value is not in list")
    if not br:
        bad()
    return I.fork([(bnot(miss), lambda: I.narrow(I.merge_vals([g for g, _ in br], [n for _, n in br]))), (miss, bad)])


@method("list_", "count")
def l_count(I, o, v):
    return I.count([band(g, I.eq(x, v)) for g, x in I._slots(o.c)])


@method("list_", "copy", "__copy__")
def l_copy(I, o):
    return PList(o.c, o.kind)


@method("list_", "clear")
def l_clear(I, o):
    I.setc(o, [], own=True)


@method("list_", "reverse")
def l_reverse(I, o):
    I.setc(o, list(res(o).c)[::-1], own=True)


@method("list_", "sort")
def l_sort(I, o, key=None, reverse=False):
    I.setc(o, slots_to_list(sort_slots(I, I._slots(res(o).c), key, reverse)), own=True)


@method("list_", "__len__")
def l_len(I, o):
    return length(I, o)


@method("list_", "__getitem__")
def l_getitem(I, o, k):
    return I.getitem(o, k)


@method("list_", "__setitem__")
def l_setitem(I, o, k, v):
    return I.setitem(o, k, v)


@method("list_", "__contains__")
def l_contains(I, o, k):
    return I.contains(o, k)


@method("list_", "__iter__")
def l_iter(I, o):
    return PIter(slots_to_list(I.iter_slots(o)))


# ====================================================================== dict methods
@method("dict_m_", "get")
def d_get(I, o, k, d=None):
    return I.dict_get(o, k, lambda x: d)


@method("dict_m_", "keys")
def d_keys(I, o):
    return View(o, "keys")


@method("dict_m_", "values")
def d_values(I, o):
    return View(o, "values")


@method("dict_m_", "items")
def d_items(I, o):
    return View(o, "items")


@method("dict_m_", "setdefault")
def d_setdefault(I, o, k, d=None):
    def dflt(x):
        I.dict_set1(o, x, d)
        return d
    return I.dict_get(o, k, dflt)


@method("dict_m_", "pop")
def d_pop(I, o, k, *d):
    def one(x):
        found = I.dict_find(o, x)
        miss = restrict(band(*[bnot(g) for g, v in found]), I.pc.lits)

        def bad():
            if d:
                return d[0]
            I.keyerror(x)

        def go():
            v = found[0][1] if len(found) == 1 else I.merge_vals([g for g, v in found], [v for g, v in found])
            v = I.narrow(v)
            I.dict_del1(o, x, lambda k: None)
            return v
        if miss is True or not found:
            return bad()
        if miss is False:
            return go()
        return I.fork([(bnot(miss), go), (miss, bad)])
    return I.with_key(k, one)


@method("dict_m_", "popitem")
def d_popitem(I, o, last=True):
    ents = I.dict_entries(o)
    none = restrict(band(*[bnot(g) for _, g, _ in ents]), I.pc.lits)
    bad = lambda: I.raise_(KeyError, "popitem(): dictionary is empty")

    def go():
        es = I.dict_entries(o)
        seq = es[::-1] if last else es
        taken = False
        gs, ks, vs = [], [], []
        for k, g, v in seq:
            here = restrict(band(g, bnot(taken)), I.pc.lits)
            if here is not False:
                gs.append(here)
                ks.append(k)
                vs.append(v)
            taken = bor(taken, g)
        kk, vv = I.merge_vals(gs, ks) if len(gs) > 1 else ks[0], I.merge_vals(gs, vs) if len(gs) > 1 else vs[0]
        for g, k in zip(gs, ks):
            if g is True:
                I.dict_del1(o, k, lambda k: None)
            else:
                I.fork([(g, lambda: I.dict_del1(o, k, lambda k: None)), (bnot(g), lambda: None)])
        return (kk, vv)
    if none is True or not ents:
        return bad()
    if none is False:
        return go()
    return I.fork([(bnot(none), go), (none, bad)])


@method("dict_m_", "update")
def d_update(I, o, *a, **k):
    if a:
        I.dict_update_from(o, a[0])
    for n, v in k.items():
        I.dict_set(o, n, v)
    if o.kind is collections.Counter:
        raise Unsupported("Counter.update")


@method("dict_m_", "copy", "__copy__")
def d_copy(I, o):
    return shallow(I, o)


@method("dict_m_", "clear")
def d_clear(I, o):
    I.setc(o, DictC(), own=True)


@method("dict_m_", "__contains__")
def d_contains(I, o, k):
    return I.contains_key(o, k)


@method("dict_m_", "__getitem__")
def d_getitem(I, o, k):
    return I.dict_getitem(o, k)


@method("dict_m_", "__setitem__")
def d_setitem(I, o, k, v):
    I.dict_set(o, k, v)


@method("dict_m_", "__delitem__")
def d_delitem(I, o, k):
    I.delitem(o, k)


@method("dict_m_", "__len__")
def d_len(I, o):
    return length(I, o)


@method("dict_m_", "__iter__")
def d_iter(I, o):
    return PIter(slots_to_list(I.iter_slots(o)))


@method("dict_m_", "move_to_end")
def d_move(I, o, k, last=True):
    def one(x):
        found = I.dict_find(o, x)
        if not found:
            I.keyerror(x)
        c = I.w(o)
        if x in c.d:
            e = c.d.pop(x)
            if last:
                c.d[x] = e
            else:
                c.d = {x: e, **c.d}
    I.with_key(k, one)


@method("dict_m_", "fromkeys")
def d_fromkeys(I, o, it, v=None):
    return m_fromkeys(I, [it, v], {})


# views
for _w in ("__iter__", "__len__", "__contains__"):
    pass


@method("view_m_", "__iter__")
def v_iter(I, o):
    return PIter(slots_to_list(I.iter_slots(o)))


@method("view_m_", "__len__")
def v_len(I, o):
    return length(I, o)


@method("view_m_", "isdisjoint")
def v_isdisjoint(I, o, other):
    return s_isdisjoint(I, I.mkset(o), other)


@method("iter_m_", "__iter__")
def i_iter(I, o):
    return o


@method("iter_m_", "__next__")
def i_next(I, o):
    return m_next(I, [o], {})


@method("iter_m_", "close")
def i_close(I, o):
    return None


# ====================================================================== set methods
def as_set(I, x):
    x = I.narrow(x)
    if isinstance(x, HObj) and type(res(x)) is PSet:
        return res(x)
    return I.mkset(x)


@method("set_m_", "add")
def s_add(I, o, k):
    I.set_add(o, k)


@method("set_m_", "discard")
def s_discard(I, o, k):
    I.with_key(k, lambda x: I.dict_del1(o, x, lambda y: None))


@method("set_m_", "remove")
def s_remove(I, o, k):
    I.with_key(k, lambda x: I.dict_del1(o, x, I.keyerror))


@method("set_m_", "pop")
def s_pop(I, o):
    ents = I.dict_entries(o)
    none = restrict(band(*[bnot(g) for _, g, _ in ents]), I.pc.lits)
    bad = lambda: I.raise_(KeyError, "pop from an empty set")

    def go():
        return d_popitem(I, o, last=False)[0]
    if none is True or not ents:
        return bad()
    if none is False:
        return go()
    return I.fork([(bnot(none), go), (none, bad)])


@method("set_m_", "update", "__ior__")
def s_update(I, o, *its):
    for it in its:
        for g, v in I.iter_slots(it):
            for h, k in I.key_alts(v):
                q = restrict(band(g, h), I.pc.lits)
                if q is False:
                    continue
                if q is True:
                    I.check_hashable(k)
                I.set_add1(o, k, q)
    return None


@method("set_m_", "union")
def s_union(I, o, *its):
    r = shallow(I, o)
    s_update(I, r, *its)
    return r


@method("set_m_", "intersection")
def s_inter(I, o, *its):
    r = shallow(I, o)
    for it in its:
        r = I.setop(ast.BitAnd, r, as_set(I, it))
    return r


@method("set_m_", "difference")
def s_diff(I, o, *its):
    r = shallow(I, o)
    for it in its:
        r = I.setop(ast.Sub, r, as_set(I, it))
    return r


@method("set_m_", "symmetric_difference")
def s_symdiff(I, o, it):
    return I.setop(ast.BitXor, o, as_set(I, it))


@method("set_m_", "intersection_update")
def s_interu(I, o, *its):
    I.setc(o, s_inter(I, o, *its).c, own=True)


@method("set_m_", "difference_update")
def s_diffu(I, o, *its):
    I.setc(o, s_diff(I, o, *its).c, own=True)


@method("set_m_", "symmetric_difference_update")
def s_symu(I, o, it):
    I.setc(o, s_symdiff(I, o, it).c, own=True)


@method("set_m_", "issubset")
def s_issubset(I, o, it):
    return I.subset(o, as_set(I, it))


@method("set_m_", "issuperset")
def s_issuperset(I, o, it):
    return I.subset(as_set(I, it), o)


@method("set_m_", "isdisjoint")
def s_isdisjoint(I, o, it):
    r = I.setop(ast.BitAnd, o, as_set(I, it))
    return bnot(I.truth(r))


@method("set_m_", "copy", "__copy__")
def s_copy(I, o):
    return shallow(I, o)


@method("set_m_", "clear")
def s_clear(I, o):
    I.setc(o, DictC(), own=True)


@method("set_m_", "__contains__")
def s_contains(I, o, k):
    return I.contains_key(o, k)


@method("set_m_", "__len__")
def s_len(I, o):
    return length(I, o)


@method("set_m_", "__iter__")
def s_iter(I, o):
    return PIter(slots_to_list(I.iter_slots(o)))


# ====================================================================== str / tuple methods with symbolic arguments
def str_method(I, s, name, a, k):
    if name == "join":
        l = slots_to_list(I.iter_slots(a[0]))

        def go():
            xs = I.spine(l)
            parts = []
            for i, x in enumerate(xs):
                if i and s:
                    parts.append(s)
                parts.append(x)
            for p in parts:
                if not isinstance(I.narrow(p), (str, Tok, Union)):
                    I.raise_(TypeError, "sequence item: expected str instance")
            return I.join_parts(parts)
        return I.split(go)
    if name == "format" and any(not Interp._conc(I.narrow(x)) for x in list(a) + list(k.values())):
        return Tok("repr", ("format", s) + tuple(I.repr_parts(x) for x in a))
    if any(type(I.narrow(x)) is Union for x in a):
        for i, x in enumerate(a):
            if type(I.narrow(x)) is Union:
                return I.each(x, lambda y: str_method(I, s, name, list(a[:i]) + [y] + list(a[i + 1:]), k))
    if name == "__eq__":
        return I.eq(s, a[0])
    return I.native_call(getattr(s, name), a, k)


def tuple_method(I, s, name, a, k):
    if name == "index":
        return l_index(I, s, *a)
    if name == "count":
        return I.count([I.eq(x, a[0]) for x in s])
    return I.native_call(getattr(s, name), a, k)


def install(I):
    for key, (fn, m) in MODELS.items():
        I.models[key] = m
        I.keep.append(fn)
    for c in (inspect.BoundArguments,):
        I.extra_interp.add(c)
    for n in ("args", "kwargs", "signature"):
        I.extra_interp.add(inspect.BoundArguments.__dict__[n].fget.__code__)
    I.extra_interp.add(inspect.BoundArguments.apply_defaults.__code__)
    I.silent |= {print}
    for n in ("debug", "info", "warning", "error", "critical", "log", "exception"):
        I.silent.add(getattr(logging, n))
        lg = logging.getLogger("mandala")
        I.silent.add(getattr(lg, n))
        I.silent.add(getattr(logging.getLogger(), n))
    import warnings
    I.silent.add(warnings.warn)
