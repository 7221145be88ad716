"""Symbolic values and the guarded heap."""
from .logic import z3, B, band, bor, bnot, bite, beq, atom, restrict


class Unsupported(Exception):
    pass


class _Marker:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<%s>" % self.n

    def __bool__(self):
        raise TypeError(self.n)


ABSENT = _Marker("ABSENT")   # missing attribute / unbound local


class SInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SInt(%s)" % self.e

    def __bool__(self):
        raise TypeError("symbolic int as bool")


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


class Tok:
    """opaque string determined injectively by (kind, parts)"""
    __slots__ = ("kind", "parts")

    def __init__(self, kind, parts):
        self.kind = kind
        self.parts = parts

    def __repr__(self):
        return "Tok(%s,%r)" % (self.kind, self.parts)


class Union:
    """guarded alternatives; guards mutually exclusive"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Union(%s)" % ", ".join("%r" % (v,) for g, v in self.alts)

    def __bool__(self):
        raise TypeError("union as bool")


# ---------------------------------------------------------------- heap objects
_birth = [0]


class HObj:
    __slots__ = ("c", "birth", "fwd", "extra", "__weakref__")

    def __init__(self):
        _birth[0] += 1
        self.birth = _birth[0]
        self.fwd = None
        self.extra = None

    def r(self):
        o = self
        while o.fwd is not None:
            o = o.fwd
        return o


class GView(HObj):
    """the dictionary of a module's globals"""
    def __init__(self, g):
        HObj.__init__(self)
        self.birth = 0
        self.g = g

    def m___getitem__(self, I, a, k):
        n = I.narrow(a[0])
        if type(n) is not str:
            raise Unsupported("globals subscripted by %r" % (n,))
        v = I.gload(n, self.g)
        if v is I.MISSING:
            I.raise_(KeyError, n)
        return v

    def m_get(self, I, a, k):
        v = I.gload(I.narrow(a[0]), self.g)
        return (a[1] if len(a) > 1 else None) if v is I.MISSING else v

    def m___contains__(self, I, a, k):
        return I.gload(I.narrow(a[0]), self.g) is not I.MISSING


def res(o):
    while o.fwd is not None:
        o = o.fwd
    return o


class PObj(HObj):
    """instance of an interpreted class. content: attr -> value"""
    __slots__ = ("cls", "payload")

    def __init__(self, cls, attrs=None):
        HObj.__init__(self)
        self.cls = cls
        self.c = attrs if attrs is not None else {}
        self.payload = None

    def __repr__(self):
        try:
            return "<%s %s>" % (self.cls.__name__, {k: v for k, v in list(res(self).c.items())[:6]})
        except RecursionError:
            return "<%s>" % self.cls.__name__

    @staticmethod
    def copyc(c):
        return dict(c)


class Overlay:
    """class of the holders of overwritten attributes; payload: original values"""


class Frame(HObj):
    """local variables"""
    __slots__ = ("parent", "globs", "fn", "own", "scope", "yields", "nonlocals", "globdecl")

    def __init__(self):
        HObj.__init__(self)
        self.c = {}

    @staticmethod
    def copyc(c):
        return dict(c)


class Opt:
    """list slot present under a guard"""
    __slots__ = ("g", "v")

    def __init__(self, g, v):
        self.g = g
        self.v = v

    def __repr__(self):
        return "Opt(%r,%r)" % (self.g, self.v)


class PList(HObj):
    """list / deque. content: python list of values or Opt slots"""
    __slots__ = ("kind",)

    def __init__(self, items=(), kind=list):
        HObj.__init__(self)
        self.c = list(items)
        self.kind = kind

    def __repr__(self):
        return "P%s%r" % (self.kind.__name__, res(self).c)

    @staticmethod
    def copyc(c):
        return list(c)


class DictC:
    """content of dicts and sets: `d` maps concrete key -> [guard, value] (as a
    tuple); `s` lists entries with symbolic keys (id, key, guard, value)"""
    __slots__ = ("d", "s")

    def __init__(self, d=None, s=()):
        self.d = d if d is not None else {}
        self.s = s

    def copy(self):
        return DictC(dict(self.d), self.s)


class PDict(HObj):
    __slots__ = ("kind", "factory")

    def __init__(self, kind=dict, factory=None):
        HObj.__init__(self)
        self.c = DictC()
        self.kind = kind
        self.factory = factory

    def __repr__(self):
        c = res(self).c
        return "P%s(%r%s)" % (self.kind.__name__, {k: v for k, (g, v) in c.d.items()}, " +%d" % len(c.s) if c.s else "")

    @staticmethod
    def copyc(c):
        return c.copy()


class PSet(HObj):
    """kind: set or frozenset"""
    __slots__ = ("kind",)

    def __init__(self, kind=set):
        HObj.__init__(self)
        self.c = DictC()
        self.kind = kind

    def __repr__(self):
        c = res(self).c
        return "P%s(%r%s)" % (self.kind.__name__, list(c.d), " +%d" % len(c.s) if c.s else "")

    @staticmethod
    def copyc(c):
        return c.copy()


class PIter(HObj):
    """iterator over a snapshot of slots; content: position-like list of the
    remaining slots"""
    __slots__ = ()

    def __init__(self, slots):
        HObj.__init__(self)
        self.c = list(slots)

    @staticmethod
    def copyc(c):
        return list(c)


class PExc:
    pass


class View:
    """dict.keys()/values()/items() views"""
    __slots__ = ("d", "what")

    def __init__(self, d, what):
        self.d = d
        self.what = what


class PFunc:
    """function / lambda / generator defined in interpreted code"""
    def __init__(self, node, frame, globs, name, defaults, kwdefaults, qualname=None, module=None, cls=None):
        self.node = node
        self.frame = frame
        self.globs = globs
        self.__name__ = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qualname = qualname or name
        self.module = module
        self.attrs = {}
        self.cls = cls
        self.native = None

    def __repr__(self):
        return "<pfunc %s>" % self.__name__


class BM:
    """bound method of an interpreted function"""
    __slots__ = ("self_", "fn", "cls")

    def __init__(self, self_, fn, cls=None):
        self.self_ = self_
        self.fn = fn
        self.cls = cls

    def __repr__(self):
        return "<bm %r of %r>" % (self.fn, self.self_)


class HM:
    """method of a modelled container / model object"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return "<hm %s of %r>" % (self.name, type(self.obj))


class Super:
    __slots__ = ("obj", "after", "start")

    def __init__(self, obj, after, start):
        self.obj = obj
        self.after = after
        self.start = start


class LazyGen:
    """generator expression, evaluated on first use"""
    __slots__ = ("node", "frame", "done")

    def __init__(self, node, frame):
        self.node = node
        self.frame = frame
        self.done = False


class Model:
    """base class of environment models that behave like objects: subclasses
    are HObj with python methods `m_<name>(interp, args, kwargs)`"""


def is_scalar(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, complex)) and not isinstance(v, B)
