"""Replaces the environment of the mandala modules (sqlite3, joblib, os, io,
pandas) by the interpreted models of harness/env."""
import sys, os, io, sqlite3, pickle
from .values import *
from .interp import Interp, NeedSplit
from .builtins_model import model


def install(I):
    if not any(n == "mandala.storage_utils" for n in sys.modules):
        return
    import joblib, pandas, tqdm
    from harness.env import fjob, fsql, fos, fio, fpickle, fpd
    fakes = {id(sqlite3): fsql, id(joblib): fjob, id(os): fos, id(io): fio, id(pickle): fpickle, id(pandas): fpd}
    for n, m in list(sys.modules.items()):
        if m is not None and (n == "mandala" or n.startswith("mandala.")):
            for k, v in list(vars(m).items()):
                r = fakes.get(id(v))
                if r is not None:
                    I.overlay(vars(m)).c[k] = r
    I.models[id(fjob.content_hash)] = content_hash
    I.models[id(tqdm.tqdm)] = lambda I, a, k: a[0]
    import textwrap
    for fn in (textwrap.indent, textwrap.shorten):
        I.models[id(fn)] = text_layout(fn)
    I.wants_locals = {fpd.DataFrame.query, fpd.IndexedFrame.query}


def text_layout(fn):
    """laid out text, for printing only; opaque if parts are symbolic"""
    def run(I, a, k):
        vals = [I.narrow(x) for x in list(a) + list(k.values())]
        if any(type(x) in (Tok, Union, SInt) for x in vals):
            return Tok(fn.__name__, tuple(vals))
        return I.native(fn, *a, **k)
    return run


def struct(I, v, memo, depth=0):
    """hashable structure of a value, Tok parts"""
    v = I.narrow(v)
    t = type(v)
    if t in (int, str, bool, float, bytes, type(None), SInt, Tok):
        return v
    if t is tuple:
        return ("t",) + tuple(struct(I, x, memo) for x in v)
    if isinstance(v, HObj):
        v = res(v)
        if type(v) is PList:
            return ("l",) + tuple(struct(I, x, memo) for x in I.spine(v.c))
        if type(v) is PDict:
            return ("d",) + tuple(sorted(((struct(I, k, memo), struct(I, x, memo)) for k, g, x in present(I, v)), key=lambda e: repr(e[0])))
        if type(v) is PObj:
            return ("o", v.cls.__module__ + "." + v.cls.__qualname__) + tuple(sorted(((k, struct(I, x, memo)) for k, x in v.c.items()), key=lambda e: e[0]))
    if t is Union:
        raise NeedSplit(v.alts[0][0])
    raise Unsupported("hash of %r" % (v,))


def present(I, d):
    out = []
    for k, g, x in I.dict_entries(d):
        if g is False:
            continue
        if g is not True:
            raise NeedSplit(g)
        out.append((k, g, x))
    return out


class Symbolic(Exception):
    pass


def concrete(I, v):
    """native value of a concrete one, for joblib.hash; Symbolic if parts are
    symbolic scalars, NeedSplit if it is not determined on this path"""
    v = I.narrow(v)
    t = type(v)
    if t in (int, str, bool, float, bytes, type(None)):
        return v
    if t is tuple:
        return tuple([concrete(I, x) for x in v])
    if t in (SInt, Tok):
        raise Symbolic()
    if t is Union:
        raise NeedSplit(v.alts[0][0])
    if isinstance(v, HObj):
        v = res(v)
        t = type(v)
        if t is PList and v.kind is list:
            return [concrete(I, x) for x in I.spine(v.c)]
        if t is PDict and v.kind is dict:
            return {concrete(I, k): concrete(I, x) for k, g, x in present(I, v)}
        if t is PSet:
            return v.kind(I.to_native(v))
        if t is PObj:
            o = v.cls.__new__(v.cls)
            o.__dict__.update({k: concrete(I, x) for k, x in v.c.items()})
            return o
    return I.to_native(v)


def content_hash(I, a, k):
    import joblib
    v = a[0]

    def go(x):
        try:
            h = I.native(joblib.hash, concrete(I, x))
            if h not in I.tokreg:
                I.tokreg[h] = (struct(I, x, {}),)
            return h
        except Symbolic:
            s = struct(I, x, {})
            return Tok("hash", (s,))
    return I.split(lambda: go(v))
