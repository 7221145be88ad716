"""C01, C03, C04, C16, C25: what a call is, what its body gets, what the caller
gets back.  Every signature below is used twice: memoized, and as the plain
function, which says what a call binds."""
from symex.registry import harness
from mandala.model import op, Op, Ref, AtomRef, Context, Ignore, NewArgDefault, ValuePointer
from typing import Any, Tuple
from mandala.tps import MList, MDict
from mandala.storage import Storage, noop
from harness.stlib import db_path

GOT = []


class Nothing:
    pass


IGN = Nothing()


def rec(xs=(), kw={}, **named):
    """what a body got: its parameters, extra positional and keyword arguments"""
    r = {}
    for n in named:
        r[n] = named[n]
    for i in range(len(xs)):
        r["*", i] = xs[i]
    for n in sorted(kw):
        r["**", n] = kw[n]
    GOT.append(r)


def plain_ab(a, b):
    rec(a=a, b=b)
    return 1


def plain_dflt(a, b=5, c=6):
    rec(a=a, b=b, c=c)
    return 1


def plain_po(a, /, b, c=3):
    rec(a=a, b=b, c=c)
    return 1


def plain_ko(a, *, k, m=4):
    rec(a=a, k=k, m=m)
    return 1


def plain_xs(a, *xs):
    rec(xs, a=a)
    return 1


def plain_kw(a, **kw):
    rec((), kw, a=a)
    return 1


def plain_pokw(a, /, **kw):
    rec((), kw, a=a)
    return 1


def plain_xsonly(*xs, **kw):
    rec(xs, kw)
    return 1


def plain_mix(a, b=2, *xs, k=7, **kw):
    rec(xs, kw, a=a, b=b, k=k)
    return 1


def plain_all(a, /, b, *xs, k, m=4, **kw):
    rec(xs, kw, a=a, b=b, k=k, m=m)
    return 1


def plain_names(args, kwargs, self=1, op=2):
    rec(args_=args, kwargs_=kwargs, self_=self, op=op)
    return 1


def plain_meta(f, storage, mode, *args, **kwargs):
    rec(args, kwargs, f=f, storage=storage, mode=mode)
    return 1


def plain_none():
    rec()
    return 1


def plain_xsko(*xs, xs_0=8):
    rec(xs, xs_0=xs_0)
    return 1


# signature -> [(number of positional arguments, keywords)]
SIGS = {
    "ab": (plain_ab, [(2, ""), (1, "b"), (0, "a b"), (0, "b a")]),
    "dflt": (plain_dflt, [(1, ""), (2, ""), (1, "b"), (1, "c"), (0, "a"), (0, "c a"), (3, ""), (2, "c")]),
    "po": (plain_po, [(2, ""), (1, "b"), (3, ""), (1, "c b"), (2, "c")]),
    "ko": (plain_ko, [(1, "k"), (1, "k m"), (0, "a k"), (0, "m k a")]),
    "xs": (plain_xs, [(1, ""), (2, ""), (3, ""), (0, "a"), (4, "")]),
    "kw": (plain_kw, [(1, ""), (1, "p"), (1, "p q"), (1, "q p"), (0, "a q"), (0, "p a"), (1, "kw"), (1, "kwargs"), (1, "self"), (1, "output_0")]),
    "pokw": (plain_pokw, [(1, ""), (1, "a"), (1, "a b"), (1, "b"), (1, "kw")]),
    "xsonly": (plain_xsonly, [(0, ""), (1, ""), (2, ""), (0, "xs_0"), (1, "xs_0"), (1, "xs_1"), (0, "xs"), (1, "kw")]),
    "mix": (plain_mix, [(1, ""), (0, "a"), (2, ""), (1, "b"), (0, "a b"), (3, ""), (2, "k"), (3, "k"), (1, "k z"), (0, "a z"), (3, "z"), (4, "k z")]),
    "all": (plain_all, [(2, "k"), (1, "b k"), (3, "k"), (4, "k m"), (2, "k z"), (1, "k b z"), (3, "z m k"), (2, "k a")]),
    "names": (plain_names, [(2, ""), (0, "args kwargs"), (0, "kwargs args self"), (1, "op kwargs"), (4, "")]),
    "meta": (plain_meta, [(3, ""), (0, "f storage mode"), (4, ""), (1, "mode storage"), (3, "args"), (3, "kwargs"), (4, "config")]),
    "none": (plain_none, [(0, "")]),
    "xsko": (plain_xsko, [(0, ""), (1, ""), (0, "xs_0"), (1, "xs_0"), (2, "")]),
}


@op
def made(x):
    return x


def cases(nd, name, items, f):
    """f on an arbitrary one of the items, each explored on its own"""
    i = nd.int(name, 0, len(items) - 1)
    for j in range(len(items)):
        if i == j:
            f(items[j])


def split(shape):
    return shape[0], shape[1].split()


def bound(f, args, kw):
    """what a plain call binds"""
    n = len(GOT)
    f(*args, **kw)
    got = GOT[n]
    del GOT[n:]
    return got


def arguments(nd, tag, shape, pattern):
    """arguments for a call: what is passed, the plain values, and the plain values without those ignored"""
    n, kws = split(shape)
    kinds = pattern.split()
    args, kw, pargs, pkw, cargs, ckw = [], {}, [], {}, [], {}
    for i in range(n):
        pargs.append(nd.int("x%s%d" % (tag, i)))
    for name in kws:
        pkw[name] = nd.int("x%s_%s" % (tag, name))
    if "ref" in pattern:
        vs = pargs + [pkw[name] for name in kws]
        nd.assume(all([vs[i] < vs[i + 1] for i in range(len(vs) - 1)]))
    j = 0
    for i in range(n):
        kind = kinds[j % len(kinds)]
        j += 1
        args.append(wrap(tag + str(i), pargs[i], kind))
        cargs.append(IGN if kind.startswith("ignore") else pargs[i])
    for name in kws:
        kind = kinds[j % len(kinds)]
        j += 1
        kw[name] = wrap(tag + name, pkw[name], kind)
        ckw[name] = IGN if kind.startswith("ignore") else pkw[name]
    return args, kw, pargs, pkw, cargs, ckw


def wrap(tag, v, kind):
    if kind == "ref":
        return made(v)
    if kind == "ignore":
        return Ignore(v)
    if kind == "ignoreref":
        return Ignore(made(v))
    if kind == "pointer":
        return ValuePointer("p" + tag, v)
    return v


MIXED = ["ref raw", "raw ref", "ignore raw", "raw ignore", "ignoreref raw", "raw ignoreref", "pointer raw", "raw pointer", "pointer ignore ref", "ignore pointer"]


@harness("C03", quick=[dict(sig=s, kinds="raw", mode=m) for s in SIGS for m in ("run", "noop", "inner")]
         + [dict(sig=s, kinds="ref", mode=m) for s in SIGS if s != "none" for m in ("run", "noop")]
         + [dict(sig=s, kinds=k, mode="run") for s in ("ko", "all", "mix") for k in MIXED]
         + [dict(sig=s, kinds=k, mode="noop") for s in ("po", "mix") for k in MIXED],
         thorough=[dict(sig=s, kinds=k, mode=m) for s in SIGS if s != "none" for m in ("run", "noop") for k in MIXED],
         bounds="fourteen signatures mixing all parameter kinds with up to 4 positional and 3 keyword arguments; all integer values; each argument a value, a "
                "reference, an ignored value or reference, or a value pointer (in the listed patterns); run mode, no-op mode, and no-op inside run")
def binding(nd, sig, kinds, mode):
    """the body gets exactly what a plain call would have given it"""
    cases(nd, "shape", SIGS[sig][1], lambda shape: bind_one(nd, sig, kinds, mode, shape))


def bind_one(nd, sig, kinds, mode, shape):
    f = SIGS[sig][0]
    g = op(f)
    st = Storage(db_path(nd))
    with st:
        args, kw, pargs, pkw, cargs, ckw = arguments(nd, "", shape, kinds)
        want = bound(f, pargs, pkw)
        if mode == "noop":
            with noop():
                res = g(*args, **kw)
        elif mode == "inner":
            with st(mode="noop"):
                res = g(*args, **kw)
        else:
            res = g(*args, **kw)
        nd.check(len(GOT) == 1, "the body ran once")
        nd.check(GOT[0] == want, "the body gets exactly the arguments of the call")
        if mode != "run":
            nd.check(not isinstance(res, Ref) and res == 1, "no-op mode returns the plain value")
        else:
            nd.check(isinstance(res, Ref) and st.unwrap(res) == 1, "run mode returns a reference")


@harness("C01", quick=[dict(sig=s, kinds="raw") for s in SIGS if s != "none"]
         + [dict(sig=s, kinds=k) for s in ("ab", "xs", "pokw") for k in ("ignore raw", "raw ignore")],
         thorough=[dict(sig=s, kinds=k) for s in SIGS if s != "none" for k in ("raw ref", "ref raw", "ignore raw", "raw ignore", "raw ignore ref")],
         bounds="pairs of calls of thirteen signatures mixing all parameter kinds, every pair of listed calling styles, all integer values (some given as "
                "references or ignored)")
def pairs(nd, sig, kinds):
    """two calls share a memo exactly when they bind equal values to the same parameters"""
    shapes = SIGS[sig][1]
    cases(nd, "shape", [(a, b) for a in shapes for b in shapes], lambda p: pair_one(nd, sig, kinds, p[0], p[1]))


def pair_one(nd, sig, kinds, shape1, shape2):
    f = SIGS[sig][0]
    g = op(f)
    st = Storage(db_path(nd))
    with st:
        args, kw, pargs, pkw, cargs, ckw = arguments(nd, "A", shape1, kinds)
        want1 = counted(bound(f, cargs, ckw))
        res1 = g(*args, **kw)
        args, kw, pargs, pkw, cargs, ckw = arguments(nd, "B", shape2, kinds)
        want2 = counted(bound(f, cargs, ckw))
        res2 = g(*args, **kw)
        same = want1 == want2
        nd.cover(same, "equal calls")
        nd.cover(not same, "different calls")
        nd.check((len(GOT) == 1) == same, "the memo of the first call is used for exactly the calls that bind the same values")
        nd.check((res1.hid == res2.hid) == same, "results of different calls are different references")


def counted(got):
    return {k: v for k, v in got.items() if v is not IGN}


RET = {}


def ret_plain(x):
    GOT.append(x)
    return RET["vals"]


def ret_many(x) -> Tuple[Any, ...]:
    GOT.append(x)
    return RET["vals"]


def ret_three(x) -> Tuple[int, MList[int], Any]:
    GOT.append(x)
    return RET["vals"]


def ret_any(x) -> Any:
    GOT.append(x)
    return RET["vals"]


@harness("C04", quick=[dict(k=k, nout=n, names=m) for k in (0, 1, 2, 3, 11, 13) for n in ("auto", "var", "exact") for m in (False, True)]
         + [dict(k=3, nout=n, names=True, ann=True) for n in ("auto", "var", "exact")],
         bounds="0 to 3 arbitrary returned integers, and 11 or 13 different ones; the number of outputs inferred, variable or declared; with or without output names; looked up in the same "
                "session, after eviction, in a new session, and by content with another history")
def outputs(nd, k, nout, names, ann=False):
    """the references are the returned values, in order, whether executed or looked up"""
    if k <= 3:
        vals = [nd.int("v%d" % i) for i in range(k)]
    else:
        v = nd.int("v")
        vals = [v + (5 * i) % 17 for i in range(k)]
    # names in an order that differs from every sorted one
    onames = ["o%d" % ((7 * i + 3) % 13) for i in range(k)] if names else None

    RET["vals"] = vals[0] if k == 1 and nout == "auto" else tuple(vals)
    f = ret_many if ann else ret_plain
    g = op(output_names=onames, nout=k if nout == "exact" else nout)(f)
    path = db_path(nd)
    st = Storage(path)
    x = nd.int("x")
    y = nd.int("y")
    with st:
        a = refs_of(nd, g(x), k)
        values(nd, st, a, vals, "executed")
        b = refs_of(nd, g(x), k)
        values(nd, st, b, vals, "looked up in the same session")
        nd.check([r.hid for r in a] == [r.hid for r in b], "looking up gives the same references")
    st.clear_cache()
    with st:
        values(nd, st, refs_of(nd, g(x), k), vals, "looked up after the cache was cleared")
    st = Storage(path)
    with st:
        m = made(x)
        c = refs_of(nd, g(x), k)
        values(nd, st, c, vals, "looked up in a new session")
        nd.check([r.hid for r in a] == [r.hid for r in c], "a new session gives the same references")
        d = refs_of(nd, g(m), k)
        values(nd, st, d, vals, "looked up by content")
        n = len(GOT)
        nd.check(n == 1, "the body ran once")
        g(y)
        nd.check(len(GOT) == (1 if x == y else 2), "other arguments are another call")
    if k > 0:
        call = st.get_ref_creator(a[0])
        want = onames if names else ["output_%d" % i for i in range(k)]
        nd.check([call.outputs[n].hid for n in want] == [r.hid for r in a], "the recorded outputs have the declared names")


def refs_of(nd, res, k):
    if k == 1:
        nd.check(isinstance(res, Ref), "one output gives one reference")
        return [res]
    nd.check(isinstance(res, tuple) and len(res) == k, "as many references as outputs")
    nd.check(all([isinstance(r, Ref) for r in res]), "all outputs are references")
    return list(res)


def values(nd, st, refs, vals, when):
    nd.check([st.unwrap(r) for r in refs] == vals, "outputs have the returned values in order: " + when)
    nd.check(len(set([r.hid for r in refs])) == len(refs), "different outputs are different references: " + when)


@harness("C04", quick=[dict(k=k, nout=n, names=m) for k in (0, 1, 2, 4) for n, m in (("var", 3), (3, 0), (3, 3), (2, 2), ("auto", 3), (1, 0), (11, 0)) if k not in (n, m)]
         + [dict(k=k, nout="auto", names=0, ann=True) for k in (1, 2, 4)],
         bounds="0, 1, 2 or 4 values returned by functions declaring 1, 2, 3 or 11 outputs by number, names or both")
def contradicted(nd, k, nout, names, ann=False):
    """a return that contradicts the declared number of outputs is rejected and leaves nothing behind"""
    vals = [nd.int("v%d" % i) for i in range(k)]
    RET["vals"] = tuple(vals)
    onames = ["o%d" % i for i in range(names)] if names else None
    g = op(output_names=onames, nout=nout)(ret_three if ann else ret_plain)
    path = db_path(nd)
    st = Storage(path)
    x = nd.int("x")
    rejected = False
    with st:
        made(x)
        try:
            g(x)
        except Exception:
            rejected = True
    nd.check(rejected, "a return with another number of values is rejected")
    st2 = Storage(path)
    for s in (st, st2):
        nd.check(len(s.call_storage.get_df()) == 2, "nothing but the accepted call is recorded")
