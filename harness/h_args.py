"""C16 (allow_new_calls) and C25 (ignored, defaulted and pointed-to arguments)."""
from symex.registry import harness
from mandala.model import op, Op, Ref, AtomRef, Context, Ignore, NewArgDefault, ValuePointer
from mandala.storage import Storage, noop
from harness.stlib import Hist, OPS, PURE, RUNS, freeze, db_path, inc
from harness.h_ops import cases

# ------------------------------------------------------------------------- C16


class Guarded(Hist):
    """a history with the extra words on/off (allowing new calls or not)"""
    allowed = True

    def contents(self):
        st = self.st
        return (len(st.calls.cache.df), len(st.calls.dirty_hids), len(st.call_storage.get_df()),
                len(st.atoms.dirty_keys), len(st.shapes.dirty_keys), len(st.ops.dirty_keys))

    def step(self, s):
        s = s.strip()
        nd = self.nd
        if s in ("on", "off"):
            self.allowed = s == "on"
            self.st.allow_new_calls(self.allowed)
            return
        if self.allowed or "(" not in s:
            super().step(s)
            if s == "reopen" and not self.allowed:
                self.st.allow_new_calls(False)
            return
        name, pos, raw, kw, rawkw = self.parse(s)
        self.enter()
        key = (name,) + freeze(raw) + freeze([rawkw[k] for k in sorted(rawkw)])
        known = key in self.made
        before = self.contents()
        runs = dict(RUNS)
        failed = False
        try:
            res = OPS[name](*pos, **kw)
        except Exception:
            failed = True
        nd.cover(failed, "a new call is refused")
        nd.cover(not failed, "a stored call is returned")
        nd.check(failed == (not known), "%s: exactly the calls that are not stored fail" % s)
        nd.check(RUNS == runs, "%s: nothing was executed" % s)
        if failed:
            nd.check(self.contents() == before, "%s: nothing was recorded" % s)
            self.res.append(None)
        else:
            val = PURE[name](*raw, **rawkw)
            nd.check(self.st.unwrap(res) == val, "%s: the stored value is returned" % s)
            self.res.append((res, val))


GH = ["inc(x0) / off / inc(x1) / inc(x2) / on / inc(x1)",
      "inc(x0) / commit / off / inc(x1) / exit / inc(x2) / on / inc(x1) / inc(x2)",
      "inc(x0) / reopen / off / inc(x1) / on / inc(x2) / off / inc(x1)",
      "add(x0,x1) / exit / clear / off / add(x1,x0) / add(y=x2,x=x0)",
      "pair(x0) / named(x1) / off / pair(x1) / named(x0) / on / inc(x0) / off / inc(x1)",
      "sumlist([x0;x1]) / reopen / off / sumlist([x1;x0])",
      "lst(x0,x1) / off / lst(x1,x2) / sumlist(r0)",
      "dct(x0,x1) / reopen / off / dct(x1,x0) / on / dct(x1,x0)",
      "inc(x0) / inc(r0) / off / inc(x1) / on / inc(x0)",
      "const() / off / const() / dflt(x0) / on / dflt(x0) / off / dflt(x1,x2)"]


@harness("C16", quick=[dict(h=h) for h in GH],
         thorough=[dict(h="inc(x0) / off / inc(x1) / reopen / inc(x2) / on / inc(x1) / off / clear / inc(x2) / add(x0,x1) / on / add(x1,x2) / off / add(x2,x0)"),
                   dict(h="sumlist([x0;x1]) / off / sumlist([x1;x2]) / on / lst(x0,x2) / off / sumlist(r0) / sumlist([x2;x0])")],
         bounds="the listed histories of up to 9 calls and toggles over up to two sessions, all integer arguments and coincidences")
def guarded(nd, h):
    """with new calls disallowed exactly the stored calls succeed"""
    H = Guarded(nd)
    H.run(h)
    st = Storage(H.path)
    df = st.call_storage.get_df()
    cids = {}
    for name, cid in zip(df["op"], df["call_content_id"]):
        if not name.startswith("__"):
            cids[cid] = True
    nd.check(len(cids) == len(H.made), "the database has exactly the calls that were made")


# ------------------------------------------------------------------------- C25
GOT = []


def old_grown(x):
    GOT.append(("old", x))
    return x


def grown(x, y=NewArgDefault(5), *, z=NewArgDefault(None), w=1):
    GOT.append((x, y, z, w))
    return x


def old_scaled(x, w):
    GOT.append(("old", x, w))
    return x


def scaled(x, w, batch=NewArgDefault(10), verbose=False):
    GOT.append((x, w, batch, verbose))
    return x


@op
def made(x):
    return x


# how the second call gives y (and z): what is passed, and whether it can share the memo of the call without it
FORMS = ["-", "v", "kv", "5", "k5", "Rv", "kRv", "Iv", "kIv", "IRv", "P"]


def form(f, v):
    """(positional, keyword) arguments for y"""
    x = {"-": None, "v": v, "5": 5, "Rv": None, "Iv": Ignore(v), "P": ValuePointer("p", v)}
    k = f.startswith("k")
    if k:
        f = f[1:]
    if f == "-":
        return [], {}
    if f == "Rv":
        a = made(v)
    elif f == "IRv":
        a = Ignore(made(v))
    else:
        a = x[f]
    return ([], {"y": a}) if k else ([a], {})


@harness("C25", quick=[dict(first=a, where=w) for a in ("old", "-", "v", "Rv") for w in ("run", "reopen")],
         thorough=[dict(first=a, where=w) for a in FORMS for w in ("run", "reopen", "clear")],
         bounds="a function before and after it got two parameters with recorded defaults; first call of the old version or in the listed forms, second call in "
                "every form (left out, positional, keyword; value, reference, ignored, pointer); all integer values; same or new session")
def new_args(nd, first, where):
    """giving a new parameter its recorded default is the call without it, and the body gets the plain value"""
    cases(nd, "form", FORMS, lambda f: new_args_one(nd, first, where, f))


def new_args_one(nd, first, where, f2):
    path = db_path(nd)
    st = Storage(path)
    g = op(grown)
    x0, x1, v1, v2 = nd.int("x0"), nd.int("x1"), nd.int("v1"), nd.int("v2")
    with st:
        if first == "old":
            r1 = Op("grown", old_grown)(x0)
            id1 = (x0,)
        else:
            pos, kw = form(first, v1)
            r1 = g(x0, w=1, *pos, **kw)
            id1 = (x0,) + ident(first, v1)
            nd.check(GOT[0] == (x0, value(first, v1), None, 1), "the body gets the plain values")
            id1 = id1 + (1,)
    if where == "reopen":
        st = Storage(path)
    if where == "clear":
        st.clear_cache()
    with st:
        n = len(GOT)
        pos, kw = form(f2, v2)
        w = 1
        if first == "old":
            # w is a plain new parameter: the calls can never be the same
            r2 = g(x1, *pos, **kw)
            nd.check(len(GOT) == n + 1, "a parameter with an ordinary default makes a new call")
            nd.check(GOT[n] == (x1, value(f2, v2), None, 1), "the body gets the plain values")
            return
        r2 = g(x1, *pos, **kw)
        id2 = (x1,) + ident(f2, v2) + (1,)
        same = id1 == id2
        nd.cover(same, "equal calls")
        nd.check((len(GOT) == n) == same, "the memo is shared exactly with equal calls")
        if not same:
            nd.check(GOT[n] == (x1, value(f2, v2), None, 1), "the body gets the plain values")
        if "R" not in first and "R" not in f2:
            nd.check((r1.hid == r2.hid) == same, "equal calls have equal references")


def value(f, v):
    if f == "-" or f.endswith("5"):
        return 5
    return v


def ident(f, v):
    """what y counts for"""
    f = f.replace("k", "")
    if f == "P":
        return ("pointer",)
    if f == "v" or f == "Rv":
        if v == 5:
            return ()
        return (v,)
    return ()


@harness("C25", quick=[dict(where=w) for w in ("run", "reopen", "clear")],
         bounds="a function before and after it got a parameter with a recorded default; the second call left out or with any integer, as a value, reference, or ignored")
def grown_op(nd, where):
    """calls of the old function are found again by the function with the new parameter"""
    cases(nd, "form", ["-", "v", "kv", "Rv", "kRv", "Iv"], lambda f: grown_one(nd, where, f))


def grown_one(nd, where, f2):
    path = db_path(nd)
    st = Storage(path)
    x0, x1, w0, w1, v = nd.int("x0"), nd.int("x1"), nd.int("w0"), nd.int("w1"), nd.int("v")
    with st:
        r1 = Op("scaled", old_scaled)(x0, w0)
    if where == "reopen":
        st = Storage(path)
    if where == "clear":
        st.clear_cache()
    g = op(ignore_args=("verbose",))(scaled)
    with st:
        n = len(GOT)
        k = f2.replace("k", "")
        a = {"v": v, "Iv": Ignore(v), "-": None, "Rv": None}[k]
        if k == "Rv":
            a = made(v)
        if f2 == "-":
            r2 = g(x1, w1)
        elif f2.startswith("k"):
            r2 = g(w=w1, x=x1, batch=a)
        else:
            r2 = g(x1, w1, a, True)
        counted = k in ("v", "Rv") and v != 10
        same = x0 == x1 and w0 == w1 and not counted
        nd.cover(same, "equal calls")
        nd.cover(not same, "different calls")
        nd.check((len(GOT) == n) == same, "the old call is found exactly when the new parameter has its default")
        if not same:
            nd.check(GOT[n] == (x1, w1, 10 if f2 == "-" else v, f2 in ("v", "Rv", "Iv")), "the body gets the plain values")
        nd.check((r1.hid == r2.hid) == same, "equal calls have equal references")


def body(x, y, z=NewArgDefault(3), *xs, k=NewArgDefault(4), **kw):
    GOT.append((x, y, z, xs, k) + tuple([(n, kw[n]) for n in sorted(kw)]))
    return x


@harness("C25", quick=[dict(mode=m, via=v) for m in ("run", "noop", "outside") for v in ("wrapper", "ignore_args", "both")],
         bounds="a function with all parameter kinds; wrapped, declared or doubly ignored arguments, pointers and defaults, in a context, in no-op mode and outside "
                "any context; all integer values")
def plain_values(nd, mode, via):
    """the body gets plain values wherever it runs"""
    cases(nd, "args", ["x y", "x Iy", "Ix y", "x P", "P Iy", "x y z", "x y Iz", "x y z 1 I2", "x y I1 I2", "x y P k=I", "x y k=P", "x y q=I", "x y z 1 q=P k=v", "x y IP", "x y q=IP"],
          lambda a: plain_one(nd, mode, via, a))


def plain_one(nd, mode, via, shape):
    g = op(body) if via == "wrapper" else op(ignore_args=("y", "z", "k", "q", "xs"))(body)
    pos, kw, raw, rawkw, cpos = [], {}, [], {}, []
    for i, a in enumerate(shape.split()):
        name = None
        if "=" in a:
            name, a = a.split("=")
        v = nd.int("v%d" % i)
        w = v
        if a.startswith("I") or via == "both":
            w = Ignore(ValuePointer("p", v)) if a == "IP" else Ignore(v)
        elif a == "P":
            w = ValuePointer("p%d" % i, v)
        if name is None:
            pos.append(w)
            raw.append(v)
        else:
            kw[name] = w
            rawkw[name] = v
    want = [raw[0], raw[1], raw[2] if len(raw) > 2 else 3, tuple(raw[3:]), rawkw.get("k", 4)]
    if "q" in rawkw:
        want.append(("q", rawkw["q"]))
    if mode == "outside":
        res = g(*pos, **kw)
    else:
        st = Storage(db_path(nd))
        with st:
            if mode == "noop":
                with noop():
                    res = g(*pos, **kw)
            else:
                res = g(*pos, **kw)
                n = len(GOT)
                g(*pos, **kw)
                nd.check(len(GOT) == n, "the call is remembered")
                if via != "wrapper":
                    others = [pos[0]] + [p + 1 if not isinstance(p, (_I, ValuePointer)) else p for p in pos[1:]]
                    g(*others, **kw)
                    nd.check(len(GOT) == n, "values of ignored arguments do not count")
    nd.check(GOT[0] == tuple(want), "the body gets the plain values")
    if mode == "run":
        nd.check(isinstance(res, Ref), "a reference in run mode")
    else:
        nd.check(res == raw[0], "the plain result otherwise")


_I = type(Ignore(0))


@harness("C25", quick=[dict(where=w) for w in ("run", "reopen")],
         bounds="pairs of calls with value pointers of two names, a string equal to a name, or an ordinary value; all objects")
def pointers(nd, where):
    """a value pointer is identified by its name only"""
    kinds = ["Pa", "Pb", "Sa", "v"]
    cases(nd, "kinds", [(a, b) for a in kinds for b in kinds], lambda p: pointer_pair(nd, where, p[0], p[1]))


def pointer_pair(nd, where, k1, k2):
    path = db_path(nd)
    st = Storage(path)
    g = op(plain_p)
    v1, v2 = nd.int("v1"), nd.int("v2")
    with st:
        r1 = g(ptr(k1, v1))
        nd.check(GOT[0] == ("a" if k1 == "Sa" else v1), "the body gets the object")
    if where == "reopen":
        st = Storage(path)
    with st:
        n = len(GOT)
        r2 = g(ptr(k2, v2))
        same = (k1 == k2 and k1 != "v") or (k1 == "v" and k2 == "v" and v1 == v2)
        nd.check((len(GOT) == n) == same, "pointers of the same name are the same argument, and nothing else is")
        if not same:
            nd.check(GOT[n] == ("a" if k2 == "Sa" else v2), "the body gets the object")
        nd.check((r1.hid == r2.hid) == same, "equal calls have equal references")
    st = Storage(path)
    c = st.get_ref_creator(r1)
    got = st.unwrap(c.inputs["p"])
    if k1.startswith("P"):
        nd.check(isinstance(got, ValuePointer) and got.id == k1[1:] and got.obj is None, "only the name is stored")
    else:
        nd.check(got == ("a" if k1 == "Sa" else v1), "the stored argument reads back")


def plain_p(p):
    GOT.append(p)
    return 1


def ptr(k, v):
    if k == "Sa":
        return "a"
    if k == "v":
        return v
    return ValuePointer(k[1:], v)
