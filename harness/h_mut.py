"""C26: values are stored by content; whatever the program does to its own
objects afterwards, lookups and later sessions read what was computed."""
from symex.registry import harness
from harness.stlib import *


class Box:
    def __init__(self, a, b):
        self.a = a
        self.b = b


def snap(v):
    if isinstance(v, Box):
        return ("box", v.a, snap(v.b))
    if isinstance(v, dict):
        return ("dict", tuple([(k, snap(v[k])) for k in sorted(v)]))
    if isinstance(v, (list, tuple)):
        return tuple([snap(e) for e in v])
    return v


def make(kind, x, y):
    if kind == "list":
        return [x, [y]]
    if kind == "dict":
        return {"a": x, "b": [y]}
    return Box(x, [y])


def first(v):
    return v.a if isinstance(v, Box) else v["a"] if isinstance(v, dict) else v[0]


def second(v):
    return v.b if isinstance(v, Box) else v["b"] if isinstance(v, dict) else v[1]


def change(nd, v, name, n=3):
    """one of the changes a program can make to its object, or none"""
    how = nd.choice(name, list(range(n + 1)))
    if how == 1:
        second(v).append(9)
    elif how == 2:
        if isinstance(v, Box):
            v.a = 99
        elif isinstance(v, dict):
            v["a"] = 99
        else:
            v[0] = 99
    elif how == 3:
        if isinstance(v, Box):
            v.c = 5
            v.b.clear()
        elif isinstance(v, dict):
            v["c"] = 5
        else:
            v.append(7)
    nd.cover(how == n, name + " changes the object")


def inner(f, u):
    """the changeable object in a result"""
    return u[1] if f == "wrapped" else u[0] if f in ("parts", "elts") else u


KEPT = []


@op
def same(v):
    """returns the very object it was given"""
    ran("same", snap(v))
    return v


@op
def wrapped(v):
    """returns an object holding the one it was given"""
    ran("wrapped", snap(v))
    return [first(v), v]


@op
def kept(v):
    """returns an object that the program keeps and changes"""
    ran("kept", snap(v))
    r = [first(v), [second(v)[0]]]
    KEPT.append(r)
    return r


@op
def parts(v):
    ran("parts", snap(v))
    return v, second(v)


@op
def elts(v) -> MList:
    ran("elts", snap(v))
    return [v, second(v)]


@op
def total(vs: MList):
    ran("total", snap(vs))
    return [first(v) for v in vs]


@op
def grow(v):
    """changes its argument in place"""
    ran("grow", snap(v))
    second(v).append(1)
    return first(v)


@op
def look(v):
    ran("look", snap(v))
    return first(v)


EXPECT = {"same": lambda v: snap(v), "wrapped": lambda v: (first(v), snap(v)), "kept": lambda v: (first(v), (second(v)[0],)),
          "parts": lambda v: (snap(v), snap(second(v))), "elts": lambda v: (snap(v), snap(second(v))), "look": lambda v: first(v)}
FNS = {"same": same, "wrapped": wrapped, "kept": kept, "parts": parts, "elts": elts, "total": total, "look": look}


def values(nd, x):
    return nd.int(x, 0, 2), nd.int(x + "'", 0, 2)


def value_of(st, r):
    """what the storage holds for the results of a call"""
    if isinstance(r, tuple):
        return tuple([value_of(st, e) for e in r])
    return snap(st.unwrap(st.load_ref(r.hid)))


def stored_inputs(nd, st, r, name, want):
    ref = r[0] if isinstance(r, tuple) else r
    hids = st.calls.cache.get_creator_hids([ref.hid]) | st.call_storage.get_creator_hids([ref.hid])
    call = st.get_call(list(hids)[0], lazy=False)
    nd.check(snap(st.unwrap(call.inputs[name])) == want, "the input stored for the call is the one it was made with")


@harness("C26", quick=[dict(f=f, kind=k, when=w) for f, k, w in (
    ("same", "list", "before"), ("same", "dict", "after"), ("same", "box", "read"), ("wrapped", "box", "before"), ("wrapped", "list", "after"), ("wrapped", "dict", "read"),
    ("kept", "list", "before"), ("kept", "dict", "after"), ("kept", "list", "read"), ("parts", "list", "before"), ("parts", "box", "after"), ("parts", "dict", "read"),
    ("elts", "list", "before"), ("elts", "dict", "after"), ("elts", "box", "read"))] + [dict(f="wrapped", kind="list", when="before", over=True), dict(f="kept", kind="dict", when="read", over=True)],
    thorough=[dict(f=f, kind=k, when=w) for w in ("before", "after", "read") for f in ("same", "wrapped", "kept", "parts", "elts") for k in ("list", "dict", "box")],
    bounds="one call on an object with a nested list, then changes to its argument, its result (before or after they are committed) and to what is read again; 4 kinds of change each, all integers 0..2; three kinds of object; 5 functions that share their argument with their result; values in the database or in overflow files")
def isolation(nd, f, kind, when, over=False):
    """changes made after a call returned do not reach what is stored"""
    path = db_path(nd)
    kw = dict(overflow_dir=nd.scratch + "/over", overflow_threshold_MB=150 / 1024 / 1024) if over else {}
    st = Storage(path, **kw)
    x, y = values(nd, "x")
    v = make(kind, x, y)
    orig = snap(v)
    want = EXPECT[f](v)
    with st:
        r = FNS[f](v)
        if when == "before":
            change(nd, v, "the argument, within the context")
            for k in KEPT:
                k.append(5)
            change(nd, inner(f, st.unwrap(r)), "the result, within the context")
            nd.check(value_of(st, r) == want, "within the context, the storage holds the result of the call")
            r2 = FNS[f](make(kind, x, y))
            nd.check(snap(st.unwrap(r2)) == want, "calling again gives the original result")
    if when == "after":
        change(nd, v, "the argument, after the context")
        for k in KEPT:
            k.append(5)
        change(nd, inner(f, st.unwrap(r)), "the result, after the context")
        nd.check(value_of(st, r) == want, "after the context, the storage holds the result of the call")
    if when == "read":
        with st:
            r3 = FNS[f](make(kind, x, y))
            got = st.unwrap(r3)
            nd.check(snap(got) == want, "calling again gives the original result")
            change(nd, inner(f, got), "what was read")   # it is the program's, too
            again = FNS[f](make(kind, x, y))
            nd.check(snap(st.unwrap(again)) == want, "and so does reading it another time")
            direct = st.attach(st.load_ref(r[0].hid if isinstance(r, tuple) else r.hid))
            change(nd, inner("same" if f == "parts" else f, st.unwrap(direct)), "what was loaded")
            nd.check(value_of(st, r) == want, "nor do changes to a loaded reference reach the storage")
    stored_inputs(nd, st, r, "v", orig)
    st2 = Storage(path, **kw)
    st2.allow_new_calls(False)
    n = dict(RUNS)
    res = st2.call(FNS[f], [make(kind, x, y)], {}, config={"save_calls": True})
    nd.check(snap(st2.unwrap(res)) == want, "a later session reads the original result")
    stored_inputs(nd, st2, r, "v", orig)
    nd.check(RUNS == n and sum(RUNS.values()) == 1, "the function ran once")


@harness("C26", quick=[dict(kind="list"), dict(kind="box")], bounds="two calls, the second on a reference to the result of the first, whose in-memory value the program may have changed in between in 4 ways")
def shared(nd, kind):
    """a reference that holds its value in memory shares it with the program"""
    path = db_path(nd)
    st = Storage(path)
    x, y = values(nd, "x")
    with st:
        r = same(make(kind, x, y))
        change(nd, st.unwrap(r), "the result")
        s = look(r)
    st2 = Storage(path)
    with st2:
        nd.finding("C26-shared-value", st2.unwrap(look(same(make(kind, x, y)))) == x, "a call on a reference whose value in memory was changed by the program is recorded for the unchanged value")
        nd.check(snap(st2.unwrap(same(make(kind, x, y)))) == snap(make(kind, x, y)), "the stored value itself is not changed")


@harness("C26", quick=[dict(kind="list"), dict(kind="dict"), dict(kind="box")], bounds="one call of a function that changes its argument, all integers 0..2")
def inplace(nd, kind):
    """a function that changes its own argument"""
    path = db_path(nd)
    st = Storage(path)
    x, y = values(nd, "x")
    with st:
        r = grow(make(kind, x, y))
    st2 = Storage(path)
    nd.check(st2.unwrap(st2.load_ref(r.hid)) == x, "the result is stored")
    call = st2.get_call(list(st2.call_storage.get_creator_hids([r.hid]))[0], lazy=False)
    ok = snap(st2.unwrap(call.inputs["v"])) == snap(make(kind, x, y))
    if kind == "box":
        nd.finding("C26-inplace-argument", ok, "an object changed in place by the function it was passed to is stored as it was after the call")
    else:
        nd.check(ok, "collections are passed to functions as copies, and stored as they were before the call")
