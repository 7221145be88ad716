"""C10 (values read back) and C11 (identity and links of collections)."""
from typing import Any
from symex.registry import harness
from mandala.model import op, Op, Ref, AtomRef, ListRef, DictRef, Context
from mandala.tps import MList, MDict
from mandala.storage import Storage, noop
from harness.stlib import db_path
from harness.h_ops import cases

GOT = []


def echo_A(x):
    GOT.append(x)
    return x


def echo_L(x: MList[int]) -> MList[int]:
    GOT.append(x)
    return x


def echo_D(x: MDict[str, int]) -> MDict[str, int]:
    GOT.append(x)
    return x


def echo_LL(x: MList[MList[int]]) -> MList[MList[int]]:
    GOT.append(x)
    return x


def echo_DL(x: MDict[str, MList[int]]) -> MDict[str, MList[int]]:
    GOT.append(x)
    return x


def echo_LD(x: MList[MDict[str, int]]) -> MList[MDict[str, int]]:
    GOT.append(x)
    return x


def echo_DD(x: MDict[str, MDict[str, int]]) -> MDict[str, MDict[str, int]]:
    GOT.append(x)
    return x


def echo_LLL(x: MList[MList[MList[int]]]) -> MList[MList[MList[int]]]:
    GOT.append(x)
    return x


@op
def made(x):
    return x


# type -> (memoized function, shapes); strings are arbitrary integers, "=s" the string s
SHAPES = {
    "A": (echo_A, ["a", None, True, 2.5, "=", "=text", ["a", "b"], {"k": "a"}, ["a", ["b", {"k": "c"}]], {"k": ("a", "b")}]),
    "L": (echo_L, [[], ["a"], ["a", "b"], ["a", "b", "a"], ["a", None, "=s"], ["a", ["b", "c"]], ["a", {"k": "b"}]]),
    "D": (echo_D, [{}, {"k": "a"}, {"b": "a", "a": "b"}, {"dict": "a", "key": "b"}, {"dict_value": "a", "": "b"}, {"elts_0": "a", "elts_1": None}, {"k": ["a", "b"]}]),
    "LL": (echo_LL, [[[]], [["a"], []], [["a", "b"], ["c"]], [["a"], ["b"]]]),
    "DL": (echo_DL, [{"k": []}, {"b": ["a"], "a": ["b", "c"]}, {"dict": ["a"], "list": ["a", "b"]}]),
    "LD": (echo_LD, [[{}], [{"k": "a"}, {"j": "b"}], [{"k": "a"}, {"k": "b"}]]),
    "DD": (echo_DD, [{"k": {"k": "a"}}, {"a": {"dict": "a"}, "b": {"dict": "b", "c": "c"}}]),
    "LLL": (echo_LLL, [[[["a"]]], [[["a", "b"], []], [["c"]]]]),
}


def fill(nd, t, tag=""):
    if isinstance(t, list):
        return [fill(nd, e, tag) for e in t]
    if isinstance(t, tuple):
        return tuple([fill(nd, e, tag) for e in t])
    if isinstance(t, dict):
        return {k: fill(nd, v, tag) for k, v in t.items()}
    if isinstance(t, str):
        if t.startswith("="):
            return t[1:]
        return nd.int(t + tag)
    return t


def same(x, y):
    """equal, with the same types, nesting and key order"""
    if type(x) is not type(y):
        return False
    if isinstance(x, (list, tuple)):
        if len(x) != len(y):
            return False
        return all([same(a, b) for a, b in zip(x, y)])
    if isinstance(x, dict):
        return list(x) == list(y) and all([same(x[k], y[k]) for k in x])
    return x == y


def deref(st, ref):
    """the value of a reference by indexing into it"""
    if isinstance(ref, ListRef):
        return [deref(st, ref[i]) for i in range(len(ref))]
    if isinstance(ref, DictRef):
        return {k: deref(st, ref[k]) for k, _ in ref.items()}
    return st.unwrap(ref)


def in_memory(ref):
    if not ref.in_memory:
        return False
    if isinstance(ref, ListRef):
        return all([in_memory(e) for e in ref])
    if isinstance(ref, DictRef):
        return all([in_memory(e) for e in ref.values()])
    return True


def reads(nd, st, hids, val, when):
    for h in hids:
        lazy = st.load_ref(h, in_memory=True)
        eager = st.load_ref(h)
        nd.check(same(st.unwrap(eager), val), "loaded eagerly: " + when)
        nd.check(in_memory(eager), "an eagerly loaded reference is in memory: " + when)
        nd.check(same(st.unwrap(lazy), val), "loaded lazily and unwrapped: " + when)
        nd.check(same(deref(st, st.load_ref(h, in_memory=True)), val), "element by element: " + when)
        lazy = st.load_ref(h, in_memory=True)
        st.attach(lazy, inplace=True)
        nd.check(in_memory(lazy) and same(st.unwrap(lazy), val), "attached in place: " + when)
        nd.check(same(st.unwrap([lazy, {"k": (eager, 1)}]), [val, {"k": (val, 1)}]), "inside python collections: " + when)


@harness("C10", quick=[dict(tp=t, where=w) for t in SHAPES for w in ("same", "clear", "reopen")],
         bounds="values of eight annotated types up to depth 3 and width 3, arbitrary integer leaves (and some constants); read by unwrapping, indexing, lazily, eagerly, "
                "attached; in the same session, after eviction, in a new session; passed and returned")
def roundtrip(nd, tp, where):
    """a stored value reads back equal, whichever way it is read"""
    cases(nd, "shape", SHAPES[tp][1], lambda s: roundtrip_one(nd, SHAPES[tp][0], where, s))


def roundtrip_one(nd, f, where, shape):
    path = db_path(nd)
    st = Storage(path)
    val = fill(nd, shape)
    g = op(f)
    with st:
        r = g(val)
        nd.check(same(GOT[0], val), "the body gets the plain value")
        nd.check(same(st.unwrap(r), val), "the result unwraps to the value")
    call = st.get_ref_creator(r)
    hids = [r.hid, call.inputs["x"].hid]
    if where == "clear":
        st.clear_cache()
    if where == "reopen":
        st = Storage(path)
    reads(nd, st, hids, val, where)
    with st:
        again = g(val)
        nd.check(len(GOT) == 1, "the call is remembered")
        nd.check(same(st.unwrap(again), val), "the looked up result unwraps to the value")
        once = g(again)
        nd.check(same(st.unwrap(once), val), "passing the reference on gives the value")
    nd.check(len(GOT) == 1, "an equal reference is the same argument")
    st = Storage(path)
    reads(nd, st, hids + [once.hid], val, "at the end")


def refs_in(ref):
    if isinstance(ref, ListRef):
        return [(i, ref[i]) for i in range(len(ref))]
    if isinstance(ref, DictRef):
        return list(ref.items())
    return []


def linked(nd, st, ref, built, when):
    """every element is linked to its collection by a recorded structural call, and so on inwards"""
    for i, elt in refs_in(ref):
        calls = st.get_creators([elt.hid]) + st.get_consumers([elt.hid])
        found = []
        for c in calls:
            if c.op.name == "__make_list__" and c.outputs["list"].hid == ref.hid:
                found.append(c.inputs["elts_%d" % i].hid)
            if c.op.name == "__make_dict__" and c.outputs["dict"].hid == ref.hid:
                found.append(c.inputs[i].hid)
            if c.op.name == "__list_getitem__" and c.inputs["list"].hid == ref.hid and st.unwrap(c.inputs["i"]) == i:
                found.append(c.outputs["list_item"].hid)
            if c.op.name == "__dict_getitem__" and c.inputs["dict"].hid == ref.hid and st.unwrap(c.inputs["key"]) == i:
                found.append(c.outputs["dict_value"].hid)
        nd.check(len(found) > 0 and all([h == elt.hid for h in found]), "each element is linked to its collection: " + when)
        back = st.get_creators([ref.hid]) + st.get_consumers([ref.hid])
        nd.check(any([elt.hid in [r.hid for r in list(c.inputs.values()) + list(c.outputs.values())] for c in back]), "each collection is linked to its elements: " + when)
        linked(nd, st, elt, built, when)


@harness("C11", quick=[dict(tp=t, where=w) for t in SHAPES if t != "A" for w in ("same", "reopen")],
         bounds="collections of seven annotated types up to depth 3 and width 3 with arbitrary integer leaves and reserved-looking keys, passed and returned; provenance "
                "followed in the same or a new session")
def links(nd, tp, where):
    """collections and their elements are linked by recorded calls"""
    cases(nd, "shape", SHAPES[tp][1], lambda s: links_one(nd, SHAPES[tp][0], where, s))


def links_one(nd, f, where, shape):
    path = db_path(nd)
    st = Storage(path)
    val = fill(nd, shape)
    g = op(f)
    with st:
        r = g(val)
        m = op(echo_A)(r)
    if where == "reopen":
        st = Storage(path)
    call = st.get_ref_creator(r)
    linked(nd, st, call.outputs["output_0"], False, "returned")
    linked(nd, st, call.inputs["x"], True, "passed")


@op
def lst2(x, y) -> MList[int]:
    return [x, y]


@op
def dct2(x, y) -> MDict[str, MList[int]]:
    return {"p": [x], "q": [y, x]}


@harness("C11", quick=[dict(f=f, where=w) for f in ("lst2", "dct2") for w in ("same", "reopen")],
         bounds="collections returned by calls found by content (equal arguments with another history); all integer arguments")
def links_again(nd, f, where):
    """the same for results found by content"""
    path = db_path(nd)
    st = Storage(path)
    x, y = nd.int("x"), nd.int("y")
    g = {"lst2": lst2, "dct2": dct2}[f]
    with st:
        g(x, y)
        if where == "same":
            r = g(made(x), y)
    if where == "reopen":
        st = Storage(path)
        with st:
            r = g(made(x), y)
    call = st.get_ref_creator(r)
    nd.check(call.inputs["x"].hid != r.hid, "found")
    linked(nd, st, call.outputs["output_0"], False, "found by content")
    nd.check(same(st.unwrap(r), [x, y] if f == "lst2" else {"p": [x], "q": [y, x]}), "the value is the same")


@op
def sum_of(v: MList[int], d: MDict[str, int], n=0):
    return sum(v) + sum(d.values()) + n


@op
def lst3(x, y) -> MList[int]:
    return [x, y]


@op
def dct1(x) -> MDict[str, int]:
    return {"k": x}


@op
def dct3(x) -> MDict[str, int]:
    return {"k": x}


@harness("C11", quick=[dict(where=w) for w in ("same", "clear", "reopen")],
         bounds="a call on a list, a dictionary and an element, repeated with collections of equal content and another history; all integer arguments")
def own_history(nd, where):
    """a call found by content has the references it was called with as inputs"""
    path = db_path(nd)
    st = Storage(path)
    x, y = nd.int("x"), nd.int("y")
    with st:
        a, d = lst2(x, y), dct1(y)
        u = sum_of(a, d, a[0])
    if where == "clear":
        st.clear_cache()
    if where == "reopen":
        st = Storage(path)
    with st:
        b, e = lst3(x, y), dct3(y)
        v = sum_of(b, e, b[0])
    nd.check(a.hid != b.hid and a.cid == b.cid and d.cid == e.cid, "equal collections")
    nd.check(u.hid != v.hid and u.cid == v.cid, "equal results of different histories")
    for s in (st, Storage(path)):
        for res, args in ((u, (a, d, a[0])), (v, (b, e, b[0]))):
            call = s.get_ref_creator(res)
            nd.check([call.inputs[k].hid for k in ("v", "d", "n")] == [r.hid for r in args], "the inputs of a call are the references it was called with")
            nd.check(s.unwrap(call.inputs["v"]) == [x, y] and s.unwrap(call.inputs["d"]) == {"k": y} and s.unwrap(call.inputs["n"]) == x, "with their values")
            linked(nd, s, call.inputs["v"], False, "called with")
            linked(nd, s, call.inputs["d"], False, "called with")


PAIRS = {
    "L": [[], ["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "b", "c"]],
    "D": [{}, {"k": "a"}, {"j": "a"}, {"k": "a", "j": "b"}, {"j": "a", "k": "b"}, {"elts_0": "a"}, {"dict": "a"}],
    "LL": [[["a"], ["b"]], [["a", "b"]], [["b"], ["a"]], [["a"], []], [[], ["a"]]],
    "DL": [{"k": ["a"]}, {"k": ["a", "b"]}, {"j": ["b"]}, {"k": [], "j": ["a"]}],
    "LD": [[{"k": "a"}], [{"j": "a"}], [{"k": "a", "j": "b"}], [{"k": "a"}, {"j": "b"}]],
}


HEAVY = {("LL", 0), ("LL", 1), ("LL", 2)}  # pairs with more leaves than quick checks have time for


@harness("C11", quick=[dict(tp=t, refs=r, i=i) for t in PAIRS for r in (False, True) for i in range(len(PAIRS[t])) if (t, i) not in HEAVY],
         thorough=[dict(tp=t, refs=r, i=i) for t in PAIRS for r in (False, True) for i in range(len(PAIRS[t]))],
         bounds="pairs of collections of five annotated types up to depth 2 and width 3 with arbitrary integer leaves, given as values or built from references")
def identity(nd, tp, refs, i):
    """two collections have the same identity exactly when they have equal elements in the same places"""
    ps = PAIRS[tp]
    cases(nd, "pair", [(ps[i], ps[j]) for j in range(i, len(ps))], lambda p: identity_one(nd, SHAPES[tp][0], p, refs))


def with_refs(v):
    """the same collection built from references that have a history"""
    if isinstance(v, list):
        return [with_refs(e) for e in v]
    if isinstance(v, dict):
        return {k: with_refs(e) for k, e in v.items()}
    return made(v)


def identity_one(nd, f, p, refs):
    st = Storage(db_path(nd))
    g = op(f)
    v1, v2 = fill(nd, p[0], "1"), fill(nd, p[1], "2")
    with st:
        r1 = g(v1)
        r2 = g(with_refs(v2) if refs else v2)
    x1, x2 = st.get_ref_creator(r1).inputs["x"], st.get_ref_creator(r2).inputs["x"]
    equal = v1 == v2
    nd.cover(not equal, "different")
    nd.check((x1.cid == x2.cid) == equal, "arguments have the same content identity exactly when they are equal")
    nd.check((r1.cid == r2.cid) == equal, "so do results")
    if not refs:
        nd.check((x1.hid == x2.hid) == equal, "arguments without history have the same identity exactly when they are equal")
        nd.check((r1.hid == r2.hid) == equal, "results of different calls are different references")
    nd.check(len(GOT) == (1 if equal else 2), "the memo is shared exactly by equal collections")
    nd.check(same(st.unwrap(x1), v1) and st.unwrap(x2) == v2, "the arguments read back")
