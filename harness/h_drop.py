"""C13/C14: deleting calls and garbage collection."""
from symex.registry import harness
from harness.stlib import *


def all_calls(st):
    """history id -> recorded data, whether cached or persisted"""
    res = {}
    for h in st.call_storage.get_df().index.get_level_values(0).unique():
        res[h] = st.call_storage.get_data(h)
    for h in st.calls.cache.call_hids:
        res[h] = st.calls.cache.get_data(h)
    return res


def dependents(calls, start):
    """the calls that transitively use an output of start, and start"""
    res = set(start)
    for i in range(len(calls)):
        outs = set([o for h in res for o in calls[h]["output_hids"].values()])
        res = res | set([h for h in calls if any([i in outs for i in calls[h]["input_hids"].values()])])
    return res


HS = ["inc(x0) / add(r0,x1)",
      "inc(x0) / inc(r0) / inc(x1)",
      "inc(x0) / sumlist([r0;x1])",
      "lst(x0,x1) / inc(r0.0)",
      "pair(x0) / inc(r0.1) / named(r0.0)"]
PHASES = {"open": "", "committed": " / exit", "cleared": " / exit / clear", "new session": " / reopen"}


def setup(nd, h, phase):
    H = Hist(nd)
    for s in (h + PHASES[phase]).split(" / "):
        H.step(s)
    return H


def check_calls(nd, st, calls, kept, where):
    for h in calls:
        there = st.calls.exists(h)
        nd.check(there == (h in kept), "%s exactly the requested calls are gone" % where)
        if h in kept:
            nd.check(st.calls.get_data(h) == calls[h], "%s the other calls are unchanged" % where)
            nd.check(st.get_call(h, lazy=True).hid == h, "%s the other calls are retrievable" % where)


@harness("C13", quick=[dict(h=h, phase=p, dep=d) for h in HS[:3] for p in ("open", "cleared") for d in (True, False)]
         + [dict(h=h, phase="committed", dep=True) for h in HS[3:]]
         + [dict(h="inc(x0) / commit / inc(r0) / inc(x1)", phase="open", dep=True), dict(h="inc(x0) / exit / clear / inc(r0)", phase="open", dep=True)]
         + [dict(h=HS[0], phase="committed", dep=d, form=f) for d in (True, False) for f in ("calls", "iterator")],
         thorough=[dict(h=h, phase=p, dep=d) for h in HS for p in PHASES for d in (True, False)],
         bounds="histories of up to 3 calls (and their structural calls), all integer arguments and coincidences; every subset of the calls is deleted, with or "
                "without dependents, while uncommitted, cached, only persisted, or in a new session")
def drop(nd, h, phase, dep, form="set"):
    H = setup(nd, h, phase)
    st = H.st
    calls = all_calls(st)
    chosen = set([H.hids[i] for i in range(len(H.hids)) if nd.bool("drop%d" % i)])
    gone = dependents(calls, chosen) if dep else chosen
    if form == "calls":
        given = [st.get_call(x, lazy=True) for x in chosen]
    elif form == "iterator":
        given = (x for x in chosen)
    else:
        given = chosen
    st.drop_calls(given, delete_dependents=dep)
    kept = set(calls) - gone
    check_calls(nd, st, calls, kept, "after the deletion")
    H.leave()
    st.commit()
    st2 = Storage(H.path)
    check_calls(nd, st2, calls, kept, "in the database")
    cids = set([calls[x]["cid"] for x in kept])
    expected = {}
    for i in range(len(H.hids)):
        expected[H.keys[i]] = 1 if calls[H.hids[i]]["cid"] in cids else 2
    H.st = st2
    H.once = False
    H.res = []
    for s in h.split(" / "):
        if s not in ("commit", "exit", "clear"):
            H.step(s)
    H.leave()
    H.check_values()
    for k in expected:
        nd.check(RUNS[k] == expected[k], "exactly the deleted calls are executed again")
    for i in range(len(H.hids)):
        nd.check(st2.call_storage.exists(H.hids[i]), "and stored again")


LONG = "inc(x0) / " + " / ".join(["inc(r%d)" % i for i in range(6)]) + " / add(r6,r0)"


@harness("C13", quick=[dict(phase="open", first=0), dict(phase="cleared", first=0), dict(phase="open", first=1)],
         thorough=[dict(phase=p, first=f) for p in PHASES for f in (0, 4, 6)], timeout=400,
         bounds="one history of eight calls, each using the one before, any integer; one of the calls deleted with its dependents")
def long_history(nd, phase, first):
    """dependents are found however far away they are"""
    H = setup(nd, LONG, phase)
    st = H.st
    calls = all_calls(st)
    first = H.hids[first]
    gone = dependents(calls, {first})
    st.drop_calls([first], delete_dependents=True)
    check_calls(nd, st, calls, set(calls) - gone, "after the deletion")
    H.leave()
    st.commit()
    check_calls(nd, Storage(H.path), calls, set(calls) - gone, "in the database")


# ---------------------------------------------------------------------- C14
@harness("C14", quick=[dict(h=h, dep=True) for h in HS] + [dict(h=h, dep=False) for h in HS[:2]]
         + [dict(h="inc(x0) / exit / dct(r0,x1) / inc(r1.q)", dep=True)]
         + [dict(h="lst(x0,x1)", dep=d, ops="lst,__list_getitem__") for d in (True, False)]
         + [dict(h="sumlist([x0;x1])", dep=False, ops="__make_list__,sumlist")],
         thorough=[dict(h="inc(x0) / inc(x1) / add(r0,r1) / inc(r2)", dep=d) for d in (True, False)],
         bounds="histories of up to 3 (4) calls with arbitrary integers and coincidences, an arbitrary subset of the calls deleted, then one collection, in the same "
                "or a new session")
def collect(nd, h, dep, ops=None):
    H = setup(nd, h, "committed")
    calls = all_calls(H.st)
    if ops is None:
        chosen = set([H.hids[i] for i in range(len(H.hids)) if nd.bool("drop%d" % i)])
    else:
        names = [n for n in ops.split(",") if nd.bool("drop_" + n)]
        chosen = set([x for x in calls if calls[x]["op_name"] in names])
    H.st.drop_calls(chosen, delete_dependents=dep)
    gone = dependents(calls, chosen) if dep else chosen
    kept = set(calls) - gone
    st = H.st
    if nd.bool("new"):
        st = Storage(H.path)
    shapes = {}
    for hid in st.shapes.persistent.keys():
        shapes[hid] = st.shapes.persistent.get(hid)
    st.cleanup_refs()
    used = set([x for c in kept for x in list(calls[c]["input_hids"].values()) + list(calls[c]["output_hids"].values())])
    left = set(st.shapes.persistent.keys())
    for i in range(3):
        used = used | set([e.hid for x in used if isinstance(shapes[x], (ListRef, DictRef))
                           for e in (shapes[x].obj.values() if isinstance(shapes[x], DictRef) else shapes[x].obj)])
    nd.check(used <= left, "no reference of a remaining call (or element of one) is removed")
    nd.check(left <= used, "all references that take part in no call are removed")
    cids = set([x for c in kept for x in list(calls[c]["input_cids"].values()) + list(calls[c]["output_cids"].values())]) | set([shapes[x].cid for x in left])
    atoms = set(st.atoms.persistent.keys())
    nd.check(atoms <= cids, "all values nothing refers to are removed")
    st2 = Storage(H.path)
    for c in kept:
        call = st2.get_call(c, lazy=False)
        for r in list(call.inputs.values()) + list(call.outputs.values()):
            st2.unwrap(r)
    for i in range(len(H.hids)):
        if H.hids[i] in kept:
            ref, val = H.res[i]
            for r, v in (zip(ref, val) if isinstance(ref, tuple) else [(ref, val)]):
                nd.check(st2.unwrap(st2.load_ref(r.hid)) == v, "remaining references load to their values")
    check_calls(nd, st2, calls, kept, "after the collection")
