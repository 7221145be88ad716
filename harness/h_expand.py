"""C23: expanding frames with recorded calls"""
from symex.registry import harness
from harness.cflib import *
from harness.stlib import Hist

# what a single frame node can be joined to: calls of the universe in cflib
LINKS = {"all": ("f0", "f1", "f2", "g0", "g1"), "chain": ("f0", "f2", "g0"), "pair": ("f0", "f1", "g1")}


class Recorded:
    """stands for the storage (C12): some of the calls are recorded"""
    def __init__(self, nd, calls):
        self.calls = [c for c in calls if nd.bool("recorded " + c)]

    def get_creators(self, hids):
        return [C[c] for c in self.calls if outs_of(c) & set(hids)]

    def get_consumers(self, hids):
        return [C[c] for c in self.calls if ins_of(c) & set(hids)]


def variables(nd, st, vs):
    """a frame without calls"""
    cf = finish_cf({v: set(vs[v]) for v in vs}, {}, {v: {} for v in vs}, {v: {} for v in vs}, False)
    cf.storage = st
    return cf


def joined(cf, h, side):
    """h is joined to a call of the frame that made (used) it"""
    for v in cf.vs:
        if h in cf.vs[v]:
            for s, d, l in cf.edges():
                if side == "outputs" and d == v:
                    if any(l in C[c].outputs and C[c].outputs[l].hid == h for c in cf.fs[s]):
                        return True
                if side == "inputs" and s == v:
                    if any(l in C[c].inputs and C[c].inputs[l].hid == h for c in cf.fs[d]):
                        return True
    return False


def keeps(nd, a, b, what):
    """b has all that a had"""
    nd.check(all(v in b["vs"] and a["vs"][v] <= b["vs"][v] for v in a["vs"]), what + ": no reference is lost")
    nd.check(all(f in b["fs"] and a["fs"][f] <= b["fs"][f] for f in a["fs"]), what + ": no call is lost")
    nd.check(a["edges"] <= b["edges"], what + ": no edge is lost")


def around(c):
    return ins_of(c) | outs_of(c)


def one_step(nd, cf, st, side, reuse, skip=False):
    """one expansion of every variable"""
    what = "back" if side == "outputs" else "forward"
    before = snap(cf)
    of = outs_of if side == "outputs" else ins_of
    ends = cf.get_source_elts() if side == "outputs" else cf.get_sink_elts()
    ends = {h for v in cf.vs for h in ends[v]}
    new = [c for c in st.calls if of(c) & ends and not (skip and c in before["calls"])]
    go = cf.expand_back if side == "outputs" else cf.expand_forward
    res = go(reuse_existing=reuse, skip_existing=skip)
    nd.check(same_snap(before, snap(cf)), what + ": the frame expanded is untouched")
    after = snap(res)
    keeps(nd, before, after, what)
    check_wf(nd, res, what)
    nd.check(after["calls"] == before["calls"] | set(new), what + ": exactly the calls next to the ends are added")
    dual = ins_of if side == "outputs" else outs_of
    nd.check({h for c in new for h in dual(c)} <= after["refs"], what + ": their references are added")
    mine = new + [c for c in C if c in before["calls"]]
    nd.check(after["refs"] <= before["refs"] | {h for c in mine for h in around(c)}, what + ": only their references are added")
    for c in new:
        for h in of(c) & ends:
            nd.check(skip and c in before["calls"] or joined(res, h, side), what + ": the calls are joined to the references they came from")
    nd.cover(len(new) > 0, "something to add")
    if not skip:
        nd.cover(len(new) > 1, "several calls to add")
    return res


def to_the_end(nd, cf, st, side, reuse):
    what = "back" if side == "outputs" else "forward"
    before = snap(cf)
    of = outs_of if side == "outputs" else ins_of
    other = ins_of if side == "outputs" else outs_of
    refs, calls = set(before["refs"]), set()
    for i in range(4):
        calls = calls | {c for c in st.calls if of(c) & refs}
        refs = refs | {h for c in calls for h in other(c)}
    go = cf.expand_back if side == "outputs" else cf.expand_forward
    res = go(reuse_existing=reuse, recursive=True)
    after = snap(res)
    keeps(nd, before, after, what)
    check_wf(nd, res, what)
    nd.check(calls == after["calls"], what + ": exactly the calls of the whole history are there")
    nd.check(refs <= after["refs"], what + ": the references of the whole history are there")
    again = (res.expand_back if side == "outputs" else res.expand_forward)(reuse_existing=reuse)
    nd.check(same_snap(after, snap(again)), what + ": expanding further adds nothing")
    for h in R:
        if h in after["refs"]:
            for c in st.calls:
                if h in of(c):
                    nd.check(c in after["calls"] and joined(res, h, side), what + ": everything is joined to what made (used) it")
    nd.cover(len(calls) > 1, "several calls")
    return res


B1 = "every subset of three (thorough: five) calls of two functions recorded; frames of %s; reusing nodes or not"


def universe(links):
    return sorted({h for c in LINKS[links] for h in around(c)})


def loose(nd, st, links, names):
    return variables(nd, st, {v: [h for h in universe(links) if nd.bool(v + " " + h)] for v in names})


def started(nd, st, u):
    """a frame that has calls already; no empty function nodes"""
    cf = sym_cf(nd, u)
    nd.assume(all(len(cf.fs[f]) > 0 for f in cf.fs))
    nd.assume(all(c in st.calls for c in cf.calls))
    cf.storage = st
    return cf


SIDES = [(s, r) for s in ("outputs", "inputs") for r in (True, False)]


@harness("C23", quick=[dict(links=l, side=s, reuse=r) for l in ("chain", "pair") for s, r in SIDES],
         thorough=[dict(links="all", side=s, reuse=r) for s, r in SIDES], bounds=B1 % "two variables with any of the references and no calls")
def step(nd, links, side, reuse):
    st = Recorded(nd, LINKS[links])
    one_step(nd, loose(nd, st, links, ("x", "y")), st, side, reuse)


@harness("C23", quick=[dict(links=l, side=s, reuse=r) for l in ("chain", "pair") for s, r in SIDES] + [dict(links="all", side="outputs", reuse=True)],
         thorough=[dict(links="all", side=s, reuse=r) for s, r in SIDES[1:]] + [dict(links="chain", side=s, reuse=r, names=("x", "y")) for s, r in SIDES],
         bounds=B1 % "one or two variables with any of the references and no calls, expanded to the end")
def full(nd, links, side, reuse, names=("x",)):
    st = Recorded(nd, LINKS[links])
    to_the_end(nd, loose(nd, st, links, names), st, side, reuse)


@harness("C23", quick=[dict(u=u, side=s, reuse=r) for u in ("small", "loop") for s, r in SIDES] + [dict(u="small", side=s, reuse=r, skip=True) for s, r in SIDES[:2]],
         thorough=[dict(u="chain", side=s, reuse=r) for s, r in SIDES], bounds="every well-formed frame over a small universe with one or two non-empty function nodes, every superset of its calls recorded; reusing nodes or not")
def more(nd, u, side, reuse, skip=False):
    st = Recorded(nd, LINKS["chain" if u != "small" else "pair"])
    one_step(nd, started(nd, st, u), st, side, reuse, skip)


@harness("C23", quick=[dict(links="chain", reuse=True), dict(links="pair", reuse=False)], thorough=[dict(links="pair", reuse=True), dict(links="chain", reuse=False)] + [dict(links="all", reuse=r) for r in (True, False)],
         bounds=B1 % "one variable with any of the references and no calls, expanded in both directions to the end")
def both(nd, links, reuse):
    st = Recorded(nd, LINKS[links])
    cf = loose(nd, st, links, ("x",))
    nd.assume(reuse or len(cf.vs["x"]) <= 1)
    before = snap(cf)
    res = cf.expand_all(reuse_existing=reuse)
    after = snap(res)
    nd.check(same_snap(before, snap(cf)), "all: the frame expanded is untouched")
    keeps(nd, before, after, "all")
    check_wf(nd, res, "all")
    refs, calls = set(before["refs"]), set()
    for i in range(4):
        calls = calls | {c for c in st.calls if outs_of(c) & refs}
        refs = refs | {h for c in calls for h in ins_of(c)}
    nd.check(calls <= after["calls"] and refs <= after["refs"], "all: the history of the references is there")
    for h in R:
        if h in after["refs"]:
            if any([h in outs_of(c) for c in st.calls]):
                nd.check(joined(res, h, "outputs"), "all: every reference is joined to what made it")
            if any([h in ins_of(c) for c in st.calls]):
                nd.check(joined(res, h, "inputs"), "all: every reference is joined to a call that used it")
    refs = set(before["refs"])
    for i in range(5):
        refs = refs | {h for c in st.calls if around(c) & refs for h in around(c)}
    nd.check(after["refs"] <= refs, "all: nothing unrelated is added")
    nd.check(same_snap(after, snap(res.expand_all(reuse_existing=reuse))), "all: expanding again adds nothing")
    nd.cover(len(calls) > 1, "several calls")


@harness("C23", quick=[dict(side=s, reuse=r, skip=k) for s, r in SIDES for k in (False, True)],
         bounds=B1 % "three variables with any of the references, some of them expanded, in place; skipping calls already there or not")
def some(nd, side, reuse, skip):
    """expanding some of the variables, in place"""
    st = Recorded(nd, LINKS["chain"])
    cf = loose(nd, st, "chain", ("x", "y"))
    names = {v for v in ("x", "y") if nd.bool("expand " + v)}
    before = snap(cf)
    of = outs_of if side == "outputs" else ins_of
    ends = {h for v in names for h in cf.vs[v]}
    new = {c for c in st.calls if of(c) & ends}
    go = cf.expand_back if side == "outputs" else cf.expand_forward
    nd.check(go(varnames=names, reuse_existing=reuse, inplace=True, skip_existing=skip) is None, "in place: returns nothing")
    after = snap(cf)
    keeps(nd, before, after, "in place")
    check_wf(nd, cf, "in place")
    nd.check(after["calls"] == new, "in place: exactly the calls next to the variables are added")
    nd.cover(len(new) > 1, "several")
    nd.cover(len(names) == 0, "none")


HISTORIES = ["inc(x0) / inc(x1) / add(r0,r1) / inc(r2)",
             "inc(x0) / inc(r0) / inc(r1) / inc(r2)",
             "pair(x0) / add(r0.0,r0.1) / inc(r1)",
             "lst(x0,x1) / sumlist(r0) / inc(r0.1)",
             "dct(x0,x1) / inc(r0.q) / add(r1,x2)",
             "inc_by(x0) / inc(r0) / inc_by(r1) / inc(x1)"]


def real_ok(nd, cf, calls, what):
    """the frame holds the calls as recorded"""
    for f in cf.fs:
        nd.check(len({calls[c]["op_name"] for c in cf.fs[f]}) <= 1, what + ": a function node has the calls of one function")
        for c in cf.fs[f]:
            call = cf.calls[c]
            nd.check({k: r.hid for k, r in call.inputs.items()} == calls[c]["input_hids"] and {k: r.hid for k, r in call.outputs.items()} == calls[c]["output_hids"],
                     what + ": the calls are the recorded ones")
            for refs, edges in ((call.inputs, cf.inp[f]), (call.outputs, cf.out[f])):
                for k in refs:
                    for v in edges.get("elts" if k.startswith("elts_") else k, ()):
                        nd.check(refs[k].hid in cf.vs[v] and v in cf.refinv[refs[k].hid], what + ": their references are in the variables connected to them")


@harness("C23", quick=[dict(h=h, reuse=r) for h in HISTORIES for r in (True, False)], bounds="the listed histories of up to 4 calls with arbitrary integers and coincidences; "
         "frames of any of the results, expanded through the storage back and both ways to the end")
def stored(nd, h, reuse):
    H = Hist(nd)
    for s in h.split(" / "):
        H.step(s)
    H.leave()
    st = H.st
    calls = {}
    for hid in st.call_storage.get_df().index.get_level_values(0).unique():
        calls[hid] = st.call_storage.get_data(hid)
    i = nd.choice("of", range(len(H.res)))
    for j in range(len(H.res)):
        if i == j:
            ref = H.res[j][0]
            if isinstance(ref, tuple):
                ref = ref[0]
            refs, cs = st.call_storage.get_dependencies({ref.hid}, set())
            cf = st.cf(ref)
            nd.check(set(cf.refs) == {ref.hid} and not cf.calls, "the frame of a reference has just that")
            res = cf.expand_back(recursive=True, reuse_existing=reuse)
            nd.check(set(res.calls) == cs and refs <= set(res.refs), "back: the whole history, and no other calls")
            real_ok(nd, res, calls, "back")
            res._check()
            res = cf.expand_all(reuse_existing=reuse)
            nd.check(cs <= set(res.calls) and refs <= set(res.refs), "all: the whole history")
            nd.check(set(res.calls) <= set(calls), "all: recorded calls")
            real_ok(nd, res, calls, "all")
            res._check()
