"""C20: edits of a ComputationFrame, on every well-formed frame over a small
universe of refs and calls."""
from symex.registry import harness
from harness.cflib import *

B1 = "every well-formed frame over universe u of harness/cflib.py (element sets of the nodes, edges and recorded creators/consumers free)"
US = [dict(u="small"), dict(u="loop"), dict(u="twin"), dict(u="two")]
UT = [dict(u="chain")]


@harness("C20", quick=US, thorough=UT, bounds=B1)
def drop_var(nd, u):
    """dropping a variable keeps the invariants and everything not incident to it"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    v = nd.choice("v", UNIVERSES[u]["vars"])
    res = cf.drop_var(v)
    nd.check(same_snap(snap(cf), before), "drop_var(inplace=False) leaves the frame unchanged")
    check_wf(nd, res, "drop_var")
    check_ends(nd, res, "drop_var")
    s = snap(res)
    nd.check(s["vs"] == {w: before["vs"][w] for w in before["vs"] if w != v}, "other variables keep their refs")
    nd.check(s["fs"] == before["fs"], "functions keep their calls")
    nd.check(s["edges"] == {e for e in before["edges"] if e[0] != v and e[1] != v}, "exactly the incident edges go")
    nd.check(cf.drop_var(v, inplace=True) is None, "inplace returns None")
    nd.check(same_snap(snap(cf), s), "inplace=True does to the frame what inplace=False does to the copy")
    nd.cover(len(before["edges"]) > 2, "several edges")


@harness("C20", quick=US, thorough=UT, bounds=B1)
def drop_func(nd, u):
    """dropping a function node keeps the invariants and everything not incident to it"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    f = nd.choice("f", list(UNIVERSES[u]["funcs"]))
    res = cf.drop_func(f)
    nd.check(same_snap(snap(cf), before), "drop_func(inplace=False) leaves the frame unchanged")
    check_wf(nd, res, "drop_func")
    check_ends(nd, res, "drop_func")
    s = snap(res)
    nd.check(s["vs"] == before["vs"], "variables keep their refs")
    nd.check(s["fs"] == {w: before["fs"][w] for w in before["fs"] if w != f}, "other functions keep their calls")
    nd.check(s["edges"] == {e for e in before["edges"] if e[0] != f and e[1] != f}, "exactly the incident edges go")
    nd.check(cf.drop_func(f, inplace=True) is None, "inplace returns None")
    nd.check(same_snap(snap(cf), s), "inplace=True does to the frame what inplace=False does to the copy")
    nd.cover(len(before["edges"]) > 1 and len(before["calls"]) > 1, "several edges and calls")


@harness("C20", quick=[dict(u="loop"), dict(u="twin"), dict(u="two")], thorough=UT, bounds=B1 + "; every subset of the nodes, dropped in order")
def drop_nodes(nd, u):
    """drop() of any set of nodes is the induced remainder"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    U = UNIVERSES[u]
    names = [n for n in list(U["vars"]) + list(U["funcs"]) if nd.bool("drop_" + n)]
    res = cf.drop(names)
    nd.check(same_snap(snap(cf), before), "drop(inplace=False) leaves the frame unchanged")
    check_wf(nd, res, "drop")
    s = snap(res)
    nd.check(s["vs"] == {w: before["vs"][w] for w in before["vs"] if w not in names}, "kept variables keep their refs")
    nd.check(s["fs"] == {w: before["fs"][w] for w in before["fs"] if w not in names}, "kept functions keep their calls")
    nd.check(s["edges"] == {e for e in before["edges"] if e[0] not in names and e[1] not in names}, "exactly the incident edges go")
    nd.cover(len(names) == 1 and len(s["edges"]) > 0, "one dropped, edges left")


@harness("C20", quick=US, thorough=UT, bounds=B1 + "; new name fresh, equal to the old one, or that of another node")
def rename(nd, u):
    """renaming a variable to a fresh name renames it everywhere and nothing
    else; renaming to itself changes nothing; a name in use is refused or at
    least leaves a consistent frame"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    v = nd.choice("v", UNIVERSES[u]["vars"])
    new = nd.choice("new", ["fresh", "x"])
    try:
        res = cf.rename({v: new})
    except Exception:
        nd.check(new != v and new == "x", "only a clashing name is refused")
        nd.check(same_snap(snap(cf), before), "a refused rename leaves the frame unchanged")
        return
    nd.check(same_snap(snap(cf), before), "rename(inplace=False) leaves the frame unchanged")
    check_wf(nd, res, "rename")
    s = snap(res)
    nm = lambda n: new if n == v else n
    if new == "fresh" or v == "x":
        nd.check(s["vs"] == {nm(w): before["vs"][w] for w in before["vs"]}, "same refs under the new name")
        nd.check(s["edges"] == {(nm(a), nm(b), l) for a, b, l in before["edges"]}, "same edges under the new name")
        nd.check(s["refinv"] == {h: {nm(w) for w in before["refinv"][h]} for h in before["refinv"]}, "inverse table renamed")
    nd.check(s["fs"] == before["fs"] and s["calls"] == before["calls"] and s["creator"] == before["creator"] and s["consumers"] == before["consumers"],
             "nothing else changes")
    nd.cover(len(before["edges"]) > 2, "several edges")


@harness("C20", quick=[dict(u="small"), dict(u="two")], thorough=UT, bounds=B1)
def copy_isolated(nd, u):
    """a copy equals the original and shares no mutable table with it"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    c = cf.copy()
    nd.check(same_snap(snap(c), before), "copy is equal")
    check_wf(nd, c, "copy")
    # mutate every table of the copy
    for d in (c.vs, c.fs, c.refinv, c.callinv, c.consumers):
        for k in d:
            d[k].add("intruder")
    for d in (c.inp, c.out):
        for k in d:
            for l in d[k]:
                d[k][l].add("intruder")
            d[k]["new_label"] = {"intruder"}
    for d in (c.vs, c.fs, c.inp, c.out, c.refinv, c.callinv, c.creator, c.consumers, c.refs, c.calls):
        d["intruder"] = None
    nd.check(same_snap(snap(cf), before), "mutating a copy does not reach the original")
    nd.cover(len(before["edges"]) > 2, "several edges")


@harness("C20", quick=[dict(u="small"), dict(u="loop"), dict(u="two")], thorough=[dict(u="chain")], bounds=B1)
def cleanup(nd, u):
    """cleanup removes exactly the empty nodes"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    res = cf.cleanup()
    nd.check(same_snap(snap(cf), before), "cleanup(inplace=False) leaves the frame unchanged")
    check_wf(nd, res, "cleanup")
    s = snap(res)
    nd.check(s["vs"] == {w: before["vs"][w] for w in before["vs"] if len(before["vs"][w]) > 0}, "exactly the empty variables go")
    nd.check(s["fs"] == {w: before["fs"][w] for w in before["fs"] if len(before["fs"][w]) > 0}, "exactly the empty functions go")
    cf.simplify()
    check_wf(nd, cf, "simplify")
    nd.check(snap(cf)["vs"] == s["vs"] and snap(cf)["fs"] == s["fs"], "simplify drops the empty nodes in place")
    nd.cover(len(s["vs"]) < len(before["vs"]) and len(before["edges"]) > 0, "something to clean, with edges")


@harness("C20", quick=[dict(u="small"), dict(u="loop"), dict(u="twin")], thorough=[dict(u="two"), dict(u="chain")], bounds=B1)
def merge_into(nd, u):
    """merging a variable into another moves its refs and edges there"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    res = cf.merge_into("y", "x")
    nd.check(same_snap(snap(cf), before), "merge_into(inplace=False) leaves the frame unchanged")
    check_wf(nd, res, "merge_into")
    s = snap(res)
    nm = lambda n: "x" if n == "y" else n
    nd.check(s["vs"] == {w: (before["vs"]["x"] | before["vs"]["y"] if w == "x" else before["vs"][w]) for w in before["vs"] if w != "y"},
             "the target holds the union")
    nd.check(s["fs"] == before["fs"], "functions keep their calls")
    nd.check(s["edges"] == {(nm(a), nm(b), l) for a, b, l in before["edges"]}, "edges are redirected")
    cf.merge_into("y", "x", inplace=True)
    nd.check(same_snap(snap(cf), s), "inplace=True does to the frame what inplace=False does to the copy")
    nd.cover(len(before["edges"]) > 2, "several edges")


@harness("C20", quick=[dict(u="small"), dict(u="loop")], thorough=[dict(u="two"), dict(u="chain")], bounds=B1)
def merge_vars(nd, u):
    """merge_vars leaves no variable strictly inside another and loses no ref"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    res = cf.merge_vars()
    nd.check(same_snap(snap(cf), before), "merge_vars(inplace=False) leaves the frame unchanged")
    check_wf(nd, res, "merge_vars")
    s = snap(res)
    nd.check(s["refs"] == before["refs"] and s["fs"] == before["fs"], "refs and calls are kept")
    for a in UNIVERSES[u]["vars"]:
        for b in UNIVERSES[u]["vars"]:
            if a in s["vs"] and b in s["vs"]:
                nd.check(not (s["vs"][a] < s["vs"][b]), "no variable is a proper subset of another")
    nd.cover(len(s["vs"]) < len(before["vs"]), "something merged")
