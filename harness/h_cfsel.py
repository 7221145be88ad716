"""C21/C22: selection, reachability and set algebra of ComputationFrames."""
from symex.registry import harness
from harness.cflib import *

B1 = "every well-formed frame over universe u of harness/cflib.py (element sets of the nodes, edges and recorded creators/consumers free)"
B2 = B1 + "; two such frames, nodes optional"


@harness("C21", quick=[dict(u="loop"), dict(u="twin"), dict(u="two")], thorough=[dict(u="chain")], bounds=B1 + "; every subset of the nodes")
def select_nodes(nd, u):
    """the induced frame: same elements, exactly the edges inside, restricted tables"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    U = UNIVERSES[u]
    names = [n for n in list(U["vars"]) + list(U["funcs"]) if nd.bool("sel_" + n)]
    res = cf[names]
    nd.check(same_snap(snap(cf), before), "selection leaves the frame unchanged")
    check_wf(nd, res, "select_nodes")
    check_ends(nd, res, "select_nodes")
    s = snap(res)
    nd.check(s["vs"] == {w: before["vs"][w] for w in before["vs"] if w in names}, "selected variables keep their refs")
    nd.check(s["fs"] == {w: before["fs"][w] for w in before["fs"] if w in names}, "selected functions keep their calls")
    nd.check(s["edges"] == {e for e in before["edges"] if e[0] in names and e[1] in names}, "exactly the edges inside the selection")
    # isolation
    for n in res.vs:
        res.vs[n].add("intruder")
    for n in res.inp:
        for l in res.inp[n]:
            res.inp[n][l].add("intruder")
    nd.check(same_snap(snap(cf), before), "mutating the selection does not reach the original")
    nd.cover(len(names) == 2 and len(s["edges"]) > 0, "two nodes and an edge")


def sub_elts(nd, U, cf, p):
    """any subset of the elements of each node"""
    elts = {}
    for v in U["vars"]:
        elts[v] = {h for h in cf.vs[v] if nd.bool(p + v + "_" + h)}
    for f in U["funcs"]:
        elts[f] = {h for h in cf.fs[f] if nd.bool(p + f + "_" + h)}
    return elts


def ref_adjacent(cf, edge, h, side):
    """hids of the other end joined to element h along the edge (side: which
    end h is at)"""
    s, d, l = edge
    if s in cf.vs:
        if side == "src":
            return {c for c in cf.fs[d] if l in C[c].inputs and C[c].inputs[l].hid == h}
        return {C[h].inputs[l].hid} & cf.vs[s] if l in C[h].inputs else set()
    if side == "src":
        return {C[h].outputs[l].hid} & cf.vs[d] if l in C[h].outputs else set()
    return {c for c in cf.fs[s] if l in C[c].outputs and C[c].outputs[l].hid == h}


@harness("C21", quick=[dict(u="small"), dict(u="loop"), dict(u="two")], thorough=[dict(u="chain"), dict(u="twin")], bounds=B1 + "; every edge, every subset of the elements of its end")
def adjacency(nd, u):
    """get_adj_elts_edge returns exactly the elements joined along the edge"""
    cf = sym_cf(nd, u)
    U = UNIVERSES[u]
    elts = sub_elts(nd, U, cf, "q_")
    for e in edge_set(cf):
        s, d, l = e
        fw = cf.get_adj_elts_edge(e, elts[s], "forward")
        want = set()
        for h in elts[s]:
            want |= ref_adjacent(cf, e, h, "src")
        nd.check(fw == want, "forward neighbours")
        bk = cf.get_adj_elts_edge(e, elts[d], "back")
        want = set()
        for h in elts[d]:
            want |= ref_adjacent(cf, e, h, "dst")
        nd.check(bk == want, "backward neighbours")
    nd.cover(len(edge_set(cf)) > 1, "edges")


@harness("C21", quick=[dict(u="small"), dict(u="loop"), dict(u="two")], thorough=[dict(u="chain"), dict(u="twin")], bounds=B1 + "; every node, every subset of its elements, every direction")
def adjacent_elts(nd, u):
    """get_adj_elts unites the neighbours over all edges to the same node"""
    cf = sym_cf(nd, u)
    U = UNIVERSES[u]
    elts = sub_elts(nd, U, cf, "q_")
    E = edge_set(cf)
    for direction in ("back", "forward", "both"):
        for n in list(U["vars"]) + list(U["funcs"]):
            got = cf.get_adj_elts(n, elts[n], direction)
            for m in list(U["vars"]) + list(U["funcs"]):
                want = set()
                for e in E:
                    if direction != "forward" and e[1] == n and e[0] == m:
                        for h in elts[n]:
                            want |= ref_adjacent(cf, e, h, "dst")
                    if direction != "back" and e[0] == n and e[1] == m:
                        for h in elts[n]:
                            want |= ref_adjacent(cf, e, h, "src")
                nd.check((got[m] if m in got else set()) == want, "neighbours of a node, " + direction)
    nd.cover(len(E) > 1, "edges")


@harness("C21", quick=[dict(u="small"), dict(u="loop"), dict(u="two")], thorough=[dict(u="chain"), dict(u="twin")], bounds=B1)
def source_sink_elts(nd, u):
    """source/sink elements are those without a creator/consumer across an edge"""
    cf = sym_cf(nd, u)
    U = UNIVERSES[u]
    E = edge_set(cf)
    src = cf.get_source_elts()
    snk = cf.get_sink_elts()
    nd.check(set(src) == cf.nodes and set(snk) == cf.nodes, "every node listed")
    for n in list(U["vars"]) + list(U["funcs"]):
        for h in cf.sets[n]:
            has_in = any(e[1] == n and len(ref_adjacent(cf, e, h, "dst")) > 0 for e in E)
            has_out = any(e[0] == n and len(ref_adjacent(cf, e, h, "src")) > 0 for e in E)
            nd.check((h in src[n]) == (not has_in), "source element iff nothing in the frame leads to it")
            nd.check((h in snk[n]) == (not has_out), "sink element iff it leads to nothing in the frame")
    nd.cover(len(E) > 1, "edges")


def ref_reach(cf, init, direction, how):
    """reference fixpoint, element by element"""
    E = edge_set(cf)
    res = {n: set(init[n]) if n in init else set() for n in cf.nodes}
    total = sum(len(cf.sets[n]) for n in cf.nodes)
    rounds = 0
    changed = True
    while changed:
        changed = False
        for n in cf.nodes:
            for h in cf.sets[n]:
                if h not in res[n]:
                    adj = [e for e in E if (e[1] if direction == "forward" else e[0]) == n]
                    if n in cf.vs or how == "weak":
                        ok = any(bool(ref_adjacent(cf, e, h, "dst" if direction == "forward" else "src") & res[e[0] if direction == "forward" else e[1]]) for e in adj)
                    else:
                        io = C[h].inputs if direction == "forward" else C[h].outputs
                        ls = [l for l in io if any(e[2] == l for e in adj)]
                        ok = len(ls) > 0 and all(any(e[2] == l and io[l].hid in res[e[0] if direction == "forward" else e[1]] for e in adj) for l in ls)
                    if ok:
                        res[n].add(h)
                        changed = True
    return res


def valid_init(nd, cf, U, init):
    pass


@harness("C21", quick=[dict(u="small", direction=d, how=h) for d in ("forward", "back") for h in ("strong", "weak")] +
         [dict(u="loop", direction="forward", how="strong"), dict(u="loop", direction="back", how="strong")],
         thorough=[dict(u="loop", direction=d, how="weak") for d in ("forward", "back")] +
         [dict(u="chain", direction=d, how=h) for d in ("forward", "back") for h in ("strong", "weak")],
         bounds=B1 + "; every initial state (subset of the elements of each node)")
def reachable(nd, u, direction, how):
    """get_reachable_elts is the least fixpoint of the documented step"""
    cf = sym_cf(nd, u)
    U = UNIVERSES[u]
    init = sub_elts(nd, U, cf, "i_")
    got = cf.get_reachable_elts(initial_state=init, direction=direction, how=how)
    want = ref_reach(cf, init, direction, how)
    nd.check(got == want, "reachable elements")
    nd.cover(sum(len(got[n]) for n in got) > sum(len(init[n]) for n in init) + 1, "two elements reached")


@harness("C21", quick=[dict(u="small"), dict(u="loop"), dict(u="twin")], thorough=[dict(u="two"), dict(u="chain")], bounds=B1 + "; every subset of the elements of each node")
def select_subsets(nd, u):
    """restricting to element subsets keeps the graph and restricts every table"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    U = UNIVERSES[u]
    elts = sub_elts(nd, U, cf, "q_")
    keep = {n: set(elts[n]) for n in elts}
    res = cf.select_subsets(elts)
    nd.check(same_snap(snap(cf), before), "select_subsets leaves the frame unchanged")
    check_tables(nd, res, "select_subsets")
    nd.check(res.sets == keep, "exactly the selected elements")
    nd.check(edge_set(res) == before["edges"], "same graph")
    for f in U["funcs"]:
        for c in U["funcs"][f]:
            for r in C[c].outputs.values():
                nd.check(not (r.hid in res.refs and c in res.calls and r.hid in before["creator"]) or r.hid in res.creator, "creators among the kept calls are kept")
            for r in C[c].inputs.values():
                nd.check(not (r.hid in res.refs and c in res.calls and r.hid in before["consumers"] and c in before["consumers"][r.hid]) or
                         (r.hid in res.consumers and c in res.consumers[r.hid]), "consumers among the kept calls are kept")
    nd.cover(len(res.refs) > 0 and len(res.refs) < len(before["refs"]) and len(res.calls) > 0, "proper selection")


def node_reach(E, start, direction):
    seen = set(start)
    changed = True
    while changed:
        changed = False
        for s, d, l in E:
            a, b = (s, d) if direction == "forward" else (d, s)
            if a in seen and b not in seen:
                seen.add(b)
                changed = True
    return seen


@harness("C21", quick=[dict(u="small", how="strong"), dict(u="loop", how="strong"), dict(u="small", how="weak")],
         thorough=[dict(u="loop", how="weak"), dict(u="chain", how="strong")], bounds=B1 + "; every nonempty set of start nodes, both directions")
def streams(nd, u, how):
    """downstream/upstream: the frame on the nodes reachable from the given
    ones, with exactly the elements reachable from theirs"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    U = UNIVERSES[u]
    names = list(U["vars"]) + list(U["funcs"])
    start = [n for n in names if nd.bool("start_" + n)]
    up = nd.bool("up")
    direction = "back" if up else "forward"
    res = cf.upstream(*start, how=how) if up else cf.downstream(*start, how=how)
    nd.check(same_snap(snap(cf), before), "the frame is unchanged")
    E = before["edges"]
    nodes = node_reach(E, start, direction)
    nd.check(res.nodes == nodes, "exactly the reachable nodes")
    nd.check(edge_set(res) == {e for e in E if e[0] in nodes and e[1] in nodes}, "the edges between them")
    base = cf.select_nodes(nodes)
    want = ref_reach(base, {n: base.sets[n] for n in names if n in start}, direction, how)
    nd.check(res.sets == want, "exactly the reachable elements")
    check_tables(nd, res, "stream")
    nd.cover(len(start) == 1 and len(nodes) > 2, "one start node reaching others")
    if how == "strong":
        nd.assume(tidy(cf) and all(n in U["vars"] for n in start))
        check_wf(nd, res, "strong stream from variables of a frame with one variable per label")
        nd.cover(len(start) == 1 and len(res.calls) > 0, "calls kept")


@harness("C21", quick=[dict(u="small"), dict(u="loop")], thorough=[dict(u="twin"), dict(u="chain")], bounds=B1 + "; every pair of nodes")
def midstream(nd, u):
    """midstream(a, b): the frame induced on the nodes on paths between the two,
    restricted to what is reachable from the source elements in a and b"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    U = UNIVERSES[u]
    names = list(U["vars"]) + list(U["funcs"])
    a = nd.choice("a", names)
    b = nd.choice("b", names)
    nd.assume(a != b)
    res = cf.midstream(a, b)
    nd.check(same_snap(snap(cf), before), "the frame is unchanged")
    E = before["edges"]
    # nodes on walks a->b or b->a
    ra, rb = node_reach(E, [a], "forward"), node_reach(E, [b], "forward")
    ca, cb = node_reach(E, [a], "back"), node_reach(E, [b], "back")
    for n in names:
        nd.check(not (n in res.nodes) or (n in ra and n in cb) or (n in rb and n in ca), "only nodes on walks between the two")
        nd.check(n in res.nodes or not ((n == a or n == b) and (b in ra or a in rb)), "the end points are included when connected")
    nd.check(edge_set(res) == {e for e in E if e[0] in res.nodes and e[1] in res.nodes}, "the induced edges")
    base = cf.select_nodes(res.nodes)
    src = base.get_source_elts()
    want = ref_reach(base, {n: src[n] for n in names if n in src and (n == a or n == b)}, "forward", "strong")
    nd.check(res.sets == want, "exactly the elements reachable from the sources")
    check_tables(nd, res, "midstream")
    nd.cover(len(res.nodes) > 2 and len(res.calls) > 0, "something between")


@harness("C21", quick=[dict(u="small"), dict(u="loop")], thorough=[dict(u="two"), dict(u="chain")], bounds=B1)
def drop_unreachable(nd, u):
    """drop_unreachable keeps exactly what is reachable from the source (sink) elements"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    direction = "forward" if nd.bool("fw") else "back"
    res = cf.drop_unreachable(direction=direction)
    nd.check(same_snap(snap(cf), before), "the frame is unchanged")
    init = cf.get_source_elts() if direction == "forward" else cf.get_sink_elts()
    nd.check(res.sets == ref_reach(cf, init, direction, "strong"), "exactly the reachable elements")
    nd.check(edge_set(res) == before["edges"], "same graph")
    check_tables(nd, res, "drop_unreachable")
    nd.cover(len(res.refs) > 1 and len(res.calls) > 0, "something kept")


@harness("C21", quick=[dict(u="small"), dict(u="loop")], thorough=[dict(u="two"), dict(u="twin")], bounds=B1 + "; every set of hids or cids")
def isin(nd, u):
    """isin keeps the matching refs and the calls next to them"""
    cf = sym_cf(nd, u)
    before = snap(cf)
    U = UNIVERSES[u]
    by = "hid" if nd.bool("by_hid") else "cid"
    want = {h for h in U["refs"] if nd.bool("want_" + h)}
    res = cf.isin(want if by == "hid" else {"cid_" + h for h in want}, by=by)
    nd.check(same_snap(snap(cf), before), "the frame is unchanged")
    E = before["edges"]
    for v in U["vars"]:
        nd.check(res.vs[v] == (before["vs"][v] & want), "exactly the matching refs")
    for f in U["funcs"]:
        near = {c for c in cf.fs[f] if any((e[1] == f and e[2] in C[c].inputs and C[c].inputs[e[2]].hid in want) or
                                           (e[0] == f and e[2] in C[c].outputs and C[c].outputs[e[2]].hid in want) for e in E)}
        nd.check(res.fs[f] == near, "exactly the calls next to them")
    check_tables(nd, res, "isin")
    nd.cover(len(res.calls) > 0, "calls kept")


# ------------------------------------------------------------------ C22
PAIR = [dict(u="small"), dict(u="loop"), dict(u="twin")]


def io_ok(cf):
    """every connected variable holds the corresponding refs of the calls"""
    ok = True
    for s, d, l in edge_set(cf):
        if s in cf.vs:
            for c in C:
                if l in C[c].inputs:
                    ok = ok and (not (c in cf.fs[d]) or C[c].inputs[l].hid in cf.vs[s])
        else:
            for c in C:
                if l in C[c].outputs:
                    ok = ok and (not (c in cf.fs[s]) or C[c].outputs[l].hid in cf.vs[d])
    return ok


@harness("C22", quick=PAIR, thorough=[dict(u="two"), dict(u="chain")], bounds=B2)
def union(nd, u):
    """a | b unites nodes, edges and elements; it is refused exactly when that
    is not a well-formed frame"""
    a = sym_cf(nd, u, "a_", True)
    b = sym_cf(nd, u, "b_", True)
    sa, sb = snap(a), snap(b)
    vs = {v: (sa["vs"].get(v, set()) | sb["vs"].get(v, set())) for v in UNIVERSES[u]["vars"] if v in sa["vs"] or v in sb["vs"]}
    fs = {f: (sa["fs"].get(f, set()) | sb["fs"].get(f, set())) for f in UNIVERSES[u]["funcs"] if f in sa["fs"] or f in sb["fs"]}
    E = sa["edges"] | sb["edges"]
    fits = True
    for s, d, l in E:
        for c in C:
            if s in vs:
                if l in C[c].inputs:
                    fits = fits and (not (c in fs[d]) or C[c].inputs[l].hid in vs[s])
            elif l in C[c].outputs:
                fits = fits and (not (c in fs[s]) or C[c].outputs[l].hid in vs[d])
    try:
        res = a | b
    except Exception:
        nd.check(not fits, "a union is refused only when it is not well-formed")
        nd.check(same_snap(snap(a), sa) and same_snap(snap(b), sb), "a refused union leaves the operands unchanged")
        nd.cover(True, "refused")
        return
    nd.check(fits, "a union that is not well-formed is refused")
    nd.check(same_snap(snap(a), sa) and same_snap(snap(b), sb), "operands unchanged")
    s = snap(res)
    nd.check(s["vs"] == vs and s["fs"] == fs and s["edges"] == E, "nodes, edges and elements are united")
    check_tables(nd, res, "union")
    nd.check(s["creator"].keys() == sa["creator"].keys() | sb["creator"].keys(), "creators are united")
    for n in res.vs:
        res.vs[n].add("intruder")
    for t in (res.inp, res.out):
        for n in t:
            for l in t[n]:
                t[n][l].add("intruder")
    for t in (res.refinv, res.callinv, res.consumers):
        for n in t:
            t[n].add("intruder")
    nd.check(same_snap(snap(a), sa) and same_snap(snap(b), sb), "mutating the union does not reach the operands")
    nd.cover(len(E) > len(sa["edges"]) and len(fs) > 0, "a proper union")


@harness("C22", quick=PAIR, thorough=[dict(u="two"), dict(u="chain")], bounds=B2)
def intersection(nd, u):
    """a & b intersects nodes, edges and elements into a well-formed frame"""
    a = sym_cf(nd, u, "a_", True)
    b = sym_cf(nd, u, "b_", True)
    sa, sb = snap(a), snap(b)
    res = a & b
    nd.check(same_snap(snap(a), sa) and same_snap(snap(b), sb), "operands unchanged")
    s = snap(res)
    nd.check(s["vs"] == {v: sa["vs"][v] & sb["vs"][v] for v in sa["vs"] if v in sb["vs"]}, "variables intersect")
    nd.check(s["fs"] == {f: sa["fs"][f] & sb["fs"][f] for f in sa["fs"] if f in sb["fs"]}, "functions intersect")
    nd.check(s["edges"] == sa["edges"] & sb["edges"], "edges intersect")
    check_wf(nd, res, "intersection")
    check_ends(nd, res, "intersection")
    nd.cover(len(s["edges"]) > 0 and len(s["calls"]) > 0, "nonempty intersection")


@harness("C22", quick=[dict(u="small"), dict(u="loop")], thorough=[dict(u="twin"), dict(u="chain")], bounds=B2)
def difference(nd, u):
    """a - b keeps exactly the elements of a not in b (node-wise) that are still
    computable from the remaining sources, without empty nodes"""
    a = sym_cf(nd, u, "a_")
    b = sym_cf(nd, u, "b_", True)
    sa, sb = snap(a), snap(b)
    res = a - b
    nd.check(same_snap(snap(a), sa) and same_snap(snap(b), sb), "operands unchanged")
    bs = b.sets
    keep = {n: (set(a.sets[n]) - bs[n] if n in bs else set(a.sets[n])) for n in a.sets}
    base = a.select_subsets(keep)
    want = ref_reach(base, base.get_source_elts(), "forward", "strong")
    for n in a.sets:
        nd.check((n in res.nodes) == (len(want[n]) > 0), "nodes left empty are dropped, others kept")
        nd.check(not (n in res.nodes) or res.sets[n] == want[n], "exactly the remaining computable elements")
    nd.check(edge_set(res) == {e for e in sa["edges"] if e[0] in res.nodes and e[1] in res.nodes}, "edges between the kept nodes")
    check_tables(nd, res, "difference")
    nd.cover(len(res.refs) > 0 and len(res.refs) < len(sa["refs"]), "a proper difference")
