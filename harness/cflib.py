"""A small universe of refs and calls and every well-formed ComputationFrame
over it, as a function of nondeterministic bits."""
from mandala.model import Op, Call, AtomRef
from mandala.cf import ComputationFrame


def _f(a):
    return None


def _g(a, b):
    return None


def _h(c):
    return None


def _ref(n):
    return AtomRef(cid="cid_" + n, hid=n, in_memory=True, obj=n)


F = Op("f", _f)
G = Op("g", _g)
H = Op("h", _h)
R = {n: _ref(n) for n in ("r0", "r1", "s0", "s1", "u0", "t0", "t1")}


def _call(op, hid, ins, outs):
    return Call(op=op, cid="cid_" + hid, hid=hid, inputs={k: R[v] for k, v in ins.items()}, outputs={k: R[v] for k, v in outs.items()},
                semantic_version="sv", content_version="cv")


# f: r0 -> s0, r1 -> s1, s0 -> u0 (f applied to its own output); g: (s0, r0) -> t0, (s1, r0) -> t1
C = {c.hid: c for c in (
    _call(F, "f0", {"a": "r0"}, {"output_0": "s0"}),
    _call(F, "f1", {"a": "r1"}, {"output_0": "s1"}),
    _call(F, "f2", {"a": "s0"}, {"output_0": "u0"}),
    _call(G, "g0", {"a": "s0", "b": "r0"}, {"output_0": "t0"}),
    _call(G, "g1", {"a": "s1", "b": "r0"}, {"output_0": "t1"}),
)}

SMALL = dict(refs=("r0", "r1", "s0", "s1"), vars=("x", "y"), funcs={"f": ("f0", "f1")})
LOOP = dict(refs=("r0", "s0", "u0"), vars=("x", "y"), funcs={"f": ("f0", "f2")})
TWO = dict(refs=("r0", "s0", "s1", "t0", "t1"), vars=("x", "y", "z"), funcs={"f": ("f0", "f1"), "g": ("g0", "g1")})
TWIN = dict(refs=("r0", "r1", "s0", "s1"), vars=("x", "y"), funcs={"f": ("f0", "f1"), "f_0": ("f0", "f1")})
CHAIN = dict(refs=("r0", "s0", "t0", "u0"), vars=("x", "y", "z"), funcs={"f": ("f0", "f2"), "g": ("g0",)})
UNIVERSES = dict(small=SMALL, loop=LOOP, two=TWO, twin=TWIN, chain=CHAIN)


def labels(fname, side):
    if side == "out":
        return ("output_0",)
    return ("a", "b") if fname[0] == "g" else ("a",)


def sym_cf(nd, u, p="", optional_nodes=False):
    """every well-formed CF over universe `u`: node sets, element sets and edges
    are free; elements required by an edge are added; the inverse tables are
    the ones the invariants determine (creator/consumers of pairs not joined
    by an edge are recorded or not, by a bit)"""
    U = UNIVERSES[u]
    lazy = nd.bool(p + "lazy")
    vs, fs, inp, out = {}, {}, {}, {}
    for v in U["vars"]:
        if not optional_nodes or nd.bool(p + "node_" + v):
            vs[v] = {h for h in U["refs"] if nd.bool(p + v + "_" + h)}
            inp[v] = {}
            out[v] = {}
    for f in U["funcs"]:
        if not optional_nodes or nd.bool(p + "node_" + f):
            fs[f] = {h for h in U["funcs"][f] if nd.bool(p + f + "_" + h)}
            inp[f] = {}
            out[f] = {}
    for v in U["vars"]:
        for f in U["funcs"]:
            if v in vs and f in fs:
                for l in labels(f, "in"):
                    if nd.bool(p + "e_" + v + "_" + f + "_" + l):
                        out[v].setdefault(l, set()).add(f)
                        inp[f].setdefault(l, set()).add(v)
                        vs[v].update({C[c].inputs[l].hid for c in fs[f]})
                for l in labels(f, "out"):
                    if nd.bool(p + "e_" + f + "_" + v + "_" + l):
                        out[f].setdefault(l, set()).add(v)
                        inp[v].setdefault(l, set()).add(f)
                        vs[v].update({C[c].outputs[l].hid for c in fs[f]})
    return finish_cf(vs, fs, inp, out, lazy)


def finish_cf(vs, fs, inp, out, lazy):
    """derived tables"""
    hs = {h for v in vs for h in vs[v]}
    cs = {c for f in fs for c in fs[f]}
    refs = {h: R[h] for h in R if h in hs}
    calls = {c: C[c] for c in C if c in cs}
    refinv = {h: {v for v in vs if h in vs[v]} for h in refs}
    callinv = {c: {f for f in fs if c in fs[f]} for c in calls}
    creator = {}
    consumers = {}
    for f in fs:
        for c in C:
            if c in fs[f]:
                for l in C[c].outputs:
                    h = C[c].outputs[l].hid
                    if h in refs and (l in out[f] or not lazy):
                        creator[h] = c
                for l in C[c].inputs:
                    h = C[c].inputs[l].hid
                    if h in refs and (l in inp[f] or not lazy):
                        consumers.setdefault(h, set()).add(c)
    return ComputationFrame(storage=None, inp=inp, out=out, vs=vs, fs=fs, refinv=refinv, callinv=callinv, creator=creator, consumers=consumers,
                            refs=refs, calls=calls)


def edge_set(cf):
    return set(cf.edges())


def snap(cf):
    """independent copy of the observable state"""
    return dict(vs={v: set(cf.vs[v]) for v in cf.vs}, fs={f: set(cf.fs[f]) for f in cf.fs}, edges=set(cf.edges()),
                refs=set(cf.refs), calls=set(cf.calls), refinv={h: set(cf.refinv[h]) for h in cf.refinv}, callinv={h: set(cf.callinv[h]) for h in cf.callinv},
                creator=dict(cf.creator), consumers={h: set(cf.consumers[h]) for h in cf.consumers})


def same_snap(a, b):
    return (a["vs"] == b["vs"] and a["fs"] == b["fs"] and a["edges"] == b["edges"] and a["refs"] == b["refs"] and a["calls"] == b["calls"]
            and a["refinv"] == b["refinv"] and a["callinv"] == b["callinv"] and a["creator"] == b["creator"] and a["consumers"] == b["consumers"])


def in_edge_set(cf):
    return {(src, dst, l) for dst in cf.inp for l in cf.inp[dst] for src in cf.inp[dst][l]}


def check_wf(nd, cf, what):
    """the structural invariants of a ComputationFrame"""
    nodes = set(cf.vs) | set(cf.fs)
    nd.check(set(cf.inp) == nodes and set(cf.out) == nodes, what + ": inp/out have exactly the nodes as keys")
    E = edge_set(cf)
    nd.check(E == in_edge_set(cf), what + ": inp and out describe the same edges")
    nd.check(all(s in nodes and d in nodes for s, d, l in E), what + ": edges join existing nodes")
    hs = {h for v in cf.vs for h in cf.vs[v]}
    cs = {c for f in cf.fs for c in cf.fs[f]}
    nd.check(hs == set(cf.refs), what + ": refs are exactly the refs of the variables")
    nd.check(cs == set(cf.calls), what + ": calls are exactly the calls of the function nodes")
    nd.check(all(cf.refs[h].hid == h for h in cf.refs) and all(cf.calls[c].hid == c for c in cf.calls), what + ": objects filed under their ids")
    nd.check(cf.refinv == {h: {v for v in cf.vs if h in cf.vs[v]} for h in cf.refs}, what + ": refinv is the inverse of vs")
    nd.check(cf.callinv == {c: {f for f in cf.fs if c in cf.fs[f]} for c in cf.calls}, what + ": callinv is the inverse of fs")
    for h in R:
        nd.check(not (h in cf.creator) or (h in cf.refs and cf.creator[h] in cf.calls and h in outs_of(cf.creator[h])),
                 what + ": creator entries are calls of the CF producing a ref of the CF")
    for h in R:
        nd.check(not (h in cf.consumers) or (h in cf.refs and all(c in cf.calls and h in ins_of(c) for c in cf.consumers[h])),
                 what + ": consumer entries are calls of the CF consuming a ref of the CF")
    for s, d, l in E:
        if s in cf.vs:
            for c in C:
                if l in C[c].inputs:
                    h = C[c].inputs[l].hid
                    nd.check(not (c in cf.fs[d]) or (h in cf.vs[s] and h in cf.consumers and c in cf.consumers[h]),
                             what + ": inputs of calls are in the variables connected to them")
        else:
            for c in C:
                if l in C[c].outputs:
                    h = C[c].outputs[l].hid
                    nd.check(not (c in cf.fs[s]) or (h in cf.vs[d] and h in cf.creator and cf.creator[h] == c),
                             what + ": outputs of calls are in the variables connected to them")


def check_ends(nd, cf, what):
    """sources/sinks are the variables without incoming/outgoing edges"""
    E = edge_set(cf)
    nd.check(cf.sources == {v for v in cf.vs if not any(d == v for s, d, l in E)}, what + ": sources are the variables without incoming edges")
    nd.check(cf.sinks == {v for v in cf.vs if not any(s == v for s, d, l in E)}, what + ": sinks are the variables without outgoing edges")


def outs_of(c):
    return {r.hid for r in C[c].outputs.values()}


def ins_of(c):
    return {r.hid for r in C[c].inputs.values()}


def tidy(cf):
    """at most one variable at each label of each function node (on both
    sides), so that reached elements determine the other ends"""
    return all(len(cf.inp[f][l]) <= 1 for f in cf.fs for l in cf.inp[f]) and all(len(cf.out[f][l]) <= 1 for f in cf.fs for l in cf.out[f])


def check_tables(nd, cf, what):
    """the tables restrict to the elements (no statement about call inputs and
    outputs being present)"""
    nodes = set(cf.vs) | set(cf.fs)
    nd.check(set(cf.inp) == nodes and set(cf.out) == nodes, what + ": inp/out have exactly the nodes as keys")
    nd.check(edge_set(cf) == in_edge_set(cf), what + ": inp and out describe the same edges")
    nd.check({h for v in cf.vs for h in cf.vs[v]} == set(cf.refs), what + ": refs are exactly the refs of the variables")
    nd.check({c for f in cf.fs for c in cf.fs[f]} == set(cf.calls), what + ": calls are exactly the calls of the function nodes")
    nd.check(cf.refinv == {h: {v for v in cf.vs if h in cf.vs[v]} for h in cf.refs}, what + ": refinv is the inverse of vs")
    nd.check(cf.callinv == {c: {f for f in cf.fs if c in cf.fs[f]} for c in cf.calls}, what + ": callinv is the inverse of fs")
    for h in R:
        nd.check(not (h in cf.creator) or (h in cf.refs and cf.creator[h] in cf.calls and h in outs_of(cf.creator[h])),
                 what + ": creator entries are calls of the CF producing a ref of the CF")
        nd.check(not (h in cf.consumers) or (h in cf.refs and all(c in cf.calls and h in ins_of(c) for c in cf.consumers[h])),
                 what + ": consumer entries are calls of the CF consuming a ref of the CF")
