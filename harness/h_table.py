"""C28: the tabular view of a frame."""
from symex.registry import harness
from mandala.model import RefCollection, CallCollection
from harness.cflib import *
from harness.h_cfsel import ref_adjacent

B1 = "every well-formed frame over universe u of harness/cflib.py (element sets of the nodes, edges and recorded creators/consumers free)"


def history(cf, v, h):
    """everything in the frame that element h of variable v was computed from:
    pairs (node, element), following the edges"""
    E = edge_set(cf)
    got = {(v, h)}
    for step in range(4):
        new = set()
        for n, e in got:
            for s, d, l in E:
                if d == n:
                    if n in cf.fs:
                        if l in C[e].inputs:
                            new.add((s, C[e].inputs[l].hid))
                    else:
                        for c in C:
                            if c in cf.fs[s] and l in C[c].outputs and C[c].outputs[l].hid == e:
                                new.add((s, c))
        got = got | new
    return got


def asmap(hist, nodes):
    return {n: {e for m, e in hist if m == n} for n in nodes if any([m == n for m, e in hist])}


@harness("C28", quick=[dict(u="small"), dict(u="loop"), dict(u="twin")], thorough=[dict(u="two"), dict(u="chain")],
         bounds=B1 + "; every variable and element")
def total_history(nd, u):
    """the history of an element is what it was computed from, all of it"""
    cf = sym_cf(nd, u)
    U = UNIVERSES[u]
    before = snap(cf)
    v = nd.choice("v", U["vars"])
    h = nd.choice("h", U["refs"])
    nd.assume(h in cf.vs[v])
    calls = nd.bool("calls")
    res = cf.get_total_history(v, {h}, include_calls=calls)
    want = asmap(history(cf, v, h), list(cf.vs) + (list(cf.fs) if calls else []))
    nd.check({n: set(res[n]) for n in res} == want, "exactly what the element was computed from")
    nd.check(same_snap(snap(cf), before), "asking leaves the frame unchanged")
    nd.cover(len(want) > 2 and calls, "a history with a call")


# ------------------------------------------------------------------ tables

def canon(x):
    """ids of what a cell holds, None if nothing"""
    if isinstance(x, (set, frozenset)):
        return tuple(sorted([e.hid for e in x]))
    if isinstance(x, RefCollection):
        return tuple([r.hid for r in x.refs])
    if isinstance(x, CallCollection):
        return tuple([c.hid for c in x.calls])
    if x is None or isinstance(x, float):
        return None
    return (x.hid,)


def cells(df):
    cols = list(df.columns)
    rows = []
    for r in df.values.tolist():
        rows.append({c: canon(x) for c, x in zip(cols, r)})
    return rows


def expected_row(cf, v, h, calls):
    m = asmap(history(cf, v, h), list(cf.vs) + (list(cf.fs) if calls else []))
    return {n: tuple(sorted(m[n])) for n in m}


def same(row, want):
    return all([row[c] == (want[c] if c in want else None) for c in row]) and all([c in row for c in want])


def extends(row, want):
    return all([c in row and row[c] == want[c] for c in want])


@harness("C28", quick=[dict(u="small"), dict(u="loop")], thorough=[dict(u="two"), dict(u="twin"), dict(u="chain")],
         bounds=B1 + "; every variable")
def single_history(nd, u):
    """one row for each element of the variable: its history"""
    cf = sym_cf(nd, u)
    U = UNIVERSES[u]
    v = nd.choice("v", U["vars"])
    calls = nd.bool("calls")
    rows = cells(cf.get_history_df(v, include_calls=calls))
    nd.check(len(rows) == len(cf.vs[v]), "as many rows as elements")
    for h in U["refs"]:
        if h in cf.vs[v]:
            want = expected_row(cf, v, h, calls)
            nd.check(any([same(r, want) for r in rows]), "the row of each element is its history")
    nd.cover(len(rows) > 1, "two rows")


SHAPES = {
    "line": ("small", "x a f, f output_0 y", "x", "y"),
    "cycle": ("loop", "x a f, f output_0 x, f output_0 y", "x", "y"),
    "cycle2": ("loop", "x a f, y a f, f output_0 y", "x", "y"),
    "twin": ("twin", "x a f, f output_0 y, x a f_0, f_0 output_0 y", "x", "y"),
    "two": ("two", "x a f, f output_0 y, x b g, y a g, g output_0 z", "y", "z", {"x": ["r0", "s0"], "y": ["s0", "s1"], "z": ["t0", "s1"]}),
    "fork": ("two", "x a f, f output_0 y, x b g, g output_0 z", "y", "z", {"x": ["r0"], "y": ["s1"], "z": ["t0", "s1"]}),
    "chain": ("chain", "x a f, f output_0 y, x b g, y a g, g output_0 z, y a f", "y", "z", {"x": ["r0", "u0"], "y": ["s0", "u0"], "z": ["t0"]}),
}


def shaped_cf(nd, shape):
    """the frames with the given edges, and any elements"""
    u, edges, a, b = SHAPES[shape][:4]
    U = UNIVERSES[u]
    free = SHAPES[shape][4] if len(SHAPES[shape]) > 4 else {v: U["refs"] for v in U["vars"]}
    vs = {v: {h for h in free[v] if nd.bool(v + "_" + h)} for v in U["vars"]}
    fs = {f: {h for h in U["funcs"][f] if nd.bool(f + "_" + h)} for f in U["funcs"]}
    inp = {n: {} for n in list(vs) + list(fs)}
    out = {n: {} for n in list(vs) + list(fs)}
    for e in edges.split(", "):
        s, l, d = e.split(" ")
        out[s].setdefault(l, set()).add(d)
        inp[d].setdefault(l, set()).add(s)
        if s in vs:
            vs[s].update({C[c].inputs[l].hid for c in fs[d]})
        else:
            vs[d].update({C[c].outputs[l].hid for c in fs[s]})
    return finish_cf(vs, fs, inp, out, False), U, a, b


@harness("C28", quick=[dict(s="line"), dict(s="cycle2"), dict(s="fork")], thorough=[dict(s="cycle"), dict(s="twin"), dict(s="two"), dict(s="chain")],
         bounds="frames of shape s of harness/h_table.py with any elements; two variables, both ways of joining")
def joint(nd, s):
    """rows join compatible histories, and lose none"""
    cf, U, a, b = shaped_cf(nd, s)
    how = nd.choice("how", ["inner", "outer"])
    ha = {h: expected_row(cf, a, h, True) for h in R if h in cf.vs[a]}
    hb = {h: expected_row(cf, b, h, True) for h in R if h in cf.vs[b]}
    ca = {c for h in ha for c in ha[h]}
    cb = {c for h in hb for c in hb[h]}
    shared = [c for c in list(cf.vs) + list(cf.fs) if c in ca and c in cb]
    nd.assume(len(shared) > 0)
    rows = cells(cf.get_joint_history_df([a, b], how=how))
    for row in rows:
        alone = [h for h in ha if same(row, ha[h])] + [h for h in hb if same(row, hb[h])]
        both = [(h, k) for h in ha for k in hb if extends(row, ha[h]) and extends(row, hb[k]) and all([row[c] is None or c in ha[h] or c in hb[k] for c in row])]
        nd.check(len(both) > 0 or (how == "outer" and len(alone) > 0), "every row is the history of one element, or of two with the same history where they share it")
    for h in ha:
        for k in hb:
            if all([(ha[h][c] if c in ha[h] else None) == (hb[k][c] if c in hb[k] else None) for c in shared]):
                nd.check(any([extends(row, ha[h]) and extends(row, hb[k]) for row in rows]), "elements with the same shared history are in one row")
    if how == "outer":
        for h in ha:
            nd.check(any([extends(row, ha[h]) for row in rows]), "no element of the first is lost")
        for k in hb:
            nd.check(any([extends(row, hb[k]) for row in rows]), "no element of the second is lost")
    nd.cover(len(rows) > 1, "several rows")


def unions(hs):
    """all unions of histories of at most one element of each variable, that
    agree where they overlap"""
    out = [{}]
    for h in hs:
        new = list(out)
        for row in out:
            for k in h:
                if all([row[c] == k[c] for c in k if c in row]):
                    m = dict(row)
                    m.update(k)
                    new.append(m)
        out = new
    return out


@harness("C28", quick=[dict(s="line"), dict(s="cycle2"), dict(s="fork")], thorough=[dict(s="two"), dict(s="cycle"), dict(s="twin"), dict(s="chain")],
         bounds="frames of shape s of harness/h_table.py with any elements; any two or three nodes or all of them, with and without calls, both ways of joining")
def table(nd, s):
    """the table of the values computed on paths between the chosen nodes"""
    cf, U, a, b = shaped_cf(nd, s)
    before = snap(cf)
    names = list(U["vars"]) + list(U["funcs"])
    nodes = nd.choice("nodes", [[a, b], [b, a], names, []] + ([["x", "z"], ["x", "y", "z"]] if "z" in names else []))
    calls = nd.bool("calls")
    part = cf.midstream(*(nodes if nodes else names))
    ends = {}
    for v in part.vs:
        ends[v] = [h for h in R if h in part.vs[v] and not any([src == v and any([c in part.fs[d] and l in C[c].inputs and C[c].inputs[l].hid == h for c in C]) for src, d, l in edge_set(part)])]
    nd.assume(any([len(ends[v]) > 0 for v in ends]))
    final = [v for v in part.vs if len(ends[v]) > 0]
    hist = {v: {h: expected_row(part, v, h, True) for h in R if h in part.vs[v]} for v in final}
    try:
        df = cf.df(*nodes, values="refs", include_calls=calls)
        done = True
    except IndexError:
        done = False
    seen = [{c for h in hist[v] for c in hist[v][h]} for v in final]
    if all([any([c in a and c in b for c in names]) for a in seen for b in seen]):
        nd.check(done, "there is a table")
    else:
        nd.finding("C28-nothing-shared", done, "no table of values whose histories have nothing in common")
    nd.assume(done)
    cols = [n for n in (nodes if nodes else names) if calls or n in U["vars"]]
    rows = cells(df)
    nd.check(all([c in cols for c in df.columns]), "only the chosen columns")
    nd.check(same_snap(snap(cf), before), "the frame is left as it was")
    show = {v: {h: {c: hist[v][h][c] for c in hist[v][h] if c in cols} for h in hist[v]} for v in final}
    for v in final:
        for h in ends[v]:
            nd.check(any([extends(row, show[v][h]) for row in rows]), "every final value is there with its history")
    ok = [{c: m[c] for c in m if c in cols} for m in unions([list(hist[v].values()) for v in final])]
    for row in rows:
        nd.check(any([same(row, m) if all([c in row for c in m]) else False for m in ok]), "every row is the joint history of values")
    nd.cover(len(rows) > 1, "several rows")


# ------------------------------------------------------------------ values

from harness.stlib import *



def raw_rows(case, x):
    if case == "inc":
        return ["x", "var_0"], [(x["x0"], x["x0"] + 1), (x["x1"], x["x1"] + 1)]
    if case == "add":
        return ["x", "y", "var_0"], [(x["x0"], x["x1"], x["x0"] + x["x1"]), (x["x1"], x["x2"], x["x1"] + x["x2"])]
    if case == "chain":
        return ["x_0", "x", "y", "var_0"], [(x["x0"], x["x0"] + 1, x["x1"], x["x0"] + 1 + x["x1"])]
    if case == "fan":
        return ["x", "var_0"], [(x["x0"], x["x0"] + 1), (x["x0"] + 1, x["x0"] + 2), (x["x1"], x["x1"] + 1)]
    if case == "pair":
        return ["x", "var_0", "var_1"], [(x["x0"], x["x0"], x["x0"] + 1), (x["x1"], x["x1"], x["x1"] + 1)]
    return ["x", "y", "var_0"], [(x["x0"], 5, x["x0"] * 2 + 5), (x["x0"], x["x1"], x["x0"] * 2 + x["x1"])]


VALUES = {"inc": ("inc(x0) / inc(x1)", "inc"), "add": ("add(x0,x1) / add(x1,x2)", "add"), "chain": ("inc(x0) / add(r0,x1)", "add"),
          "fan": ("inc(x0) / inc(r0) / inc(x1)", "inc"), "pair": ("pair(x0) / exit / pair(x1)", "pair"), "dflt": ("dflt(x0) / dflt(x0,x1)", "dflt")}


@harness("C28", quick=[dict(case=c) for c in VALUES], bounds="the listed histories; all integer arguments and coincidences")
def values(nd, case):
    """the table of a memoized function's calls holds the values it was called with and returned"""
    h, last = VALUES[case]
    H = Hist(nd, path=":memory:")
    H.run(h)
    st = H.st
    cf = st.cf(OPS[last])
    if case == "chain":
        nd.assume(H.xs["x0"] != H.xs["x1"])   # one value used twice is one variable
        cf = cf.expand_back(recursive=True)
    nd.obs("vars", sorted(cf.vs))
    df = cf.df(values="objs", include_calls=False)
    nd.obs("cols", sorted(df.columns))
    nd.obs("rows", len(df))
    names, want = raw_rows(case, H.xs)
    nd.check(set(df.columns) == set(names), "one column for each variable")
    got = [tuple([r[n] for n in names]) for r in [dict(zip(list(df.columns), r)) for r in df.values.tolist()]]
    nd.check(all([w in got for w in want]), "every call is there with its values")
    nd.check(all([g in want for g in got]), "and nothing else")
