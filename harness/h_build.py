"""C30: frames are built to show exactly what was asked for"""
from symex.registry import harness
from harness.stlib import *
from mandala.cf import ComputationFrame
from mandala.model import __make_list__, __list_getitem__, __make_dict__, __dict_getitem__


@op
def own(own):
    """a parameter with the function's name"""
    return own + 1


@op(output_names=["nxt", "tot"])
def tot(x):
    """an output with the function's name, the other with another function's"""
    return x + 2, x + 3


@op(output_names=["inc"])
def nxt(own):
    return own + 4


@op
def var_0(tot_1, tot_2=3):
    return tot_1 - tot_2


@op
def many(*xs, **kw):
    return sum(xs) + sum(kw.values())


def p_many(*xs, **kw): return sum(xs) + sum(kw.values())
def p_own(own): return own + 1
def p_tot(x): return (x + 2, x + 3)
def p_nxt(own): return own + 4
def p_var_0(tot_1, tot_2=3): return tot_1 - tot_2


OPS.update(own=own, tot=tot, nxt=nxt, var_0=var_0, many=many)
PURE.update(own=p_own, tot=p_tot, nxt=p_nxt, var_0=p_var_0, many=p_many)
BUILTINS = {o.name: o for o in (__make_list__, __list_getitem__, __make_dict__, __dict_getitem__)}


def lab(k, name):
    return "elts" if name == "__make_list__" and k.startswith("elts_") else k


def consistent(nd, cf, calls, what):
    """the frame's tables agree with one another and with the recorded calls"""
    nd.check(len([n for n in cf.vs if n in cf.fs]) == 0, what + ": variables and functions have different names")
    nodes = set(cf.vs) | set(cf.fs)
    nd.check(set(cf.inp) == nodes and set(cf.out) == nodes, what + ": edges are kept for exactly the nodes")
    E = set(cf.edges())
    nd.check(E == {(s, d, l) for d in cf.inp for l in cf.inp[d] for s in cf.inp[d][l]}, what + ": both directions have the same edges")
    nd.check(all((s in cf.vs and d in cf.fs) or (s in cf.fs and d in cf.vs) for s, d, l in E), what + ": edges join variables and functions")
    nd.check({h for v in cf.vs for h in cf.vs[v]} == set(cf.refs), what + ": the references are those of the variables")
    nd.check({c for f in cf.fs for c in cf.fs[f]} == set(cf.calls), what + ": the calls are those of the functions")
    nd.check(cf.refinv == {h: {v for v in cf.vs if h in cf.vs[v]} for h in cf.refs}, what + ": where references are")
    nd.check(cf.callinv == {c: {f for f in cf.fs if c in cf.fs[f]} for c in cf.calls}, what + ": where calls are")
    for f in cf.fs:
        nd.check(len({calls[c]["op_name"] for c in cf.fs[f]}) <= 1, what + ": a function node has the calls of one function")
        for c in cf.fs[f]:
            call, d = cf.calls[c], calls[c]
            nd.check({k: r.hid for k, r in call.inputs.items()} == d["input_hids"] and {k: r.hid for k, r in call.outputs.items()} == d["output_hids"],
                     what + ": the calls are the recorded ones")
            for refs, edges in ((call.inputs, cf.inp[f]), (call.outputs, cf.out[f])):
                for k in refs:
                    for v in edges.get(lab(k, d["op_name"]), ()):
                        nd.check(refs[k].hid in cf.vs[v], what + ": their references are in the variables connected to them")
            for k, r in call.outputs.items():
                if len(cf.out[f].get(k, ())) > 0:
                    nd.check(cf.creator.get(r.hid) == c, what + ": outputs have their creator")
            for k, r in call.inputs.items():
                if len(cf.inp[f].get(lab(k, d["op_name"]), ())) > 0:
                    nd.check(c in cf.consumers.get(r.hid, ()), what + ": inputs have their consumer")
    nd.check(all(r in calls[c]["output_hids"].values() for r, c in cf.creator.items()), what + ": only true creators")
    nd.check(all(r in calls[c]["input_hids"].values() for r in cf.consumers for c in cf.consumers[r]), what + ": only true consumers")


def recorded(st):
    calls = {}
    for hid in st.call_storage.get_df().index.get_level_values(0).unique():
        calls[hid] = st.call_storage.get_data(hid)
    return calls


HISTORIES = ["inc(x0) / inc(x1) / add(r0,r1) / add(x0,x1)",
             "pair(x0) / inc(r0.0) / named(r0.1) / pair(x1)",
             "lst(x0,x1) / sumlist(r0) / sumlist([x1;r1])",
             "dct(x0,x1) / dct(x1,x1) / inc(r0.q)",
             "own(x0) / tot(r0) / nxt(r1.0) / var_0(r1.1) / var_0(x1,r0) / inc(r2)",
             "many(x0,x1) / many(x1,a=x0) / many(r0) / many()"]


@harness("C30", quick=[dict(h=h, late=l) for h in HISTORIES for l in (False, True)],
         bounds="the listed histories of up to 6 calls with arbitrary integers and coincidences (nine functions, some with parameters and outputs named like functions), in the same session or a later one")
def of_function(nd, h, late):
    """the frame of a function shows its recorded calls"""
    H = Hist(nd)
    H.once = False
    H.run(h + (" / reopen" if late else ""))
    st = H.st
    calls = recorded(st)
    for name in sorted({d["op_name"] for d in calls.values()}):
        o = OPS[name] if name in OPS else BUILTINS[name]
        cf = st.cf(o)
        mine = [c for c in calls if calls[c]["op_name"] == name]
        nd.check(set(cf.calls) == set(mine), "exactly the recorded calls of the function")
        nd.check(len(cf.fs) == 1, "one function node")
        f = list(cf.fs)[0]
        nd.check(f == name, "named like the function")
        consistent(nd, cf, calls, "of a function")
        ins = {lab(k, name) for c in mine for k in calls[c]["input_hids"]}
        outs = {k for c in mine for k in calls[c]["output_hids"]}
        nd.check(set(cf.inp[f]) == ins and set(cf.out[f]) == outs, "an edge for every input and output")
        if name != "__make_list__":
            nd.check(len(cf.vs) == len(ins) + len(outs) and len(cf.edges()) == len(cf.vs), "a variable for every input and output")
        for k in ins:
            for v in cf.inp[f][k]:
                nd.check(cf.vs[v] == {r for c in mine for l, r in calls[c]["input_hids"].items() if lab(l, name) == k}, "a variable has the values of its input")
                nd.check(k not in OPS and v == k or k in OPS or k in outs or name == "__make_list__" or k[-1].isdigit(), "named like the input, if the name is free")
        for k in outs:
            for v in cf.out[f][k]:
                nd.check(cf.vs[v] == {r for c in mine for l, r in calls[c]["output_hids"].items() if l == k}, "a variable has the values of its output")


@harness("C30", quick=[dict(h=h, give=g) for h in HISTORIES for g in ((), (0, 0, -1), (0, 1, 2, 1))],
         bounds="the listed histories; frames of the results of the calls (given as one reference, a list of some of them, with repetitions, or of their history ids, or a dictionary of variables)")
def of_references(nd, h, give):
    """the frame of references has just these references"""
    H = Hist(nd)
    H.once = False
    H.run(h)
    st = H.st
    calls = recorded(st)
    refs = [r for res, _ in H.res for r in (res if isinstance(res, tuple) else (res,))]
    given = [refs[i] for i in give]
    a, b = given[1:], given[:2]
    want = {r.hid for r in given}
    for what, src in (("list", given), ("iterator", iter(given)), ("tuple", tuple(given)), ("ids", [r.hid for r in given])):
        cf = st.cf(src)
        nd.check(len(cf.vs) == 1 and len(cf.fs) == 0 and not cf.edges(), what + ": one variable")
        nd.check(cf.vs[list(cf.vs)[0]] == want and set(cf.refs) == want, what + ": has the references")
        consistent(nd, cf, calls, what)
        vals = {h: st.unwrap(r) for h, r in cf.refs.items()}
        nd.check(all(vals[r.hid] == st.unwrap(r) for r in given), what + ": with their values")
    cf = st.cf(refs[0])
    nd.check(set(cf.refs) == {refs[0].hid} and len(cf.vs) == 1 and not cf.fs, "one: just that")
    consistent(nd, cf, calls, "one")
    d = {"first": refs[0], "inc": list(a), "own": tuple(b)}
    cf = st.cf(d)
    nd.check(set(d) == {"first", "inc", "own"} and d["first"] is refs[0] and d["inc"] == a and d["own"] == tuple(b), "dictionary: stays as it was")
    nd.check(cf.vs == {"first": {refs[0].hid}, "inc": {r.hid for r in a}, "own": {r.hid for r in b}} and not cf.fs, "dictionary: the variables asked for")
    consistent(nd, cf, calls, "dictionary")
    nd.cover(len(want) < len(given) or len(give) == 0, "repetitions")


@harness("C30", quick=[dict(h=h, reuse=r, k=k) for h in (HISTORIES[0],) + tuple(HISTORIES[2:5]) for r, k in ((True, 1), (False, 1), (True, 0), (True, 2))
                               if not (h == HISTORIES[2] and (k == 2 or k == 1 and not r))],
         thorough=[dict(h=HISTORIES[2], reuse=False, k=1), dict(h=HISTORIES[2], reuse=False, k=2)],
         bounds="the listed histories; two variables with up to three of the results, expanded both ways; names of functions, parameters, outputs and variables that coincide")
def expanded(nd, h, reuse, k):
    """what is added by expanding gets names of its own"""
    H = Hist(nd)
    H.once = False
    H.run(h)
    st = H.st
    calls = recorded(st)
    refs = [r for res, _ in H.res for r in (res if isinstance(res, tuple) else (res,))][:3]
    cf = st.cf({"tot": refs[:k], "elts": refs[k:]})
    for what in ("back", "forward", "all"):
        res = cf.expand_back(reuse_existing=reuse) if what == "back" else cf.expand_forward(reuse_existing=reuse) if what == "forward" else cf.expand_all(reuse_existing=reuse)
        consistent(nd, res, calls, what)
        nd.check(all(cf.vs[v] <= res.vs[v] for v in cf.vs), what + ": the variables are still there")
        if what != "all":
            side = "output_hids" if what == "back" else "input_hids"
            hids = {r.hid for r in refs}
            nd.check(set(res.calls) == {c for c in calls if set(calls[c][side].values()) & hids}, what + ": the calls next to the references")
            for v in cf.vs:
                for r in cf.vs[v]:
                    for c in calls:
                        for l, x in calls[c][side].items():
                            if x == r:
                                k2 = lab(l, calls[c]["op_name"])
                                nd.check(any([c in res.fs[f] and (v in res.out[f].get(k2, ()) if what == "back" else v in res.inp[f].get(k2, ())) for f in res.fs]),
                                         what + ": every variable is joined to the calls of its references")
