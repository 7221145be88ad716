"""C12: provenance queries over call graphs."""
from symex.registry import harness
from mandala.model import Call, Op, AtomRef
from mandala.storage_utils import InMemCallStorage, SQLiteCallStorage, CachedCallStorage, DBAdapter
from harness.stlib import *


def use(x):
    return x


def edges(nd, nc, nr):
    """arbitrary: which calls take (in) and give (out) which references, by name"""
    ins, outs = {}, {}
    for i in range(nc):
        c = "c%d" % i
        ins[c] = {"a%d" % j: "r%d" % j for j in range(nr) if nd.bool("%s in r%d" % (c, j))}
        outs[c] = {"b%d" % j: "r%d" % j for j in range(nr) if nd.bool("%s out r%d" % (c, j))}
        nd.assume(len(ins[c]) + len(outs[c]) > 0)
    return ins, outs


def graph_storage(nd, ins, outs, commit):
    """a call storage holding the graph: the in-memory part, the database part"""
    db = DBAdapter(db_path(nd))
    st = CachedCallStorage(SQLiteCallStorage(db, "calls"))
    o = Op("f", use)
    for c in ins:
        st.save(Call(op=o, cid="cid " + c, hid=c,
                     inputs={n: AtomRef("cid " + ins[c][n], ins[c][n], False, None) for n in ins[c]},
                     outputs={n: AtomRef("cid " + outs[c][n], outs[c][n], False, None) for n in outs[c]}))
    with db.conn() as conn:
        st.commit(conn=conn)
    if commit == "reopen":
        return st.cache, SQLiteCallStorage(DBAdapter(db_path(nd)), "calls")
    return st.cache, st.persistent


def closed(start_r, start_c, of_ref, of_call, n):
    """least sets with: a reference brings of_ref(it), a call brings of_call(it)"""
    rs, cs = start_r, start_c
    for _ in range(n):
        cs2 = cs | set([c for r in rs for c in of_ref(r)])
        rs = rs | set([r for c in cs for r in of_call(c)])
        cs = cs2
    return rs, cs


@harness("C12", quick=[dict(nc=3, nr=3)], thorough=[dict(nc=3, nr=4), dict(nc=4, nr=3)],
         bounds="every bipartite graph of nc calls and nr references (also cyclic), every set of references or calls asked for; in memory, in the database")
def direct(nd, nc, nr):
    """creators, consumers, inputs and outputs are those recorded"""
    ins, outs = edges(nd, nc, nr)
    mem, sql = graph_storage(nd, ins, outs, "same")
    rs = set(["r%d" % j for j in range(nr) if nd.bool("ask r%d" % j)])
    cs = set(["c%d" % i for i in range(nc) if nd.bool("ask c%d" % i)])
    for where, st in (("in memory", mem), ("in the database", sql)):
        nd.check(st.get_creator_hids(rs) == set([c for c in ins if any([r in rs for r in outs[c].values()])]), "creators " + where)
        nd.check(st.get_consumer_hids(rs) == set([c for c in ins if any([r in rs for r in ins[c].values()])]), "consumers " + where)
        nd.check(st.get_input_hids(cs) == set([r for c in cs for r in ins[c].values()]), "inputs " + where)
        nd.check(st.get_output_hids(cs) == set([r for c in cs for r in outs[c].values()]), "outputs " + where)


@harness("C12", quick=[dict(nc=3, nr=3, where=w) for w in ("mem", "sql")],
         thorough=[dict(nc=3, nr=4, where=w) for w in ("mem", "sql")],
         bounds="every bipartite graph of nc calls and nr references (also cyclic), every set of references and calls asked for; in memory, in the database")
def transitive(nd, nc, nr, where):
    """dependencies and dependents are the transitive closures of the recorded graph"""
    ins, outs = edges(nd, nc, nr)
    mem, sql = graph_storage(nd, ins, outs, "reopen")
    st = mem if where == "mem" else sql
    rs = set(["r%d" % j for j in range(nr) if nd.bool("ask r%d" % j)])
    cs = set(["c%d" % i for i in range(nc) if nd.bool("ask c%d" % i)])
    exp = closed(rs, cs, lambda r: [c for c in outs if r in outs[c].values()], lambda c: list(ins[c].values()), nc + nr)
    got = st.get_dependencies(rs, cs)
    nd.check(got[0] == exp[0] and got[1] == exp[1], "dependencies")
    exp = closed(rs, cs, lambda r: [c for c in ins if r in ins[c].values()], lambda c: list(outs[c].values()), nc + nr)
    got = st.get_dependents(rs, cs)
    nd.check(got[0] == exp[0] and got[1] == exp[1], "dependents")


HISTORIES = ["inc(x0) / add(r0,x1) / exit",
             "inc(x0) / exit / clear / add(r0,x1) / exit",
             "pair(x0) / exit / clear / add(r0.0,r0.1) / inc(r1) / exit",
             "lst(x0,x1) / exit / clear / sumlist(r0) / inc(r0.1) / exit",
             "inc(x0) / inc(x1) / exit / reopen / add(r0,r1) / exit",
             "dct(x0,x1) / inc(r0.q) / exit / clear / inc(x0) / exit"]


def flat(ref):
    if isinstance(ref, tuple):
        return list(ref)
    return [ref]


@harness("C12", quick=[dict(h=h) for h in HISTORIES],
         bounds="the listed histories of up to 3 calls with arbitrary integers and coincidences; the calls looked up in memory and in the database, each reference's "
                "creators and consumers, each call by identifier in either order")
def answers(nd, h):
    """the calls found for a reference are the recorded ones with their inputs and outputs"""
    H = Hist(nd)
    for s in h.split(" / "):
        H.step(s)
    H.leave()
    st = H.st
    calls = {}
    for hid in st.call_storage.get_df().index.get_level_values(0).unique():
        calls[hid] = st.call_storage.get_data(hid)
    nd.check(all([x in calls for x in H.hids]), "every call is recorded")
    refs = set([r for c in calls for r in list(calls[c]["input_hids"].values()) + list(calls[c]["output_hids"].values())])
    for r in refs:
        same_calls(nd, st.get_creators([r]), calls, [c for c in calls if r in calls[c]["output_hids"].values()], "creators")
        same_calls(nd, st.get_consumers([r]), calls, [c for c in calls if r in calls[c]["input_hids"].values()], "consumers")
    for i in range(len(H.res)):
        for ref in flat(H.res[i][0]):
            c = [c for c in st.get_creators([ref.hid]) if not c.op.__structural__]
            nd.check([x.hid for x in c] == [H.hids[i]], "the call that returned a reference is its creator")
    order = list(H.hids)
    for hids in (order, order[::-1]):
        for lazy in (True, False):
            got = st.mget_call(hids, in_memory=lazy)
            nd.check([c.hid for c in got] == hids, "calls come in the order asked for")
            same_calls(nd, got, calls, hids, "by identifier")


def same_calls(nd, got, calls, hids, what):
    nd.check(set([c.hid for c in got]) == set(hids), "exactly the recorded calls: " + what)
    for c in got:
        d = calls[c.hid]
        nd.check(c.cid == d["cid"] and c.op.name == d["op_name"], "with their identity: " + what)
        nd.check({k: r.hid for k, r in c.inputs.items()} == d["input_hids"] and {k: r.hid for k, r in c.outputs.items()} == d["output_hids"],
                 "with their inputs and outputs: " + what)
        nd.check(all([c.inputs[k].cid == d["input_cids"][k] for k in c.inputs]) and all([c.outputs[k].cid == d["output_cids"][k] for k in c.outputs]),
                 "with their contents: " + what)
