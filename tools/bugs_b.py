from bugs_a import MO, ST, SU, UT, SV, DV, VE, DM, DT, DC, DU, HEAD, TAIL
CF = "mandala/cf.py"
BUGS = [
    dict(id="C13-long-chains", property="C13",
         edits=[(SU, "        while True:\n            calls_upd = self.get_consumer_hids(cur_refs) - calls_result\n", "        for _ in range(5):\n            calls_upd = self.get_consumer_hids(cur_refs) - calls_result\n")],
         needs="dropping the first of a chain of four or more calls",
         breaks="dependents far down the chain are left behind",
         demo=HEAD + '''
st = Storage(P)
@op
def f(x): return x + 1
with st:
    y = f(1)
    first = None
    for i in range(6): y = f(y)
st.drop_calls([st.get_ref_creator(st.cf(f).refs[h]).hid for h in list(st.cf(f).refs) if st.get_ref_creator(st.cf(f).refs[h]) is not None and st.unwrap(st.cf(f).refs[h]) == 2], delete_dependents=True)
assert len(st.call_storage.get_df()) == 0, st.call_storage.get_df()
''' + TAIL),
    dict(id="C14-elements-unheld", property="C14",
         edits=[(ST, "        return (all_cids - set(cids_in_calls)) - set(cids_in_shapes)", "        return all_cids - set(cids_in_calls)")],
         needs="cleaning up after the structural calls of a list still in use were dropped",
         breaks="the values of the list's elements are deleted",
         demo=HEAD + '''
st = Storage(P)
@op
def f(x) -> MList[int]: return [x + 5, x + 7]
with st:
    ys = f(1)
hids = list(st.call_storage.execute_df("SELECT DISTINCT call_history_id h FROM calls WHERE substr(op, 1, 2) = '__'")["h"])
st.drop_calls(hids, delete_dependents=False)
st.cleanup_refs()
st = Storage(P)
with st:
    ys = f(1)
assert st.unwrap(ys) == [6, 8]
''' + TAIL),
    dict(id="C10-repeats", property="C10",
         edits=[(ST, "            for i, elt in enumerate(shape):\n                obj.append(self.load_ref(elt.hid, in_memory=in_memory))", "            loaded = {}\n            for elt in shape:\n                if elt.cid not in loaded:\n                    loaded[elt.cid] = self.load_ref(elt.hid, in_memory=in_memory)\n                    obj.append(loaded[elt.cid])")],
         needs="a list with equal elements, loaded in a later session",
         breaks="the repeated elements are lost",
         demo=HEAD + '''
@op
def f(x) -> MList[int]: return [x, 3, x]
st = Storage(P)
with st: f(1)
st = Storage(P)
with st: ys = f(1)
assert st.unwrap(ys) == [1, 3, 1]
''' + TAIL),
    dict(id="C17-two-edits", property="C17",
         edits=[(SV, "            semantic_hash = head_commit.semantic_hash", "            semantic_hash = head_commit.content_hash")],
         needs="two edits in a row that do not change the behaviour",
         breaks="the second leaves the class of the first version",
         demo='''
from mandala.deps.shallow_versions import DAG
d = DAG(); d.init("a"); d.commit("b", False); d.commit("c", False)
assert len({c.semantic_hash for c in d.commits.values()}) == 1
'''),
    dict(id="C19-shared-global", property="C19",
         edits=[(DT, "        self.graph.add_edge(calling_node, node)\n\n    def register_return", "        if node.key in self.graph.nodes:\n            return # already tracked\n        self.graph.add_edge(calling_node, node)\n\n    def register_return")],
         needs="two functions reading the same global variable during one call",
         breaks="the second function's dependence on it is not recorded",
         demo=HEAD + '''
from mandala.deps.tracers.dec_impl import DecTracer, track
G = 5
@track
def f(): return G + 1
@track
def g(): return f() + G
from pathlib import Path
t = DecTracer(paths=[Path(__file__).parent])
with t:
    g()
edges = {(a[1], b[1]) for a, b in t.graph.edges}
assert ("f", "G") in edges and ("g", "G") in edges, edges
''' + TAIL),
    dict(id="C29-callable-classes", property="C29",
         edits=[(DC, "            for k in obj.__dict__.keys():\n                v = obj.__dict__[k]\n", "            for k in obj.__dict__.keys():\n                v = obj.__dict__[k]\n                if k.startswith(\"__\") and k != \"__init__\":\n                    continue\n")],
         needs="a class with special methods",
         breaks="their code is not versioned",
         demo=HEAD + '''
from mandala.deps.crawler import crawl_static
class A:
    def __init__(self): pass
    def __call__(self): return 1
res, _ = crawl_static(None, strict=True, include_methods=True)
assert ("__main__", "A.__call__") in res, res
''' + TAIL),
    dict(id="C28-one-function-node", property="C28",
         edits=[(CF, "            for creator_fname in creator_fnames:\n                if include_calls:", "            for creator_fname in sorted(creator_fnames)[:1]:\n                if include_calls:")],
         needs="a frame in which one call is in two function nodes with the same output variable",
         breaks="the history through the second node is missing from the table",
         demo=HEAD + '''
st = Storage()
@op
def f(x): return x + 1
with st: y = f(1)
cf = st.cf(f)
cf._add_func("g"); v = cf._add_var("z")
cf._add_edge("z", "g", "x"); cf._add_edge("g", [o for o in cf.out["f"].values()][0].__iter__().__next__(), "output_0")
for c in list(cf.calls.values()): cf.add_call("g", c, with_refs=True)
df = cf.df(values="refs")
assert "z" in df.columns and "x" in df.columns, df.columns
''' + TAIL),
    dict(id="C12-input-direction", property="C12",
         edits=[(SU, "            f\"SELECT DISTINCT call_history_id FROM {self.table_name} WHERE ref_history_id IN ({','.join('?' for _ in ref_hids)}) AND direction = 'in'\",", "            f\"SELECT DISTINCT call_history_id FROM {self.table_name} WHERE ref_history_id IN ({','.join('?' for _ in ref_hids)}) AND name NOT LIKE 'out%'\",")],
         needs="a function whose parameter is named like output_0, or whose outputs are named",
         breaks="consumers are missing or creators listed among them",
         demo=HEAD + '''
st = Storage(P)
@op
def f(outer): return outer + 1
with st: y = f(1)
st = Storage(P)
r = [r for r in st.cf(f).refs.values() if st.unwrap(r) == 1][0]
assert len(st.get_consumers([r.hid])) == 1
''' + TAIL),
    dict(id="C12-row-order", property="C12",
         edits=[(SU, "        return [call_data[hid] for hid in call_hids]", "        return list(call_data.values())")],
         needs="asking for several persisted calls not in their order in the table, or for one twice",
         breaks="the calls come back in another order, and get mixed up",
         demo=HEAD + '''
st = Storage(P)
@op
def f(x): return x
with st:
    rs = [f(i) for i in range(5)]
hids = [st.get_ref_creator(r).hid for r in rs]
st = Storage(P)
for hs in (hids, hids[::-1], [hids[0], hids[0]]):
    assert [c.hid for c in st.mget_call(hs, in_memory=True)] == hs
''' + TAIL),
    dict(id="C05-set-again", property="C05",
         edits=[(SU, "            self.cache[key] = value\n            return value\n\n    def set(self, key: str, value: Any) -> None:\n        self.cache[key] = value", "            self.cache[key] = value\n            return value\n\n    def set(self, key: str, value: Any) -> None:\n        if key in self.cache and key not in self.dirty_keys:\n            return # already stored\n        self.cache[key] = value")],
         needs="setting again a key whose committed value is in the cache", breaks="the new value is ignored",
         demo=HEAD + '''
from mandala.storage_utils import *
s = CachedDictStorage(SQLiteDictStorage(DBAdapter(P), "t"))
s.set("k", 1); s.commit(); s.set("k", 2); s.commit()
assert s.get("k") == 2 and s.persistent.get("k") == 2
''' + TAIL),
]
