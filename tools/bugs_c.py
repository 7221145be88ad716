from bugs_a import MO, ST, SU, UT, SV, DV, VE, DM, DT, DC, DU, HEAD, TAIL
CF = "mandala/cf.py"
BUGS = [
    dict(id="C11-content-found-inputs", property="C11",
         edits=[(ST, "            for k, v in call_prototype.inputs.items():\n                v.hid = inputs[k].hid\n", "            for k, v in call_prototype.inputs.items():\n                v.hid = inputs[k].hid if isinstance(v, AtomRef) else v.hid\n")],
         needs="a call on a collection that is found by content (the collection came about in another way)",
         breaks="the recorded call points to the other collection, so its provenance is wrong",
         demo=HEAD + '''
st = Storage(P)
@op
def f(x) -> MList[int]: return [x, x]
@op
def g(x) -> MList[int]: return [x, x]
@op
def s(xs: MList[int]): return sum(xs)
with st:
    a, b = f(1), g(1)
    u, v = s(a), s(b)
assert st.get_ref_creator(v).inputs["xs"].hid == b.hid
''' + TAIL),
    dict(id="C12-shared-shapes", property="C12",
         edits=[(ST, "                return shape.shallow_copy()", "                return shape")],
         needs="a call found by content, after which the first call is looked at again",
         breaks="the first call's references change their history ids, so its provenance is that of the second",
         demo=HEAD + '''
st = Storage(P)
@op
def a(x): return x + 1
@op
def b(x): return x + 1
@op
def g(x): return x * 2
with st:
    y, z = a(1), b(1)
    u, v = g(y), g(z)
c = st.get_ref_creator(u)
assert c.inputs["x"].hid == y.hid and c.outputs["output_0"].hid == u.hid
''' + TAIL),
    dict(id="C25-pointer-keyword", property="C25",
         edits=[(ST, "            kwargs = {k: v.obj if isinstance(v, ValuePointer) else v for k, v in kwargs.items()}  \n", "")],
         needs="a value pointer given to a keyword-only parameter or as an extra keyword argument",
         breaks="the function gets the pointer instead of the value",
         demo=HEAD + '''
st = Storage(P)
@op
def f(x, *, data): return x + data
with st:
    y = f(1, data=ValuePointer("d", 5))
assert st.unwrap(y) == 6
''' + TAIL),
    dict(id="C25-default-not-in-memory", property="C25",
         edits=[(ST, "                    if isinstance(v, Ref) and _conservative_equality_check(safe_value=default_values[k].value, unknown_value=self.unwrap(v)):", "                    if isinstance(v, Ref) and v.in_memory and _conservative_equality_check(safe_value=default_values[k].value, unknown_value=self.unwrap(v)):")],
         needs="a reference (not loaded) to a value equal to the default of the new argument",
         breaks="the call is taken for another one",
         demo=HEAD + '''
@op
def one(): return 5
def mk():
    @op
    def f(x, y=NewArgDefault(5)):
        RAN.append(1)
        return x + y
    return f
f = mk()
st = Storage(P)
with st: f(1); one()
st = Storage(P)
with st: f(1, one())
assert len(RAN) == 1
''' + TAIL),
    dict(id="C15-noop-in-noop", property="C15",
         edits=[(ST, "        res = storage(mode='noop')\n        return res.__enter__()", "        if storage.mode == 'noop':\n            return storage # nothing to change\n        res = storage(mode='noop')\n        return res.__enter__()")],
         needs="`noop` inside `noop`", breaks="leaving the inner one ends the outer one",
         demo=HEAD + '''
from mandala.storage import noop
st = Storage(P)
@op
def f(x): return x + 1
with st:
    with noop():
        with noop(): assert f(1) == 2
        assert f(1) == 2
''' + TAIL),
    dict(id="C23-name-prefix", property="C23",
         edits=[(CF, "                    elif self.ops()[fname].name == op_id:", "                    elif self.ops()[fname].name.startswith(op_id):")],
         needs="expanding over a function whose name starts the name of another one in the frame",
         breaks="its calls end up in the other function's node",
         demo=HEAD + '''
st = Storage(P)
@op
def inc(x): return x + 1
@op
def inc_twice(x): return x + 2
with st: y = inc_twice(1); z = inc(y)
cf = st.cf(inc_twice).expand_forward()
assert all(len({cf.calls[h].op.name for h in hs}) == 1 for hs in cf.fs.values()), cf.fs
''' + TAIL),
    dict(id="C20-shared-call", property="C20",
         edits=[(CF, "                if self.creator.get(output.hid) == hid:\n                    del self.creator[output.hid]" if False else "            for inp in call.inputs.values():\n                if hid in self.consumers.get(inp.hid, ()):\n                    self.consumers[inp.hid].remove(hid)", "            for inp in list(call.inputs.values())[:1]:\n                if hid in self.consumers.get(inp.hid, ()):\n                    self.consumers[inp.hid].remove(hid)")],
         needs="dropping a call with two inputs", breaks="the second input keeps the call as its consumer",
         demo=HEAD + '''
st = Storage(P)
@op
def f(x, y): return x + y
with st: y = f(1, 2)
cf = st.cf(f)
cf2 = cf.drop_func("f")
assert not any(cf2.consumers.values()), cf2.consumers
''' + TAIL),
    dict(id="C18-own-code-only", property="C18",
         edits=[(DV, "                ) in referenced_version.content_expansion.items():\n                    result[referenced_dep_key].update(referenced_content_hashes)", "                ) in referenced_version.direct_deps_commits.items():\n                    result[referenced_dep_key].add(referenced_content_hashes)")],
         needs="a memoized function calling a memoized function calling a third, whose dependencies change",
         breaks="changes two memoized calls away are not noticed: stale results are returned",
         demo='''
from mandala.deps.deep_versions import *
from mandala.deps.shallow_versions import DAG
def dag(s):
    d = DAG(); d.init(s); return d
K = [("m", n) for n in "abcg"]
dags = {k: dag(k[1]) for k in K}
H = {k: dags[k].head for k in K}
c = Version(K[2], {K[2]: H[K[2]], K[3]: H[K[3]]}, {})
c.sync(dags, {}); 
b = Version(K[1], {K[1]: H[K[1]]}, {K[2]: {c.content_version}})
vs = {K[2]: {c.content_version: c}}
b.sync(dags, vs); vs[K[1]] = {b.content_version: b}
a = Version(K[0], {K[0]: H[K[0]]}, {K[1]: {b.content_version}})
a.sync(dags, vs)
assert set(a.support) == set(K), a.support
'''),
    dict(id="C22-difference-shared", property="C22",
         edits=[(CF, "PLACEHOLDER", "")], needs="", breaks="", demo=""),
]
BUGS = [b for b in BUGS if b["id"] != "C22-difference-shared"]
