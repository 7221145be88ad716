CF, UT = "mandala/cf.py", "mandala/utils.py"
FRAME = '''
from mandala.imports import *
from mandala.cf import ComputationFrame
storage = Storage()
@op
def f(a): return a + 1
@op
def g(a, b): return a * b
'''
BUGS = [
    dict(id="C24-scc-cross-edges", property="C24", edits=[(UT, "            elif on_stack[neighbor]:", "            else:")],
         needs="a graph in which the search meets an edge into a component that is already finished (a cross edge)",
         breaks="nodes are merged into / split from the wrong strongly connected component",
         demo='''
from mandala.utils import find_strongly_connected_components as scc
import itertools
N = "abc"
for bits in itertools.product([0, 1], repeat=6):
    pairs = [(x, y) for x in N for y in N if x != y]
    g = {n: set() for n in N}
    for b, (x, y) in zip(bits, pairs):
        if b: g[x].add(y)
    def reach(x):
        s, st = {x}, [x]
        while st:
            for y in g[st.pop()]:
                if y not in s: s.add(y); st.append(y)
        return s
    want = {tuple(sorted(y for y in N if y in reach(x) and x in reach(y))) for x in N}
    assert set(scc(g)) == want, (g, scc(g))
'''),
    dict(id="C22-union-refinv", property="C22", edits=[(CF, "        refinv = get_setdict_union(a.refinv, b.refinv)\n        callinv = get_setdict_union(a.callinv, b.callinv)\n        #!", "        refinv = get_dict_union_over_keys(a.refinv, b.refinv)\n        callinv = get_setdict_union(a.callinv, b.callinv)\n        #!")],
         needs="a union of two frames that hold the same ref under different variable names",
         breaks="the inverse table misses the second variable, and shares its sets with the operand",
         demo=FRAME + '''
with storage:
    y = f(1)
a = storage.cf(y)
b = a.rename(vars={a.vnames.copy().pop(): "other"})
u = a | b
h = y.hid
assert u.refinv[h] == {v for v in u.vs if h in u.vs[v]}, (u.refinv, u.vs)
'''),
    dict(id="C21-strong-disconnected", property="C21", edits=[(CF, "if total_names_to_find == 0 and call_hid not in result.get(fname, set()):", "if total_names_to_find == 0 and direction == 'forward' and call_hid not in result.get(fname, set()):")],
         needs="strong reachability backwards in a frame with a function none of whose outputs are in the frame",
         breaks="calls that nothing leads to are reported reachable from everywhere, and their inputs with them",
         demo=FRAME + '''
with storage:
    y = f(1)
    z = g(2, y)
a = storage.cf(y).expand_back()
n = [v for v in a.vnames if v in a.sinks][0]
b = a.drop(nodes=[n])   # f stays, without output variable
x = list(b.vnames)[0]
got = b.get_reachable_elts(initial_state={x: set()}, direction="back", how="strong")
assert all(len(v) == 0 for v in got.values()), got
'''),
    dict(id="C20-drop-ref-consumers", property="C20", edits=[(CF, """            if hid in self.consumers:
                del self.consumers[hid]
        else:  # if""", """            elif hid in self.consumers:
                del self.consumers[hid]
        else:  # if""")],
         needs="dropping a variable whose refs are both produced and consumed by calls of the frame",
         breaks="the consumer table keeps an entry for a ref that is no longer in the frame",
         demo=FRAME + '''
with storage:
    y = f(1)
    z = f(y)
a = storage.cf(z).expand_back(recursive=True)
b = a.drop(nodes=[v for v in a.vnames if y.hid in a.vs[v]])
assert set(b.consumers) <= set(b.refs), (set(b.consumers), set(b.refs))
'''),
]
