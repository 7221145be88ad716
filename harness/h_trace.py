"""C19: tracing of dependencies"""
from symex.registry import harness
from pathlib import Path
from mandala.deps.tracers.dec_impl import DecTracer, TracerState
from mandala.deps.model import CallableNode, GlobalVarNode
from harness import traced

M = "harness.traced"
PATHS = [Path(traced.__file__).parent]


class Plan:
    """what the program does, and its own account of who used what"""
    def __init__(self, nd, steps, depth):
        self.nd = nd
        self.steps = steps
        self.depth = depth
        self.used = []
        self.thing = traced.Thing()
        self.inner = traced.Thing.Inner()
        self.helper = traced.plain

    def next(self, who, d, i):
        return self.nd.choice(who + str(d) + str(i), range(7))

    def use(self, who, what):
        if (who, what) not in self.used:
            self.used.append((who, what))


def key(who):
    if who in ("fd", "Base.up"):
        return ("harness.traced2", who)
    if who == "2.ga":
        return ("harness.traced2", "ga")
    return (M, who)


def run(nd, t, name, p):
    failed = False
    with t:
        try:
            traced.PROGRAMS[name](p, 0)
        except ValueError:
            failed = True
    nd.check(TracerState.tracer is None, "the tracer is gone")
    nd.check(len(t.call_stack) == 0, "the call stack is balanced")
    return failed


def edges(p):
    want = set()
    for who, what in p.used:
        want.add((key(who), key(what)))
    return want


def compare(nd, t, roots, p):
    nd.check(set(t.graph.edges) == edges(p), "who used what")
    nodes = set(roots)
    for who, what in p.used:
        nodes.add(key(what))
    nd.check(t.graph.roots == roots, "the roots are the traced functions")
    nd.check(set(t.graph.nodes) == nodes, "all used are in the graph")
    for k in nodes:
        if k[1] == "ga" or k[1] == "gb":
            nd.check(isinstance(t.graph.nodes[k], GlobalVarNode) if k in nodes else True, "globals are globals")


@harness("C19", quick=[dict(name="calls", steps=2), dict(name="methods", steps=2), dict(name="recursion", steps=1)],
         thorough=[dict(name="calls", steps=3), dict(name="methods", steps=3), dict(name="recursion", steps=1, depth=5)],
         bounds="tracked functions and methods of two modules and an untracked helper, each doing up to `steps` arbitrary things in a row (using globals, calling, raising and catching), calls nested up to four deep")
def program(nd, name, steps, depth=3):
    p = Plan(nd, steps, depth)
    t = DecTracer(PATHS)
    failed = run(nd, t, name, p)
    compare(nd, t, {key(traced.ROOTS[name])}, p)
    nd.cover(failed, "raised")
    nd.cover(len(p.used) > 2, "many")



# ------------------------------------------------------------------ memoized functions
from mandala.model import Context
from mandala.storage import Storage
from mandala.config import Config
import mandala.deps.versioner as versioner_module
from harness.stlib import db_path
from harness import plan, traced_ops

O = "harness.traced_ops"
OPS = {"oa": traced_ops.oa, "ob": traced_ops.ob, "oc": traced_ops.oc}
STATIC = {(O, n): CallableNode.from_obj(OPS[n].f, (O, n)) for n in OPS}
STATIC[(O, "hp")] = CallableNode.from_obj(traced_ops.hp.__wrapped__.__wrapped__, (O, "hp"))


def static(root, strict, package_name=None, include_methods=False):
    """stands for crawl_static: the functions of the program"""
    return dict(STATIC), {}


class Boom(Exception):
    pass


class Script:
    """what each memoized function does: the same in every execution"""
    def __init__(self, nd, oa, ob):
        self.nd = nd
        self.oa = oa
        self.ob = ob
        self.runs = {"oa": 0, "ob": 0, "oc": 0}

    def next(self, who, d, i):
        if i == 0 and who in self.runs:
            self.runs[who] += 1
        return self.act(who, i)

    def act(self, who, i):
        if who == "oa" and i < len(self.oa):
            return self.oa[i]
        if who == "ob" and i >= self.ob:
            return 0
        return self.nd.choice(who + str(i), range(6 if who == "oa" else 4))

    def use(self, who, what):
        pass

    def expect(self, who, seen):
        """everything used when `who` runs is added to seen; whether it raises"""
        seen.add((O, who))
        if who == "hp":
            w = self.act("hp", 0)
            if w == 1:
                seen.add((O, "gy"))
            elif w == 3:
                return self.expect("ob", seen)
            return w == 2
        if who == "oc":
            w = self.act("oc", 0)
            if w == 1:
                seen.add((O, "gy"))
            return w == 2
        for i in range(2):
            w = self.act(who, i)
            if who == "ob":
                if w == 1:
                    seen.add((O, "gx"))
                elif w == 2:
                    if self.expect("oc", seen):
                        return True
                elif w == 3:
                    return True
            else:
                if w == 1:
                    if self.expect("hp", seen):
                        return True
                elif w == 2:
                    if self.expect("ob", seen):
                        return True
                elif w == 3:
                    if self.expect("ob", seen):
                        seen.add((O, "gy"))
                elif w == 4:
                    self.expect("oc", seen)
                elif w == 5:
                    self.expect("hp", seen)
        return False


def leave(nd, st, todo):
    st.__exit__(None, None, None)
    vs = st.get_versioner()
    for who, r, seen in todo:
        if r is not None:
            c = st.get_ref_creator(r)
            v = vs.versions[(O, who)][c.content_version]
            nd.check(set(v.support) == seen, "the version of a call covers all it used")
            nd.check(seen <= set(vs.global_topology.nodes), "the storage follows all that was used")
    todo.clear()


def call(nd, st, s, who, x, todo):
    seen = set()
    fails = s.expect(who, seen)
    failed = False
    try:
        r = OPS[who](x)
    except ValueError:
        failed = True
    nd.check(TracerState.tracer is None, "the tracer is gone")
    nd.check(failed == fails, "a call fails iff its function does")
    todo.append((who, None if failed else r, seen))
    return seen


@harness("C19", quick=[dict(script="a", oa=(w, v)) for w in range(6) for v in range(6)] +
         [dict(script=s, oa=o) for s in ["ba", "b+a", "b*a", "ca", "aa"] for o in [(1, 4), (3, 1), (2, 5)]],
         thorough=[dict(script="a", oa=(w, v), ob=2) for w in range(6) for v in range(6)] +
         [dict(script=s, oa=(w, v)) for s in ["ba", "b+a", "b*a", "ca", "aa", "bca", "a*b+a"] for w in range(6) for v in range(6)],
         bounds="a memoized function that calls tracked and memoized functions, in run and no-op mode, raising and catching, each behaviour arbitrary; the callees may be stored from before")
def memo(nd, script, oa=(), ob=1):
    Config.has_rich = False
    versioner_module.crawl_static = static
    s = Script(nd, oa, ob)
    plan.current.clear()
    plan.current.append(s)
    st = Storage(db_path(nd), deps_path=str(PATHS[0]))
    n, todo = 0, []
    st.__enter__()
    for w in script:
        if w == "+":
            leave(nd, st, todo)
            st.__enter__()
        elif w == "*":
            leave(nd, st, todo)
            st = Storage(db_path(nd), deps_path=str(PATHS[0]))
            st.__enter__()
        else:
            n += 1
            seen = call(nd, st, s, "o" + w, nd.int("x" + str(n)), todo)
    leave(nd, st, todo)
    nd.cover(len(seen) > 1 or oa == (0, 0), "many")
