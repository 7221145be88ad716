"""C17: the version tree of one component.  C18: which recorded calls a
versioned lookup may reuse."""
from symex.registry import harness
import mandala.storage
from mandala.config import Config
from mandala.deps import shallow_versions
from mandala.deps.shallow_versions import DAG


class User:
    """answers the question about a change, keeps what was asked"""
    def __init__(self):
        self.answer = "y"
        self.asked = 0

    def ask(self, question, valid_options):
        self.asked += 1
        return self.answer


def same_diff(current, new, colorize=True, style="multiline", **kw):
    return ""


class Tree:
    """the history as it should be"""
    def __init__(self, c):
        self.contents = [c]
        self.parents = [None]
        self.classes = [0]
        self.head = 0

    def find(self, c):
        for i in range(len(self.contents)):
            if self.contents[i] == c:
                return i
        return None

    def sync(self, c, changed):
        i = self.find(c)
        if i is None:
            i = len(self.contents)
            self.contents.append(c)
            self.parents.append(self.head)
            self.classes.append(i if changed else self.classes[self.head])
        self.head = i


def check_dag(nd, dag, tree):
    n = len(tree.contents)
    h = [dag.content_adapter.get_content_hash(c) for c in tree.contents]
    nd.check(dag.head == h[tree.head], "the current version is the synced source")
    nd.check(dag.get_current_content() == tree.contents[tree.head], "the current content is the synced one")
    nd.check(dag.size == n and len(dag.commits) == n, "one version per distinct source")
    nd.check(dag.initial_commit == h[0], "the first version is the root")
    for i in range(n):
        nd.check(h[i] in dag.commits, "every source synced is a version")
        c = dag.commits[h[i]]
        nd.check(c.content_hash == h[i], "a version is stored under its source")
        nd.check(dag.get_content(h[i]) == tree.contents[i], "the source of every version can be read back")
        if tree.parents[i] is None:
            nd.check(len(c.parents) == 0, "only the first version has no parent")
        else:
            nd.check(len(c.parents) == 1 and c.parents[0] == h[tree.parents[i]], "a version hangs off the version it was an edit of")
        nd.check(c.semantic_hash in dag.commits, "behaviour classes are named by versions")
        for j in range(i):
            same = c.semantic_hash == dag.commits[h[j]].semantic_hash
            nd.check(same == (tree.classes[i] == tree.classes[j]), "two versions are equivalent iff connected by same-behaviour edits")
    k = len([i for i in range(n) if tree.classes[i] == i])
    nd.check(dag.semantic_size == k, "number of behaviour classes")


@harness("C17", quick=[dict(n=4)], thorough=[dict(n=5)],
         bounds="n syncs after the first version, of arbitrary sources (equal or not to any earlier one), each with any verdict: declared same or changed, answered same, changed or abort")
def history(nd, n):
    user = User()
    Config.has_rich = False
    shallow_versions.ask_user = user.ask
    shallow_versions._get_colorized_diff = same_diff
    dag = DAG(content_type="code")
    c0 = nd.int("c0")
    dag.init(c0)
    tree = Tree(c0)
    check_dag(nd, dag, tree)
    for i in range(n):
        c = nd.int("c" + str(i + 1))
        how = nd.choice("how" + str(i + 1), ["same", "changed", "n", "y", "a"])
        asked = user.asked
        new = tree.find(c) is None
        aborted = False
        if how == "same":
            got = dag.sync(c, is_semantic_change=False)
        elif how == "changed":
            got = dag.sync(c, is_semantic_change=True)
        else:
            user.answer = how
            try:
                got = dag.sync(c)
            except ValueError:
                aborted = True
                got = dag.head
            nd.check(user.asked == asked + (1 if new else 0), "the user is asked exactly about new sources")
        nd.check(aborted == (new and how == "a"), "only an aborted edit fails")
        if not aborted:
            tree.sync(c, how == "changed" or how == "y")
            nd.check(got == dag.head, "sync returns the version synced")
        check_dag(nd, dag, tree)
    nd.cover(len(tree.contents) == n + 1, "all new")
    nd.cover(len(tree.contents) < n, "back to earlier sources")
    nd.obs("versions", len(dag.commits))


# ------------------------------------------------------------------ C18
from mandala.model import op, Ref, Context
from mandala.storage import Storage
from mandala.utils import get_content_hash
from mandala.deps.versioner import Versioner, CodeState
from mandala.deps.model import CallableNode, GlobalVarNode, TerminalNode, TerminalData
from mandala.deps.tracers.tracer_base import TracerABC
from harness.stlib import db_path

MOD = "harness.h_vers"
PARTS = ["vo", "vf", "vg", "v"]     # memoized, memoized, helper, global


class Failed(Exception):
    pass


class Prog:
    """the user's program: the source of each part now, what these sources do
    (by behaviour class) and how often bodies ran"""
    def __init__(self, nd, parts):
        self.nd = nd
        self.parts = parts
        self.src = {}
        self.trees = {}
        self.known = []      # components the storage has seen
        self.seen = []       # those used by the running call
        self.runs = {"vf": 0, "vo": 0}
        self.uses = {}

    def node(self, k):
        if k == "v":
            return GlobalVarNode(MOD, "v", (self.src["v"], "v"))
        return CallableNode(MOD, k, self.src[k], None)

    def code_state(self):
        nodes = {}
        for k in self.parts:
            if k != "v" or k in self.known:
                nodes[(MOD, k)] = self.node(k)
        return CodeState(nodes)

    def cls(self, k):
        if k not in self.trees:
            return 0
        t = self.trees[k]
        return t.classes[t.head]

    def touch(self, k):
        if k not in self.seen:
            self.seen.append(k)

    def learn(self, failed):
        """from now on the storage follows the versions of what was used by a
        call that succeeded"""
        for k in self.seen:
            if not failed and k not in self.known:
                self.known.append(k)
                self.trees[k] = Tree(self.src[k])
        self.seen = []

    def bit(self, who, what):
        """whether this behaviour of `who` uses `what`"""
        if what not in self.parts:
            return False
        c = self.cls(who)
        for i in range(4):
            if c == i:
                n = who + str(i) + "_" + what
                if n not in self.uses:
                    self.uses[n] = self.nd.bool(n)
                return self.uses[n]
        assert False

    def effect(self, who):
        """what running `who` uses now, and what comes out for x=0"""
        used = {who: True, "vf": who == "vf", "vg": False, "v": False}
        r = 0
        if who == "vo":
            r = r + 5000 * (1 + self.cls("vo"))
            if self.bit("vo", "vf"):
                used["vf"] = True
        if used["vf"]:
            r = r + 100 * (1 + self.cls("vf"))
            for k in ["vg", "v"]:
                if self.bit("vf", k):
                    used[k] = True
                    r = r + (10 if k == "vg" else 1) * (1 + self.cls(k))
        if who == "vo" and self.bit("vo", "vg"):
            used["vg"] = True
            r = r + 50000 * (1 + self.cls("vg"))
        return used, r


P = []


def guess(self):
    return P[0].code_state()


class FakeTracer(TracerABC):
    """stands for the tracer (C19): reports what the body says it used"""
    active = [None]

    def __init__(self, paths, strict=True, allow_methods=False, track_globals=True, skip_unhashable_globals=True, skip_globals_silently=False):
        TracerABC.__init__(self, paths, strict, allow_methods, track_globals)

    def __enter__(self):
        FakeTracer.set_active_trace_obj(self)
        return self

    def __exit__(self, exc_type, exc_val, exc_tb):
        FakeTracer.set_active_trace_obj(None)

    @staticmethod
    def get_active_trace_obj():
        return FakeTracer.active[0]

    @staticmethod
    def set_active_trace_obj(trace_obj):
        assert trace_obj is None or FakeTracer.active[0] is None
        FakeTracer.active[0] = trace_obj

    @staticmethod
    def register_leaf_event(trace_obj, data):
        name = data.op_internal_name + "_" + data.call_content_version
        trace_obj.graph.add_edge(trace_obj.call_stack[-1], TerminalNode(data.dep_key[0], name, data))

    def start(self, k):
        root = P[0].node(k)
        self.call_stack.append(root)
        self.graph.add_node(root)
        self.graph.roots.add(root.key)
        P[0].touch(k)


def using(k):
    """the running function uses k; the part of the result due to it"""
    t = FakeTracer.active[0]
    if t is not None:
        t.graph.add_edge(t.call_stack[-1], P[0].node(k))
        P[0].touch(k)
    return 1 + P[0].cls(k)


def begin(k):
    P[0].runs[k] += 1
    FakeTracer.active[0].start(k)


@op
def vf(x):
    p = P[0]
    begin("vf")
    r = x + 100 * (1 + p.cls("vf"))
    if p.bit("vf", "vg"):
        r = r + 10 * using("vg")
    if p.bit("vf", "v"):
        r = r + using("v")
    if x == 13:
        raise Failed()
    return r


@op
def vo(x):
    p = P[0]
    begin("vo")
    r = 5000 * (1 + p.cls("vo"))
    if p.bit("vo", "vf"):
        try:
            r = r + Context.current_context.storage.unwrap(vf(x))
        except Failed:
            r = r + 77
    if p.bit("vo", "vg"):
        r = r + 50000 * using("vg")
    return r


CALLS = {"vf": vf, "vo": vo}


class Sessions:
    def __init__(self, nd, parts):
        self.nd = nd
        self.user = Answers(nd)
        Config.has_rich = False
        shallow_versions.ask_user = self.user.ask
        shallow_versions._get_colorized_diff = self.user.diff
        Versioner.guess_code_state = guess
        P.clear()
        P.append(Prog(nd, parts))
        self.p = P[0]
        self.n = 0
        self.rows = []
        self.before = []
        self.open()

    def open(self):
        self.st = Storage(db_path(self.nd), deps_path="__main__", tracer_impl=FakeTracer)

    def edit(self):
        """the user edits any of the sources"""
        self.n += 1
        for k in self.p.parts:
            self.p.src[k] = get_content_hash((k, self.nd.int(k + str(self.n))))

    def enter(self):
        """the storage looks at the sources; the user tells what changed"""
        for k in list(self.p.known):
            t = self.p.trees[k]
            c = self.nd.bool("changed_" + k + str(self.n))
            if t.find(self.p.src[k]) is None:
                self.user.todo.append((self.p.node(k).readable_content(), "y" if c else "n"))
            t.sync(self.p.src[k], c)
        self.st.__enter__()
        self.nd.check(self.user.done(), "the user is asked about every change of a source in use")

    def leave(self):
        self.st.__exit__(None, None, None)

    def recorded(self, who, x):
        """a record of an execution under equivalent code"""
        for row in self.rows:
            if row["who"] == who and row["x"] == x:
                same = True
                for k in row["used"]:
                    if row["used"][k] and row["cls"][k] != self.p.cls(k):
                        same = False
                if same:
                    return row
        return None

    def expect(self, who, x):
        """what this call should do; records it.  Returns the executions of vf,
        of vo"""
        row = self.recorded(who, x)
        if row is not None and row["saved"]:
            return 0, 0
        p = self.p
        nf = 1 if who == "vf" else 0
        if who == "vo":
            if p.bit("vo", "vf"):
                nf, no = self.expect("vf", x)
            nf, no = nf, 1
        else:
            no = 0
        used, r = p.effect(who)
        ok = not (who == "vf" and x == 13)
        if row is None and ok:
            self.rows.append({"who": who, "x": x, "used": used, "cls": {k: p.cls(k) for k in used if used[k]}, "saved": True})
        elif row is not None:
            row["saved"] = True
        return nf, no

    def call(self, who, x):
        nd = self.nd
        p = self.p
        f, o = p.runs["vf"], p.runs["vo"]
        self.last = None
        try:
            self.last = CALLS[who](x)
            failed = False
        except Failed:
            failed = True
        p.learn(failed)
        nd.check(FakeTracer.active[0] is None, "no trace is left active")
        f, o = p.runs["vf"] - f, p.runs["vo"] - o
        nf, no = self.expect(who, x)
        nd.check(f == nf and o == no, "a stored execution is reused iff all it used is equivalent to the current code")
        fails = who == "vf" and x == 13
        nd.check(failed == fails, "only failing calls fail")
        if not failed:
            used, r = p.effect(who)
            if used["vf"]:
                inner = p.effect("vf")[1]
                r = r + (77 - inner if x == 13 else x)
            nd.check(self.st.unwrap(self.last) == r, "the result is the one the current code computes")
        if who in self.before:
            nd.cover(f + o == 0, "reused")
        nd.cover(f + o > 0, "executed")
        if not failed:
            self.before.append(who)

    def drop(self):
        """the last call is dropped, with what depends on it"""
        if self.last is None:
            return
        c = self.st.get_ref_creator(self.last)
        self.st.drop_calls([c], delete_dependents=True)
        for row in self.rows:
            if row["who"] == self.who and row["x"] == self.x and self.recorded(self.who, self.x) is row:
                row["saved"] = False


    def forget(self):
        """the version that the last call used is dropped, with its calls"""
        if self.last is None:
            return
        c = self.st.get_ref_creator(self.last)
        self.st.drop_version(c.semantic_version)
        row = self.recorded(self.who, self.x)
        self.rows = [r for r in self.rows if not (r["used"] == row["used"] and r["cls"] == row["cls"])]


class Answers:
    """the user's answers to the questions about each new source"""
    def __init__(self, nd):
        self.nd = nd
        self.todo = []

    def diff(self, current, new, colorize=True, **kw):
        self.new = new
        return ""

    def ask(self, question, valid_options):
        for i in range(len(self.todo)):
            if self.todo[i] is not None and self.todo[i][0] == self.new:
                r = self.todo[i][1]
                self.todo[i] = None
                return r
        self.nd.check(False, "the user is only asked about new sources of components in use")

    def done(self):
        for t in self.todo:
            if t is not None:
                return False
        self.todo.clear()
        return True


def go(nd, script, parts):
    s = Sessions(nd, parts)
    s.edit()
    s.enter()
    for w in script.split(" "):
        if w[0] == "f" or w[0] == "o":
            s.who = "v" + w[0]
            s.x = 13 if w[1] == "!" else nd.int("x" + w[1])
            if w[1] != "!":
                nd.assume(s.x != 13)
            s.call(s.who, s.x)
        elif w == "edit":
            s.leave()
            s.edit()
            s.enter()
        elif w == "new":
            s.leave()
            s.open()
            s.enter()
        elif w == "clear":
            s.leave()
            s.st.clear_cache()
            s.enter()
        elif w == "drop":
            s.leave()
            s.drop()
            s.enter()
        elif w == "forget":
            s.leave()
            s.forget()
            s.enter()
    s.leave()


BOUND = """a script of calls of a memoized function (f0, f1: arbitrary integer arguments; f!: one that raises) or of one that may call it (o0, ..), arbitrary edits of any of the sources with arbitrary verdicts (edit), new sessions (new), cleared caches (clear), dropped calls (drop) or versions (forget); what each behaviour uses is arbitrary"""


@harness("C18", quick=[dict(script="f0 edit f1"), dict(script="f0 new edit f1"), dict(script="f0 edit f1", parts=("vf", "vg", "v")),
                       dict(script="f0 f1 edit f2"), dict(script="f0 edit f1 edit f2"), dict(script="f0 drop f1 edit f0"), dict(script="f0 clear edit f1"), dict(script="f0 edit f0 forget f0 edit f0")],
         thorough=[dict(script="f0 new edit f1 edit f2"), dict(script="f0 edit f1 drop f1 edit f0"),
                   dict(script="f0 edit f1 forget f1 edit f0"), dict(script="f! edit f! new f!")], bounds=BOUND)
def reuse(nd, script, parts=("vf", "vg")):
    go(nd, script, parts)


@harness("C18", quick=[dict(script="o0 edit o1"), dict(script="f0 edit o1"), dict(script="o0 edit f1"), dict(script="o! edit o!"), dict(script="f0 o0 edit o0")],
         thorough=[dict(script="o0 edit o0", parts=("vo", "vf", "v")), dict(script="o! new edit o!"), dict(script="o0 drop o0 edit o0"),
                   dict(script="f0 edit o0 edit f0"), dict(script="o0 new edit o0")], bounds=BOUND)
def nested(nd, script, parts=("vo", "vf", "vg")):
    go(nd, script, parts)


# ------------------------------------------------------------------ C18, deeper nesting
@op
def k0(x):
    begin("k0")
    return 1000 * (1 + P[0].cls("k0")) + Context.current_context.storage.unwrap(k1(x))


@op
def k1(x):
    begin("k1")
    return 100 * (1 + P[0].cls("k1")) + Context.current_context.storage.unwrap(k2(x))


@op
def k2(x):
    begin("k2")
    return 10 * (1 + P[0].cls("k2")) + using("vg") + x


DEEP = ["k0", "k1", "k2", "vg"]
DEEP_OPS = {"k0": k0, "k1": k1, "k2": k2}


@harness("C18", quick=[dict(script="k0 edit k0"), dict(script="k1 edit k0"), dict(script="k0 new edit k1")],
         thorough=[dict(script="k0 edit k1 edit k0"), dict(script="k2 edit k0 edit k2")],
         bounds="three memoized functions calling each other in a chain and a helper the innermost uses, with arbitrary sources edited as the script says, with arbitrary verdicts; one arbitrary integer argument")
def deep(nd, script):
    """what an execution used includes what the memoized functions it called used, however deep"""
    s = Sessions(nd, tuple(DEEP))
    p = s.p
    for k in DEEP_OPS:
        p.runs[k] = 0
    x = nd.int("x")
    rows = []
    s.edit()
    s.enter()
    for w in script.split(" "):
        if w in DEEP_OPS:
            before = {k: p.runs[k] for k in DEEP_OPS}
            r = DEEP_OPS[w](x)
            p.learn(False)
            reached = True
            for i in range(DEEP.index(w), 3):
                now = tuple([p.cls(k) for k in DEEP[i:]])
                reached = reached and not any([row[0] == i and row[1] == now for row in rows])
                if reached:
                    rows.append((i, now))
                nd.check(p.runs[DEEP[i]] == before[DEEP[i]] + (1 if reached else 0), "each function of the chain is executed exactly when something it or those below it used changed")
                if before[DEEP[i]] > 0:
                    nd.cover(reached, DEEP[i] + " executed again")
                    nd.cover(not reached, DEEP[i] + " reused")
            total = x
            for k, f in zip(DEEP[DEEP.index(w):], [1000, 100, 10, 1][DEEP.index(w):]):
                total = total + f * (1 + p.cls(k))
            nd.check(s.st.unwrap(r) == total, "the result is the one the current code computes")
        elif w == "edit":
            s.leave()
            s.edit()
            s.enter()
        elif w == "new":
            s.leave()
            s.open()
            s.enter()
    s.leave()


# ------------------------------------------------------------------ C17, more than one component
@harness("C17", quick=[dict(kind="code"), dict(kind="global_variable")], thorough=[],
         bounds="two components with arbitrary sources, two arbitrary edits of both with any answers, one of which may abort the whole synchronization")
def codebase(nd, kind):
    user = Answers(nd)
    Config.has_rich = False
    shallow_versions.ask_user = user.ask
    shallow_versions._get_colorized_diff = user.diff
    v = Versioner(paths=[], TracerCls=FakeTracer, strict=False, track_globals=True, skip_unhashable_globals=False, skip_globals_silently=False,
                  skip_missing_deps=False, skip_missing_silently=False, track_methods=False)
    trees = {}
    for i in range(3):
        nodes = {}
        contents = {}
        for k in ["a", "b"]:
            h = get_content_hash((k, nd.int(k + str(i))))
            if kind == "code":
                nodes[(MOD, k)] = CallableNode(MOD, k, h, None)
            else:
                nodes[(MOD, k)] = GlobalVarNode(MOD, k, (h, h))
            contents[k] = nodes[(MOD, k)].content()
        if i == 0:
            v.create_new_components_from_nodes(nodes)
            for k in ["a", "b"]:
                trees[k] = Tree(contents[k])
            continue
        user.todo.clear()
        abort = False
        answers = {}
        for k in ["a", "b"]:
            if trees[k].find(contents[k]) is None:
                answers[k] = nd.choice("answer_" + k + str(i), ["y", "n", "a"])
                user.todo.append((nodes[(MOD, k)].readable_content(), answers[k]))
                if answers[k] == "a":
                    abort = True
        try:
            v.sync_codebase(CodeState(nodes))
            aborted = False
        except ValueError:
            aborted = True
        nd.check(aborted == abort, "the synchronization fails iff it is aborted")
        if not aborted:
            nd.check(user.done(), "the user is asked about every new source")
            for k in ["a", "b"]:
                trees[k].sync(contents[k], k in answers and answers[k] == "y")
        for k in ["a", "b"]:
            check_dag(nd, v.component_dags[(MOD, k)], trees[k])
        nd.cover(aborted, "aborted")
        nd.cover(not aborted and len(user.todo) == 0, "synchronized")


@harness("C17", quick=[{}], thorough=[],
         bounds="one memoized function and one helper of arbitrary source, one arbitrary edit synchronized through the storage, by function, with either verdict; then a new session")
def component(nd):
    s = Sessions(nd, ("vf", "vg"))
    s.edit()
    s.enter()
    s.call("vf", 1)
    s.leave()
    s.edit()
    t = s.p.trees["vf"]
    changed = nd.bool("changed")
    s.st.sync_component(vf.f, is_semantic_change=changed)
    t.sync(s.p.src["vf"], changed)
    check_dag(nd, s.st.get_versioner().component_dags[(MOD, "vf")], t)
    s.open()
    check_dag(nd, s.st.get_versioner().component_dags[(MOD, "vf")], t)
