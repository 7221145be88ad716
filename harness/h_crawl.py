"""C29: the code state holds every function and method a module defines, under
its name and with its text, and nothing else."""
import inspect, types
from symex.registry import harness
import mandala.storage
import mandala.deps.crawler as crawler
import mandala.deps.utils as dutils
from mandala.deps.crawler import crawl_static
from mandala.deps.model import CallableNode, GlobalVarNode
from harness import crawled, crawled2

OWN = "harness.crawled"


def text(fn):
    return "\n".join([l.rstrip() for l in inspect.getsource(fn).splitlines()])


def entry(name, fn):
    return (name, text(fn))


C = crawled
# object -> [(key, text) found always], [with methods], unknown callable
KINDS = {
    "f": (C.f, [entry("f", C.f)], []),
    "g": (C.g, [entry("g", C.g)], []),
    "wrapped": (C.wrapped, [entry("wrapped", C.wrapped.__wrapped__)], []),
    "wrapped2": (C.wrapped2, [entry("wrapped2", C.wrapped2.__wrapped__)], []),
    "op": (C.anop, [entry("anop", C.anop.f)], []),
    "tracked": (C.tracked, [entry("tracked", C.tracked.__wrapped__)], []),
    "trackedop": (C.trackedop, [entry("trackedop", inspect.unwrap(C.trackedop.f))], []),
    "made": (C.made, [entry("factory.<locals>.made", C.made)], []),
    "lambda": (C.lam, [entry("<lambda>", C.lam)], []),
    "C": (C.C, [], [entry("C.m", C.C.m), entry("C.n", C.C.n.__wrapped__), entry("C.Inner.im", C.C.Inner.im), entry("f", C.f)]),
    "Init": (C.Init, [], [entry("Init.__init__", C.Init.__init__), entry("Init.m", C.Init.m)]),
    "Special": (C.Special, [], [entry("Special.__call__", C.Special.__call__), entry("Special.__getitem__", C.Special.__getitem__), entry("Special.__enter__", C.Special.__enter__),
                                entry("Special._private", C.Special._private), entry("Special.__mangled", C.Special._Special__mangled)]),
    "Sub": (C.Sub, [], [entry("Sub.extra", C.Sub.extra)]),
    "SubOwn": (C.SubOwn, [], [entry("SubOwn.more", C.SubOwn.more)]),
    "Tracked": (C.Tracked, [], [entry("Tracked.m", C.Tracked.m.__wrapped__), entry("Tracked.__init__", inspect.unwrap(C.Tracked.__init__))]),
    "there": (crawled2.there, [], []),
    "opthere": (crawled2.opthere, [], []),
    "hidden": (C.hidden, [], []),
    "Base": (crawled2.Base, [], []),
    "Plain": (crawled2.Plain, [], []),
    "builtin": (len, [], []),
    "type": (int, [], []),
    "inst": (C.inst, [], []),
    "partial": (C.partial, [], []),
    "module": (crawled2, [], []),
    "int": (7, [], []),
    "str": ("f", [], []),
    "none": (None, [], []),
    "list": ([C.f], [], []),
}
# loosely read, classes and other callables may add their initializer, or a placeholder
LOOSE = {("unknown_function", text(dutils.unknown_function)), entry("Init.__init__", C.Init.__init__), entry("Tracked.__init__", inspect.unwrap(C.Tracked.__init__))}
INSIDE = {"C.m": "C", "C.n": "C"}


class Mod:
    """a module with the given attributes"""

    def __init__(self, d):
        self.d = d

    @property
    def __dict__(self):
        return self.d

    def __getattr__(self, name):
        if name in self.d:
            return self.d[name]
        raise AttributeError(name)


class Lib:
    """importlib, of a given set of modules"""

    def __init__(self, mods):
        self.mods = mods
        self.asked = []

    def import_module(self, name):
        self.asked.append(name)
        if name not in self.mods:
            raise ImportError(name)
        return self.mods[name]


GROUPS = {
    "functions": ["f", "wrapped", "op", "there", "int"],
    "decorated": ["wrapped2", "tracked", "trackedop", "hidden", "f"],
    "classes": ["C", "Init", "Base", "f", "type", "Special"],
    "subclasses": ["Sub", "SubOwn", "Plain", "Tracked", "list"],
    "odd": ["made", "lambda", "partial", "inst", "module"],
    "rest": ["builtin", "str", "none", "opthere", "g"],
}


@harness("C29", quick=[dict(a=a, b=b) for a, b in (("functions", "decorated"), ("classes", "functions"), ("subclasses", "functions"), ("odd", "rest"), ("odd", "classes"), ("subclasses", "classes"), ("decorated", "subclasses"))],
         thorough=[dict(a=a, b=b) for a in GROUPS for b in GROUPS],
         bounds="modules of up to three names, each bound to any of five or six objects of a group (28 kinds of object in all: functions, decorated, memoized and tracked functions, classes, subclasses, imported objects, other callables, values), names present or not; strict or not, with methods or not")
def objects(nd, a, b):
    """which functions are found in a module, whatever names they have"""
    strict = nd.bool("strict")
    methods = nd.bool("methods")
    d = {"__name__": OWN}
    found = {}
    may = {}
    for slot, group in (("p", a), ("f", a), ("q", b)):
        if nd.bool("has " + slot):
            kind = nd.choice(slot, GROUPS[group])
            obj, always, meth = KINDS[kind]
            d[slot] = obj
            for k, t in always:
                found[k] = t
            if methods:
                for k, t in meth:
                    found[k] = t
    result, objs = {}, {}
    for k in list(d.keys()):
        crawler.crawl_obj(d[k], OWN, methods, result, strict, objs)
    for k in found:
        nd.check((OWN, k) in result, "%s is found" % k)
        nd.check(result[OWN, k].representation == found[k], "with its text")
        nd.check((OWN, k) in objs, "and its object")
    for key in result:
        node = result[key]
        nd.check(node.key == key and key[0] == OWN, "every function is listed under its own key")
        if key[1] not in found:
            nd.check(not strict and (key[1], node.representation) in LOOSE, "nothing else is listed")
    nd.check(set(objs.keys()) == set(result.keys()), "an object for every function")
    nd.cover(len(result) > 2, "several functions")
    nd.obs("n", len(result))


# ------------------------------------------------------------------ which files

class P:
    """a path below the root, given by its parts"""

    def __init__(self, parts, tree=None):
        self.parts = parts
        self.tree = tree

    @property
    def name(self):
        return self.parts[-1] if self.parts else "root"

    @property
    def stem(self):
        return self.name.split(".")[0]

    @property
    def parent(self):
        return P(self.parts[:-1])

    def is_file(self):
        return self.tree is None

    def is_dir(self):
        return self.tree is not None

    def rglob(self, pattern):
        assert pattern in ("*.py", "**/*.py")
        return list(self.tree)

    def with_suffix(self, suffix):
        return P(self.parts[:-1] + [self.stem + suffix])

    def relative_to(self, other):
        return P(self.parts)

    def as_posix(self):
        return "/".join(self.parts) if self.parts else "."

    def __str__(self):
        return self.as_posix()


FILES = {"a": ["a.py"], "pkg": ["pkg", "__init__.py"], "pkg.b": ["pkg", "b.py"], "pkg.sub.c": ["pkg", "sub", "c.py"], "pkg.sub": ["pkg", "sub", "__init__.py"],
         "": ["__init__.py"], "initial": ["initial.py"]}
SKIP = [["setup.py"], ["console.py"], ["pkg", "setup.py"]]
ALL = ["__main__", "a", "pkg", "pkg.b", "pkg.sub.c", "pkg.sub", "", "__init__", "pkg.__init__", "pkg.sub.__init__", "initial", "setup", "console", "pkg.setup"]


def named(package, m):
    if package is None or m == "__main__":
        return m
    return package + "." + m if m else package


MODULES = {}
for _p in (None, "top", "top.in"):
    for _m in ALL:
        _n = named(_p, _m)
        if _n not in MODULES:
            MODULES[_n] = Mod({"__name__": _n, "u": crawled.unit(_n), "x": 3})
UNIT = text(crawled.unit("a"))
NODES = dict([(n, MODULES[n].d["u"]) for n in MODULES])


@harness("C29", quick=[dict(package=None), dict(package="top"), dict(package="top.in", deep=True)],
         bounds="source trees with any of seven files (modules, packages, nested packages), setup files, one of which may fail to import; with and without a package name; the tree or a single file")
def layout(nd, package, deep=False):
    """which modules are read, and under which names"""
    strict = nd.bool("strict")
    files = []
    want = ["__main__"]
    names = ["pkg.sub", "pkg.sub.c", "initial"] if deep else ["a", "pkg", "pkg.b"]
    if package is not None:
        names = names + [""]
    bad = nd.choice("fails", ["none"] + names)
    fails = False
    for m in names:
        if nd.bool("has " + m):
            files.append(P(FILES[m]))
            if m == bad:
                fails = True
            else:
                want.append(named(package, m))
    for parts in SKIP:
        files.append(P(parts))
    mods = dict(MODULES)
    if bad != "none":
        del mods[named(package, bad)]
    lib = Lib(mods)
    crawler.importlib = lib
    try:
        result, objs = crawl_static(P([], files), strict, package, True)
        done = True
    except ValueError:
        done = False
    nd.check(done == (not (strict and fails)), "only strictly read code has to be complete")
    if done:
        nd.check(set(result.keys()) == set([(m, "u") for m in want]), "the functions of all modules are found, under the names the modules have in the program")
        for m in want:
            nd.check(result[m, "u"].representation == UNIT and objs[m, "u"] is NODES[m], "each with its text and object")
    nd.cover(done and fails, "goes on")
    nd.cover(not done, "stops")


@harness("C29", quick=[dict()], bounds="one file of a package, or no file")
def single(nd):
    """a single file and the main program"""
    strict = nd.bool("strict")
    which = nd.choice("file", ["a", "initial", "none"])
    package = nd.choice("package", ["top", "top.in"])
    crawler.importlib = Lib(MODULES)
    if which == "none":
        result, objs = crawl_static(None, strict, package, True)
        want = ["__main__"]
    else:
        result, objs = crawl_static(P(FILES[which]), strict, package, True)
        want = ["__main__", named(package, which.split(".")[-1])]
    nd.check(set(result.keys()) == set([(m, "u") for m in want]), "the functions of the file and of the main program are found")


# ------------------------------------------------------------------ what is read again

from mandala.deps.versioner import Versioner
from mandala.deps.tracers.dec_impl import DecTracer
from mandala.model import AtomRef

UNHASHABLE = crawled.lock
COMPS = {"f": ["f", "op", "wrapped", "gone"], "C": ["C", "Init", "gone"], "gx": ["int", "list", "ref", "lock", "gone"]}


def callable_of(kind, name):
    obj = KINDS[kind][0]
    return CallableNode.from_obj(obj=obj, dep_key=(OWN, name))


class Code:
    """the program at one time: what its names stand for"""

    def __init__(self, nd, n):
        d = {"__name__": OWN}
        self.what = {}
        self.val = None
        k = nd.choice("f" + n, COMPS["f"])
        self.what["f"] = k
        if k != "gone":
            d["f"] = KINDS[k][0]
        k = nd.choice("C" + n, COMPS["C"])
        self.what["C"] = k
        if k != "gone":
            d["C"] = KINDS[k][0]
        k = nd.choice("gx" + n, COMPS["gx"])
        self.what["gx"] = k
        self.x = nd.int("x" + n, 0, 3)
        if k == "int":
            d["gx"] = self.x
        elif k == "list":
            d["gx"] = [1, self.x]
        elif k == "ref":
            d["gx"] = AtomRef(cid="c1" if self.x > 1 else "c2", hid="h" + n, in_memory=False, obj=None)
        elif k == "lock":
            d["gx"] = UNHASHABLE
        self.mod = Mod(d)

    def glob(self):
        k = self.what["gx"]
        if k == "int" or k == "list":
            return (k, self.x)
        if k == "ref":
            return (k, self.x > 1)
        return ("none", 0)


def topology():
    from mandala.deps.model import DependencyGraph
    g = DependencyGraph()
    g.add_node(callable_of("f", "f"))
    g.add_node(CallableNode.from_obj(obj=C.C.m, dep_key=(OWN, "C.m")))
    g.add_node(GlobalVarNode.from_obj(obj=0, dep_key=(OWN, "gx")))
    return g


TEXTS = {"f": text(C.f), "op": text(C.anop.f), "wrapped": text(C.wrapped.__wrapped__), "gone": text(dutils.unknown_function)}
METHS = {"C": text(C.C.m), "Init": text(C.Init.m), "gone": text(dutils.unknown_function)}


def versioner(skip):
    v = Versioner(paths=[], TracerCls=DecTracer, strict=False, track_globals=True, skip_unhashable_globals=True, skip_globals_silently=True,
                  skip_missing_deps=skip, skip_missing_silently=True, track_methods=True)
    v.global_topology = topology()
    return v


def state(v, code):
    lib = Lib({"__main__": Mod({}), OWN: code.mod})
    crawler.importlib = lib
    dutils.importlib = lib
    return v.guess_code_state()


@harness("C29", quick=[dict(skip=True), dict(skip=False)],
         bounds="the state of a program read twice, with any change between to a function, a class and a global variable it depends on (replaced by another kind, changed or removed)")
def reread(nd, skip):
    """the code state follows what the program is now"""
    v = versioner(skip)
    states = []
    codes = []
    for n in ("1", "2"):
        code = Code(nd, n)
        gone = "gone" in code.what.values()
        try:
            s = state(v, code)
            ok = True
        except ValueError:
            ok = False
        nd.check(ok == (skip or not gone), "unless missing dependencies are skipped, every dependency is found")
        nd.assume(ok)
        nd.check(s.nodes[OWN, "f"].content() == TEXTS[code.what["f"]], "the text of the function is the current one")
        nd.check(s.nodes[OWN, "C.m"].content() == METHS[code.what["C"]], "the text of the method is the current one")
        states.append(s)
        codes.append(code)
    a, b = codes
    sa, sb = states
    nd.check((sa.nodes[OWN, "f"].content_hash == sb.nodes[OWN, "f"].content_hash) == (a.what["f"] == b.what["f"]), "functions are the same if their text is")
    nd.check((sa.nodes[OWN, "C.m"].content_hash == sb.nodes[OWN, "C.m"].content_hash) == (a.what["C"] == b.what["C"]), "methods are the same if their text is")
    plain = a.what["gx"] not in ("lock", "gone") and b.what["gx"] not in ("lock", "gone")
    if plain:
        nd.check((sa.nodes[OWN, "gx"].content_hash == sb.nodes[OWN, "gx"].content_hash) == (a.glob() == b.glob()), "global variables are the same if their values are")
    nd.cover(plain, "values")
