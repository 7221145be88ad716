"""Ops and helpers shared by the storage harnesses."""
from mandala.model import op, Op, Ref, AtomRef, ListRef, DictRef, Call, Context, Ignore, NewArgDefault, ValuePointer
from mandala.tps import MList, MDict
from mandala.storage import Storage, noop
from harness.env.world import W, Crash, arm, disarm, reboot

RUNS = {}     # (op, raw arguments) -> number of executions


def ran(*key):
    RUNS[key] = RUNS.get(key, 0) + 1


@op
def inc(x):
    ran("inc", x)
    return x + 1


@op
def inc_by(x):
    """another function's name with something after it"""
    ran("inc_by", x)
    return x + 2


@op
def add(x, y):
    ran("add", x, y)
    return x + y


@op
def pair(x):
    ran("pair", x)
    return x, x + 1


@op(output_names=["hi", "lo"])
def named(x):
    ran("named", x)
    return x + 10, x - 10


@op
def lst(x, y) -> MList[int]:
    ran("lst", x, y)
    return [x, y]


@op
def dct(x, y) -> MDict[str, int]:
    ran("dct", x, y)
    return {"p": x, "q": y}


@op
def sumlist(xs: MList[int]):
    ran("sumlist", tuple(xs))
    t = 0
    for x in xs:
        t += x
    return t


@op
def const():
    ran("const")
    return 7


@op
def dflt(x, y=5):
    ran("dflt", x, y)
    return x * 2 + y


OPS = {"inc": inc, "inc_by": inc_by, "add": add, "pair": pair, "named": named, "lst": lst, "dct": dct, "sumlist": sumlist, "const": const, "dflt": dflt}


def p_inc(x): return x + 1
def p_inc_by(x): return x + 2
def p_add(x, y): return x + y
def p_pair(x): return (x, x + 1)
def p_named(x): return (x + 10, x - 10)
def p_lst(x, y): return [x, y]
def p_dct(x, y): return {"p": x, "q": y}


def p_sumlist(xs):
    t = 0
    for x in xs:
        t += x
    return t


def p_const(): return 7
def p_dflt(x, y=5): return x * 2 + y


PURE = {"inc": p_inc, "inc_by": p_inc_by, "add": p_add, "pair": p_pair, "named": p_named, "lst": p_lst, "dct": p_dct, "sumlist": p_sumlist, "const": p_const, "dflt": p_dflt}


def freeze(x):
    if isinstance(x, (list, tuple)):
        return tuple([freeze(e) for e in x])
    return x


def db_path(nd):
    return nd.scratch + "/db.sqlite"


class Hist:
    """Runs a history written as "inc(x0) / add(r0,x1) / reopen / ...": calls
    with symbolic integers x*, references r* to the result of the earlier call
    number *, r*.i its i-th output or element; the words between calls end the
    context, commit, clear the caches or start a new session."""

    def __init__(self, nd, path=None, lo=None, hi=None, **kw):
        self.nd = nd
        self.path = db_path(nd) if path is None else path
        self.kw = kw
        self.st = Storage(self.path, **kw)
        self.res = []       # (ref, raw value)
        self.xs = {}
        self.made = {}      # keys of calls made so far
        self.hids = []      # history ids of the calls made
        self.keys = []
        self.open = False
        self.once = True

    def creator(self, res):
        """history id of the call that returned res"""
        ref = res[0] if isinstance(res, tuple) else res
        st = self.st
        hids = st.calls.cache.get_creator_hids([ref.hid]) | st.call_storage.get_creator_hids([ref.hid])
        return list(hids)[0] if len(hids) > 0 else None

    def arg(self, a):
        if a.startswith("x"):
            if a not in self.xs:
                self.xs[a] = self.nd.int(a)
            return self.xs[a], self.xs[a]
        if a.startswith("r"):
            p = a[1:].split(".")
            ref, raw = self.res[int(p[0])]
            for i in p[1:]:
                if i in ("p", "q"):
                    ref, raw = ref[i], raw[i]
                else:
                    ref, raw = ref[int(i)], raw[int(i)]
            return ref, raw
        if a.startswith("["):
            es = [self.arg(e) for e in a[1:-1].split(";")]
            return [e[0] for e in es], [e[1] for e in es]
        return int(a), int(a)

    def enter(self):
        if not self.open:
            self.st.__enter__()
            self.open = True

    def leave(self):
        if self.open:
            self.st.__exit__(None, None, None)
            self.open = False

    def step(self, s):
        s = s.strip()
        if s == "exit":
            self.leave()
        elif s == "reopen":
            self.leave()
            self.st = Storage(self.path, **self.kw)
        elif s == "commit":
            self.st.commit()
        elif s == "clear":
            self.leave()
            self.st.clear_cache()
        else:
            name, pos, raw, kw, rawkw = self.parse(s)
            self.enter()
            res = OPS[name](*pos, **kw)
            self.hids.append(self.creator(res))
            key = (name,) + freeze(raw) + freeze([rawkw[k] for k in sorted(rawkw)])
            if name == "dflt" and len(key) == 2:
                key = key + (5,)
            self.made[key] = True
            self.keys.append(key)
            val = PURE[name](*raw, **rawkw)
            self.res.append((res, val))
            if self.once:
                self.check_once(s)
            return res, val

    def check_once(self, s):
        nd = self.nd
        nd.check(all([RUNS.get(k, 0) == 1 for k in self.made]), "after %s: every call made so far was executed exactly once" % s)
        nd.check(len(RUNS) == len(self.made), "nothing else was executed")

    def parse(self, s):
        name, rest = s.split("(")
        pos, raw, kw, rawkw = [], [], {}, {}
        args = rest[:-1]
        for a in args.split(",") if args else []:
            if "=" in a:
                k, a = a.split("=")
                kw[k], rawkw[k] = self.arg(a)
            else:
                v, r = self.arg(a)
                pos.append(v)
                raw.append(r)
        return name, pos, raw, kw, rawkw

    def run(self, text):
        for s in text.split("/"):
            self.step(s)
        self.leave()

    def check_values(self):
        for ref, val in self.res:
            self.nd.check(self.st.unwrap(ref) == val, "the memoized value is what the function returns")
