"""C15: nesting of storage contexts."""
from symex.registry import harness
from harness.stlib import *
from harness.h_ops import cases
from harness.h_fault import call_hids
import sqlite3


class Oops(Exception):
    pass


class Model:
    """what the state should be: the storage and mode of each level"""
    def __init__(self, nd, sts):
        self.nd = nd
        self.sts = sts                       # name -> storage
        self.levels = []                     # (name, mode)
        self.made = {"s1": [], "s2": []}     # calls made in run mode, by storage
        self.kept = {"s1": 0, "s2": 0}       # how many of them are committed
        self.n = 0

    def depth(self, name):
        return len([l for l in self.levels if l[0] == name])

    def check(self, when):
        nd = self.nd
        if len(self.levels) == 0:
            nd.check(Context.current_context is None, "no storage is active " + when)
        else:
            name, mode = self.levels[-1]
            nd.check(Context.current_context is not None and Context.current_context.storage is self.sts[name], "the innermost storage is active " + when)
            nd.check(self.sts[name].mode == mode, "in the mode requested for this level " + when)
        for name in self.sts:
            modes = [l[1] for l in self.levels if l[0] == name]
            nd.check(self.sts[name].mode == (modes[-1] if len(modes) > 0 else "run"), "each storage is in the mode of its innermost level " + when)

    def commits(self, when):
        for name in self.sts:
            self.nd.check(len(call_hids(self.sts[name])) == self.kept[name], "exactly the calls of finished outermost levels are in the database " + when)

    def call(self):
        self.n += 1
        res = inc(self.n)
        if len(self.levels) > 0 and self.levels[-1][1] == "run":
            self.nd.check(isinstance(res, Ref), "a call in run mode is memoized")
            self.made[self.levels[-1][0]].append(self.n)
        else:
            self.nd.check(res == self.n + 1, "a call elsewhere just runs")

    def enter(self, kind):
        if kind == "noop()":
            if len(self.levels) > 0:
                self.levels.append((self.levels[-1][0], "noop"))
            return noop()
        name = kind[:2]
        mode = kind[3:]
        st = self.sts[name]
        if mode == "":
            mode = st.mode
            ctx = st
        else:
            ctx = st(mode=mode)
        self.levels.append((name, mode))
        return ctx

    def left(self, name):
        if name is not None and self.depth(name) == 0:
            self.kept[name] = len(self.made[name])


def level(m, chain, d):
    nd = m.nd
    if nd.bool("call%d" % d):
        m.call()
    if len(chain) > 0:
        try:
            n = len(m.levels)
            with m.enter(chain[0]):
                try:
                    m.check("at the start of a level")
                    m.commits("at the start of a level")
                    level(m, chain[1:], d + 1)
                finally:
                    name = None
                    if len(m.levels) > n:
                        name = m.levels.pop()[0]
                        m.left(name)
        except Oops:
            m.check("after an exception")
            m.commits("after an exception")
            if not nd.bool("caught%d" % d):
                raise
        m.check("after leaving a level")
        m.commits("after leaving a level")
        if nd.bool("again%d" % d):
            m.call()
    if nd.bool("raise%d" % d):
        raise Oops("x")


KINDS = ["s1 run", "s1 noop", "s1", "noop()", "s2 run", "s2 noop"]


@harness("C15", quick=[dict(first=f, second=s, n=3) for f in KINDS for s in KINDS],
         thorough=[dict(first=f, second=s, n=4) for f in KINDS for s in KINDS],
         bounds="n nested levels of any kind (two storages, run, no-op, inherited, or noop()); calls before and after each; exceptions raised at any level, caught at any level")
def nesting(nd, first, second, n):
    """modes, active storage and commits at every point of every nesting"""
    def go(chain):
        if n == 3:
            one(nd, (first, second) + chain)
        else:
            cases(nd, "k4", KINDS, lambda k: one(nd, (first, second) + chain + (k,)))
    cases(nd, "k3", KINDS, lambda k: go((k,)))


def one(nd, chain):
    m = Model(nd, {"s1": Storage(nd.scratch + "/one.db"), "s2": Storage(nd.scratch + "/two.db")})
    m.check("at the start")
    try:
        level(m, chain, 0)
    except Oops:
        pass
    m.check("at the end")
    m.commits("at the end")
    for name in m.sts:
        nd.check(m.kept[name] == len(m.made[name]), "everything recorded is committed in the end")
        with m.sts[name]:
            m.check_last = Context.current_context.storage
            nd.check(m.sts[name].mode == "run", "a new outermost level is in run mode")


BODY = []     # what the body of outer does: the raise flags


@op
def outer(x):
    """a memoized function whose body uses another one, in no-op mode"""
    before = Context.current_context.storage.mode if Context.current_context is not None else None
    try:
        with noop():
            y = inc(x)
            if BODY[0]:
                raise Oops("inside the level")
    except Oops:
        if BODY[1]:
            raise
        y = 0
    now = Context.current_context.storage.mode if Context.current_context is not None else None
    if before != now:
        raise AssertionError("the mode changed")
    if BODY[2]:
        raise Oops("after the level")
    return y


@harness("C15", quick=[dict(kind=k) for k in KINDS[:4]],
         bounds="a memoized function that uses another one in no-op mode, with exceptions at two points, called in all kinds of level; then further calls")
def inside(nd, kind):
    """bodies that enter levels, and exceptions from bodies"""
    m = Model(nd, {"s1": Storage(nd.scratch + "/one.db"), "s2": Storage(nd.scratch + "/two.db")})
    for i in range(3):
        BODY.append(nd.bool("body%d" % i))
    try:
        with m.enter(kind):
            mode = m.levels[-1] if len(m.levels) > 0 else None
            m.check("at first")
            try:
                r = outer(1)
                nd.check(isinstance(r, Ref) == (mode == ("s1", "run")), "memoized in run mode")
                if mode == ("s1", "run"):
                    m.made["s1"].append(0)
            except Oops:
                m.check("after the body raised")
                if not nd.bool("caught"):
                    raise
            m.check("after the call")
            m.call()
            m.check("after another call")
            r = None
    except Oops:
        pass
    if len(m.levels) > 0:
        m.left(m.levels.pop()[0])
    m.check("at the end")
    m.commits("at the end")


@harness("C15", quick=[dict(k=k) for k in KINDS], bounds="a level (of two storages, run, no-op, inherited) inside another one; the commit at the end of either fails; then all is left normally")
def failing_commit(nd, k):
    """a level whose commit fails is left all the same, and the calls are committed later"""
    m = Model(nd, {"s1": Storage(nd.scratch + "/one.db"), "s2": Storage(nd.scratch + "/two.db")})
    failed = 0
    try:
        with m.enter("s1 run"):
            m.call()
            try:
                n = len(m.levels)
                with m.enter(k):
                    m.call()
                    if nd.bool("inner"):
                        arm(fault_at=1, fault_times=10)
            except sqlite3.OperationalError:
                failed += 1
            if len(m.levels) > n:
                m.levels.pop()
            disarm()
            m.check("after the inner level")
            m.call()
            if nd.bool("outer"):
                arm(fault_at=1, fault_times=10)
    except sqlite3.OperationalError:
        failed += 1
    nd.cover(failed == 1, "one commit failed")
    disarm()
    m.levels.pop()
    m.check("at the end")
    for name in m.sts:
        with m.sts[name]:
            pass
        m.kept[name] = len(m.made[name])
    m.commits("after another commit")
