"""A small tracked program for C19.  What each function does is decided by the
plan given to it; the plan keeps its own account of who used what."""
from mandala.deps.tracers.dec_impl import track
from harness.traced2 import fd, Base

ga = 1
gb = (2, 3)


@track
def fc(p, d):
    for i in range(p.steps):
        w = p.next("fc", d, i)
        if w == 1:
            p.use("fc", "ga")
            ga
        elif w == 2:
            p.use("fc", "gb")
            gb
        elif w == 3:
            raise ValueError("c")
    return 1


@track
def fb(p, d):
    for i in range(p.steps):
        w = p.next("fb", d, i)
        if w == 1:
            p.use("fb", "ga")
            ga
        elif w == 2:
            p.use("fb", "fc")
            fc(p, d + 1)
        elif w == 3:
            raise ValueError("b")
        elif w == 4:
            p.use("fb", "fc")
            try:
                fc(p, d + 1)
            except ValueError:
                pass
    return 1


@track
def fa(p, d):
    for i in range(p.steps):
        w = p.next("fa", d, i)
        if w == 1:
            p.use("fa", "gb")
            gb
        elif w == 2:
            p.use("fa", "fb")
            fb(p, d + 1)
        elif w == 3:
            p.use("fa", "fc")
            fc(p, d + 1)
        elif w == 4:
            p.use("fa", "fb")
            try:
                fb(p, d + 1)
            except ValueError:
                pass
    return 1


@track
class Thing(Base):
    def run(self, p, d):
        w = p.next("Thing.run", d, 0)
        if w == 1:
            p.use("Thing.run", "ga")
            ga
        elif w == 2:
            p.use("Thing.run", "Base.up")
            self.up(p, d + 1)
        elif w == 3:
            raise ValueError("run")
        return 1

    class Inner:
        def go(self, p, d):
            w = p.next("Thing.Inner.go", d, 0)
            if w == 1:
                p.use("Thing.Inner.go", "gb")
                gb
            elif w == 2:
                p.use("Thing.Inner.go", "fd")
                fd(p, d + 1)
            return 1


def plain(p, d):
    """not tracked"""
    return fc(p, d + 1)


@track
def fm(p, d):
    for i in range(p.steps):
        w = p.next("fm", d, i)
        if w == 1:
            p.use("fm", "Thing.run")
            p.thing.run(p, d + 1)
        elif w == 2:
            p.use("fm", "Base.up")
            p.thing.up(p, d + 1)
        elif w == 3:
            p.use("fm", "Thing.Inner.go")
            p.inner.go(p, d + 1)
        elif w == 4:
            p.use("fm", "fd")
            try:
                fd(p, d + 1)
            except ValueError:
                p.use("fm", "ga")
                ga
        elif w == 5:
            p.use("fm", "fc")
            p.helper(p, d)
        elif w == 6:
            p.use("fm", "gb")
            [gb for j in range(2)]
    return 1


@track
def fr(p, d):
    w = p.next("fr", d, 0)
    if w == 1:
        p.use("fr", "ga")
        ga
    elif w == 2 and d < p.depth:
        p.use("fr", "fs")
        fs(p, d + 1)
    elif w == 3 and d < p.depth:
        p.use("fr", "fr")
        fr(p, d + 1)
    elif w == 4:
        raise ValueError("r")
    elif w == 5 and d < p.depth:
        try:
            p.use("fr", "fr")
            fr(p, d + 1)
        finally:
            p.use("fr", "gb")
            gb
    return 1


@track
def fs(p, d):
    w = p.next("fs", d, 0)
    if w == 1:
        p.use("fs", "gb")
        gb
    elif w == 2 and d < p.depth:
        p.use("fs", "fr")
        try:
            fr(p, d + 1)
        except ValueError:
            pass
    elif w == 3 and d < p.depth:
        p.use("fs", "fr")
        fr(p, d + 1)
        p.use("fs", "fc")
        fc(p, d + 1)
    return 1


PROGRAMS = {"calls": fa, "methods": fm, "recursion": fr}
ROOTS = {"calls": "fa", "methods": "fm", "recursion": "fr"}
