"""Memoized functions that call each other and tracked functions (C19)."""
from mandala.model import op
from mandala.deps.tracers.dec_impl import track
from harness import plan

gx = 3
gy = (4, 5)


@track
def hp(x):
    w = plan.next("hp", 0)
    if w == 1:
        plan.use("hp", "gy")
        gy
    elif w == 2:
        raise ValueError("hp")
    elif w == 3:
        plan.use("hp", "ob")
        ob(x)
    return 1


@track
@op
def ob(x):
    for i in range(2):
        w = plan.next("ob", i)
        if w == 1:
            plan.use("ob", "gx")
            gx
        elif w == 2:
            plan.use("ob", "oc")
            oc(x)
        elif w == 3:
            raise ValueError("ob")
    return 2


@track
@op
def oc(x):
    w = plan.next("oc", 0)
    if w == 1:
        plan.use("oc", "gy")
        gy
    elif w == 2:
        raise ValueError("oc")
    return 3


@track
@op
def oa(x):
    for i in range(2):
        w = plan.next("oa", i)
        if w == 1:
            plan.use("oa", "hp")
            hp(x)
        elif w == 2:
            plan.use("oa", "ob")
            ob(x)
        elif w == 3:
            plan.use("oa", "ob")
            try:
                ob(x)
            except ValueError:
                plan.use("oa", "gy")
                gy
        elif w == 4:
            plan.use("oa", "oc")
            with plan.noop():
                try:
                    oc(x)
                except ValueError:
                    pass
        elif w == 5:
            plan.use("oa", "hp")
            try:
                hp(x)
            except ValueError:
                pass
    return 4
