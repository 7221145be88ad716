"""A second module of the tracked program (C19)."""
from mandala.deps.tracers.dec_impl import track

ga = 7


@track
def fd(p, d):
    for i in range(p.steps):
        w = p.next("fd", d, i)
        if w == 1:
            p.use("fd", "2.ga")
            ga
        elif w == 2:
            raise ValueError("d")
    return 1


class Base:
    def up(self, p, d):
        w = p.next("Base.up", d, 0)
        if w == 1:
            p.use("Base.up", "2.ga")
            ga
        elif w == 2:
            p.use("Base.up", "fd")
            fd(p, d + 1)
        return 1


Base = track(Base)
