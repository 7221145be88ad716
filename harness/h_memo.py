"""C02/C03: a call is executed iff it was not made before, and its value is the
function's, over histories of calls and sessions with arbitrary integers."""
from symex.registry import harness
from harness.stlib import *

B = "the listed call histories (up to 6 calls), all integer arguments, all coincidences between them"


@harness("C02", quick=[dict(h="inc(x0) / inc(x1) / exit / inc(x0) / inc(x2)"),
                       dict(h="inc(x0) / reopen / inc(x1) / inc(x0)"),
                       dict(h="add(x0,x1) / reopen / add(x1,x0) / add(y=x1,x=x0)"),
                       dict(h="pair(x0) / named(x0) / reopen / pair(x1) / named(x1)"),
                       dict(h="lst(x0,x1) / dct(x0,x1) / reopen / lst(x0,x2) / dct(x0,x1)"),
                       dict(h="const() / const() / reopen / const() / dflt(x0) / dflt(x0,5) / dflt(x0,x1)"),
                       dict(h="sumlist([x0;x1]) / clear / sumlist([x0;x2]) / sumlist([x1;x0])"),
                       dict(h="inc(x0) / clear / inc(x1) / commit / inc(x2)"),
                       dict(h="inc(x0) / inc(r0) / reopen / named(x1) / inc(r2.0)"),
                       dict(h="inc(x0) / inc(r0) / clear / dflt(x1,x2) / inc(r2) / commit / inc(r2)"),
                       ], thorough=[dict(h="inc(x0) / add(x0,x1) / reopen / inc(x1) / add(x1,x2) / reopen / inc(x2) / add(x2,x0)")], bounds=B)
def history(nd, h):
    """at most one execution per distinct call, across contexts and sessions"""
    H = Hist(nd)
    H.run(h)
    H.check_values()
    H.nd.obs("runs", len(RUNS))


@harness("C03", quick=[dict(h="inc(x0) / inc(r0) / inc(x1)"),
                       dict(h="inc(x0) / exit / inc(r0) / reopen / inc(x1)"),
                       dict(h="inc(x0) / inc(x1) / reopen / inc(r0)"),
                       dict(h="inc(x0) / add(r0,x1) / reopen / add(x2,x1) / add(y=x1,x=r0)"),
                       dict(h="pair(x0) / inc(r0.1) / reopen / inc(r0.0) / inc(x1)"),
                       dict(h="lst(x0,x1) / sumlist(r0) / reopen / sumlist([x0;x1]) / inc(r0.1)"),
                       dict(h="dct(x0,x1) / inc(r0.p) / reopen / inc(r0.q) / inc(x1)"),
                       dict(h="inc(x0) / sumlist([r0;x1]) / reopen / sumlist([x2;r0])"),
                       ], bounds=B)
def refs(nd, h):
    """passing a value or any reference to it is the same call"""
    H = Hist(nd)
    H.run(h)
    H.check_values()
    H.nd.obs("runs", len(RUNS))
