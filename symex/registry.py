"""Harness registry. A harness is a plain Python function of an `nd` source and
keyword parameters; it is interpreted symbolically and replayed natively."""
import importlib, os, sys

REG = {}


class Job:
    def __init__(self, prop, fn, params, tier, doc, covers, timeout):
        self.prop = prop
        self.fn = fn
        self.params = params
        self.tier = tier
        self.doc = doc
        self.covers = covers
        self.timeout = timeout

    @property
    def name(self):
        return "%s.%s%s" % (self.fn.__module__.split(".")[-1], self.fn.__name__,
                            "(" + ",".join("%s=%s" % kv for kv in self.params.items()) + ")" if self.params else "")


def harness(prop, quick=({},), thorough=(), timeout=700, bounds=""):
    """quick: parameter dicts run in both tiers; thorough: extra ones"""
    def deco(f):
        f._bounds = bounds
        for tier, ps in (("quick", quick), ("thorough", thorough)):
            for p in ps:
                REG.setdefault(prop, []).append(Job(prop, f, p, tier, f.__doc__ or "", (), timeout))
        return f
    return deco


def load_all():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
    for n in sorted(os.listdir(d)):
        if n.startswith("h_") and n.endswith(".py"):
            importlib.import_module("harness." + n[:-3])


def load_for(prop):
    """import only the modules that mention the property"""
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
    for n in sorted(os.listdir(d)):
        if n.startswith("h_") and n.endswith(".py"):
            if '"%s"' % prop in open(os.path.join(d, n)).read():
                importlib.import_module("harness." + n[:-3])
    return REG.get(prop, [])
