"""Objects that the module under test may define (C29)."""
import functools
import math
from mandala.model import op
from mandala.deps.tracers.dec_impl import track
from harness import crawled2
from harness.crawled2 import deco, plaindeco


def f(x):
    return g(x) + 1


def g(x):
    # a comment   
    return x


@deco
def wrapped(x):
    return x + 2


@deco
@deco
def wrapped2(x):
    return x + 3


@functools.lru_cache(maxsize=None)
def cached(x):
    return x + 4


@op
def anop(x):
    return f(x)


@track
def tracked(x):
    return f(x) + 5


@track
@op
def trackedop(x):
    return tracked(x)


def factory():
    def made(x):
        return x
    return made


lam = lambda x: x + 6
made = factory()
hidden = plaindeco(g)
partial = functools.partial(f, 3)


class C:
    K = 5

    def m(self):
        return f(1)

    @deco
    def n(self):
        return 2

    class Inner:
        def im(self):
            return 3

    borrowed = crawled2.there
    again = f


class Init:
    def __init__(self):
        self.x = 1

    def m(self):
        return self.x


class Sub(crawled2.Base):
    def extra(self):
        return 4


class SubOwn(Init):
    def more(self):
        return 5


@track
class Tracked:
    def __init__(self, x):
        self.x = x

    def m(self):
        return self.x


class Callable:
    def __call__(self):
        return 1


inst = Callable()


class Special:
    def __call__(self, x):
        return x + 1

    def __getitem__(self, i):
        return i

    def __enter__(self):
        return self

    def _private(self):
        return 3

    def __mangled(self):
        return 4


def unit(module):
    """a function as if defined in the given module"""
    def u():
        return 1
    u.__module__ = module
    u.__qualname__ = "u"
    return u


import threading
lock = threading.Lock()
