"""what the memoized functions of traced_ops do (C19)"""
from mandala.storage import noop

current = []


def next(who, i):
    return current[0].next(who, 0, i)


def use(who, what):
    current[0].use(who, what)
