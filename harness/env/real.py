"""Native runs: the real sqlite3/joblib/os, instrumented with the same fault
points as the model."""
import sys
import os
import sqlite3
import joblib
from symex.minisql import parse
from harness.env.world import W, point


class Proxy:
    def __init__(self, base, **over):
        self.__dict__["_base"] = base
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_base"], n)


class Conn(sqlite3.Connection):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        W.conns.append(self)

    def execute(self, sql, params=()):
        try:
            kind = parse(sql)[0]
        except NotImplementedError:
            kind = "read"
        if kind == "commit":
            self.commit()
            return super().execute("SELECT 1")
        point("read" if kind in ("pragma", "select", "rollback", "read") else "sql")
        return super().execute(sql, params)

    def executemany(self, sql, many):
        for p in many:
            self.execute(sql, p)

    def commit(self):
        if self.in_transaction:
            point("sql")
            super().commit()

    def rollback(self):
        point("read")
        super().rollback()

    def close(self):
        if not W.dead:
            super().close()

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.commit()
        else:
            self.rollback()
        return False

    def raw_close(self):
        sqlite3.Connection.close(self)


def connect(*a, **k):
    point("read")
    k.setdefault("timeout", 0.05)
    return sqlite3.connect(*a, factory=Conn, **k)


def dump(value, target, *a, **k):
    if not isinstance(target, (str, os.PathLike)):
        return joblib.dump(value, target, *a, **k)
    point("file")
    with open(target, "wb") as f:
        f.write(b"")
    point("file")
    return joblib.dump(value, target, *a, **k)


def load(source, *a, **k):
    if isinstance(source, (str, os.PathLike)):
        point("read")
    return joblib.load(source, *a, **k)


def wrap(f, kind):
    def g(*a, **k):
        point(kind)
        return f(*a, **k)
    return g


def install():
    path = Proxy(os.path, **{n: wrap(getattr(os.path, n), "read") for n in ("exists", "isfile", "isdir")})
    over = {n: wrap(getattr(os, n), "file") for n in ("makedirs", "mkdir", "remove", "unlink", "replace", "rename")}
    over["listdir"] = wrap(os.listdir, "read")
    fakes = {id(sqlite3): Proxy(sqlite3, connect=connect), id(joblib): Proxy(joblib, dump=dump, load=load),
             id(os): Proxy(os, path=path, **over)}
    import time
    fakes[id(time)] = Proxy(time, sleep=lambda x: None)
    for n, m in list(sys.modules.items()):
        if m is not None and (n == "mandala" or n.startswith("mandala.")):
            for k, v in list(vars(m).items()):
                r = fakes.get(id(v))
                if r is not None:
                    setattr(m, k, r)
