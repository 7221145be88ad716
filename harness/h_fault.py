"""C07/C08: commits and storage transactions under crashes and database errors
at every point."""
from symex.registry import harness
from mandala.storage_utils import DBAdapter, transaction
from harness.stlib import *
import sqlite3


def call_hids(st):
    return set(st.call_storage.get_df().index.get_level_values(0).unique())


def check_whole(nd, st, hids, data):
    """every call visible in the database has all its records"""
    for h in hids:
        d = st.call_storage.get_data(h)
        nd.check(d == data[h], "a visible call has all its rows")
        nd.check(st.ops.exists(d["op_name"]) , "its function is recorded")
        c = st.get_call(h, lazy=False)
        for r in list(c.inputs.values()) + list(c.outputs.values()):
            st.unwrap(r)
            nd.check(r.cid in [d["input_cids"][k] for k in d["input_cids"]] + [d["output_cids"][k] for k in d["output_cids"]], "its references are recorded")


def session(nd, h, path=None):
    """runs a history and stops before the last commit"""
    H = Hist(nd, path=path)
    for s in h.split(" / "):
        H.step(s)
    st = H.st
    before = call_hids(st)
    data = {}
    for x in before:
        data[x] = st.call_storage.get_data(x)
    for x in st.calls.dirty_hids:
        data[x] = st.calls.get_data(x)
    return H, st, before, before | set(st.calls.dirty_hids), data


HS = ["inc(x0)", "inc(x0) / exit / add(x1,x2)", "pair(x0) / commit / inc(r0.1)", "lst(x0,x1)", "inc(x0) / reopen / sumlist([r0;x1])"]


@harness("C07", quick=[dict(h=h) for h in HS],
         thorough=[dict(h="inc(x0) / reopen / dct(x1,x2) / sumlist([x0;x1])"), dict(h="named(x0) / inc(r0.1) / clear / lst(r0.0,x1) / inc(x2)")],
         bounds="sessions of up to 3 calls (all integer arguments) after up to one committed session; a crash at any of the database and file operations of the commit")
def crash_commit(nd, h):
    H, st, before, after, data = session(nd, h.replace("clear", "commit / clear"))
    arm(crash_at=nd.int("crash", 1, 60))
    try:
        if H.open:
            H.leave()
        else:
            st.commit()
    except Crash:
        pass
    done = not W.dead
    nd.cover(not done, "crashed")
    nd.cover(done, "finished")
    reboot()
    st = Storage(H.path)
    now = call_hids(st)
    nd.check(now == before or now == after, "all or nothing of the session is in the database")
    nd.check(now == after or not done, "a commit that returned is in the database")
    check_whole(nd, st, now, data)


@harness("C07", quick=[dict(h=h, mem=False, times=t) for h in HS[1:] for t in (1, 10)] + [dict(h="inc(x0) / exit / add(x1,x2)", mem=True, times=10)],
         bounds="the same sessions; 1 or 10 consecutive database errors (10: the commit fails) starting at any write of the commit, then another commit")
def error_commit(nd, h, mem, times):
    H, st, before, after, data = session(nd, h, path=":memory:" if mem else None)
    arm(fault_at=nd.int("fault", 1, 60), fault_times=times)
    failed = False
    try:
        st.commit()
    except sqlite3.OperationalError:
        failed = True
    hit = W.faulted > 0
    disarm()
    nd.cover(hit, "an error happened")
    nd.check(failed == (hit and times == 10), "transient errors are retried, persistent ones are reported")
    now = call_hids(st)
    nd.check(now == (before if failed else after), "all or nothing of the session is in the database")
    if failed:
        st.commit()
    nd.check(len(st.calls.dirty_hids) == 0, "nothing is left to commit")
    H.leave()
    st2 = st if mem else Storage(H.path)
    st2.clear_cache()
    now = call_hids(st2)
    nd.check(now == after, "the later commit persisted everything")
    check_whole(nd, st2, now, data)


class Fat:
    """a value too large for a database without overflow directory"""

    def __init__(self, x):
        self.x = x
        self.blob_size = 3000
        self.payload = "x" * 3000


@op
def fat(x):
    return Fat(x)


@harness("C07", quick=[dict(mem=m) for m in (False, True)],
         bounds="a session of three calls, one with a value that cannot be stored; all integer arguments")
def refused_commit(nd, mem):
    path = ":memory:" if mem else db_path(nd)
    st = Storage(path, overflow_threshold_MB=1 / 1024)
    x = [nd.int("x%d" % i) for i in range(3)]
    with st:
        a = inc(x[0])
    refused = False
    try:
        with st:
            b = inc(x[1])
            f = fat(a)
            c = lst(x[2], x[1])
    except ValueError:
        refused = True
    nd.check(refused, "a value that cannot be stored is reported")
    nd.check(Context.current_context is None, "the context was left")
    one = Storage(path) if not mem else None
    if one is not None:
        nd.check(len(one.atoms.persistent.keys()) <= 2, "nothing of the refused session is in the database")
    st.atoms.persistent.overflow_threshold_MB = 50
    st.commit()
    st2 = st if mem else Storage(path)
    if mem:
        st.clear_cache()
    n = dict(RUNS)
    with st2:
        st2.allow_new_calls(False)
        nd.check(st2.unwrap(inc(x[1])) == x[1] + 1 and st2.unwrap(lst(x[2], x[1])) == [x[2], x[1]], "the later commit persisted every call")
        nd.check(st2.unwrap(fat(inc(x[0]))).x == x[0] + 1, "the later commit persisted the refused call")
    nd.check(n == RUNS, "nothing was executed again")


# ---------------------------------------------------------------------- C08
class Boom(Exception):
    pass


class Abort(BaseException):
    pass


class Box:
    def __init__(self, path):
        self.db = DBAdapter(path)
        self.bodies = 0

    def conn(self):
        return self.db.conn()

    @transaction
    def setup(self, conn=None):
        conn.execute("CREATE TABLE IF NOT EXISTS t (key TEXT PRIMARY KEY, value BLOB)")
        conn.execute("CREATE TABLE IF NOT EXISTS log (value BLOB)")

    @transaction
    def work(self, k, v, err=None, conn=None):
        self.bodies += 1
        conn.execute("INSERT INTO log VALUES (?)", (v,))
        if err == "mid":
            raise Boom()
        if err == "abort":
            raise Abort()
        if err == "integrity":
            raise sqlite3.IntegrityError("UNIQUE constraint failed")
        if err == "usage":
            raise sqlite3.ProgrammingError("Cannot operate on a closed database.")
        conn.execute("INSERT OR REPLACE INTO t VALUES (?, ?)", (k, v))
        return v + 1

    @transaction
    def both(self, v1, v2, err=None, conn=None):
        a = self.work("a", v1, conn=conn)
        if err == "between":
            raise Boom()
        b = self.work("b", v2, conn=conn, err=err)
        return a, b

    @transaction
    def read(self, conn=None):
        return ([r[0] for r in conn.execute("SELECT value FROM log").fetchall()],
                {r[0]: r[1] for r in conn.execute("SELECT * FROM t").fetchall()})


@harness("C08", quick=[dict(mem=m, err=e) for m in (False, True) for e in (None, "mid", "abort", "between", "integrity", "usage")],
         bounds="transactions of up to 4 writes, nested in one another or not, on file and in-memory databases; up to 10 consecutive errors starting at any "
                "write, begin or commit; a python error of each kind inside; all values")
def transactions(nd, mem, err):
    b = Box(":memory:" if mem else nd.scratch + "/db")
    b.setup()
    v0, v1, v2 = nd.int("v0"), nd.int("v1"), nd.int("v2")
    b.work("z", v0)
    times = nd.int("times", 0, 10)
    arm(fault_at=nd.int("at", 1, 8), fault_times=times)
    out, got = None, None
    try:
        got = b.both(v1, v2, err=err)
        out = "ok"
    except Boom:
        out = "boom"
    except Abort:
        out = "abort"
    except sqlite3.OperationalError:
        out = "db"
    except sqlite3.IntegrityError:
        out = "integrity"
    except sqlite3.ProgrammingError:
        out = "usage"
    hit = W.faulted
    disarm()
    nd.cover(hit > 0, "errors happened")
    want = "ok" if err is None else err if err in ("abort", "integrity", "usage") else "boom"
    nd.check(out == ("db" if hit == 10 else want), "transient errors are retried, others reach the caller")
    log, t = b.read()
    if out == "ok":
        nd.check(got == (v1 + 1, v2 + 1), "the result of the transaction is returned")
        nd.check(log == [v0, v1, v2] and t == {"z": v0, "a": v1, "b": v2}, "the transaction took effect exactly once")
    else:
        nd.check(log == [v0] and t == {"z": v0}, "a failed transaction leaves the database unchanged")
    nd.check(b.work("n", v2) == v2 + 1, "later transactions run")
    log2, t2 = b.read()
    nd.check(log2 == log + [v2] and t2["n"] == v2, "later transactions take effect")


@harness("C08", quick=[dict(mem=m) for m in (False, True)], bounds="an operation given an open connection, followed by a rollback or commit of the caller")
def given(nd, mem):
    b = Box(":memory:" if mem else nd.scratch + "/db")
    b.setup()
    v0, v1 = nd.int("v0"), nd.int("v1")
    b.work("z", v0)
    keep = nd.bool("keep")
    err = nd.choice("err", [None, "mid"])
    conn = b.conn()
    conn.execute("BEGIN IMMEDIATE")
    boom = False
    try:
        b.work("a", v1, err=err, conn=conn)
    except Boom:
        boom = True
    nd.check(boom == (err is not None), "errors reach the caller")
    nd.check(conn.in_transaction, "the caller's transaction is still open")
    if keep:
        conn.commit()
    else:
        conn.rollback()
    if not mem:
        conn.close()
    log, t = b.read()
    nd.check(log == ([v0, v1] if keep else [v0]), "the caller decides whether the operation takes effect")
    nd.check(t == ({"z": v0, "a": v1} if keep and not boom else {"z": v0}), "the caller decides whether the operation takes effect (2)")
