"""State of the modelled environment (symbolic runs) and of the instrumented
real environment (native replays), with the fault plan shared by both."""
import sqlite3 as _sqlite3


class Crash(BaseException):
    """the process died here; nothing it does afterwards has any effect"""


class World:
    def __init__(self):
        self.files = {}      # path -> Blob | Partial
        self.dirs = {}       # path -> True
        self.dbs = {}        # path -> DB
        self.conns = []      # native runs: open connections
        self.armed = False
        self.dead = False
        self.n = 0           # environment operations since arming
        self.crash_at = None
        self.fault_at = None
        self.fault_times = 1
        self.faulted = 0


W = World()


def point(kind):
    """called before every effect on the environment"""
    if W.dead:
        raise Crash()
    if W.armed and kind != "read":
        W.n += 1
        if W.crash_at is not None and W.n == W.crash_at:
            W.dead = True
            raise Crash()
        if W.fault_at is not None and kind == "sql" and W.n >= W.fault_at and W.faulted < W.fault_times:
            W.faulted += 1
            raise _sqlite3.OperationalError("injected fault")


def arm(crash_at=None, fault_at=None, fault_times=1):
    W.armed = True
    W.dead = False
    W.n = 0
    W.crash_at = crash_at
    W.fault_at = fault_at
    W.fault_times = fault_times
    W.faulted = 0


def disarm():
    W.armed = False
    W.crash_at = None
    W.fault_at = None


def reboot():
    """the process is gone: open transactions are rolled back, the files stay"""
    W.dead = False
    disarm()
    for name in list(W.dbs):
        db = W.dbs[name]
        if db.writer is not None:
            db.writer._undo()
        if db.path == "":
            del W.dbs[name]
    for c in W.conns:
        c.raw_close()
    W.conns = []
