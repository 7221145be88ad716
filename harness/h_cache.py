"""C05/C06/C09: the write-back caches and the overflow storage against
reference dictionaries."""
from symex.registry import harness
from mandala.storage_utils import DBAdapter, SQLiteDictStorage, CachedDictStorage, JoblibDictStorage, SQLiteCallStorage, CachedCallStorage
from mandala.utils import get_content_hash, serialize
from mandala.model import op, Call, AtomRef
from harness.env.world import W, Crash, arm, disarm, reboot
from harness.env.values import make


class RefStore:
    """what a write-back store must answer"""

    def __init__(self):
        self.live = {}     # key -> latest value
        self.saved = {}    # what the database holds
        self.dirty = {}    # uncommitted keys

    def set(self, k, v):
        self.live[k] = v
        self.dirty[k] = True

    def drop(self, k):
        for d in (self.live, self.saved, self.dirty):
            if k in d:
                del d[k]

    def commit(self):
        for k in self.dirty:
            self.saved[k] = self.live[k]
        self.dirty = {}

    def lose(self):
        """forget the uncommitted writes"""
        self.live = dict(self.saved)
        self.dirty = {}


STEPS = "s00 s11 s01 g0 d0 d1 c x X R".split()


def dict_store(path, overflow=None, threshold=None):
    db = DBAdapter(path)
    o = JoblibDictStorage(overflow) if overflow is not None else None
    return CachedDictStorage(SQLiteDictStorage(db, table="t", overflow_storage=o, overflow_threshold_MB=threshold))


def agree(nd, s, r, keys, when):
    for k in keys:
        nd.check(s.exists(k) == (k in r.live), "%s: exists answers like the dictionary" % when)
        if k in r.live:
            nd.check(s.get(k) == r.live[k], "%s: get returns the latest value" % when)
        else:
            ok = False
            try:
                s.get(k)
            except KeyError:
                ok = True
            except FileNotFoundError:
                ok = True
            nd.check(ok, "%s: get of a missing key fails" % when)


def dict_step(nd, s, path, r, w, keys, vals):
    """one step; returns the store (a new one after a reopen)"""
    op = w[0]
    if op == "s":
        k, v = keys[int(w[1])], vals[int(w[2])]
        s.set(k, v)
        r.set(k, v)
    elif op == "g":
        k = keys[int(w[1])]
        nd.check(s.exists(k) == (k in r.live), "exists answers like the dictionary")
        if k in r.live:
            nd.check(s[k] == r.live[k], "get returns the latest value")
            nd.check(k in s, "a stored key is in the store")
    elif op == "d":
        k = keys[int(w[1])]
        s.drop(k)
        r.drop(k)
    elif op == "c":
        s.commit()
        r.commit()
    elif op == "x":      # clear
        refused = False
        try:
            s.clear()
        except ValueError:
            refused = True
        nd.check(refused == (len(r.dirty) > 0), "clear is refused exactly when there are uncommitted writes")
    elif op == "X":
        s.clear(allow_uncommited=True)
        r.lose()
    elif op == "R":
        s = dict_store(path)
        r.lose()
    return s


@harness("C05", quick=[dict(pre=b + q, n=2) for b in ("s00 ", "s00 c ") for q in STEPS],
         thorough=[dict(pre=b + q, n=2) for b in ("s00 c ", "s00 s11 ", "s00 c s01 ", "s00 s11 c ", "s00 c R ", "s00 c d0 ") for q in STEPS],
         bounds="histories of a fixed beginning and up to 4 further arbitrary operations (set, get, drop, commit, clear, forced clear, new session), "
                "two keys and two values that are arbitrary and may coincide")
def dicts(nd, pre, n):
    keys = [get_content_hash(nd.int("k%d" % i)) for i in range(2)]
    vals = [nd.int("v%d" % i) for i in range(2)]
    path = nd.scratch + "/db"
    s = dict_store(path)
    r = RefStore()
    for w in pre.split():
        s = dict_step(nd, s, path, r, w, keys, vals)
    for i in range(n):
        s = dict_step(nd, s, path, r, nd.choice("op%d" % i, STEPS), keys, vals)
    agree(nd, s, r, keys, "at the end")
    s.commit()
    r.commit()
    fresh = dict_store(path)
    agree(nd, fresh, r, keys, "in a fresh store after a commit")
    n = 0
    for k in r.live:
        n += 1
    nd.check(len(fresh.persistent) == n, "a fresh store lists as many keys")
    all_ = fresh.load_all()
    nd.check(len(all_) == n and all([all_[k] == r.live[k] for k in r.live]), "load_all returns the whole dictionary")




LIMIT = 1 / 1024      # MB: values of more than 1024 bytes overflow


def over_store(nd, mb):
    return SQLiteDictStorage(DBAdapter(nd.scratch + "/db"), table="t", overflow_storage=JoblibDictStorage(nd.scratch + "/over"), overflow_threshold_MB=mb)


def over_agree(nd, s, r, keys, when):
    for k in keys:
        nd.check(s.exists(k) == (k in r), "%s: exists does not depend on the size" % when)
        nd.check((k in s) == (k in r), "%s: in does not depend on the size" % when)
        if k in r:
            nd.check(s.get(k) == r[k], "%s: the value reads back equal" % when)
    n = 0
    for k in r:
        n += 1
    listed = s.keys()
    nd.check(len(listed) == n and set(listed) == set(r), "%s: every key is listed once" % when)
    nd.check(len(s.values()) == n, "%s: every value is listed once" % when)
    d = s.load_all()
    nd.check(len(d) == n and all([d[k] == r[k] for k in r]), "%s: load_all has every value" % when)


OSTEPS = "s0 s1 d0 d1 low high".split()


@harness("C09", quick=[dict(pre="s0 " + q, n=2) for q in OSTEPS],
         thorough=[dict(pre="s0 " + q, n=3) for q in OSTEPS],
         bounds="a store and up to 3 (thorough: 4) further arbitrary operations (store, delete, new session with a lower or higher threshold), two values of "
                "arbitrary equal or different contents and every size from 400 to 1600 bytes around thresholds of 512, 1024 and 1536 bytes")
def sizes(nd, pre, n):
    vals = [make(nd, nd.int("tag%d" % i), nd.int("size%d" % i, 400, 1600)) for i in range(2)]
    keys = [get_content_hash((v.tag, v.blob_size)) for v in vals]
    s = over_store(nd, LIMIT)
    r = {}
    for i in range(n + 2):
        w = pre.split()[i] if i < 2 else nd.choice("op%d" % i, OSTEPS)
        if w[0] == "s":
            k = int(w[1])
            s.set(keys[k], vals[k])
            r[keys[k]] = vals[k]
        elif w[0] == "d":
            k = int(w[1])
            s.drop(keys[k])
            if keys[k] in r:
                del r[keys[k]]
        elif w == "low":
            s = over_store(nd, LIMIT / 2)
        else:
            s = over_store(nd, LIMIT * 1.5)
    over_agree(nd, s, r, keys, "at the end")


@harness("C09", quick=[dict(act=a) for a in ("set", "drop", "reset")],
         bounds="a crash at any point while a value of any size from 400 to 1600 bytes (threshold 1024) is stored, stored again or deleted")
def crash(nd, act):
    vals = [make(nd, nd.int("tag%d" % i), nd.int("size%d" % i, 400, 1600)) for i in range(2)]
    nd.assume(vals[0].tag != vals[1].tag)
    keys = [get_content_hash(v.tag) for v in vals]
    s = over_store(nd, LIMIT)
    s.set(keys[1], vals[1])
    if act != "set":
        s.set(keys[0], vals[0])
    arm(crash_at=nd.int("crash", 1, 9))
    try:
        if act == "drop":
            s.drop(keys[0])
        else:
            s.set(keys[0], vals[0])
    except Crash:
        pass
    nd.cover(W.dead, "crashed")
    nd.cover(not W.dead, "finished")
    done = not W.dead
    reboot()
    s = over_store(nd, LIMIT)
    nd.check(s.get(keys[1]) == vals[1], "other values survive")
    there = s.exists(keys[0])
    if there:
        nd.check(s.get(keys[0]) == vals[0], "whatever is readable is whole")
    nd.check(not (act == "reset" and not there), "storing a value again never loses it")
    if done:
        nd.check(there == (act != "drop"), "without a crash the operation took effect")
    s.set(keys[0], vals[0])
    over_agree(nd, s, {keys[0]: vals[0], keys[1]: vals[1]}, keys, "stored again after the crash")


# ---------------------------------------------------------------------- calls
def call_store(path):
    return CachedCallStorage(SQLiteCallStorage(DBAdapter(path), table_name="calls"))


def make_call(k, c):
    """a call whose data is determined by its identity k and content c"""
    hid, cid = get_content_hash(("call", k)), get_content_hash(("content", c))
    a = AtomRef(cid=get_content_hash(c), hid=get_content_hash(("in", k)), in_memory=True, obj=c)
    b = AtomRef(cid=get_content_hash(("b", c)), hid=get_content_hash(("inb", k)), in_memory=True, obj=c)
    o = AtomRef(cid=get_content_hash(("o", c)), hid=get_content_hash(("out", k)), in_memory=True, obj=c)
    return Call(op=two, cid=cid, hid=hid, inputs={"x": a, "y": b}, outputs={"output_0": o}, semantic_version=None, content_version=None)


@op
def two(x, y):
    return x


def same_data(d, c):
    return (d["op_name"] == "two" and d["hid"] == c.hid and d["cid"] == c.cid
            and d["input_hids"] == {k: r.hid for k, r in c.inputs.items()} and d["output_hids"] == {k: r.hid for k, r in c.outputs.items()}
            and d["input_cids"] == {k: r.cid for k, r in c.inputs.items()} and d["output_cids"] == {k: r.cid for k, r in c.outputs.items()})


def calls_agree(nd, s, r, calls, when):
    for c in calls:
        nd.check(s.exists(c.hid) == (c.hid in r.live), "%s: exists answers like the table" % when)
        if c.hid in r.live:
            nd.check(same_data(s.get_data(c.hid), c), "%s: get_data returns the saved call" % when)
        has = any([r.live[h].cid == c.cid for h in r.live])
        nd.check(s.exists_content(c.cid) == has, "%s: exists_content answers like the table" % when)
        if has:
            d = s.get_data_content(c.cid)
            nd.check(d["cid"] == c.cid and d["hid"] in r.live and same_data(d, r.live[d["hid"]]), "%s: get_data_content returns a saved call of that content" % when)


CSTEPS = "s0 s1 d0 d1 c x X R".split()


def call_step(nd, s, path, r, w, calls):
    if w[0] == "s":
        c = calls[int(w[1])]
        s.save(c)
        r.set(c.hid, c)
    elif w[0] == "d":
        s.drop(calls[int(w[1])].hid)
        r.drop(calls[int(w[1])].hid)
    elif w == "c":
        s.commit()
        r.commit()
    elif w == "x":
        refused = False
        try:
            s.clear()
        except ValueError:
            refused = True
        nd.check(refused == (len(r.dirty) > 0), "clear is refused exactly when there are uncommitted calls")
    elif w == "X":
        s.clear(allow_uncommited=True)
        r.lose()
    else:
        s = call_store(path)
        r.lose()
    return s


@harness("C06", quick=[dict(pre="s0 " + q, n=1) for q in CSTEPS] + [dict(pre="s0 c " + q, n=1) for q in CSTEPS],
         thorough=[dict(pre=b + q + " " + t, n=1) for b in ("s0 ", "s0 c ", "s0 s1 ") for q in CSTEPS for t in CSTEPS],
         bounds="histories of a save (and a commit) and up to 3 further operations (save, drop, commit, clear, forced clear, new session), two calls with "
                "arbitrary identities and contents that may coincide")
def calls(nd, pre, n):
    k = [nd.int("k%d" % i) for i in range(2)]
    c = [nd.int("c%d" % i) for i in range(2)]
    nd.assume(k[0] != k[1] or c[0] == c[1])
    cs = [make_call(k[i], c[i]) for i in range(2)]
    path = nd.scratch + "/db"
    s = call_store(path)
    r = RefStore()
    for w in pre.split():
        s = call_step(nd, s, path, r, w, cs)
    for i in range(n):
        s = call_step(nd, s, path, r, nd.choice("op%d" % i, CSTEPS), cs)
    calls_agree(nd, s, r, cs, "at the end")
    s.commit()
    r.commit()
    calls_agree(nd, call_store(path), r, cs, "in a fresh store after a commit")
    n = 0
    for h in r.live:
        n += 1
    nd.check(len(set(s.persistent.get_df().index.get_level_values(0).unique())) == n, "the database has exactly these calls")
