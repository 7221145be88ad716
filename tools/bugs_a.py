MO, ST, SU, UT = "mandala/model.py", "mandala/storage.py", "mandala/storage_utils.py", "mandala/utils.py"
SV, DV, VE = "mandala/deps/shallow_versions.py", "mandala/deps/deep_versions.py", "mandala/deps/versioner.py"
DM, DT, DC, DU = "mandala/deps/model.py", "mandala/deps/tracers/dec_impl.py", "mandala/deps/crawler.py", "mandala/deps/utils.py"
HEAD = '''
import tempfile, os
from mandala.imports import *
from mandala.model import ValuePointer
D = tempfile.mkdtemp()
P = os.path.join(D, "db.sqlite")
RAN = []
'''
TAIL = '''
import shutil; shutil.rmtree(D)
'''
BUGS = [
    dict(id="C01-names-of-extra-args", property="C01",
         edits=[(MO, "        obj = ({k: v.hid for k, v in hashable_inputs.items()}, self.name, self.version)", "        obj = ([v.hid for k, v in hashable_inputs.items()], self.name, self.version)")],
         needs="two calls giving the same value to differently named extra keyword arguments (or optional ones)",
         breaks="the history id of a call no longer says which parameter a value was bound to",
         demo=HEAD + '''
st = Storage()
@op
def f(**kw): return sorted(kw)
with st:
    a, b = f(lr=1), f(wd=1)
assert st.unwrap(a) == ["lr"] and st.unwrap(b) == ["wd"], (st.unwrap(a), st.unwrap(b))
''' + TAIL),
    dict(id="C02-content-lookup-cache-only", property="C02",
         edits=[(SU, "        if self.cache.exists_content(cid):\n            return True\n        else:\n            res = self.persistent.exists_content(cid)\n            return res",
                 "        if self.call_cache_nonempty():\n            return self.cache.exists_content(cid)\n        else:\n            res = self.persistent.exists_content(cid)\n            return res\n\n    def call_cache_nonempty(self) -> bool:\n        return len(self.cache) > 0")],
         needs="a call found only by content, recorded in the database but not in the cache, while the cache holds another call",
         breaks="the call is executed again",
         demo=HEAD + '''
@op
def a(x): return x + 1
@op
def b(x): return x + 1
@op
def g(x):
    RAN.append(x)
    return x * 2
st = Storage(P)
with st: g(a(1))
st = Storage(P)
with st:
    y = b(1)
    g(y)     # same content, other history
assert len(RAN) == 1, RAN
''' + TAIL),
    dict(id="C03-kwonly-positional", property="C03",
         edits=[(UT, "        elif kind == Parameter.VAR_KEYWORD:\n            # kwargs captured\n            kwargs_dict.update(value)", "        elif kind == Parameter.VAR_KEYWORD:\n            # kwargs captured\n            kwargs_dict.update({k: v for k, v in value.items() if k not in bound_args.arguments})")],
         needs="an extra keyword argument with the name of a positional-only parameter",
         breaks="the extra argument is dropped on the way to the function",
         demo=HEAD + '''
st = Storage()
@op
def f(a, /, **kw): return (a, kw.get("a"))
with st:
    r = f(1, a=2)
assert [st.unwrap(x) for x in r] == [1, 2], r
''' + TAIL),
    dict(id="C04-order-of-many", property="C04",
         edits=[(MO, "            return tuple([output_dict_by_int[i] for i in range(len(output_dict))])", "            return tuple([output_dict_by_int[i] for i in sorted(output_dict_by_int, key=str)])")],
         needs="a function returning more than ten values",
         breaks="the outputs come in alphabetical order",
         demo=HEAD + '''
st = Storage()
@op
def f(x): return tuple(range(x, x + 12))
with st:
    r = f(5)
assert [st.unwrap(x) for x in r] == list(range(5, 17)), r
''' + TAIL),
    dict(id="C05-drop-dirty", property="C05",
         edits=[(SU, "        if key in self.cache:\n            del self.cache[key]\n        if key in self.dirty_keys:\n            self.dirty_keys.remove(key) # when we `drop`, we forget this key ever existed\n        self.persistent.drop(key)",
                 "        if key in self.cache:\n            del self.cache[key]\n        if key in self.dirty_keys:\n            self.dirty_keys.remove(key) # when we `drop`, we forget this key ever existed\n            return\n        self.persistent.drop(key)")],
         needs="dropping a key that is persisted and was set again since the last commit",
         breaks="the persisted value comes back after the drop",
         demo=HEAD + '''
from mandala.storage_utils import *
s = CachedDictStorage(SQLiteDictStorage(DBAdapter(P), "t"))
s.set("k", 1); s.commit(); s.set("k", 2); s.drop("k")
assert not s.exists("k")
''' + TAIL),
    dict(id="C06-drop-uncached", property="C06",
         edits=[(SU, "        if hid in self.dirty_hids:\n            self.dirty_hids.remove(hid) # when we `drop`, we forget this key ever existed\n", "        if hid in self.dirty_hids:\n            self.dirty_hids.remove(hid) # when we `drop`, we forget this key ever existed\n            if conn is None:\n                return # never persisted\n")],
         needs="dropping, outside a transaction, a call that was persisted, removed from the cache and recorded again",
         breaks="the persisted call survives the drop",
         demo=HEAD + '''
from mandala.storage_utils import *
from mandala.model import Op, Call, AtomRef
def fn(a): return a
o = Op("fn", fn)
r = lambda n: AtomRef("c" + n, n, True, n)
c = Call(o, "cc", "h", {"a": r("x")}, {"output_0": r("y")})
s = CachedCallStorage(SQLiteCallStorage(DBAdapter(P), "calls"))
s.save(c); s.commit(); s.clear(); s.save(c); s.drop("h")
assert not s.exists("h")
''' + TAIL),
    dict(id="C06-order-of-many", property="C12",
         edits=[(SU, "        return [res_dict[hid] for hid in call_hids]", "        return [res_dict[hid] for hid in groups]")],
         needs="asking for several calls some of which are cached, in an order other than that of their ids",
         breaks="the data of cached calls come back in the order of their ids, not the requested one",
         demo=HEAD + '''
st = Storage()
@op
def f(x): return x
with st:
    rs = [f(i) for i in range(5)]
hids = [st.get_ref_creator(r).hid for r in rs]
assert [c.hid for c in st.mget_call(hids, in_memory=True)] == hids
''' + TAIL),
    dict(id="C08-retry-integrity", property="C08",
         edits=[(SU, "            except sqlite3.OperationalError as e:", "            except sqlite3.DatabaseError as e:")],
         needs="a transaction that fails with a database error other than a transient one",
         breaks="it is retried for a quarter of an hour and the error replaced by another",
         demo=HEAD + '''
import sqlite3
from mandala import storage_utils as su
su.time.sleep = lambda s: None
class S:
    db = su.DBAdapter(P)
    n = 0
    def conn(self): return self.db.conn()
    @su.transaction
    def m(self, conn=None):
        S.n += 1
        raise sqlite3.IntegrityError("x")
try:
    S().m()
except sqlite3.IntegrityError: pass
assert S.n == 1
''' + TAIL),
    dict(id="C09-drop-other-place", property="C09",
         edits=[(SU, "        conn.execute(f\"DELETE FROM {self.table} WHERE key = ?\", (key,))\n        if self.overflow_storage is not None and self.overflow_storage.exists(key):\n            self.overflow_storage.drop(key)",
                 "        if self.overflow_storage is not None and self.overflow_storage.exists(key):\n            self.overflow_storage.drop(key)\n            return\n        conn.execute(f\"DELETE FROM {self.table} WHERE key = ?\", (key,))")],
         needs="a key stored both in the database and as an overflow file, under different thresholds",
         breaks="a dropped key still exists",
         demo=HEAD + '''
from mandala.storage_utils import *
j = JoblibDictStorage(os.path.join(D, "o"))
db = DBAdapter(P)
SQLiteDictStorage(db, "t", j, 50).set("k", [1])
s = SQLiteDictStorage(db, "t", j, 0)
s.set("k", [1])
s.drop("k")
assert not s.exists("k")
''' + TAIL),
    dict(id="C18-first-candidate", property="C18",
         edits=[(VE, "                if codebase_semantic == semantic_version:\n                    return content_version, semantic_version\n            return None", "                if codebase_semantic == semantic_version:\n                    return content_version, semantic_version\n                if version.content_version != content_versions[-1]:\n                    break\n            return None")],
         needs="a call recorded under two versions, and a return to the second one or a third",
         breaks="only the first recorded version is considered, so results are recomputed (and then refused as already recorded)",
         demo=HEAD + '''
# low level: two records of one call, the code being that of the second
import pandas as pd
from mandala.deps.versioner import *
from mandala.deps.versioner import Versioner, CodeState
from mandala.deps.tracers import DecTracer
v = Versioner([], DecTracer, False, True, True, True, True, True, True)
class Ver:
    def __init__(s, c): s.content_version, s.support = c, ["k"]
v.versions = {"f": {"c1": Ver("c1"), "c2": Ver("c2"), "c3": Ver("c3")}}
v.get_codestate_semantic_hashes = lambda code_state: {"k": "s2"}
sem = v.get_semantic_version({"k": "s2"}, ["k"])
v.df = pd.DataFrame([dict(pre_call_uid="p", semantic_version=s, content_version=c, outputs=None) for s, c in (("x", "c1"), (sem, "c2"), ("y", "c3"))])
assert v.lookup_call("f", "p", None) == ("c2", sem)
''' + TAIL),
]
