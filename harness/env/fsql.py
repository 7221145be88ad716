"""Model of sqlite3 (one writer, snapshot reads, implicit transactions of the
python driver) over the statements understood by symex.minisql."""
import sqlite3 as _sqlite3
from symex.minisql import parse
from harness.env.world import W, point

OperationalError = _sqlite3.OperationalError
IntegrityError = _sqlite3.IntegrityError
ProgrammingError = _sqlite3.ProgrammingError
DatabaseError = _sqlite3.DatabaseError
Error = _sqlite3.Error


class Table:
    def __init__(self, cols, pk):
        self.cols = cols
        self.pk = pk          # positions of the primary key columns (empty: rowid)
        self.rows = {}        # key -> tuple, in rowid order
        self.next = 0


class DB:
    def __init__(self, path, name):
        self.path = path
        self.name = name
        self.tables = {}
        self.writer = None    # connection holding the write lock
        self.saved = None     # table -> rows at the start of the open transaction


class Cursor:
    def __init__(self, rows, rowcount=-1):
        self.rows = rows
        self.rowcount = rowcount
        self.description = None

    def fetchall(self):
        res = self.rows
        self.rows = []
        return res

    def fetchmany(self, size=1):
        res = self.rows[:size]
        self.rows = self.rows[size:]
        return res

    def fetchone(self):
        if not self.rows:
            return None
        row = self.rows[0]
        self.rows = self.rows[1:]
        return row

    def __iter__(self):
        return iter(self.fetchall())

    def __next__(self):
        if not self.rows:
            raise StopIteration
        return self.fetchone()

    def close(self):
        pass


class Connection:
    def __init__(self, db, autocommit):
        self.db = db
        self.autocommit = autocommit
        self.in_transaction = False
        self.closed = False
        self.row_factory = None

    # --- transactions
    def _lock(self):
        db = self.db
        if db.writer is not None and db.writer is not self:
            raise OperationalError("database is locked")

    def _begin(self, write):
        if self.in_transaction:
            raise OperationalError("cannot start a transaction within a transaction")
        if write:
            self._lock()
            self._own()
        self.in_transaction = True

    def _own(self):
        db = self.db
        if db.writer is None:
            db.writer = self
            db.saved = {t: (dict(db.tables[t].rows), db.tables[t].next) for t in db.tables}

    def commit(self):
        if self.in_transaction:
            point("sql")
            self._end()

    def _end(self):
        self.in_transaction = False
        if self.db.writer is self:
            self.db.writer = None
            self.db.saved = None

    def rollback(self):
        point("read")
        self._undo()

    def _undo(self):
        db = self.db
        if db.writer is self:
            saved = db.saved
            for t in list(db.tables):
                if t in saved:
                    db.tables[t].rows = saved[t][0]
                    db.tables[t].next = saved[t][1]
                else:
                    del db.tables[t]
            db.writer = None
            db.saved = None
        self.in_transaction = False

    def close(self):
        if not W.dead:
            self._undo()
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc_value, tb):
        if exc_type is None:
            self.commit()
        else:
            self.rollback()
        return False

    # --- statements
    def cursor(self):
        return CursorOn(self)

    def executemany(self, sql, many):
        n = 0
        for params in many:
            n += self.execute(sql, params).rowcount
        return Cursor([], n)

    def execute(self, sql, params=()):
        if self.closed:
            raise ProgrammingError("Cannot operate on a closed database.")
        st = parse(sql)
        kind = st[0]
        if kind == "pragma":
            point("read")
            if st[1] == "database_list":
                return Cursor([(0, "main", self.db.path)])
            return Cursor([])
        if kind == "begin":
            point("sql")
            self._begin(st[1] != "DEFERRED")
            return Cursor([])
        if kind == "commit":
            if not self.in_transaction:
                raise OperationalError("cannot commit - no transaction is active")
            self.commit()
            return Cursor([])
        if kind == "rollback":
            if not self.in_transaction:
                raise OperationalError("cannot rollback - no transaction is active")
            self.rollback()
            return Cursor([])
        if kind == "vacuum":
            point("sql")
            return Cursor([])
        if kind == "select":
            point("read")
            return Cursor(self._select(st, _params(params)))
        # a write
        point("sql")
        params = _params(params)
        ddl = kind == "create" or kind == "drop"
        if not self.in_transaction:
            if self.autocommit or ddl:
                self._lock()
                return Cursor([], self._write(st, params))
            self._begin(True)
        else:
            self._lock()
            self._own()
        return Cursor([], self._write(st, params))

    def _rows(self, name):
        db = self.db
        if db.writer is not None and db.writer is not self:
            if name not in db.saved:
                raise OperationalError("no such table: " + name)
            return db.saved[name][0]
        if name not in db.tables:
            raise OperationalError("no such table: " + name)
        return db.tables[name].rows

    def _select(self, st, params):
        _, distinct, items, name, where, order, limit = st
        if name == "sqlite_master":
            return [(t,) for t in self.db.tables]
        if name is None:
            t = None
            found = [()] if where is None or self._holds(None, where, (), params) else []
        else:
            rows = self._rows(name)
            t = self.db.tables[name]
            found = self._match(t, rows, where, params)
        kind = items[0][0]
        if kind == "count" or kind == "max" or kind == "min":
            return [tuple([self._agg(t, it, found) for it in items])]
        if order is not None:
            for c, desc in list(reversed(order)):
                found = self._by(found, t.cols.index(c), desc)
        if len(items) != 1 or kind != "*":
            found = [self._row(t, items, r, params) for r in found]
        if distinct:
            seen = {}
            for r in found:
                seen[r] = True
            found = list(seen)
        if limit is not None:
            n = self._val(limit, params)
            found = found if n < 0 else found[:n]
        return found

    def _by(self, rows, i, desc):
        return sorted(rows, key=lambda r: r[i], reverse=desc)

    def _row(self, t, items, r, params):
        res = []
        for kind, x, name in items:
            if kind == "*":
                res.extend(r)
            elif kind == "col":
                res.append(r[t.cols.index(x)])
            elif kind == "value":
                res.append(self._val(x, params))
            else:
                res.append(1 if self._holds(t, x, r, params) else 0)
        return tuple(res)

    def _agg(self, t, item, found):
        col, dist = item[1]
        if col is None:
            return len(found)
        vals = [r[t.cols.index(col)] for r in found]
        vals = [v for v in vals if v is not None]
        if item[0] == "count":
            return len(set(vals))
        if not vals:
            return None
        return max(vals) if item[0] == "max" else min(vals)

    def _match(self, t, rows, where, params):
        if where is None:
            return list(rows.values())
        # an equality on the whole one-column primary key
        if len(t.pk) == 1 and where[0] == "=" and where[1] == t.cols[t.pk[0]] and where[2][0] == "?":
            k = params[where[2][1]]
            return [rows[k]] if k in rows else []
        res = []
        for r in rows.values():
            if self._holds(t, where, r, params):
                res.append(r)
        if t.pk and self._on(where, t.cols[t.pk[0]]):
            # index order; between different leading keys the order is left as inserted
            pk = t.pk[1:]
            if pk:
                res = sorted(res, key=lambda r: tuple([r[i] for i in pk]))
        return res

    def _on(self, where, col):
        """does the statement look rows up through the primary key index?"""
        if where[0] == "and":
            return self._on(where[1], col) or self._on(where[2], col)
        return (where[0] == "=" or where[0] == "in" or where[0] == "insel") and where[1] == col

    def _holds(self, t, where, r, params):
        op = where[0]
        if op == "and":
            return self._holds(t, where[1], r, params) and self._holds(t, where[2], r, params)
        if op == "or":
            return self._holds(t, where[1], r, params) or self._holds(t, where[2], r, params)
        if op == "not":
            return not self._holds(t, where[1], r, params)
        if op == "exists":
            return len(self._select(where[1], params)) > 0
        if op == "same":
            return self._val(where[1], params) == self._val(where[2], params)
        if op == "truth":
            return bool(self._val(where[1], params))
        x = r[t.cols.index(where[1])]
        if op == "insel":
            return x is not None and x in [f[0] for f in self._select(where[2], params)]
        if op == "in":
            return x in [self._val(v, params) for v in where[2]]
        if op == "isnull":
            return x is None
        y = self._val(where[2], params)
        if x is None or y is None:
            return False
        if op == "=":
            return x == y
        if op == "!=":
            return x != y
        raise NotImplementedError(op)

    def _val(self, v, params):
        return params[v[1]] if v[0] == "?" else v[1]

    def _write(self, st, params):
        db = self.db
        kind = st[0]
        if kind == "create":
            if st[1] not in db.tables:
                db.tables[st[1]] = Table(st[2], st[3])
            elif not st[4]:
                raise OperationalError("table already exists")
            return -1
        if st[1] not in db.tables:
            if kind == "drop" and st[2]:
                return -1
            raise OperationalError("no such table: " + st[1])
        t = db.tables[st[1]]
        if kind == "drop":
            del db.tables[st[1]]
        elif kind == "insert":
            _, name, conflict, cols, many, sets = st
            return sum([self._insert(t, conflict, cols, vals, sets, params) for vals in many])
        elif kind == "delete":
            before = len(t.rows)
            if st[2] is None:
                t.rows = {}
            else:
                t.rows = {k: r for k, r in t.rows.items() if not self._holds(t, st[2], r, params)}
            return before - len(t.rows)
        elif kind == "update":
            _, name, sets, where = st
            new = {}
            n = 0
            for k, r in t.rows.items():
                if where is None or self._holds(t, where, r, params):
                    r = list(r)
                    for c, v in sets:
                        r[t.cols.index(c)] = self._val(v, params)
                    r = tuple(r)
                    n += 1
                new[k] = r
            t.rows = new
            return n
        else:
            raise NotImplementedError(kind)
        return -1

    def _insert(self, t, conflict, cols, vals, sets, params):
        given = [self._val(v, params) for v in vals]
        if cols is None:
            row = tuple(given)
            if len(row) != len(t.cols):
                raise OperationalError("wrong number of values")
        else:
            row = tuple([given[cols.index(c)] if c in cols else None for c in t.cols])
        if not t.pk:
            t.rows[t.next] = row
            t.next += 1
            return 1
        key = row[t.pk[0]] if len(t.pk) == 1 else tuple([row[i] for i in t.pk])
        if key in t.rows:
            if conflict == "ignore":
                return 0
            if conflict == "upsert":
                old = list(t.rows[key])
                for c, v in sets:
                    old[t.cols.index(c)] = row[t.cols.index(v[1])] if v[0] == "excluded" else self._val(v, params)
                t.rows[key] = tuple(old)
                return 1
            if conflict != "replace":
                raise IntegrityError("UNIQUE constraint failed")
            del t.rows[key]
        t.rows[key] = row
        return 1


def _params(params):
    return params if isinstance(params, dict) else list(params)


class CursorOn:
    def __init__(self, conn):
        self.conn = conn
        self.connection = conn
        self.cur = None

    def execute(self, sql, params=()):
        self.cur = self.conn.execute(sql, params)
        return self

    def fetchall(self):
        return self.cur.fetchall()

    def executemany(self, sql, many):
        self.cur = self.conn.executemany(sql, many)
        return self

    def fetchone(self):
        return self.cur.fetchone()

    def fetchmany(self, size=1):
        return self.cur.fetchmany(size)

    def __iter__(self):
        return iter(self.cur)

    def __next__(self):
        return next(self.cur)

    @property
    def rowcount(self):
        return self.cur.rowcount

    def close(self):
        pass


def connect(path, isolation_level="", uri=False, timeout=5.0, **kwargs):
    point("read")
    if uri or path == ":memory:":
        name = path
        path = ""
    else:
        name = path
    if name not in W.dbs:
        W.dbs[name] = DB(path, name)
    return Connection(W.dbs[name], isolation_level is None)


def read(query, conn):
    """column names and rows of a query"""
    st = parse(query)
    rows = conn.execute(query).fetchall()
    cols = []
    for kind, x, name in st[2]:
        cols += conn.db.tables[st[3]].cols if kind == "*" else [name]
    return cols, rows
