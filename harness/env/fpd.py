"""Model of the part of pandas mandala's storage and versioner use: frames with
a default or a two-level index, label assignment, selection, drop, query."""
from symex.minisql import parse_query
import harness.env.fsql as fsql


def distinct(xs):
    d = {}
    for x in xs:
        d[x] = True
    return list(d)


class Index:
    def __init__(self, names, keys, stale=()):
        self.names = names
        self.keys = keys          # list of labels (tuples for two levels)
        self.stale = stale        # dropped labels still among the levels

    def _pos(self, level):
        return level if isinstance(level, int) else self.names.index(level)

    def get_level_values(self, level):
        i = self._pos(level)
        return Series([k[i] for k in self.keys])

    @property
    def levels(self):
        return [Series(distinct([k[i] for k in self.keys] + [k[i] for k in self.stale])) for i in range(len(self.names))]

    def remove_unused_levels(self):
        return Index(self.names, self.keys)

    def __len__(self):
        return len(self.keys)

    def __iter__(self):
        return iter(self.keys)


class Series:
    def __init__(self, vals):
        self.vals = vals

    def unique(self):
        return Series(distinct(self.vals))

    def nunique(self):
        return len(distinct(self.vals))

    def tolist(self):
        return list(self.vals)

    def to_list(self):
        return list(self.vals)

    @property
    def values(self):
        return self

    @property
    def empty(self):
        return len(self.vals) == 0

    def __contains__(self, x):
        return x in self.vals

    def __iter__(self):
        return iter(self.vals)

    def __len__(self):
        return len(self.vals)

    def __getitem__(self, i):
        return self.vals[i]

    @property
    def iloc(self):
        return self

    def __eq__(self, x):
        return Mask([v == x for v in self.vals])

    def __ne__(self, x):
        return Mask([v != x for v in self.vals])

    def isin(self, xs):
        return Mask([v in xs for v in self.vals])


class Mask:
    def __init__(self, vals):
        self.vals = vals

    def __iter__(self):
        return iter(self.vals)

    def __len__(self):
        return len(self.vals)

    def __and__(self, o):
        return Mask([a and b for a, b in zip(self.vals, o.vals)])

    def __or__(self, o):
        return Mask([a or b for a, b in zip(self.vals, o.vals)])

    def __invert__(self):
        return Mask([not a for a in self.vals])

    def any(self):
        return any(self.vals)

    def all(self):
        return all(self.vals)


class _IndexSlice:
    def __getitem__(self, k):
        return k


IndexSlice = _IndexSlice()


class DataFrame:
    """default index: rows are a list of tuples"""
    def __init__(self, data=None, columns=None):
        if data is None:
            data = []
        if isinstance(data, dict):
            cols = list(data)
            data = [tuple([data[c][i] for c in cols]) for i in range(len(data[cols[0]]) if cols else 0)]
            columns = cols
        if columns is None:
            columns = distinct([c for r in data for c in r])
            data = [tuple([r[c] if c in r else None for c in columns]) for r in data]
        self.columns = list(columns)
        self.rows = [tuple(r) for r in data]

    def __len__(self):
        return len(self.rows)

    @property
    def empty(self):
        return len(self.rows) == 0

    def __getitem__(self, k):
        if isinstance(k, str):
            i = self.columns.index(k)
            return Series([r[i] for r in self.rows])
        if isinstance(k, Mask):
            return DataFrame([r for r, m in zip(self.rows, k.vals) if m], self.columns)
        if isinstance(k, list):
            ix = [self.columns.index(c) for c in k]
            return DataFrame([tuple([r[i] for i in ix]) for r in self.rows], k)
        raise NotImplementedError("DataFrame[...]")

    def applymap(self, f):
        return DataFrame([tuple([f(x) for x in r]) for r in self.rows], self.columns)

    map = applymap

    @property
    def values(self):
        return Values(self.rows)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in self.columns:
            return self[name]
        raise AttributeError(name)

    def set_index(self, names):
        ni = [self.columns.index(n) for n in names]
        oi = [i for i in range(len(self.columns)) if i not in ni]
        res = IndexedFrame(list(names), [self.columns[i] for i in oi])
        rows = {}
        for r in self.rows:
            rows[tuple([r[i] for i in ni])] = tuple([r[i] for i in oi])
        res.rows = rows
        return res

    def to_dict(self, orient):
        if orient != "records":
            raise NotImplementedError(orient)
        return [dict(zip(self.columns, r)) for r in self.rows]

    def iterrows(self):
        return list(enumerate(self.to_dict("records")))

    def query(self, expr, _locals=None):
        e = parse_query(expr)
        return DataFrame([r for r in self.rows if _test(e, self.columns, r, _locals)], self.columns)

    def copy(self):
        return DataFrame(self.rows, self.columns)


class Values:
    def __init__(self, rows):
        self.rows = rows

    def tolist(self):
        return [list(r) for r in self.rows]


def isnull(x):
    """of a scalar; collections are not null"""
    return x is None


def merge(a, b, how="inner", on=None, suffixes=("_x", "_y")):
    """rows with equal keys are joined (missing ones count as equal); outer
    joins keep the others, too"""
    if on is None or how not in ("inner", "outer"):
        raise NotImplementedError("merge")
    if len(on) == 0:
        raise IndexError("list index out of range")
    ka = [a.columns.index(c) for c in on]
    kb = [b.columns.index(c) for c in on]
    rest = [i for i in range(len(b.columns)) if i not in kb]
    if any([b.columns[i] in a.columns for i in rest]):
        raise NotImplementedError("merge with equal names")
    rows = []
    used = {}
    for r in a.rows:
        found = False
        for j in range(len(b.rows)):
            o = b.rows[j]
            if all([r[x] == o[y] for x, y in zip(ka, kb)]):
                found = True
                used[j] = True
                rows.append(r + tuple([o[i] for i in rest]))
        if not found and how == "outer":
            rows.append(r + tuple([None for i in rest]))
    if how == "outer":
        for j in range(len(b.rows)):
            if j not in used:
                o = b.rows[j]
                rows.append(tuple([o[kb[ka.index(i)]] if i in ka else None for i in range(len(a.columns))]) + tuple([o[i] for i in rest]))
    return DataFrame(rows, a.columns + [b.columns[i] for i in rest])


class IndexedFrame:
    def __init__(self, names, columns):
        self.names = names
        self.columns = columns
        self.rows = {}
        self.stale = []

    def __len__(self):
        return len(self.rows)

    @property
    def empty(self):
        return len(self.rows) == 0

    def _make(self, rows):
        res = IndexedFrame(self.names, self.columns)
        res.rows = rows
        return res

    @property
    def index(self):
        return Index(self.names, list(self.rows), self.stale)

    @index.setter
    def index(self, ix):
        self.stale = ix.stale

    @property
    def loc(self):
        return Loc(self)

    def __getitem__(self, k):
        if isinstance(k, str):
            i = self.columns.index(k)
            return Series([r[i] for r in self.rows.values()])
        if isinstance(k, Mask):
            return self._make({x: r for (x, r), m in zip(self.rows.items(), k.vals) if m})
        if isinstance(k, list) and len(k) == len(self.rows) and len(k) > 0 and all([isinstance(x, bool) for x in k]):
            return self._make({x: r for (x, r), m in zip(self.rows.items(), k) if m})
        raise NotImplementedError("DataFrame[...]")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in self.columns:
            return self[name]
        raise AttributeError(name)

    def drop(self, index, level):
        if not any([k[level] == index for k in self.rows]):
            raise KeyError(index)
        res = self._make({k: r for k, r in self.rows.items() if k[level] != index})
        res.stale = list(self.stale) + [k for k in self.rows if k[level] == index]
        return res

    def groupby(self, level):
        groups = {}
        for k, r in self.rows.items():
            g = k[level]
            if g not in groups:
                groups[g] = self._make({})
            groups[g].rows[k] = r
        return list(groups.items())

    def reset_index(self):
        return DataFrame([k + r for k, r in self.rows.items()], self.names + self.columns)

    def query(self, expr, _locals=None):
        e = parse_query(expr)
        cols = self.names + self.columns
        return self._make({k: r for k, r in self.rows.items() if _test(e, cols, k + r, _locals)})

    def copy(self):
        return self._make(dict(self.rows))


class Loc:
    def __init__(self, df):
        self.df = df

    def __setitem__(self, key, row):
        label, _ = key
        if len(row) != len(self.df.columns):
            raise ValueError("cannot set a row with mismatched columns")
        self.df.rows[label] = tuple(row)

    def __getitem__(self, key):
        label, _ = key
        hids, _ = label
        df = self.df
        rows = {}
        for h in hids:
            found = False
            for k, r in df.rows.items():
                if k[0] == h:
                    rows[k] = r
                    found = True
            if not found:
                raise KeyError(h)
        return df._make(rows)


def _test(e, cols, row, loc):
    op = e[0]
    if op == "and":
        return _test(e[1], cols, row, loc) and _test(e[2], cols, row, loc)
    if op == "or":
        return _test(e[1], cols, row, loc) or _test(e[2], cols, row, loc)
    if op == "not":
        return not _test(e[1], cols, row, loc)
    x = _term(e[1], cols, row, loc)
    y = _term(e[2], cols, row, loc)
    if op == "in":
        return x in y
    if op == "notin":
        return x not in y
    if op == "==":
        return x == y
    if op == "!=":
        return x != y
    raise NotImplementedError(op)


def _term(t, cols, row, loc):
    if t[0] == "col":
        return row[cols.index(t[1])]
    if t[0] == "local":
        return loc[t[1]]
    return t[1]


def concat(dfs, ignore_index=False):
    if isinstance(dfs[0], IndexedFrame):
        res = dfs[0].copy()
        for d in dfs[1:]:
            idx = [d.columns.index(c) for c in res.columns]
            for k, r in d.rows.items():
                if k in res.rows:
                    raise NotImplementedError("concat with duplicate labels")
                res.rows[k] = tuple([r[i] for i in idx])
        return res
    if not ignore_index:
        raise NotImplementedError("concat")
    cols = dfs[0].columns
    rows = []
    for d in dfs:
        idx = [d.columns.index(c) for c in cols]
        for r in d.rows:
            rows.append(tuple([r[i] for i in idx]))
    return DataFrame(rows, cols)


def read_sql(query, conn):
    cols, rows = fsql.read(query, conn)
    return DataFrame(rows, cols)


read_sql_query = read_sql


def isnull(x):
    return x is None
