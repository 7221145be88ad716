"""Parser for the SQL subset the environment model executes. Runs natively on
concrete statements."""
import re

TOK = re.compile(r"""\s*(?:(?P<num>\d+)|(?P<name>[A-Za-z_][A-Za-z_0-9]*)|(?P<str>'(?:[^']|'')*'|"[^"]*")|(?P<op>:[A-Za-z_]\w*|<>|!=|==|<=|>=|[(),=?*;<>.]))""")
_cache = {}


KEYWORDS = ("FROM", "WHERE", "ORDER", "GROUP", "LIMIT", "AND", "OR", "SET", "VALUES", "ON", "INNER", "LEFT", "JOIN", "UNION", "EXCEPT", "INTERSECT", "HAVING")


class P:
    def __init__(self, sql):
        self.sql = sql
        self.t = []
        i = 0
        sql = sql.rstrip()
        while i < len(sql):
            m = TOK.match(sql, i)
            if m is None:
                raise NotImplementedError("SQL: " + sql)
            self.t.append((m.lastgroup, m.group(m.lastgroup)))
            i = m.end()
        self.i = 0
        self.q = 0

    def peek(self, *kw):
        return self.i < len(self.t) and self.t[self.i][0] != "str" and self.t[self.i][1].upper() in kw

    def take(self, *kw):
        if self.peek(*kw):
            self.i += 1
            return True
        return False

    def need(self, *kw):
        if not self.take(*kw):
            raise NotImplementedError("SQL: %s (at %s, expected %s)" % (self.sql, self.t[self.i:self.i + 2], kw))

    def name(self):
        k, v = self.t[self.i]
        if k not in ("name", "str"):
            raise NotImplementedError("SQL: " + self.sql)
        self.i += 1
        if self.i + 1 < len(self.t) and self.t[self.i][1] == "." and self.t[self.i][0] == "op":
            # qualified with the table: one table per statement
            self.i += 1
            return self.name()
        return v.strip('"\'')

    def value(self):
        if self.i >= len(self.t):
            raise NotImplementedError("SQL: " + self.sql)
        k, v = self.t[self.i]
        self.i += 1
        if k == "op" and v[0] == ":":
            return ("?", v[1:])
        if v == "?" and k == "op":
            self.q += 1
            return ("?", self.q - 1)
        if k == "str":
            return ("lit", v[1:-1])
        if k == "num":
            return ("lit", int(v))
        if k == "name" and v.upper() == "NULL":
            return ("lit", None)
        raise NotImplementedError("SQL: " + self.sql)

    def excluded(self):
        if not self.peek("EXCLUDED"):
            raise NotImplementedError("SQL: " + self.sql)
        return self.name()

    def isvalue(self):
        if self.i >= len(self.t):
            return False
        k, v = self.t[self.i]
        return (k == "op" and (v == "?" or v[0] == ":")) or k == "num" or (k == "str" and v[0] == "'") or (k == "name" and v.upper() == "NULL")

    def alias(self):
        if self.take("AS"):
            return self.name()
        if self.i < len(self.t) and self.t[self.i][0] == "name" and not self.peek(*KEYWORDS):
            return self.name()
        return None

    def cond(self):
        x = self.conj()
        while self.take("OR"):
            x = ("or", x, self.conj())
        return x

    def conj(self):
        x = self.prim()
        while self.take("AND"):
            x = ("and", x, self.prim())
        return x

    def prim(self):
        if self.take("NOT"):
            return ("not", self.prim())
        if self.take("("):
            x = self.cond()
            self.need(")")
            return x
        if self.peek("EXISTS"):
            self.i += 1
            self.need("(")
            self.need("SELECT")
            x = ("exists", _select(self))
            self.need(")")
            return x
        if self.isvalue():
            v = self.value()
            if self.take("=", "=="):
                return ("same", v, self.value()) if self.isvalue() else ("=", self.name(), v)
            if self.take("!=", "<>"):
                return ("!=", self.name(), v)
            return ("truth", v)
        c = self.name()
        if self.take("IS"):
            n = self.take("NOT")
            self.need("NULL")
            x = ("isnull", c)
            return ("not", x) if n else x
        n = self.take("NOT")
        if self.take("IN"):
            self.need("(")
            if self.take("SELECT"):
                x = ("insel", c, _select(self))
                self.need(")")
                return ("not", x) if n else x
            vs = []
            while not self.take(")"):
                vs.append(self.value())
                self.take(",")
            x = ("in", c, tuple(vs))
            return ("not", x) if n else x
        if self.take("=", "=="):
            return ("=", c, self.value())
        if self.take("!=", "<>"):
            return ("!=", c, self.value())
        raise NotImplementedError("SQL: " + self.sql)


def parse(sql):
    r = _cache.get(sql)
    if r is None:
        p = P(sql)
        r = _cache[sql] = _parse(p)
        p.take(";")
        if p.i != len(p.t):
            raise NotImplementedError("SQL: %s (left over %s)" % (sql, p.t[p.i:]))
    return r


def _select(p):
    """after SELECT"""
    distinct = p.take("DISTINCT")
    items = []
    while True:
        if p.take("*"):
            items.append(("*", None, None))
        elif p.peek("COUNT", "MAX", "MIN") and p.i + 1 < len(p.t) and p.t[p.i + 1][1] == "(":
            fn = p.t[p.i][1].lower()
            p.i += 1
            p.need("(")
            d = bool(p.take("DISTINCT"))
            c = None if fn == "count" and p.take("*") else (p.name() if not p.isvalue() else p.value() and None)
            p.need(")")
            if c is None and fn != "count":
                raise NotImplementedError("SQL: " + p.sql)
            if c is not None and fn == "count" and not d:
                raise NotImplementedError("SQL: " + p.sql)
            items.append((fn, (c, d), p.alias() or fn + "(*)"))
        elif p.peek("EXISTS"):
            x = p.prim()
            items.append(("cond", x, p.alias() or "exists"))
        elif p.isvalue():
            text = p.t[p.i][1]
            v = p.value()
            items.append(("value", v, p.alias() or text))
        else:
            c = p.name()
            items.append(("col", c, p.alias() or c))
        if not p.take(","):
            break
    t = None
    if p.take("FROM"):
        t = p.name()
        p.alias()
    where = p.cond() if p.take("WHERE") else None
    order = None
    if p.take("ORDER"):
        p.need("BY")
        order = []
        while True:
            c = p.name()
            desc = p.take("DESC")
            p.take("ASC")
            order.append((c, bool(desc)))
            if not p.take(","):
                break
        order = tuple(order)
    limit = None
    if p.take("LIMIT"):
        limit = p.value()
    agg = [it for it in items if it[0] in ("count", "max", "min")]
    if agg and len(agg) != len(items):
        raise NotImplementedError("SQL: " + p.sql)
    return ("select", bool(distinct), tuple(items), t, where, order, limit)


def _parse(p):
    if p.take("PRAGMA"):
        n = p.name()
        p.i = len(p.t)
        return ("pragma", n.lower())
    if p.take("VACUUM"):
        return ("vacuum",)
    if p.take("BEGIN"):
        mode = "DEFERRED"
        for m in ("IMMEDIATE", "EXCLUSIVE", "DEFERRED"):
            if p.take(m):
                mode = m
        p.take("TRANSACTION")
        return ("begin", mode)
    if p.take("COMMIT", "END"):
        return ("commit",)
    if p.take("ROLLBACK"):
        return ("rollback",)
    if p.take("CREATE"):
        if p.take("UNIQUE", "INDEX"):
            if "UNIQUE" in p.sql.upper():
                raise NotImplementedError("SQL: " + p.sql)
            p.i = len(p.t)
            return ("pragma", "index")
        p.need("TABLE")
        ine = False
        if p.take("IF"):
            p.need("NOT")
            p.need("EXISTS")
            ine = True
        t = p.name()
        p.need("(")
        cols, pk = [], []
        while True:
            if p.take("PRIMARY"):
                p.need("KEY")
                p.need("(")
                while not p.take(")"):
                    pk.append(p.name())
                    p.take(",")
            else:
                c = p.name()
                cols.append(c)
                while not p.peek(",", ")"):
                    if p.take("PRIMARY"):
                        p.need("KEY")
                        pk.append(c)
                    elif p.take("NOT"):
                        p.need("NULL")
                    elif p.take("("):
                        while not p.take(")"):
                            p.i += 1
                    else:
                        p.name()
            if p.take(")"):
                break
            p.need(",")
        return ("create", t, tuple(cols), tuple(cols.index(c) for c in pk), ine)
    if p.take("DROP"):
        p.need("TABLE")
        ie = False
        if p.take("IF"):
            p.need("EXISTS")
            ie = True
        return ("drop", p.name(), ie)
    if p.take("SELECT"):
        return _select(p)
    if p.peek("INSERT", "REPLACE"):
        conflict = "abort"
        if p.take("REPLACE"):
            conflict = "replace"
        else:
            p.need("INSERT")
            if p.take("OR"):
                conflict = p.name().lower()
        p.need("INTO")
        t = p.name()
        cols = None
        if p.take("("):
            cols = []
            while not p.take(")"):
                cols.append(p.name())
                p.take(",")
            cols = tuple(cols)
        p.need("VALUES")
        rows = []
        while True:
            p.need("(")
            vals = []
            while not p.take(")"):
                vals.append(p.value())
                p.take(",")
            rows.append(tuple(vals))
            if not p.take(","):
                break
        sets = None
        if p.take("ON"):
            p.need("CONFLICT")
            if p.take("("):
                while not p.take(")"):
                    p.name()
                    p.take(",")
            p.need("DO")
            if p.take("NOTHING"):
                conflict = "ignore"
            else:
                p.need("UPDATE")
                p.need("SET")
                conflict = "upsert"
                sets = []
                while True:
                    c = p.name()
                    p.need("=")
                    sets.append((c, p.value() if p.isvalue() else ("excluded", p.excluded())))
                    if not p.take(","):
                        break
                sets = tuple(sets)
        return ("insert", t, conflict, cols, tuple(rows), sets)
    if p.take("DELETE"):
        p.need("FROM")
        t = p.name()
        return ("delete", t, p.cond() if p.take("WHERE") else None)
    if p.take("UPDATE"):
        t = p.name()
        p.need("SET")
        sets = []
        while True:
            c = p.name()
            p.need("=")
            sets.append((c, p.value()))
            if not p.take(","):
                break
        return ("update", t, tuple(sets), p.cond() if p.take("WHERE") else None)
    raise NotImplementedError("SQL: " + p.sql)


_qcache = {}


def parse_query(expr):
    """pandas query expression -> nested tuples"""
    import ast
    r = _qcache.get(expr)
    if r is None:
        r = _qcache[expr] = _q(ast.parse(expr.strip().replace("@", "__at_"), mode="eval").body)
    return r


def _q(n):
    import ast
    if isinstance(n, ast.BoolOp):
        op = "and" if isinstance(n.op, ast.And) else "or"
        r = _q(n.values[0])
        for v in n.values[1:]:
            r = (op, r, _q(v))
        return r
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
        return ("and" if isinstance(n.op, ast.BitAnd) else "or", _q(n.left), _q(n.right))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
        return ("not", _q(n.operand))
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        op = {ast.In: "in", ast.NotIn: "notin", ast.Eq: "==", ast.NotEq: "!="}[type(n.ops[0])]
        b = _qt(n.comparators[0])
        # pandas: comparing with a list means membership
        if op in ("==", "!=") and b[0] == "lit" and isinstance(b[1], (list, tuple)):
            op = {"==": "in", "!=": "notin"}[op]
        return (op, _qt(n.left), b)
    raise NotImplementedError("query")


def _qt(n):
    import ast
    if isinstance(n, ast.Name):
        if n.id.startswith("__at_"):
            return ("local", n.id[5:])
        return ("col", n.id)
    if isinstance(n, ast.Constant):
        return ("lit", n.value)
    if isinstance(n, (ast.List, ast.Tuple)):
        return ("lit", tuple(x.value for x in n.elts))
    raise NotImplementedError("query")
