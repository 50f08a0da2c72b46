"""A small parser for the SQL this repository uses (statements and schema files)."""
from __future__ import annotations

import re

TOK = re.compile(r"""\s+|--[^\n]*|'(?:[^']|'')*'|"[^"]*"|:[A-Za-z_]\w*|\d+\.\d+|\d+|[A-Za-z_][\w.]*|\$[\w.]+|!=|<>|<=|>=|==|\|\||[(),?;=<>+\-*/.]""")


class SqlError(Exception):
    pass


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SqlError(f"cannot tokenise {text[i:i+30]!r}")
        s = m.group(0)
        i = m.end()
        if s.isspace() or s.startswith("--"):
            continue
        out.append(s)
    return out


class P:
    def __init__(self, toks):
        self.t, self.i, self.q = toks, 0, 0

    def peek(self, k=0):
        return self.t[self.i + k].upper() if self.i + k < len(self.t) else ""

    def raw(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def next(self):
        if self.i >= len(self.t):
            raise SqlError("unexpected end")
        self.i += 1
        return self.t[self.i - 1]

    def acc(self, *words):
        for k, w in enumerate(words):
            if self.peek(k) != w:
                return False
        self.i += len(words)
        return True

    def exp(self, *words):
        if not self.acc(*words):
            raise SqlError(f"expected {' '.join(words)} at {' '.join(self.t[self.i:self.i+6])!r}")

    def names(self):
        self.exp("(")
        out = []
        while True:
            out.append(self.next())
            if self.acc(")"):
                return out
            self.exp(",")

    # expressions ------------------------------------------------------
    def expr(self):
        return self._or()

    def _or(self):
        a = self._and()
        while self.acc("OR"):
            a = ("or", a, self._and())
        return a

    def _and(self):
        a = self._not()
        while self.acc("AND"):
            a = ("and", a, self._not())
        return a

    def _not(self):
        if self.acc("NOT"):
            return ("not", self._not())
        return self._cmp()

    def _cmp(self):
        a = self._add()
        if self.acc("IS", "NOT"):
            return ("!=", a, self._add())
        for op in ("=", "==", "!=", "<>", "<", "<=", ">", ">=", "IS"):
            if self.acc(op):
                return ({"==": "=", "<>": "!=", "IS": "="}.get(op, op), a, self._add())
        return a

    def _add(self):
        a = self._mul()
        while self.peek() in ("+", "-", "||"):
            a = (self.next(), a, self._mul())
        return a

    def _mul(self):
        a = self._prim()
        while self.peek() in ("*", "/"):
            a = (self.next(), a, self._prim())
        return a

    def _prim(self):
        if self.acc("("):
            e = self.expr()
            self.exp(")")
            return e
        s = self.next()
        if s == "?":
            self.q += 1
            return ("param", self.q - 1)
        if s.startswith(":"):
            return ("param", s[1:])
        if s[0] == "'":
            return ("lit", s[1:-1])
        if re.match(r"\d", s):
            return ("lit", float(s) if "." in s else int(s))
        if s == "-":
            return ("neg", self._prim())
        if self.acc("("):
            args = []
            if self.acc("*"):
                args.append(("col", "*"))
            while not self.acc(")"):
                args.append(self.expr())
                self.acc(",")
            return ("fn", s.lower(), tuple(args))
        return ("col", s)


def parse_statement(text):
    """Dict describing one statement; None for an empty one."""
    toks = tokens(text)
    while toks and toks[-1] == ";":
        toks.pop()
    if not toks:
        return None
    p = P(toks)
    r = _stmt(p)
    if p.i != len(p.t):
        raise SqlError(f"trailing tokens {p.t[p.i:]} in {text!r}")
    return r


def _stmt(p):
    if p.acc("INSERT"):
        mode = None
        if p.acc("OR"):
            mode = p.next().upper()
        p.exp("INTO")
        table = p.next()
        cols = None
        if p.raw() == "(":
            cols = p.names()
        d = {"op": "insert", "table": table, "cols": cols, "mode": mode, "conflict": None, "set": None, "where": None, "values": None, "select": None}
        if p.acc("VALUES"):
            p.exp("(")
            vals = []
            while True:
                vals.append(p.expr())
                if p.acc(")"):
                    break
                p.exp(",")
            d["values"] = vals
        else:
            p.exp("SELECT")
            d["select"] = _select(p)
        if p.acc("ON", "CONFLICT"):
            d["conflict"] = p.names() if p.raw() == "(" else []
            p.exp("DO")
            if p.acc("NOTHING"):
                d["do"] = "nothing"
            else:
                p.exp("UPDATE", "SET")
                d["do"] = "update"
                d["set"] = _sets(p)
                if p.acc("WHERE"):
                    d["where"] = p.expr()
        return d
    if p.acc("UPDATE"):
        table = p.next()
        p.exp("SET")
        d = {"op": "update", "table": table, "set": _sets(p), "where": None}
        if p.acc("WHERE"):
            d["where"] = p.expr()
        return d
    if p.acc("DELETE", "FROM"):
        d = {"op": "delete", "table": p.next(), "where": None}
        if p.acc("WHERE"):
            d["where"] = p.expr()
        return d
    if p.acc("SELECT"):
        return _select(p)
    if p.acc("PRAGMA"):
        name = p.next()
        val = None
        if p.acc("="):
            val = p.next()
        elif p.acc("("):
            val = p.next()
            p.exp(")")
        return {"op": "pragma", "name": name.lower(), "value": val}
    if p.acc("BEGIN"):
        while p.i < len(p.t):
            p.next()
        return {"op": "begin"}
    if p.acc("COMMIT") or p.acc("END"):
        p.acc("TRANSACTION")
        return {"op": "commit"}
    if p.acc("ROLLBACK"):
        p.acc("TRANSACTION")
        return {"op": "rollback"}
    if p.acc("DROP"):
        kind = p.next().lower()
        p.acc("IF", "EXISTS")
        return {"op": "drop", "kind": kind, "table": p.next()}
    if p.acc("CREATE"):
        unique = p.acc("UNIQUE")
        if p.acc("TABLE"):
            ifne = p.acc("IF", "NOT", "EXISTS")
            d = _table(p, p.next())
            d["ifne"] = ifne
            return d
        p.exp("INDEX")
        ifne = p.acc("IF", "NOT", "EXISTS")
        name = p.next()
        p.exp("ON")
        table = p.next()
        return {"op": "index", "name": name, "table": table, "cols": p.names(), "unique": unique, "ifne": ifne}
    raise SqlError(f"unknown statement {' '.join(p.t[:6])}")


def _sets(p):
    out = []
    while True:
        c = p.next()
        p.exp("=")
        out.append((c, p.expr()))
        if not p.acc(","):
            return out


def _select(p):
    cols = []
    while True:
        if p.acc("*"):
            cols.append(("col", "*"))
        else:
            cols.append(p.expr())
            if p.acc("AS"):
                p.next()
        if not p.acc(","):
            break
    p.exp("FROM")
    d = {"op": "select", "cols": cols, "table": p.next(), "where": None, "order": None, "limit": None}
    if p.acc("WHERE"):
        d["where"] = p.expr()
    if p.acc("ORDER", "BY"):
        d["order"] = []
        while True:
            c = p.next()
            direction = "desc" if p.acc("DESC") else "asc"
            p.acc("ASC")
            d["order"].append((c, direction))
            if not p.acc(","):
                break
    if p.acc("LIMIT"):
        d["limit"] = p.expr()
    return d


def _table(p, name):
    p.exp("(")
    cols, fks, pk, uniques = [], [], None, []
    while True:
        if p.acc("FOREIGN", "KEY"):
            src = p.names()
            p.exp("REFERENCES")
            ref = p.next()
            dst = p.names()
            cascade = None
            while p.acc("ON"):
                act = p.next().upper()
                what = p.next().upper()
                if what in ("SET", "NO"):
                    what += " " + p.next().upper()
                if act == "DELETE":
                    cascade = what
            fks.append({"cols": src, "ref": ref, "refcols": dst, "on_delete": cascade})
        elif p.acc("PRIMARY", "KEY"):
            pk = p.names()
        elif p.acc("UNIQUE"):
            uniques.append(p.names())
        else:
            c = {"name": p.next(), "type": None, "notnull": False, "pk": False, "auto": False}
            while p.raw() not in (",", ")", ""):
                if p.acc("NOT", "NULL"):
                    c["notnull"] = True
                elif p.acc("PRIMARY", "KEY"):
                    c["pk"] = True
                elif p.acc("AUTOINCREMENT"):
                    c["auto"] = True
                elif p.acc("DEFAULT"):
                    c["default"] = p._prim()
                elif p.acc("UNIQUE"):
                    uniques.append([c["name"]])
                else:
                    c["type"] = p.next()
            cols.append(c)
        if p.acc(")"):
            break
        p.exp(",")
    while p.i < len(p.t):  # WITHOUT ROWID etc.
        p.next()
    return {"op": "table", "name": name, "cols": cols, "fks": fks, "pk": pk, "uniques": uniques}


class Schema:
    """Result of running a schema script statically."""

    def __init__(self, text):
        self.tables, self.indexes, self.user_version, self.stmts = {}, [], None, []
        text = re.sub(r"--[^\n]*", "", text)
        for part in text.split(";"):
            d = parse_statement(part)
            if d is None:
                continue
            self.stmts.append(d)
            if d["op"] == "table":
                self.tables[d["name"]] = d
            elif d["op"] == "drop" and d["kind"] == "table":
                self.tables.pop(d["table"], None)
            elif d["op"] == "index":
                self.indexes.append(d)
            elif d["op"] == "pragma" and d["name"] == "user_version":
                self.user_version = int(d["value"])

    def cols(self, table):
        return [c["name"] for c in self.tables[table]["cols"]]

    def keys(self, table):
        """Unique keys of a table (as tuples)."""
        t = self.tables[table]
        out = [tuple(i["cols"]) for i in self.indexes if i["table"] == table and i["unique"]]
        out += [tuple(u) for u in t["uniques"]]
        if t["pk"]:
            out.append(tuple(t["pk"]))
        out += [(c["name"],) for c in t["cols"] if c["pk"]]
        return out


def eval_expr(e, env):
    """Evaluate a WHERE expression over concrete cell values; None when unknown."""
    op = e[0]
    if op == "lit":
        return e[1]
    if op == "param":
        return env.get((":", e[1]))
    if op == "col":
        return env.get(e[1])
    if op == "neg":
        v = eval_expr(e[1], env)
        return None if v is None else -v
    if op == "not":
        v = eval_expr(e[1], env)
        return None if v is None else not v
    if op in ("and", "or"):
        a, b = eval_expr(e[1], env), eval_expr(e[2], env)
        if op == "and":
            if a is False or b is False:
                return False
            return None if a is None or b is None else bool(a and b)
        if a or b:
            return True
        return None if a is None or b is None else False
    if op == "fn":
        return env.get(e)
    a, b = eval_expr(e[1], env), eval_expr(e[2], env)
    if a is None or b is None:
        return None
    return {"=": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
            ">=": lambda: a >= b, "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
            "||": lambda: f"{a}{b}"}[op]()


def conjuncts(e):
    if e is None:
        return []
    if e[0] == "and":
        return conjuncts(e[1]) + conjuncts(e[2])
    return [e]
