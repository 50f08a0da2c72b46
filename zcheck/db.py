"""What the database layer does, as (operation, table, column -> value) records.

SQL text is recovered from the walked paths (constants, f-strings and concatenations
are folded), parsed, and its parameters are mapped to columns, so that the rules talk
about rows being written and not about how a statement is spelled.
"""
from __future__ import annotations

import ast
import re

from . import sql
from .core import UNK, calls, norm, show
from .model import AnalysisBroken
from .walk import const, contains, subterms

MOD = "zigpy.appdb"
CLS = "zigpy.appdb.PersistingListener"
SQLWORDS = re.compile(r"\s*(INSERT|UPDATE|DELETE|SELECT|PRAGMA|BEGIN|COMMIT|ROLLBACK|DROP|CREATE|ALTER|END|REPLACE|SAVEPOINT|RELEASE)\b", re.I)


def schemas(ctx):
    out = {}
    for f in sorted((ctx.p.root / "zigpy/appdb_schemas").glob("schema_v*.sql")):
        n = int(re.search(r"schema_v(\d+)\.sql$", f.name).group(1))
        try:
            out[n] = sql.Schema(f.read_text())
        except sql.SqlError as e:
            raise AnalysisBroken(f"{f.name}: {e}")
    if len(out) < 14:
        raise AnalysisBroken("schema files missing")
    return out


def db_version(ctx):
    m = ctx.p.module(MOD)
    v = ctx.kit.consteval(m, m.assigns.get("DB_VERSION", ast.Constant(None)))
    if not isinstance(v, int):
        raise AnalysisBroken("DB_VERSION is not a constant")
    return v


def base_name(table):
    return re.sub(r"_v\d+$", "", table)


def sql_text(t):
    """(text, {placeholder: term}) of a term holding SQL, or None."""
    if t[0] == "const" and isinstance(t[1], str):
        return (t[1], {}) if SQLWORDS.match(t[1]) else None
    if t[0] == "fstr":
        out, holes = "", {}
        for i, x in enumerate(t[1]):
            if x[0] == "const":
                out += str(x[1])
            else:
                holes[f"__t{i}"] = x
                # a hole glued to an identifier is part of a name
                out += f"__t{i}" if re.search(r"[\w]$", out) else f" :__t{i} "
        return (out, holes) if SQLWORDS.match(out) else None
    return None


class Stmt:
    def __init__(self, ps, path, e, text, holes):
        self.ps, self.path, self.e, self.text, self.holes = ps, path, e, text, holes
        self.d = sql.parse_statement(text)
        self.many = e.name == "executemany"
        self.params = e.args[1] if len(e.args) > 1 else dict(e.kwargs).get("parameters")

    @property
    def op(self):
        return self.d["op"] if self.d else None

    @property
    def table(self):
        return self.d.get("table")

    @property
    def writes(self):
        return self.op in ("insert", "update", "delete", "table", "drop", "index")

    def term_rows(self):
        """Parameter sets of this statement: list of tuple/dict terms (normalised)."""
        if self.params is None:
            return [("tuple", ())]
        p = norm(self.params)
        if not self.many:
            return [p]
        if p[0] == "comp":
            return [p[2]]
        if p[0] in ("list", "tuple"):
            return list(p[1])
        return [("elem", p)]

    def param(self, row, name):
        """Term bound to parameter `name` (index or string) of one row."""
        if isinstance(name, str):
            if name in self.holes:
                return norm(self.holes[name])
            if row[0] == "dict":
                for k, v in row[1]:
                    if k == const(name):
                        return v
                return None
            return None
        if row[0] in ("tuple", "list"):
            i = 0
            for x in row[1]:
                if x[0] == "star":
                    return ("staritem", x[1], name - i)
                if i == name:
                    return x
                i += 1
            return None
        if row[0] == "elem" or row[0] == "comp":
            return ("idx", row, const(name))
        return None

    def nparams(self, row, starlen):
        """Number of positional parameters a row supplies (starlen(term) sizes a starred one)."""
        if row[0] in ("tuple", "list"):
            n = 0
            for x in row[1]:
                if x[0] == "star":
                    k = starlen(x[1])
                    if k is None:
                        return None
                    n += k
                else:
                    n += 1
            return n
        return None

    def value(self, row, expr):
        """Term of an SQL value expression."""
        if expr[0] == "param":
            return self.param(row, expr[1])
        if expr[0] == "lit":
            return const(expr[1])
        if expr[0] == "col" and expr[1].upper() == "NULL":
            return const(None)
        return ("sql", expr)


def stmts(ps, path):
    """SQL statements issued along a path, in order."""
    out = []
    for e in path.events:
        if e.kind != "call" or not e.args:
            continue
        if e.name in ("debug", "info", "warning", "error", "exception", "log"):
            continue
        st = sql_text(e.args[0])
        if st is None:
            continue
        try:
            s = Stmt(ps, path, e, *st)
        except sql.SqlError as err:
            raise AnalysisBroken(f"{ps.func.qual}: cannot parse SQL {st[0][:80]!r}: {err}")
        if s.d is not None:
            out.append(s)
    return out


def awaited(path, e):
    if e.awaited:
        return True
    return any((x.kind == "await" and x.term == e.term) or (x.kind == "enter" and x.base == e.term) for x in path.events)


class Write:
    """One row-level effect."""

    def __init__(self, st, row, schema):
        self.st, self.row = st, row
        d = st.d
        self.table = base_name(d["table"])
        self.full = d["table"]
        self.cols = schema.cols(d["table"]) if d["table"] in schema.tables else []
        self.values, self.set, self.where, self.extra = {}, {}, {}, []
        self.kind = st.op
        if st.op == "insert":
            names = d["cols"] or self.cols
            for c, v in zip(names, d["values"] or ()):
                self.values[c] = st.value(row, v)
            if d["values"] is not None and len(d["values"]) != len(names):
                self.values["#"] = ("count", len(d["values"]), len(names))
            for c, v in d["set"] or ():
                if v[0] == "col" and v[1].lower().startswith("excluded."):
                    self.set[c] = self.values.get(v[1][9:])
                else:
                    self.set[c] = st.value(row, v)
            self.extra = [d["where"]] if d.get("where") else []
        elif st.op == "update":
            for c, v in d["set"]:
                self.set[c] = st.value(row, v)
        if st.op in ("update", "delete"):
            for c in sql.conjuncts(d["where"]):
                if c[0] == "=" and c[1][0] == "col" and c[2][0] in ("param", "lit"):
                    self.where[c[1][1]] = st.value(row, c[2])
                elif c[0] == "=" and c[2][0] == "col" and c[1][0] in ("param", "lit"):
                    self.where[c[2][1]] = st.value(row, c[1])
                elif c[0] == "=" and c[1][0] == "fn":
                    self.where[c[1]] = st.value(row, c[2])
                else:
                    self.extra.append(c)

    def show(self):
        f = lambda d: ", ".join(f"{k}={show(v) if isinstance(v, tuple) else v}" for k, v in d.items())
        return f"{self.kind} {self.table} values({f(self.values)}) set({f(self.set)}) where({f(self.where)})"


def writes(ps, path, schema):
    out = []
    for s in stmts(ps, path):
        if s.op in ("insert", "update", "delete"):
            for row in s.term_rows():
                out.append(Write(s, row, schema))
    return out


def handlers(ctx):
    """Public event handlers of the database: name -> Func (those that enqueue something)."""
    c = ctx.p.cls(CLS)
    out = {}
    for n, f in c.methods.items():
        if n.startswith("_") or f.is_async or f.is_property or f.is_classmethod:
            continue
        out[n] = f
    return out


def enqueued(ctx, func):
    """[(path, callback name, argument terms, enqueue event, pathset)] of one public handler."""
    ps = ctx.paths(func, selfcls=CLS)
    res = []
    for p in ps:
        if not p.normal:
            continue
        es = [e for e in calls(p, "enqueue")]
        res.append((p, es, ps))
    return res


def internal(ctx, cb, args):
    """Paths of the internal handler `cb` with its parameters bound to `args`."""
    c = ctx.p.cls(CLS)
    f = ctx.p.find_method(c, cb)
    if f is None:
        return None
    params = [p for p in f.params][1:]
    env = {}
    rest = list(args)
    for pn in params:
        if rest:
            env[pn] = rest.pop(0)
    if f.node.args.vararg is not None:
        env[f.node.args.vararg.arg] = ("tuple", tuple(rest))
        rest = []
    required = [p for p in params if p not in f.defaults()]
    ok = not rest and all(p in env for p in required)
    ps = ctx.paths(f, selfcls=CLS, args=env, inline=("zigpy.endpoint.Endpoint.unique_id",))
    ps.arity_ok = ok
    return ps
