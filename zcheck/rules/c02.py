"""Schema creation and migration are atomic, complete and version-guarded."""
import ast
import re

from .. import db, dbspec
from ..core import UNK, Obj, calls, describe, ev_callee, index, norm, show
from ..lib import allfacts
from ..model import AnalysisBroken, walk_own
from ..walk import ANYEXC, const, contains, subterms

C = db.CLS
USER_VERSION = re.compile(r"\s*PRAGMA\s+user_version\s*;?\s*$", re.I)


class Versions(dict):
    """Scenario keyed by what the terms are derived from: the version marker and the table names."""

    def __init__(self, marker, tables, top):
        super().__init__()
        self.marker, self.tables, self.top = marker, tables, top

    def _get(self, t):
        op = t[0]
        if op == "idx" and any(x[0] == "const" and isinstance(x[1], str) and USER_VERSION.match(x[1]) for x in subterms(t)):
            return self.marker
        if op == "call":
            f = t[1]
            if f[0] == "attr" and f[2] == "_get_table_versions":
                return Obj("tables", self.tables)
            if f[0] == "glob" and f[1] == "builtins.max" and any(x[0] == "attr" and x[2] == "_get_table_versions" for x in subterms(t)):
                return self.top
            if f[0] == "glob" and f[1] == "builtins.len" and len(t[2]) == 1 and any(x[0] == "attr" and x[2] == "_get_table_versions" for x in subterms(t)):
                return 12 if self.tables else 0
        return UNK

    def __contains__(self, t):
        return isinstance(t, tuple) and bool(t) and self._get(t) is not UNK

    def __getitem__(self, t):
        return self._get(t)


def migrations(ctx):
    c = ctx.p.cls(C)
    return {m.qual: m for m in c.methods.values() if re.match(r"_migrate_to_v\d+$", m.name)}


def run_paths(ctx, marker, tables, top, **kw):
    f = ctx.p.func(f"{C}.initialize_tables")
    ni = set(migrations(ctx)) | {f"{C}._get_table_versions", f"{C}._set_isolation_level", f"{C}.executescript"}
    kw.setdefault("handler_inject", False)
    kw.setdefault("loop", 1)
    w = VersionCtx(ctx, Versions(marker, tables, top))
    return w.paths("%s._run_migrations" % C, noinline=ni, **kw)


class VersionCtx:
    def __init__(self, ctx, asg):
        self.ctx, self.asg = ctx, asg

    def paths(self, qual, **kw):
        ctx = self.ctx
        f = ctx.p.func(qual)
        w = ctx.kit.walker(f.module, noinline=kw.pop("noinline"), **kw)

        def decider(at):
            v = ctx.kit._teval(ctx.norm(at), self.asg)
            v = ctx.kit._truth(v) if v is not UNK else UNK
            return None if v is UNK else v
        w.decider = decider
        ps = w.paths(f)
        ctx.functions |= w.seen_funcs
        ctx.npaths += len(ps)
        from ..core import PathSet
        return PathSet(ctx, f, w, ps, None)


def steps(ctx, path):
    """[(what, arg, event)] — transaction control, schema scripts and migrations along a path."""
    migs = migrations(ctx)
    out = []
    for e in path.events:
        if e.kind != "call":
            continue
        if e.callee is not None and e.callee.qual in migs:
            out.append(("migrate", int(re.search(r"\d+$", e.callee.name).group(0)), e))
        elif e.name == "executescript":
            a = norm(e.args[0]) if e.args else None
            n = a[2][1] if a and a[0] == "idx" and a[1] == ("glob", "zigpy.appdb_schemas.SCHEMAS") and a[2][0] == "const" else None
            own = e.callee is not None and e.callee.qual == f"{C}.executescript"
            out.append(("script" if own else "rawscript", n, e))
        elif e.name == "commit" or e.name == "rollback":
            out.append((e.name, None, e))
        elif e.args:
            st = db.sql_text(e.args[0])
            if st is None:
                continue
            from .. import sql
            try:
                d = sql.parse_statement(st[0])
            except sql.SqlError as err:
                raise AnalysisBroken(f"cannot parse {st[0]!r}: {err}")
            if d and d["op"] in ("begin", "commit", "rollback"):
                out.append((d["op"], None, e))
            elif d and d["op"] not in ("select",) and not (d["op"] == "pragma" and d["value"] is None):
                out.append(("write", d["op"], e))
    return out


def chain(ctx):
    S, V = db.schemas(ctx), db.db_version(ctx)
    fn = ctx.p.func(f"{C}._run_migrations")
    ctx.ob("version-chain", V == max(S), ctx.p.module(db.MOD), f"DB_VERSION is {V}, newest schema is {max(S)}")
    ctx.ob("version-chain", sorted(S) == list(range(max(S) + 1)), ctx.p.module(db.MOD), f"schemas have gaps: {sorted(S)}")
    for k in range(0, V + 1):
        top = k if k >= 4 else 0
        ps = run_paths(ctx, k, True, top)
        want = []
        for n in range(max(k + 1, 4), V + 1):
            want += [("script", n), ("migrate", n)]
        ok = [p for p in ps if p.outcome.kind in ("return", "next")]
        ctx.ob("upgrade-chain", bool(ok) and all(p.outcome.kind != "raise" for p in ps), fn, f"a valid version {k} database is refused", f"v{k}")
        for p in ok:
            st = steps(ctx, p)
            got = [(a, b) for a, b, _ in st if a in ("script", "migrate", "rawscript")]
            ctx.ob("upgrade-chain", got == want, fn, f"a version {k} database is upgraded by {got}, expected {want}", f"v{k}")
            check_tx(ctx, fn, p, st, f"version {k}", bool(want))
    # a brand new file gets the current schema, atomically
    ps = run_paths(ctx, 0, False, 0)
    for p in ps:
        if p.outcome.kind not in ("return", "next"):
            ctx.ob("new-database", False, fn, "creating a new database raises")
            continue
        st = steps(ctx, p)
        got = [(a, b) for a, b, _ in st if a in ("script", "migrate", "rawscript")]
        ctx.ob("new-database", ("script", V) == (got or [None])[0] and not any(a == "migrate" for a, _ in got) and len(got) == 1 or
               got == [x for n in range(4, V + 1) for x in (("script", n), ("migrate", n))], fn, f"a new database is created by {got}")
        check_tx(ctx, fn, p, st, "new database", True)
    # newer database: untouched
    for k in (V + 1, V + 7):
        ps = run_paths(ctx, k, True, k)
        for p in ps:
            ctx.ob("newer-untouched", p.outcome.kind in ("return", "next") and not [s for s in steps(ctx, p) if s[0] in ("script", "migrate", "write", "rawscript")], fn,
                   f"a version {k} database (newer than {V}) is modified or refused [{p.outcome.kind}]", f"v{k}")
    # marker and tables disagree: refused before anything is written
    for marker, top in ((0, 4), (3, 4), (5, 6), (6, 5), (12, 13), (13, 12), (0, 13), (13, 4), (14, 13), (13, 14), (20, 5)):
        ps = run_paths(ctx, marker, True, top)
        for p in ps:
            cls = p.exc()[1] if callable(getattr(p, "exc", None)) and p.outcome.kind == "raise" else None
            ok = p.outcome.kind == "raise" and "CorruptDatabase" in show(p.outcome.value)
            ctx.ob("inconsistent-refused", ok and not [s for s in steps(ctx, p) if s[0] in ("script", "migrate", "write", "rawscript")], fn,
                   f"marker {marker} with version {top} tables is not refused as corrupt before writing [{p.outcome.kind}]", f"{marker}/{top}")


def check_tx(ctx, fn, p, st, what, needed):
    idx = {}
    ws = [i for i, s in enumerate(st) if s[0] in ("script", "migrate", "write", "rawscript")]
    if not ws:
        return
    b = [i for i, s in enumerate(st) if s[0] == "begin"]
    c = [i for i, s in enumerate(st) if s[0] == "commit"]
    ctx.ob("one-transaction", len(b) == 1 and b[0] < ws[0] and db.awaited(p, st[b[0]][2]), fn, f"{what}: not everything runs inside one BEGIN", what)
    ctx.ob("one-transaction", len(c) == 1 and c[0] > ws[-1] and db.awaited(p, st[c[0]][2]), fn, f"{what}: no single COMMIT after the last step ({len(c)} commits)", what)
    for a, n, e in st:
        ctx.ob("step-awaited", db.awaited(p, e), (fn, e.node), f"{what}: {a} {n} is not awaited", a)
        ctx.ob("no-implicit-commit", a != "rawscript", (fn, e.node), f"{what}: sqlite's own executescript commits the open transaction", "raw")


def rollback(ctx):
    """An exception from any step rolls back and is re-raised."""
    fn = ctx.p.func(f"{C}._run_migrations")
    migs = migrations(ctx)
    for what, args in (("upgrade", (11, True, 11)), ("new database", (0, False, 0))):
        ps = run_paths(ctx, *args, inject=(ANYEXC,), inject_at=lambda t, name, aw: aw and name in ("executescript", "_migrate_to_v12", "_migrate_to_v13"))
        n = 0
        for p in ps:
            bad = [e for e in p.events if e.kind == "call" and not e.ok and (e.name == "executescript" or e.name.startswith("_migrate_to_v"))]
            if not bad:
                continue
            n += 1
            after = p.events[index(p, bad[0]):]
            st = [s for s in steps(ctx, p) if index(p, s[2]) > index(p, bad[0])]
            ctx.ob("rolled-back", any(s[0] == "rollback" and db.awaited(p, s[2]) for s in st) and not any(s[0] == "commit" for s in st), (fn, bad[0].node),
                   f"{what}: a failing {bad[0].name} is not rolled back", f"{what}.{bad[0].name}")
            ctx.ob("failure-reported", p.outcome.kind == "raise", (fn, bad[0].node), f"{what}: a failing {bad[0].name} is swallowed", f"{what}.{bad[0].name}")
        ctx.need("rolled-back", n, 2 if what == "upgrade" else 1, f"failing steps of {what}")
    # opening: migrations run on open, and a failure closes the file and is raised
    ps = ctx.paths(f"{C}.initialize_tables", private=False, handler_inject=False, loop=1)
    for p in ps:
        if p.normal:
            e = [x for x in calls(p, "_run_migrations")]
            ctx.ob("migrations-run-on-open", len(e) == 1 and db.awaited(p, e[0]), ps, "opening does not run the migrations")
    ps = ctx.paths(f"{C}.new", private=False, inject=(ANYEXC,), inject_at=lambda t, name, aw: name == "initialize_tables")
    n = 0
    for p in ps:
        e = calls(p, "initialize_tables")
        if p.normal:
            ctx.ob("migrations-run-on-open", len(e) == 1 and db.awaited(p, e[0]), ps, "opening does not prepare the tables", "new")
            r = [x for x in p.events if x.kind == "setattr" and x.name == "running"]
            ctx.ob("migrations-run-on-open", not r or index(p, r[0]) > index(p, e[0]), ps, "changes are accepted before the tables exist", "running")
        elif e and not e[0].ok:
            n += 1
            ctx.ob("failure-reported", p.outcome.kind == "raise", ps, "a failed migration is swallowed on open", "new")
    ctx.need("failure-reported", n, 1, "failing opens")
    # migrations and helpers never commit on their own
    for f in [*migs.values(), ctx.p.func(f"{C}._migrate_tables"), ctx.p.func(f"{C}.executescript")]:
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                recv = ast.unparse(n.func.value)
                ctx.ob("no-commit-inside", not (n.func.attr in ("commit", "rollback") or n.func.attr == "executescript" and "_db" in recv), (f, n),
                       f"{f.name} calls {recv}.{n.func.attr} inside the upgrade transaction", n.func.attr)
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(r"\s*(COMMIT|ROLLBACK|BEGIN|END|VACUUM)\b", n.value):
                ctx.ob("no-commit-inside", False, (f, n), f"{f.name} issues {n.value!r} inside the upgrade transaction")
    # executescript runs every statement
    ps = ctx.paths(f"{C}.executescript")
    got = 0
    for p in ps:
        for it in [e for e in p.events if e.kind == "loopiter"]:
            i = index(p, it)
            ex = [e for e in p.events[i:] if e.kind == "call" and e.name == "execute"]
            ok = "split" in show(it.base) and contains(norm(it.base), const(";")) and contains(norm(it.base), ("param", "sql"))
            ctx.ob("script-runs-every-statement", ok, ps, f"the script is not split into its statements: {show(it.base)}")
            nxt = [e for e in p.events[i + 1:] if e.kind in ("loopiter", "loopend")]
            seg = [e for e in ex if not nxt or index(p, e) < index(p, nxt[0])]
            # an empty statement may be skipped
            skip = not seg and any(contains(norm(a), ("elem", norm(it.base))) for a, _ in allfacts(p))
            ctx.ob("script-runs-every-statement", skip or len(seg) == 1 and db.awaited(p, seg[0]) and contains(norm(seg[0].args[0]), ("elem", norm(it.base))), ps,
                   "a statement of the script is not executed")
            got += 1
    ctx.need("script-runs-every-statement", got, 1, "loop iterations")


def subst(t, old, new):
    if t == old:
        return new
    if not isinstance(t, tuple):
        return t
    return tuple(subst(x, old, new) for x in t)


def expand_dict(ctx, t):
    """Entries of a dict display or of a comprehension over literals."""
    t = norm(t)
    if t[0] == "dict":
        out = []
        for k, v in t[1]:
            if k is None or k[0] == "star" or k == const(None):
                sub = expand_dict(ctx, v)
                if sub is None:
                    return None
                out += sub
            else:
                out.append((k, v))
        return out
    if t[0] == "bin" and t[1] == "|":
        a, b = expand_dict(ctx, t[2]), expand_dict(ctx, t[3])
        return None if a is None or b is None else a + b
    if t[0] == "comp" and t[1] == "dict" and len(t[3]) == 1:
        it, ifs = t[3][0]
        if it[0] not in ("tuple", "list", "set") or ifs:
            return None
        out = []
        for x in it[1]:
            out.append(tuple(subst(e, ("elem", it), x) for e in t[2]))
        return out
    return None


def text(ctx, t):
    if t[0] == "const":
        return t[1]
    if t[0] == "fstr":
        s = ""
        for x in t[1]:
            v = text(ctx, x)
            if v is None:
                return None
            s += str(v)
        return s
    v = ctx.kit.teval(t, {})
    return None if v is UNK else v


ALIAS = {"cluster": "cluster_id", "attrid": "attr_id", "in_clusters": "clusters", "out_clusters": "clusters", "output_clusters": "clusters",
         "attributes": "attributes_cache"}


def al(x):
    return ALIAS.get(x, x)


def tables(ctx):
    """Every step carries every old table to its successor."""
    S, V = db.schemas(ctx), db.db_version(ctx)
    for n in range(4, V + 1):
        s = S[n]
        ctx.ob("schema-sets-version", s.user_version == n, f"zigpy/appdb_schemas/schema_v{n}.sql", f"user_version is {s.user_version}", str(n))
        if n >= 5:
            for d in s.stmts:
                t = d.get("table") or d.get("name")
                if d["op"] in ("table", "drop", "index"):
                    ctx.ob("schema-touches-own-tables", str(t).endswith(f"_v{n}"), f"zigpy/appdb_schemas/schema_v{n}.sql", f"{d['op']} {t} in schema {n}", f"{n}.{t}")
                ctx.ob("schema-touches-own-tables", d["op"] in ("table", "drop", "index", "pragma"), f"zigpy/appdb_schemas/schema_v{n}.sql", f"{d['op']} statement", f"{n}.{d['op']}")
    migs = {int(re.search(r"\d+$", m.name).group(0)): m for m in migrations(ctx).values()}
    ctx.need("table-carried", len(migs), V - 3, "migrations")
    for v in range(5, V + 1):
        m = migs[v]
        old, new = S[v - 1], S[v]
        ps = ctx.paths(m, noinline=(f"{C}._migrate_tables", f"{C}._table_exists"), handler_inject=False, loop=1)
        for p in ps:
            if p.outcome.kind not in ("return", "next"):
                continue
            carried, named, order = {}, set(), []
            maps = [e for e in p.events if e.kind == "call" and e.name == "_migrate_tables"]
            for e in maps:
                b = ctx.bound(ps.w, e)
                ents = expand_dict(ctx, e.args[0] if e.args else dict(e.kwargs).get("table_map"))
                if ents is None:
                    raise AnalysisBroken(f"{m.qual}: table map is not a literal")
                err = text(ctx, b.get("errors", const("raise")))
                extra = v == 6 and any(text(ctx, k) == "attributes" for k, _ in ents)
                allowed = {"raise"} | ({"warn"} if v == 5 else set()) | ({"ignore"} if extra else set())
                ctx.ob("rows-not-dropped", err in allowed, (m, e.node), f"rows that fail to copy are dropped silently (errors={err!r})", "errors")
                ctx.ob("step-awaited", db.awaited(p, e), (m, e.node), "table copy is not awaited", "copy")
                for k, x in ents:
                    k, x = text(ctx, k), text(ctx, x)
                    if extra:
                        continue
                    named.add(k)
                    if x is not None:
                        carried.setdefault(k, []).append(x)
                        order.append(x)
                        oc, nc = cols_of(S, v, k), (new.cols(x) if x in new.tables else None)
                        ctx.ob("table-carried", nc is not None, (m, e.node), f"{k} is copied to {x}, which schema {v} does not create", k)
                        ctx.ob("table-carried", al(db.base_name(k)) == al(db.base_name(x)) and db.base_name(k) in same_family(x), (m, e.node), f"{k} is copied into {x}", k)
                        if oc is not None and nc is not None:
                            ctx.ob("columns-carried", [al(c) for c in oc] == [al(c) for c in nc], (m, e.node), f"{k}{oc} is copied positionally into {x}{nc}", k)
            # explicit row loops and INSERT ... SELECT
            for s in db.stmts(ps, p):
                if s.op != "insert":
                    continue
                ctx.ob("step-awaited", db.awaited(p, s.e), (m, s.e.node), "row copy is not awaited", "row")
                lenient(ctx, m, s)
                if s.d["select"] is not None:
                    src = s.d["select"]["table"]
                    carried.setdefault(src, []).append(s.table)
                    order.append(s.table)
                    names = s.d["cols"] or new.cols(s.table)
                    sel = s.d["select"]["cols"]
                    for c, x in zip(names, sel):
                        refs = re.findall(r"'col', '(\w+)'", str(x))
                        ctx.ob("columns-carried", refs == [c], (m, s.e.node), f"{s.table}.{c} is filled from {refs} of {src}", f"{s.table}.{c}")
                    ctx.ob("columns-carried", len(names) == len(sel) and set(new.cols(s.table)) == set(names) and set(names) >= set(old.cols(src) if src in old.tables else []), (m, s.e.node),
                           f"columns of {src} are not all carried to {s.table}", s.table)
                    ctx.ob("rows-not-dropped", not s.d["select"].get("where"), (m, s.e.node), f"rows of {src} are filtered while copying", src)
                    continue
                src = source_select(ctx, ps, p, s)
                if src is None:
                    continue
                carried.setdefault(src[0], []).append(s.table)
                order.append(s.table)
                check_row(ctx, m, S, v, s, src, new)
            for e in row_loops(p):
                nxt = [x for x in row_loops(p) if index(p, x) > index(p, e)]
                seg = [s for s in db.stmts(ps, p) if s.op == "insert" and s.e.ok and index(p, s.e) > index(p, e) and (not nxt or index(p, s.e) < index(p, nxt[0])) and any(contains(norm(a), ("elem", norm(e.base))) for a in s.e.args[1:])]
                ctx.ob("rows-not-dropped", len(seg) == 1, m, f"a row read from an old table is inserted {len(seg)} times [{describe(p)[-200:]}]", "each")
            # reached on every path: a loop with no rows still counts as carrying its table
            for e in p.events:
                if e.kind == "call" and e.args:
                    st = db.sql_text(e.args[0])
                    if st and st[0].lstrip().upper().startswith("SELECT"):
                        named.add(re.search(r"FROM\s+(\w+)", st[0], re.I).group(1))
            src_tables = source_tables(S, v)
            for t in src_tables:
                ctx.ob("table-carried", t in named or t in carried, m, f"{t} is neither carried over nor named by the step to version {v}", t)
        # some path carries each table that is not explicitly abandoned
        allc = {}
        for p in ps:
            if p.outcome.kind in ("return", "next"):
                for k, x in carried_on(ctx, ps, p):
                    allc.setdefault(k, set()).add(x)
        for t in source_tables(S, v):
            exempt = v == 5 and t in ("neighbors", "node_descriptors")
            ctx.ob("table-carried", exempt or t in allc, m, f"the rows of {t} are not carried to version {v}", t + "!")
        for t in new.tables:
            fresh = al(db.base_name(t)) not in {al(db.base_name(x)) for x in source_tables(S, v)}
            got = any(t in x for x in allc.values())
            ctx.ob("table-carried", fresh or got, m, f"nothing is copied into {t}", t + "<")
            if db.base_name(t) == "clusters" and v == 13:
                need = {"in_clusters_v12", "out_clusters_v12"}
                ctx.ob("table-carried", need <= {k for k, x in allc.items() if t in x}, m, "both cluster tables must be merged", "clusters")


def row_loops(p):
    """Iterations over the rows of a SELECT."""
    return [e for e in p.events if e.kind == "loopiter" and any(y[0] == "const" and isinstance(y[1], str) and re.match(r"\s*SELECT\b", y[1], re.I) for y in subterms(norm(e.base)))]


def lenient(ctx, m, s):
    """An insert that quietly drops or replaces conflicting rows loses data."""
    q = db.sql_text(s.e.args[0])
    ctx.ob("rows-not-dropped", not q or not re.search(r"\bOR\s+(IGNORE|REPLACE)\b|\bREPLACE\s+INTO\b|\bON\s+CONFLICT\b", q[0], re.I), (m, s.e.node), f"rows that conflict are dropped silently: {q and ' '.join(q[0].split())[:90]}", "lenient")


def same_family(x):
    b = db.base_name(x)
    fam = {"in_clusters": {"clusters", "in_clusters"}, "out_clusters": {"output_clusters", "out_clusters"}, "attributes_cache": {"attributes", "attributes_cache"},
           "clusters": {"in_clusters", "out_clusters"}}
    return fam.get(b, {b})


def source_tables(S, v):
    return [t for t in S[v - 1].tables if not t.startswith("sqlite_")]


def cols_of(S, v, t):
    for k in (v - 1, v - 2, 3, 2, 1, 0):
        if k in S and t in S[k].tables:
            return S[k].cols(t)
    return None


def carried_on(ctx, ps, p):
    out = []
    for e in p.events:
        if e.kind == "call" and e.name == "_migrate_tables":
            for k, x in expand_dict(ctx, e.args[0] if e.args else dict(e.kwargs).get("table_map")) or ():
                k, x = text(ctx, k), text(ctx, x)
                if x is not None:
                    out.append((k, x))
    for s in db.stmts(ps, p):
        if s.op == "insert":
            if s.d["select"] is not None:
                out.append((s.d["select"]["table"], s.table))
            else:
                src = source_select(ctx, ps, p, s)
                if src:
                    out.append((src[0], s.table))
    return out


def source_select(ctx, ps, p, s):
    """(table, row term) of the SELECT loop that feeds an INSERT."""
    row = s.term_rows()[0]
    for x in subterms(row):
        if x[0] == "elem":
            for y in subterms(x):
                if y[0] == "const" and isinstance(y[1], str) and re.match(r"\s*SELECT\b", y[1], re.I):
                    m = re.search(r"FROM\s+(\w+)(.*)", y[1], re.I | re.S)
                    return m.group(1), x, y[1], m.group(2)
    return None


def check_row(ctx, m, S, v, s, src, new):
    table, row, q, tail = src
    ctx.ob("rows-not-dropped", not tail.strip() and re.search(r"SELECT\s+\*", q, re.I), (m, s.e.node), f"rows of {table} are filtered or projected while copying: {q!r}", table)
    oc, nc = cols_of(S, v, table), new.cols(s.table)
    r = s.term_rows()[0]
    names = s.d["cols"] or nc
    vals = [s.value(r, x) for x in s.d["values"]]
    ctx.ob("columns-carried", len(names) == len(vals) == s.nparams(r, lambda t: None) if s.nparams(r, lambda t: None) else True, (m, s.e.node), f"{s.table}: {len(vals)} values for {len(names)} columns", s.table)
    seen = set()
    for c, x in zip(names, vals):
        if x is not None and x[0] == "idx" and x[1] == row and x[2][0] == "const":
            k = x[2][1]
            ctx.ob("columns-carried", oc is not None and k < len(oc) and al(oc[k]) == al(c), (m, s.e.node), f"{s.table}.{c} is filled from {table}.{oc[k] if oc and k < len(oc) else k}", f"{s.table}.{c}")
            seen.add(k)
        else:
            ctx.ob("columns-carried", al(c) not in [al(o) for o in oc or ()], (m, s.e.node), f"{s.table}.{c} is not taken from {table}", f"{s.table}.{c}")
            if c == "cluster_type" and x is not None:
                want = "Client" if db.base_name(table) in ("out_clusters", "output_clusters") else "Server"
                ctx.ob("columns-carried", ctx.kit.teval(x, {}) == ctx.kit.teval(("attr", ("glob", "zigpy.zcl.ClusterType"), want), {}), (m, s.e.node), f"rows of {table} become {show(x)} clusters", f"{s.table}.{table}")
    ctx.ob("columns-carried", oc is not None and seen == set(range(len(oc))), (m, s.e.node), f"columns of {table} are lost in {s.table}", f"{s.table}<{table}")


def copier(ctx):
    """The generic table copy: nothing unnamed, nothing skipped, failures raised unless told otherwise."""
    f = ctx.p.func(f"{C}._migrate_tables")
    ps = ctx.paths(f, noinline=(f"{C}._get_table_versions",), loop=1, inject=("sqlite3.IntegrityError",),
                   inject_at=lambda t, name, aw: name == "execute" and aw, scenario={"errors": "raise"})
    n = k = 0
    for p in ps:
        ins = [s for s in db.stmts(ps, p) if s.op == "insert"]
        # refusal of unnamed tables precedes any copying
        if p.outcome.kind == "raise" and "RuntimeError" in show(p.outcome.value):
            k += 1
            ctx.ob("unnamed-table-refused", not ins, f, "rows are copied before unnamed tables are refused")
            for a, v in allfacts(p):
                for c in {x for x in subterms(norm(a)) if x[0] == "comp"}:
                    for c1 in [x for _, cs in c[3] for x in cs]:
                        ver = {x for x in subterms(c1) if x[0] == "idx" and (x[2] == const(1) and x[1][0] == "elem" or "_get_table_versions" in repr(x[1]) and x[1][0] == "call" and x[1][1][2:] != ("items",))}
                        if ver and c1[0] != "in":
                            got = {ctx.kit.teval(c1, {x: k for x in ver}) for k in (4, 5, 12, 13)} - {UNK}
                            ctx.ob("unnamed-table-refused", got <= {True}, f, f"tables of the old version are not looked at: {show(c1)[-90:]}", "version")
            continue
        for s in ins:
            lenient(ctx, f, s)
        bad = [s for s in ins if not s.e.ok]
        if bad:
            ctx.ob("rows-not-dropped", p.outcome.kind == "raise", (f, bad[0].e.node), "a row that fails to copy is dropped although errors='raise'")
            continue
        if p.outcome.kind == "raise":
            continue
        for e in [x for x in p.events if x.kind == "loopiter" and any(y[0] == "const" and isinstance(y[1], str) and "SELECT" in y[1].upper() for y in subterms(x.base)) or
                  x.kind == "loopiter" and "SELECT" in show(x.base).upper()]:
            n += 1
            seg = [s for s in ins if index(p, s.e) > index(p, e)]
            ctx.ob("rows-not-dropped", len(seg) >= 1 and all(db.awaited(p, s.e) for s in seg), f, "a row of the old table is not inserted into the new one")
            for s in seg:
                ctx.ob("rows-not-dropped", s.e.args and contains(norm(s.e.args[1] if len(s.e.args) > 1 else const(0)), ("elem", norm(e.base))), (f, s.e.node), "the inserted row is not the row read")
    ctx.ob("unnamed-table-refused", k >= 1, f, "old tables that are not named by the step are silently ignored")
    for p in ps:
        if p.outcome.kind in ("return", "next"):
            its = [e for e in p.events if e.kind == "loopiter" and contains(norm(e.base), ("param", "table_map")) and "SELECT" not in repr(norm(e.base)).upper()]
            for e in its:
                sel = [x for x in p.events[index(p, e):] if x.kind == "call" and x.args and db.sql_text(x.args[0]) and db.sql_text(x.args[0])[0].lstrip().upper().startswith("SELECT")]
                skipped = any(v is True and norm(a)[0] == "is" and contains(norm(a), ("elem", norm(e.base))) and norm(a)[2] == const(None) for a, v in allfacts(p))
                ctx.ob("rows-not-dropped", bool(sel) or skipped, f, "a mapped table is not copied", "map")
                for x in sel:
                    t = db.sql_text(x.args[0])[0]
                    ctx.ob("rows-not-dropped", re.match(r"\s*SELECT\s+\*\s+FROM\s+\S+\s*$", t, re.I), (f, x.node), f"rows are filtered while copying: {t}", "select")
    ctx.need("rows-not-dropped", n, 1, "row loops")
    # default must be to raise
    d = f.defaults().get("errors")
    ctx.ob("rows-not-dropped", d is not None and ctx.kit.consteval(f.module, d) == "raise", f, "table copies ignore failing rows by default", "default")


def v4(ctx):
    """Step 4 carries the packed tables into their expanded form."""
    S = db.schemas(ctx)
    m = ctx.p.func(f"{C}._migrate_to_v4")
    ps = ctx.paths(m, noinline=(f"{C}._table_exists",), handler_inject=False, loop=1)
    got = {}
    for p in ps:
        if p.outcome.kind not in ("return", "next"):
            continue
        for e in [x for x in p.events if x.kind == "loopiter"]:
            q = next((y[1] for y in subterms(e.base) if y[0] == "const" and isinstance(y[1], str) and "SELECT" in y[1].upper()), None)
            if q is None:
                continue
            t = re.search(r"FROM\s+(\w+)", q, re.I).group(1)
            ins = [s for s in db.stmts(ps, p) if s.op == "insert" and contains(norm(s.e.args[1]), ("elem", norm(e.base)))]
            ctx.ob("table-carried", len(ins) == 1 and ins[0].table == f"{t}_v4" and db.awaited(p, ins[0].e), m, f"a row of {t} is not carried to {t}_v4", t)
            for s in ins:
                got[t] = s
                r = s.term_rows()[0]
                cls = {"neighbors": "zigpy.zdo.types.Neighbor", "node_descriptors": "zigpy.zdo.types.NodeDescriptor"}[t]
                n = s.nparams(r, lambda x: len(dbspec.struct_fields(ctx, cls)))
                ctx.ob("columns-carried", n == len(S[4].cols(s.table)) == len(s.d["values"]), (m, s.e.node), f"{s.table}: {n} values, {len(s.d['values'])} placeholders, {len(S[4].cols(s.table))} columns", t)
    for t in ("neighbors", "node_descriptors"):
        ctx.ob("table-carried", t in got, m, f"the rows of {t} are not carried to version 4", t + "!")


def v6(ctx):
    """Rows the v5 step skipped are carried over by the v6 step whenever some are missing."""
    f = ctx.p.func(f"{db.CLS}._migrate_to_v6")
    ps = ctx.paths(f, noinline=(f"{db.CLS}._migrate_tables", f"{db.CLS}._table_exists"), private=False, handler_inject=False)
    asg = {}
    for p in ps:
        for a, _ in allfacts(p):
            n = norm(a)
            for x in subterms(n):
                if x[0] == "idx" and "fetchone" in repr(x) and "count" in repr(x).lower():
                    asg[x] = 1 if "attributes_cache_v6" in repr(x) else 2
            if n[0] == "truthy" and "_table_exists" in repr(n):
                asg[n[1]] = True
            if n[0] == "in" and n[1] == const("attributes"):
                asg[n] = True
    k = 0
    for p in ps:
        if not p.normal or not ps.consistent(p, asg):
            continue
        k += 1
        rec = []
        for e in calls(p, "_migrate_tables"):
            b = ctx.bound(ps.w, e)
            m = b.get("table_map", ("dict", ()))
            if m[0] == "dict" and any(x == const("attributes") and y == const("attributes_cache_v6") for x, y in m[1]):
                rec.append(b)
        ctx.ob("skipped-rows-recovered", bool(rec), f, f"attributes skipped by the v5 step are not carried over [{describe(p)}]")
        for b in rec:
            ctx.ob("skipped-rows-recovered", b.get("errors") in (const("ignore"), const("warn")), f, "rows that already exist abort the recovery", "errors")
    ctx.need("skipped-rows-recovered", k, 1, "paths with missing rows")


RULES = [chain, rollback, tables, copier, v4, v6]
