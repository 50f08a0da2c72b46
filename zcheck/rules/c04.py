"""Removing a device, endpoint, cluster or group leaves no rows behind."""
from .. import db, dbspec
from ..core import calls, describe, index, norm, show
from ..lib import is_const
from . import c01
from ..walk import contains

REMOVALS = ("device_removed", "group_removed")


def owner(cols, ieee):
    """Column that says which device a row belongs to."""
    if "device_ieee" in cols:
        return "device_ieee"
    return "ieee" if "ieee" in cols else None


def explicit(ctx, event, S):
    """Tables whose rows are deleted by the handler of `event` on every path: {table: where}."""
    res = None
    for ev, sc, spec, ps, ips, path, ws in dbspec.event_effects(ctx, S):
        if ev != event or isinstance(ws, str):
            continue
        cur = {}
        for w in ws:
            if w.kind == "delete" and not w.extra:
                cur.setdefault(w.full, []).append(({k: v for k, v in w.where.items()}, w, ips, path))
        res = cur if res is None else {t: v for t, v in res.items() if t in cur}
    return res or {}


def cascading(S, table, cols, seen=()):
    """Is a foreign key over exactly the columns needed cascaded, up to `root` via parents?"""
    for fk in S.tables[table]["fks"]:
        if (fk["on_delete"] or "").upper() == "CASCADE":
            yield fk


def reaches(S, table, col, target, seen=()):
    """Deleting the `target` row with col=x deletes the rows of `table` with col=x."""
    if table in seen:
        return False
    for fk in cascading(S, table, col):
        if col in fk["cols"]:
            rc = fk["refcols"][fk["cols"].index(col)] if fk["refcols"] else col
            if fk["ref"] == target or fk["ref"] in S.tables and reaches(S, fk["ref"], rc, target, seen + (table,)):
                return True
    return False


def coverage(ctx):
    S = db.schemas(ctx)[db.db_version(ctx)]
    T = {db.base_name(t): t for t in S.tables}
    dev, grp, epn, cln = (T.get(x) for x in ("devices", "groups", "endpoints", "clusters"))
    where = ctx.p.cls(db.CLS)
    for need in ("devices", "groups", "endpoints", "clusters"):
        ctx.ob("removal-covers-table", need in T, where, f"no {need} table", need)
    if None in (dev, grp, epn, cln):
        return
    dexp, gexp = explicit(ctx, "device_removed", S), explicit(ctx, "group_removed", S)
    n = 0
    for t in S.tables:
        cols = S.cols(t)
        o = owner(cols, None)
        if t != dev and o:
            n += 1
            ok = reaches(S, t, o, dev) or any(o in wh and len(wh) == 1 and is_dev(wh[o]) for wh, *_ in dexp.get(t, ()))
            ctx.ob("removal-covers-table", ok, f"zigpy/appdb_schemas/schema_v{db.db_version(ctx)}.sql",
                   f"rows of {t} ({o}) survive the removal of their device: neither cascaded from {dev} nor deleted by the handler", t)
        if t != grp and "group_id" in cols:
            n += 1
            ok = reaches(S, t, "group_id", grp) or any(set(wh) == {"group_id"} for wh, *_ in gexp.get(t, ()))
            ctx.ob("removal-covers-table", ok, f"zigpy/appdb_schemas/schema_v{db.db_version(ctx)}.sql",
                   f"rows of {t} survive the removal of their group", t + ".group")
    ctx.need("removal-covers-table", n, 9, "dependent tables")
    # rows of the schema that hang off an endpoint or a cluster (the attribute cache is exempt:
    # quirks create virtual endpoints and clusters that have no row)
    for t, keys, par in ((T.get("clusters"), ("ieee", "endpoint_id"), epn), (T.get("group_members"), ("ieee", "endpoint_id"), epn),
                         (T.get("unsupported_attributes"), ("ieee", "endpoint_id", "cluster_type", "cluster_id"), cln)):
        ok = t is not None and any(fk["ref"] == par and dict(zip(fk["cols"], fk["refcols"] or fk["cols"])) == {k: k for k in keys} for fk in cascading(S, t, keys))
        ctx.ob("removal-covers-table", ok, f"zigpy/appdb_schemas/schema_v{db.db_version(ctx)}.sql", f"rows of {t} survive the removal of their {par} row", f"{t}<{par}")
    # a foreign key only works when it refers to existing columns under a unique key
    for t, d in S.tables.items():
        for fk in d["fks"]:
            ok = fk["ref"] in S.tables
            rc = fk["refcols"] or fk["cols"]
            if ok:
                ok = set(rc) in [set(k) for k in S.keys(fk["ref"])] and all(c in S.cols(t) for c in fk["cols"]) and len(rc) == len(fk["cols"]) and list(rc) == list(fk["cols"]) or \
                    (set(rc) in [set(k) for k in S.keys(fk["ref"])] and len(rc) == len(fk["cols"]) and dict(zip(fk["cols"], rc)) == {"device_ieee": "ieee"})
            ctx.ob("foreign-key-resolves", ok, f"zigpy/appdb_schemas/schema_v{db.db_version(ctx)}.sql",
                   f"{t}: foreign key {fk['cols']} -> {fk['ref']}{rc} does not name a unique key of the same columns", f"{t}{fk['cols']}")
    # explicit deletes come in the same commit as the parent's
    for ev, exp, key in (("device_removed", dexp, dev), ("group_removed", gexp, grp)):
        ctx.ob("removal-writes", key in exp, where, f"{ev} does not delete the {key} row itself", ev)


def is_dev(t):
    return t is not None and t[0] == "attr" and t[2] == "ieee" and "device" in show(t)


def removal_effects(ctx):
    """The removal handlers delete by the removed object's own key and commit (shared with C01)."""
    S = db.schemas(ctx)[db.db_version(ctx)]
    n = 0
    for ev, sc, spec, ps, ips, path, ws in dbspec.event_effects(ctx, S):
        if ev not in REMOVALS + ("group_member_removed",):
            continue
        f = db.handlers(ctx).get(ev) or ctx.p.cls(db.CLS)
        if isinstance(ws, str):
            ctx.ob("removal-writes", False, f, f"event {ev}: {ws}", ev)
            continue
        n += 1
        bad = dbspec.check(ps, ws, spec, S)
        for w in ws:
            bad += dbspec.allowed_filters(w)
        ctx.ob("removal-writes", not bad, ips.func, f"event {ev}: {'; '.join(bad[:4])}", ev)
        for w in ws:
            ctx.ob("removal-writes", db.awaited(path, w.st.e), (ips.func, w.st.e.node), f"event {ev}: statement never awaited", ev + "aw")
        cs = [index(path, e) for e in calls(path, "commit", ok=True) if db.awaited(path, e)]
        idx = sorted(index(path, w.st.e) for w in ws)
        ctx.ob("removal-writes", bool(cs) and bool(idx) and max(cs) > idx[-1], ips.func, f"event {ev}: the removal is not committed", ev + "c")
        ctx.ob("removal-is-one-transaction", not any(idx and idx[0] < c < idx[-1] for c in cs), ips.func, f"event {ev}: rows of one removal are committed separately", ev)
    ctx.need("removal-writes", n, 3, "removal paths")


def pragma(ctx):
    """Referential integrity is on before migrations and writes, and never switched off."""
    f = ctx.p.func(f"{db.CLS}.new")
    ps = ctx.paths(f, handler_inject=False, noinline=(f"{db.CLS}._run_migrations", f"{db.CLS}.shutdown"), inline=(f"{db.CLS}.initialize_tables",))
    n = 0
    for p in ps:
        if not p.normal:
            continue
        on = []
        for s in db.stmts(ps, p):
            if s.op == "pragma" and s.d["name"].lower() == "foreign_keys":
                v = str(s.d["value"]).strip("'\"").lower()
                ctx.ob("foreign-keys-on", v in ("on", "1", "true", "yes"), (f, s.e.node), f"foreign_keys is set to {v}", "value")
                if db.awaited(p, s.e) and v in ("on", "1", "true", "yes"):
                    on.append(s.e)
        n += 1
        ctx.ob("foreign-keys-on", bool(on), f, f"a connection is opened without PRAGMA foreign_keys = ON [{describe(p)}]")
        mig = calls(p, "_run_migrations")
        for m in mig:
            ctx.ob("foreign-keys-on", bool(on) and index(p, on[0]) < index(p, m), (f, m.node), "the schema is migrated before referential integrity is switched on", "before")
        if on:
            tx = [s for s in db.stmts(ps, p) if index(p, s.e) < index(p, on[0]) and (s.op in ("begin", "insert", "update", "delete") or s.text.strip().upper().startswith("BEGIN"))]
            done = any(index(p, e) < index(p, on[0]) and index(p, e) > index(p, tx[-1].e) for e in calls(p, ("commit", "rollback"))) if tx else True
            ctx.ob("foreign-keys-on", done, (f, on[0].node), "foreign_keys is switched on inside a transaction, where it has no effect", "tx")
        run = [e for e in p.events if e.kind == "setattr" and e.name == "running" and is_const(e.value, True)]
        for r in run:
            ctx.ob("foreign-keys-on", bool(on) and index(p, on[0]) < index(p, r), (f, r.node), "changes are accepted before referential integrity is switched on", "run")
    ctx.need("foreign-keys-on", n, 1, "opening paths")
    # nothing else touches it
    import ast
    for m in ctx.p.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                low = x.value.lower().replace(" ", "")
                if "pragma" in low and ("foreign_keys=" in low and not any(f"foreign_keys={v}" in low for v in ("on", "1", "true", "yes")) or "defer_foreign_keys" in low):
                    ctx.ob("foreign-keys-stay-on", False, (m, x), "referential integrity is switched off")
    for f_ in sorted((ctx.p.root / "zigpy/appdb_schemas").glob("*.sql")):
        ctx.ob("foreign-keys-stay-on", "foreign_keys" not in f_.read_text().lower(), f"zigpy/appdb_schemas/{f_.name}", "a schema script changes foreign_keys", f_.name)


def announced(ctx):
    """A removal is announced to the database with the object itself, once it left the tables."""
    ps = ctx.paths("zigpy.group.Groups.pop", handler_inject=False, loop=1)
    n = 0
    for p in ps:
        if not p.normal:
            continue
        em = [e for e in calls(p, "listener_event") if e.args and is_const(e.args[0], "group_removed")]
        rem = [e for e in p.events if e.kind == "delidx" or e.kind == "call" and e.name == "pop"]
        if em:
            n += 1
            ctx.ob("removal-announced", len(em) == 1, ps, "the removal of a group is announced more than once", "g")
    ctx.need("removal-announced", n, 1, "group removal paths")
    ps = ctx.paths("zigpy.application.ControllerApplication.remove", handler_inject=False, loop=1)
    n = 0
    for p in ps:
        dev = [e for e in calls(p, ("get_device", "get")) if e.ok] + [e for e in p.events if e.kind == "call" and "devices" in show(e.base or ("none",))]
        em = [e for e in calls(p, "listener_event") if e.args and is_const(e.args[0], "device_removed")]
        started = [e for e in p.events if e.kind == "call" and e.callee is not None and e.callee.name == "_remove_device"] or calls(p, "create_task")
        if p.normal and started:
            n += 1
            ctx.ob("removal-announced", len(em) == 1, ps, f"a device leaves without its removal being announced exactly once [{describe(p)}]", "d")
        for e in em:
            t = norm(e.args[1]) if len(e.args) == 2 else None
            known = ps.T("self.devices")
            ctx.ob("removal-announced", t is not None and contains(t, ("param", "ieee")) or t is not None and contains(t, known), (ps.func, e.node), "another device's removal is announced", "darg")
    ctx.need("removal-announced", n, 1, "device removal paths")


RULES = [removal_effects, coverage, pragma, announced, c01.queueing]
