"""Every persisted change is queued, written to its table and committed."""
import ast

from .. import db, dbspec
from ..core import UNK, Obj, calls, describe, ev_callee, index, norm, show
from ..lib import calls_in, emit_sites, reach_self
from ..model import AnalysisBroken, walk_own
from ..walk import const, contains, subterms


def effects(ctx):
    schema = db.schemas(ctx)[db.db_version(ctx)]
    n = 0
    for ev, sc, spec, ps, ips, path, ws in dbspec.event_effects(ctx, schema):
        f = db.handlers(ctx).get(ev) or ctx.p.cls(db.CLS)
        if isinstance(ws, str):
            ctx.ob("one-change-queued", False, f, f"event {ev}: {ws}", ws[:40])
            continue
        n += 1
        bad = dbspec.check(ps, ws, spec, schema)
        for w in ws:
            bad += dbspec.allowed_filters(w)
        bad += dbspec.order_ok(ips, path, ws, schema)
        ctx.ob("event-writes-its-table", not bad, ips.func, f"event {ev}, scenario {sc}: {'; '.join(bad[:4])}", ev)
        # awaited statements, and a commit after the last of them
        for w in ws:
            ctx.ob("statement-awaited", db.awaited(path, w.st.e), (ips.func, w.st.e.node), f"event {ev}: statement on {w.full} is never awaited", ev)
        cs = [e for e in calls(path, "commit", ok=True) if db.awaited(path, e)]
        last = max((index(path, w.st.e) for w in ws), default=-1)
        ctx.ob("commit-after-writes", bool(cs) and index(path, cs[-1]) > last, ips.func,
               f"event {ev}: a path returns without committing what it wrote [{describe(path)}]", ev)
    ctx.need("event-writes-its-table", n, 18, "event/scenario paths")


def refresh(ctx):
    """Conditions on an upsert or update let a real change through."""
    schema = db.schemas(ctx)[db.db_version(ctx)]
    n = 0
    for ev, sc, spec, ps, ips, path, ws in dbspec.event_effects(ctx, schema):
        if isinstance(ws, str):
            continue
        for w in ws:
            if not w.extra or w.kind == "delete":
                continue
            d = w.st.d
            new = dict(w.values) if w.kind == "insert" else dict(w.set)
            names = {}
            tested = [c for c in (w.set or {})]
            for changed in tested:
                # existing row: equal except for the changed column
                env = {}
                for c in w.cols:
                    env[c] = 1000.0
                    env["excluded." + c] = 1000.0
                newv = {c: 1000.0 for c in new}
                big = 1e7
                newv[changed] = 1000.0 + big
                env["excluded." + changed] = 1000.0 + big
                for key in params_of(w.extra):
                    t = w.st.param(w.row, key)
                    val = None
                    for c, tv in new.items():
                        if tv is not None and t == tv:
                            val = newv[c]
                    if val is None and t is not None:
                        v = ctx.kit.teval(t, {})
                        if v is UNK:
                            v = delta_value(ctx, t)
                        val = v if isinstance(v, (int, float)) else None
                    env[(":", key)] = val
                from .. import sql
                rs = [sql.eval_expr(x, env) for x in w.extra]
                n += 1
                ctx.ob("condition-lets-changes-through", all(r is not False and r is not None for r in rs), (ips.func, w.st.e.node),
                       f"event {ev}: a row of {w.full} whose {changed} changed is not rewritten ({'; '.join(map(str, w.extra))})", f"{ev}.{changed}")
    ctx.need("condition-lets-changes-through", n, 3, "conditional writes")


def params_of(exprs):
    out = []

    def rec(e):
        if isinstance(e, (tuple, list)):
            if len(e) == 2 and e[0] == "param":
                out.append(e[1])
                return
            for x in e:
                rec(x)
    rec(exprs)
    return out


def delta_value(ctx, t):
    if t[0] == "glob":
        m, _, n = t[1].rpartition(".")
        mod = ctx.p.modules.get(m)
        if mod is not None and n in mod.assigns:
            return timedelta_seconds(mod.assigns[n])
    return UNK


def timedelta_seconds(e):
    """`timedelta(unit=k).total_seconds()` or a number."""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "total_seconds":
        c = e.func.value
        if isinstance(c, ast.Call) and not c.args:
            unit = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400, "milliseconds": 0.001, "weeks": 604800}
            tot = 0
            for k in c.keywords:
                if k.arg not in unit or not isinstance(k.value, ast.Constant):
                    return UNK
                tot += unit[k.arg] * k.value.value
            return tot
    return UNK


def worker_func(ctx):
    """The coroutine started as the writer task."""
    c = ctx.p.cls(db.CLS)
    for m in c.methods.values():
        for n in walk_own(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("create_task", "ensure_future") and n.args:
                a = n.args[0]
                if isinstance(a, ast.Name):
                    a = next((x.value for x in walk_own(m.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in x.targets)), a)
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in c.methods:
                    return c.methods[a.func.attr]
    raise AnalysisBroken("no writer task is created")


def queue_term(ctx):
    ps = ctx.paths(f"{db.CLS}.enqueue")
    for p in ps:
        for e in calls(p, ("put_nowait", "put")):
            return norm(e.base)
    raise AnalysisBroken("enqueue puts nothing on a queue")


def queueing(ctx):
    q = queue_term(ctx)
    ps = ctx.paths(f"{db.CLS}.enqueue")
    # accepted exactly once while running, with the arguments as given
    for run, want in ((True, 1), (False, 0)):
        sel = ps.scen({"self.running": run})
        ctx.ob("enqueue-once", bool(sel), ps, f"no path for running={run}")
        for p in sel:
            es = calls(p, ("put_nowait", "put"), ok=True)
            ctx.ob("enqueue-once", len(es) == want, ps, f"running={run}: change queued {len(es)} times instead of {want} [{describe(p)}]", f"running={run}")
            for e in es:
                ctx.ob("enqueue-once", e.name == "put_nowait", ps, "put() that is never awaited")
                v = norm(e.args[0]) if e.args else None
                ctx.ob("queued-item", v == ("tuple", (("param", "cb_name"), ("param", "*args"))), ps,
                       f"queued item is {show(v)} instead of (name, args)")
    init = ctx.paths(f"{db.CLS}.__init__", noinline=(worker_func(ctx).qual,))
    ctx.ob("fifo-queue", any(p.normal for p in init), init, "undecided: the database object is never built", "n")
    for p in init:
        if not p.normal:
            continue
        vs = [norm(e.value) for e in p.events if e.kind == "setattr" and norm(("attr", e.base, e.name)) == q]
        ctx.ob("fifo-queue", bool(vs) and vs[-1][0] == "call" and vs[-1][1] in (("glob", "asyncio.Queue"), ("glob", "asyncio.queues.Queue")) and
               all(ctx.kit.teval(x, {}) == 0 for x in vs[-1][2] + tuple(v for _, v in vs[-1][3])), init,
               f"the change queue is not an unbounded FIFO asyncio.Queue: {[show(v) for v in vs]}")
    w = worker_func(ctx)
    ws = ctx.paths(w, selfcls=db.CLS)
    n = 0
    for p in ws:
        gets = [e for e in calls(p, ("get", "get_nowait")) if e.ok and norm(e.base) == q]
        for i, g in enumerate(gets):
            n += 1
            ctx.ob("one-change-at-a-time", g.awaited or db.awaited(p, g) or g.name == "get_nowait", w, "queue get is not awaited")
            a = index(p, g)
            b = index(p, gets[i + 1]) if i + 1 < len(gets) else len(p.events)
            seg = p.events[a + 1:b]
            hs = [e for e in seg if e.kind == "call" and is_handler_call(e, g)]
            if b < len(p.events):
                ctx.ob("one-change-at-a-time", len(hs) == 1 and (hs[0].awaited or db.awaited(p, hs[0])), (w, g.node),
                       f"a change is handled {len(hs)} times before the next one is taken (or is not awaited)")
            for e in seg:
                ctx.ob("one-change-at-a-time", not (e.kind == "call" and e.name in ("create_task", "ensure_future", "gather", "run_coroutine_threadsafe")),
                       (w, e.node), "changes are handled concurrently")
    ctx.need("one-change-at-a-time", n, 2, "queue reads")
    # the handlers run nowhere else
    names = {e.args[0][1] for f in db.handlers(ctx).values() for p, es, _ in db.enqueued(ctx, f) for e in es if e.args and e.args[0][0] == "const"}
    for f in ctx.p.funcs.values():
        if f.module.name == db.MOD:
            continue
        for n_ in walk_own(f.node):
            if isinstance(n_, ast.Call) and isinstance(n_.func, ast.Attribute) and n_.func.attr in names and "listener" in ast.unparse(n_.func.value):
                ctx.ob("single-writer", False, (f, n_), f"{n_.func.attr} runs outside the writer")
    ctx.ob("single-writer", len(names) >= 14, ctx.p.cls(db.CLS), f"only {len(names)} handlers are queued")


def is_handler_call(e, g):
    """Call of the handler named by the queue item taken by `g`."""
    def derived(t):
        return t is not None and any(x[0] in ("idx", "await", "call") and contains(x, g.term) for x in subterms(t)) if g.term is not None else False
    if e.name in ("debug", "info", "warning", "error", "exception", "getattr", "str", "task_done", "rollback", "get"):
        return False
    t = e.term
    if t is None or t[0] != "call":
        return False
    f = t[1]
    return f[0] == "call" and f[1] == ("glob", "builtins.getattr") or (f[0] == "dynattr")


# ------------------------------------------------------------------ wiring
ADAPTED = {"attribute_updated", "attribute_cleared", "unsupported_attribute_added", "unsupported_attribute_removed"}
CONTEXT = {"device_last_seen_updated", "device_relays_updated"}
SOURCES = {
    "device_joined": "zigpy.application", "raw_device_initialized": "zigpy.application", "device_removed": "zigpy.application",
    "device_last_seen_updated": "zigpy.device", "device_relays_updated": "zigpy.device",
    "attribute_updated": "zigpy.zcl", "attribute_cleared": "zigpy.zcl", "unsupported_attribute_added": "zigpy.zcl", "unsupported_attribute_removed": "zigpy.zcl",
    "group_added": "zigpy.group", "group_member_added": "zigpy.group", "group_member_removed": "zigpy.group", "group_removed": "zigpy.group",
    "neighbors_updated": "zigpy.topology", "routes_updated": "zigpy.topology",
    "network_backup_created": "zigpy.backups", "network_backup_removed": "zigpy.backups",
}


def emitters(ctx):
    hs = db.handlers(ctx)
    sites = emit_sites(ctx)
    for ev, mod in SOURCES.items():
        mine = [s for s in sites if s[3] == ev]
        ctx.ob("event-is-announced", any(s[0].module.name == mod for s in mine), ctx.p.module(mod), f"{mod} never announces {ev}", ev)
        h = hs.get(ev)
        if h is None:
            ctx.ob("handler-exists", False, ctx.p.cls(db.CLS), f"no database handler for {ev}", ev)
            continue
        want = len(h.params) - 1
        req = want - len(h.defaults())
        for f, n, recv, _, k in mine:
            if k is None:
                continue
            extra = 1 if ev in ADAPTED or ev in CONTEXT else 0
            ctx.ob("event-arity", req <= k + extra <= want, (f, n), f"{ev} is announced with {k} arguments; the database handler takes {want}", ev)
    ctx.need("event-is-announced", len(sites), 25, "announcement sites")
    # the adapter of cluster events forwards its cluster and the same arguments
    c = ctx.p.cls("zigpy.zcl.ClusterPersistingListener")
    for ev in ADAPTED:
        m = ctx.p.find_method(c, ev)
        ctx.ob("adapter-forwards", m is not None, c, f"the cluster adapter does not handle {ev}", ev)
        if m is None:
            continue
        ps = ctx.paths(m, selfcls=c)
        for p in ps:
            if not p.normal:
                continue
            fw = [e for e in calls(p, ev)]
            ok = len(fw) == 1
            if ok:
                a = [norm(x) for x in fw[0].args] + [norm(v) for _, v in fw[0].kwargs]
                ok = a == [ps.T("self._cluster")] + [("param", x) for x in m.params[1:]] and norm(fw[0].base) == ps.T("self._applistener")
            ctx.ob("adapter-forwards", ok, m, f"{ev} is not forwarded to the database once with the cluster and its own arguments", ev)
            # arity towards cluster announcements
        for f, n, recv, _, k in [s for s in sites if s[3] == ev]:
            if k is not None:
                ctx.ob("event-arity", k == len(m.params) - 1, (f, n), f"{ev} is announced with {k} arguments; the adapter takes {len(m.params) - 1}", ev)
    ps = ctx.paths(f"{c.qual}.__init__")
    for p in ps:
        if p.normal:
            v = {e.name: norm(e.value) for e in p.events if e.kind == "setattr"}
            ctx.ob("adapter-forwards", v.get("_applistener") == ("param", "applistener") and v.get("_cluster") == ("param", "cluster"), ps.func,
                   "the adapter does not keep the database and its cluster", "init")


def wiring(ctx):
    # clusters persist through the adapter when a database is attached
    for meth in ("add_input_cluster", "add_output_cluster"):
        ps = ctx.paths(f"zigpy.endpoint.Endpoint.{meth}", handler_inject=False)
        key = "self._device.application._dblistener"
        n = 0
        for p in ps:
            if p.outcome.kind != "return":
                continue
            news = [e for e in calls(p, "ClusterPersistingListener")]
            adds = [e for e in calls(p, "add_listener") if e.args and e.args[0][0] == "call" and e.args[0][1] == ("glob", "zigpy.zcl.ClusterPersistingListener")]
            a0 = ps.asg({key: None})
            a1 = ps.asg({key: Obj("db")})
            c1 = ps.consistent(p, a1) and not ps.consistent(p, a0)
            if c1:
                n += 1
                ctx.ob("cluster-listener-attached", len(adds) == 1, ps, f"{meth}: a cluster is created without being attached to the database", meth)
            for e in adds:
                na = [norm(x) for x in e.args[0][2]]
                ctx.ob("cluster-listener-attached", len(na) == 2 and na[0] == ps.T(key) and norm(e.base) == na[1] and norm(p.ret) == na[1], ps,
                       f"{meth}: the database listener is attached to the wrong cluster", meth)
        ctx.need("cluster-listener-attached", n, 1, f"{meth} paths with a database")
    # new database: loaded first, then attached to every source
    ps = find_attach(ctx)
    want = {"self": "application", "self.groups": "groups", "self.backups": "backups", "self.topology": "topology"}
    n = 0
    for p in ps:
        if not p.normal:
            continue
        news = [e for e in calls(p, "new") if ev_callee(e) == f"{db.CLS}.new"]
        if not news:
            continue
        n += 1
        dbt = None
        sa = [e for e in p.events if e.kind == "setattr" and e.name == "_dblistener"]
        ctx.ob("database-attached", bool(sa) and norm(sa[-1].value)[0] in ("await", "call"), ps, "the database listener is not kept")
        if not sa:
            continue
        dbt = norm(sa[-1].value)
        if not ps.consistent(p, {dbt: Obj("db"), ps.T("self._dblistener"): Obj("db")}):
            n -= 1
            continue
        forms = {dbt, ps.T("self._dblistener")}
        loads = [e for e in calls(p, "load") if ev_callee(e) == f"{db.CLS}.load" or norm(e.base) in forms]
        ctx.ob("database-attached", len(loads) == 1 and db.awaited(p, loads[0]), ps, "the saved state is not loaded exactly once")
        for expr, what in want.items():
            b = ps.T(expr)
            adds = [e for e in calls(p, "add_listener") if norm(e.base) == b and e.args and norm(e.args[0]) in forms]
            ctx.ob("database-attached", len(adds) == 1, ps, f"the database is attached {len(adds)} times to the {what}", what)
            if loads and adds:
                ctx.ob("loaded-before-attached", index(p, adds[0]) > index(p, loads[0]), ps, f"the {what} is attached before the saved state is loaded", what)
    ctx.need("database-attached", n, 1, "attaching paths")
    # initialised devices: raw announcement first (it saves endpoints), then replaced, then announced
    ps = ctx.paths("zigpy.application.ControllerApplication.device_initialized")
    n = 0
    for p in ps:
        if not p.normal:
            continue
        evs = [e for e in calls(p, "listener_event") if e.args and e.args[0][0] == "const"]
        raw = [e for e in evs if e.args[0][1] == "raw_device_initialized"]
        ini = [e for e in evs if e.args[0][1] == "device_initialized"]
        n += 1
        ctx.ob("raw-device-saved", len(raw) == 1 and norm(raw[0].args[1]) == ("param", "device"), ps, "the interviewed device is not announced for saving exactly once")
        q = [e for e in calls(p, "get_device") if ev_callee(e) and "quirks" in ev_callee(e)]
        if raw and q:
            ctx.ob("raw-device-saved", index(p, raw[0]) < index(p, q[0]), ps, "the device is replaced before it is saved")
        if p.ret is not None or True:
            asg = ps.asg({"self._dblistener": Obj("db")})
            dev = norm(ini[-1].args[1]) if ini else None
            if ps.consistent(p, asg) and not ps.consistent(p, ps.asg({"self._dblistener": None})):
                cl = [e for e in calls(p, "add_context_listener") if e.args and norm(e.args[0]) == ps.T("self._dblistener")]
                ctx.ob("context-listener-attached", len(cl) == 1 and norm(cl[0].base) == dev, ps, "the initialised device's own events do not reach the database")
    ctx.need("raw-device-saved", n, 1, "paths")
    # devices loaded from storage report to the database as well
    c = ctx.p.cls(db.CLS)
    reach = reach_self(ctx, ctx.p.func(f"{db.CLS}.load"), c)
    sites = [n for f in reach.values() for n in ctx.kit.expand(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_context_listener" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == "self"]
    ctx.ob("context-listener-attached", bool(sites), ctx.p.func(f"{db.CLS}.load"), "loaded devices' own events do not reach the database", "load")


def find_attach(ctx):
    c = ctx.p.cls("zigpy.application.ControllerApplication")
    cands = []
    for m in c.methods.values():
        if m.name.startswith("__"):
            continue
        for n in walk_own(m.node):
            if isinstance(n, ast.Call) and ctx.p.resolve_expr(m.module, n.func, c) == f"{db.CLS}.new":
                cands.append(m)
    if not cands:
        raise AnalysisBroken("nothing opens the database")
    return ctx.paths(cands[0], selfcls=c)


RULES = [effects, refresh, queueing, emitters, wiring]
