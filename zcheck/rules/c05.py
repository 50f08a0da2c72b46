"""The database writer survives failures, rolls back, and drains on shutdown."""
import ast

from .. import db
from ..core import calls, describe, ev_callee, index, norm, show
from ..lib import is_const
from ..model import walk_own
from . import c01

C = db.CLS
LOGS = {"debug", "info", "warning", "error", "exception", "log"}


def worker(ctx):
    q = c01.queue_term(ctx)
    w = c01.worker_func(ctx)
    n = nf = 0
    for mi in (1, 2):
        ps = ctx.paths(w, selfcls=C, inject=("Exception",), max_inject=mi,
                       inject_at=lambda t, name, a: name not in LOGS | {"get", "task_done", "getattr", "get_nowait"})
        for p in ps:
            gets = [e for e in calls(p, ("get", "get_nowait")) if norm(e.base) == q and e.ok]
            failed = [e for e in p.events if e.kind == "call" and not e.ok]
            ctx.ob("writer-keeps-running", p.outcome.kind in ("cut", "next") and not p.normal or p.outcome.kind == "cut", w,
                   f"the writer ends after {[show(e.term)[:40] for e in failed][:2] or 'a change'} [{describe(p)}]", "ends")
            for i, g in enumerate(gets):
                a = index(p, g)
                b = index(p, gets[i + 1]) if i + 1 < len(gets) else len(p.events)
                seg = p.events[a + 1:b]
                dones = [e for e in seg if e.kind == "call" and e.name == "task_done" and norm(e.base) == q]
                hs = [e for e in seg if e.kind == "call" and c01.is_handler_call(e, g)]
                complete = b < len(p.events) or p.outcome.kind == "cut"
                if complete:
                    n += 1
                    ctx.ob("change-accounted-once", len(dones) == 1, (w, g.node), f"a taken change is accounted {len(dones)} times instead of once [{describe(p)}]", "td")
                for d in dones:
                    for h in hs:
                        ctx.ob("change-accounted-once", index(p, h) < index(p, d), (w, d.node), "a change is accounted before it was handled", "early")
                bad = [h for h in hs if not h.ok]
                for h in bad:
                    nf += 1
                    later = p.events[index(p, h):b]
                    rb = [e for e in later if e.kind == "call" and e.name == "rollback" and db.awaited(p, e)] + \
                         [s.e for s in db.stmts(ps, p) if s.text.strip().upper().startswith("ROLLBACK") and s.e in later]
                    ctx.ob("failed-change-rolled-back", bool(rb), (w, h.node), f"after a failed change its statements stay pending and the next commit keeps them [{describe(p)}]")
                    cm = [e for e in later if e.kind == "call" and e.name == "commit"]
                    ctx.ob("failed-change-rolled-back", not cm, (w, h.node), "a failed change is committed", "commit")
    ctx.need("change-accounted-once", n, 6, "handled changes")
    ctx.need("failed-change-rolled-back", nf, 2, "failed handlers")
    # nothing else accounts for or takes changes
    c = ctx.p.cls(C)
    for m in c.methods.values():
        if m is w:
            continue
        for x in walk_own(m.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("task_done", "get_nowait") and "_callback" in ast.unparse(x.func.value):
                ok = m.name.startswith("_") and any(isinstance(y, ast.Attribute) and y.attr == m.name for y in ast.walk(w.node))
                ctx.ob("change-accounted-once", ok, (m, x), f"{x.func.attr} outside the writer", "other")


def handlers_propagate(ctx):
    """A handler that swallows its failure would commit a partial change."""
    names = set()
    for f in db.handlers(ctx).values():
        for p, es, _ in db.enqueued(ctx, f):
            names |= {e.args[0][1] for e in es if e.args and e.args[0][0] == "const"}
    n = 0
    for nm in sorted(names):
        f = ctx.p.find_method(ctx.p.cls(C), nm)
        if f is None:
            continue
        ps = ctx.paths(f, selfcls=C, loop=1, inject=("Exception",), inject_at=lambda t, name, a: name in ("execute", "executemany"))
        for p in ps:
            fails = [e for e in p.events if e.kind == "call" and e.name in ("execute", "executemany") and not e.ok]
            if not fails:
                continue
            n += 1
            after = p.events[index(p, fails[0]):]
            cm = [e for e in after if e.kind == "call" and e.name == "commit"]
            ws = [s for s in db.stmts(ps, p) if s.writes and s.e.ok and index(p, s.e) < index(p, fails[0])]
            ctx.ob("partial-change-not-committed", p.outcome.kind == "raise" or not cm or not ws, f, f"{nm}: a failing statement is swallowed and the rest is committed [{describe(p)}]", nm)
    ctx.need("partial-change-not-committed", n, 12, "failing statements")


def shutdown(ctx):
    q = c01.queue_term(ctx)
    ps = ctx.paths(f"{C}.shutdown")
    n = 0
    for p in ps:
        if not p.normal:
            continue
        n += 1
        stop = [e for e in p.events if e.kind == "setattr" and e.name == "running" and norm(e.base) == ps.T("self")]
        joins = [e for e in calls(p, "join") if norm(e.base) == q]
        cancels = [e for e in calls(p, "cancel") if norm(e.base) == ps.T("self._worker_task")]
        closes = [e for e in calls(p, "close") if norm(e.base) == ps.T("self._db")]
        F = ps.func
        ctx.ob("stop-accepting-first", bool(stop) and all(is_const(norm(e.value), False) for e in stop), F, "closing does not stop accepting changes")
        ctx.ob("drain-before-stop", len(joins) >= 1 and db.awaited(p, joins[0]), F, "closing does not wait for the queued changes", "join")
        ctx.ob("connection-closed", bool(closes) and all(db.awaited(p, e) for e in closes), F, f"closing does not close the connection [{describe(p)}]")
        if stop and joins:
            ctx.ob("stop-accepting-first", index(p, stop[0]) < index(p, joins[0]), F, "changes are still accepted while waiting for the queue", "order")
        for e in cancels + closes:
            if joins:
                ctx.ob("drain-before-stop", index(p, joins[0]) < index(p, e), (F, e.node), "the writer is stopped before every queued change was handled", "early")
        # the writer is stopped on every path where it could still run
        if ps.consistent(p, ps.asg({"self._worker_task.done()": False})):
            ctx.ob("writer-stopped", len(cancels) >= 1, F, "a running writer is left behind")
            for c in cancels:
                for cl in closes:
                    ctx.ob("writer-stopped", index(p, c) < index(p, cl), (F, cl.node), "the connection is closed under a running writer", "order")
    ctx.need("drain-before-stop", n, 1, "closing paths")


def who_runs(ctx):
    """`running` is set only after the tables are ready and cleared only when closing."""
    c = ctx.p.cls(C)
    n = 0
    for m in ctx.p.funcs.values():
        if m.module.name != db.MOD:
            continue
        for x in walk_own(m.node):
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Attribute) and t.attr == "running":
                        n += 1
                        on = not (isinstance(x.value, ast.Constant) and x.value.value is False)
                        if on:
                            continue
    ps = ctx.paths(f"{C}.new", handler_inject=True, noinline=(f"{C}._run_migrations", f"{C}.initialize_tables"), private=False)
    k = 0
    for p in ps:
        run = [e for e in p.events if e.kind == "setattr" and e.name == "running"]
        ini = [e for e in calls(p, "initialize_tables")]
        if p.normal:
            k += 1
            ctx.ob("accepts-changes-when-ready", len(run) >= 1 and is_const(norm(run[-1].value), True), ps, "an opened database accepts no changes", "on")
            ctx.ob("accepts-changes-when-ready", bool(ini) and db.awaited(p, ini[0]), ps, "an opened database was not initialised", "ini")
            if run and ini:
                ctx.ob("accepts-changes-when-ready", index(p, ini[0]) < index(p, run[-1]), (ps.func, run[-1].node), "changes are accepted before the tables are ready", "order")
            if run:
                ctx.ob("accepts-changes-when-ready", norm(p.ret) == norm(run[-1].base), ps, "another object is returned", "ret")
    ctx.need("accepts-changes-when-ready", k, 1, "opening paths")
    fs = ctx.paths(f"{C}.new", inject=("Exception",), inject_at=lambda t, n, a: n == "initialize_tables", noinline=(f"{C}._run_migrations", f"{C}.initialize_tables", f"{C}.shutdown"), private=False)
    k = 0
    for p in fs:
        bad = [e for e in p.events if e.kind == "call" and e.name == "initialize_tables" and not e.ok]
        if bad:
            k += 1
            sh = [e for e in calls(p, ("shutdown", "close")) if index(p, e) > index(p, bad[0]) and db.awaited(p, e)]
            ctx.ob("failed-open-closes", bool(sh), fs, f"a database that fails to open keeps its connection and writer [{describe(p)}]")
            ctx.ob("failed-open-closes", p.outcome.kind == "raise", fs, "a database that failed to open is returned", "raise")
    ctx.need("failed-open-closes", k, 1, "failing opens")
    init = ctx.paths(f"{C}.__init__", noinline=("_worker",))
    for p in init:
        if p.normal:
            v = [norm(e.value) for e in p.events if e.kind == "setattr" and e.name == "running"]
            ctx.ob("accepts-changes-when-ready", v and is_const(v[-1], False), init, "changes are accepted from the start", "init")
            tk = [e for e in p.events if e.kind == "setattr" and e.name == "_worker_task"]
            ctx.ob("writer-started", len(tk) == 1, init, "the writer task is not kept")


def queued_names(ctx):
    """Every queued change has a handler that takes its arguments (else the writer would die)."""
    c = ctx.p.cls(C)
    n = 0
    for f in db.handlers(ctx).values():
        if f.name == "enqueue":
            continue
        for p, es, ps in db.enqueued(ctx, f):
            for e in es:
                n += 1
                ok = bool(e.args) and e.args[0][0] == "const"
                h = ctx.p.find_method(c, e.args[0][1]) if ok else None
                ctx.ob("queued-handler-exists", h is not None and h.is_async, (f, e.node), f"queued handler {e.args[0] if e.args else '?'} does not exist: the writer would end", f.name)
                if h is not None:
                    ips = db.internal(ctx, e.args[0][1], e.args[1:])
                    ctx.ob("queued-handler-exists", ips.arity_ok, (f, e.node), f"{h.name} takes other arguments", f.name + "#")
    ctx.need("queued-handler-exists", n, 16, "queued changes")
    for m in c.methods.values():
        for x in walk_own(m.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("put", "put_nowait") and not ctx.kit.owners(m.qual) <= {f"{c.qual}.enqueue"}:
                ctx.ob("queued-handler-exists", False, (m, x), "a change is queued past enqueue()", "put")


RULES = [worker, handlers_propagate, shutdown, who_runs, queued_names, c01.queueing]
