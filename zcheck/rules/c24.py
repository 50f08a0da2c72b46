"""Background work is owned, restartable, failure-proof and stoppable."""
import ast

from ..core import calls, describe, ev_callee, index, norm, sets, show
from ..lib import isnone
from ..walk import contains, subterms

APP = "zigpy.application.ControllerApplication"
OTA = "zigpy.ota.OTA"
BKP = "zigpy.backups.BackupManager"
TOP = "zigpy.topology.Topology"
CATCH = "zigpy.util.CatchingTaskMixin"
C = lambda v: ("const", v)  # noqa: E731
SPAWN = ("create_task", "ensure_future")


def spawned(p):
    """Task-creating calls on a path that use asyncio directly (not the owning wrappers)."""
    out = []
    for e in p.events:
        if e.kind == "call" and e.name in SPAWN and e.ok:
            v = norm(e.value)
            f = v[1] if v[0] == "call" else ("?",)
            if f[0] == "glob" and f[1].startswith("asyncio.") or f[0] == "attr" and f[1][0] == "call" and show(f[1]).endswith(("get_running_loop()", "get_event_loop()")):
                out.append(e)
    return out


def owners(ctx):
    """Functions whose own body creates a task directly."""
    out = {}
    for q, f in ctx.kit.p.funcs.items():
        if not q.startswith("zigpy."):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if name in SPAWN:
                    for o in ctx.kit.owners(q):
                        out.setdefault(o, []).append(n)
    return out


def direct(n):
    """Is this AST call made on asyncio or on a loop object (rather than on an object that keeps the task)?"""
    f = n.func
    if isinstance(f, ast.Name):
        return True
    b = f.value
    if isinstance(b, ast.Name) and b.id in ("asyncio", "loop"):
        return True
    return isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute | ast.Name) and (b.func.attr if isinstance(b.func, ast.Attribute) else b.func.id) in ("get_running_loop", "get_event_loop")


def kept(ctx):
    """No task is created whose only reference is the event loop's weak one."""
    n = 0
    for q, nodes in sorted(owners(ctx).items()):
        mine = [x for x in nodes if direct(x)]
        if not mine:
            continue
        ps = ctx.paths(q, handler_inject=False, noinline=("_scan", "_worker", "catching_coro", "scan", "stop_periodic_scans", "stop_periodic_backups", "stop_periodic_broadcasts"), loop=1)
        for p in ps:
            for e in spawned(p):
                if e.node not in mine and not any(e.node is x for x in mine):
                    continue
                n += 1
                t = norm(e.value)
                stored = [s for s in p.events if s.kind in ("setattr", "setidx") and s.value is not None and contains(norm(s.value), t) and index(p, s) > index(p, e)]
                added = [a for a in calls(p) if a.name in ("add", "append") and a.args and norm(a.args[0]) == t]
                waited = [a for a in p.events if a.kind in ("await",) and a.base is not None and norm(a.base) == t] + [a for a in calls(p) if a.awaited and any(contains(norm(x), t) for x in a.args)]
                ctx.ob("task-referenced", bool(stored or added or waited) or p.outcome.kind == "raise", (ps.func, e.node), f"{q} creates a task that nothing refers to [{describe(p)}]", q)
                for a in added:
                    done = [d for d in calls(p, "add_done_callback") if norm(d.base) == t]
                    out = [d for d in done if d.args and norm(d.args[0])[0] == "attr" and norm(d.args[0])[1] == norm(a.base) and norm(d.args[0])[2] in ("remove", "discard")]
                    ctx.ob("task-released", bool(out) or any(d.args and norm(d.args[0])[0] == "lam" for d in done), (ps.func, e.node), f"{q} never forgets a finished task", q)
    ctx.need("tasks", n, 8, "task creations")


def wrappers(ctx):
    ps = ctx.paths(f"{APP}.create_task", handler_inject=False)
    for p in ps:
        sp = spawned(p)
        ctx.ob("task-created", len(sp) == 1 and sp[0].args and norm(sp[0].args[0]) == ("param", "target"), ps, f"create_task starts {[show(norm(e.value))[:60] for e in sp]}", "app")
        ctx.ob("task-created", p.normal and p.ret is not None and sp and norm(p.ret) == norm(sp[0].value), ps, "create_task does not return the task", "ret")
    ps = ctx.paths(f"{CATCH}.create_catching_task", handler_inject=False, noinline=("catching_coro",))
    for p in ps:
        sp = spawned(p)
        co = [e for e in calls(p, "catching_coro")]
        ok = len(sp) == 1 and len(co) == 1 and sp[0].args and norm(sp[0].args[0]) == norm(co[0].value)
        b = ps.bound(co[0]) if co else {}
        ctx.ob("task-created", ok and norm(b.get("target", C(None))) == ("param", "target") and norm(b.get("exceptions", C(None))) == ("param", "exceptions"), ps, f"create_catching_task starts {[show(norm(e.value))[:80] for e in sp]}", "catching")
    ps = ctx.paths(f"{CATCH}.catching_coro", inject=("Exception",), inject_at=lambda t, n, a: n == "await" or a, handler_inject=False)
    n = logged = 0
    for p in ps:
        fails = [e for e in p.events if e.kind == "await" and norm(e.base) == ("param", "target")]
        ctx.ob("task-created", len(fails) == 1, ps, f"the wrapped coroutine is awaited {len(fails)} times", "await")
        for e in fails:
            n += 1
            ctx.ob("failure-contained", e.ok or p.outcome.kind != "raise" or "Cancel" in str(p.outcome.value), ps, f"a failure of wrapped work escapes [{describe(p)}]", "escape")
            if e.ok and p.outcome.kind == "return":
                ctx.ob("task-created", norm(p.ret) in (norm(e.value) if e.value is not None else None, ("param", "target"), ("await", ("param", "target"))), ps, f"the result of wrapped work becomes {show(norm(p.ret))[:60]}", "result")
            if not e.ok and [c for c in calls(p) if c.name in ("exception", "error", "warning", "log")]:
                logged += 1
    ctx.ob("failure-contained", logged >= 1, ps, "an unexpected failure of wrapped work is not logged", "log")
    ctx.need("catching", n, 2, "awaits of wrapped work")


PERIODIC = {
    # name: (class, start, stop, attribute, loop function, {loop parameter: start parameter})
    "backups": (BKP, "start_periodic_backups", "stop_periodic_backups", "_backup_task", "_backup_loop", ("period",)),
    "topology scans": (TOP, "start_periodic_scans", "stop_periodic_scans", "_scan_loop_task", "_scan_loop", ("period",)),
    "firmware announcements": (OTA, "start_periodic_broadcasts", "stop_periodic_broadcasts", "_broadcast_loop_task", "broadcast_loop", ("initial_delay", "interval")),
}


def cancels(p, task, upto=None):
    return [e for e in calls(p, "cancel") if e.base is not None and norm(e.base) == task and (upto is None or index(p, e) < index(p, upto))]


def guarded(ctx, ps, p, task, what):
    """A task is cancelled only where the path knows there is one."""
    for e in cancels(p, task):
        known = any(norm(a) == ("is", task, C(None)) and not v or norm(a) == ("truthy", task) and v for _, a, v in p.trail)
        ctx.ob("stop-without-task", known, ps, f"{what} fails when there is no task [{describe(p)}]", what)


def idle(p, task):
    """The path assumed that there is no such task, or that it has finished."""
    for _, a, v in p.trail:
        a = norm(a)
        if a == ("is", task, C(None)) and v or a == ("truthy", task) and not v:
            return True
        if a in (("truthy", ("call", ("attr", task, "done"), (), ())), ("truthy", ("call", ("attr", task, "cancelled"), (), ()))) and v:
            return True
    return False


def restart(ctx):
    for name, (cls, start, stop, attr, loop, params) in PERIODIC.items():
        ps = ctx.paths(f"{cls}.{start}", handler_inject=False, noinline=(loop,), inline=(f"{cls}.{stop}",))
        task = ps.T(f"self.{attr}")
        n = 0
        for p in ps:
            if p.outcome.kind == "raise":
                ctx.ob("started", False, ps, f"starting {name} raises", "raise")
                continue
            sp = spawned(p)
            st = [e for e in sets(p, attr) if e.value is not None and sp and norm(e.value) == norm(sp[0].value)]
            ctx.ob("single-instance", len(sp) == 1 and len(st) == 1 and sets(p, attr)[-1] is st[0], ps, f"starting {name} creates {len(sp)} tasks, the last one remembered: {bool(st)} [{describe(p)}]", name)
            if not st:
                continue
            n += 1
            ctx.ob("start-replaces", bool(cancels(p, task, st[0])) or idle(p, task), ps, f"starting {name} again leaves the previous loop running [{describe(p)}]", name)
            co = [e for e in calls(p, loop)]
            b = ps.bound(co[0]) if co else {}
            ctx.ob("single-instance", len(co) == 1 and norm(sp[0].args[0]) == norm(co[0].value), ps, f"the task of {name} runs {show(norm(sp[0].args[0]))[:60]}", f"{name}loop")
            for k in params:
                ctx.ob("configured-interval", norm(b.get(k, C(None))) == ("param", k), ps, f"the {k} of {name} becomes {show(norm(b.get(k, C(None))))}", f"{name}{k}")
        ctx.ob("started", n >= 1, ps, f"{name} are never started", name)
        ps = ctx.paths(f"{cls}.{stop}", handler_inject=False)
        task = ps.T(f"self.{attr}")
        for p in ps:
            guarded(ctx, ps, p, task, f"stopping {name}")
            ctx.ob("stop-stops", p.normal and (bool(cancels(p, task)) or idle(p, task)), ps, f"stopping {name} leaves the loop running [{describe(p)}]", name)
        for p in ps:
            for e in sets(p, attr):
                ctx.ob("stop-stops", norm(e.value) != C(None) or bool(cancels(p, task, e)) or idle(p, task), ps, f"stopping {name} forgets the task before cancelling it", f"{name}forget")


def gathered(e):
    return e.name in ("gather", "wait") and any(k == "return_exceptions" and v == C(True) for k, v in dict(e.value[3]).items()) if e.value is not None and e.value[0] == "call" else False


LOOPS = {
    # name: (function, what a cycle does, period term, initial delay, "first" if the cycle comes before the sleep)
    "backups": (f"{BKP}._backup_loop", "create_backup", "period", None),
    "topology scans": (f"{TOP}._scan_loop", "scan", "period", None),
    "firmware announcements": (f"{OTA}.broadcast_loop", "broadcast_notify", "interval", "initial_delay"),
    "watchdog": (f"{APP}._watchdog_loop", "watchdog_feed", "self._watchdog_period", None),
}


def loops(ctx):
    for name, (q, cycle, period, delay) in LOOPS.items():
        func = ctx.kit.p.funcs[q]
        # gather(..., return_exceptions=True) hands failures over as results
        tolerant = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "gather" and any(k.arg == "return_exceptions" and isinstance(k.value, ast.Constant) and k.value.value is True for k in n.keywords)
                       for c in ctx.kit.whole(q) for n in ast.walk(c))
        ps = ctx.paths(q, noinline=(cycle,), handler_inject=False, loop=1)
        per = ps.T(period)
        ran = 0
        for p in ps:
            sl = [e for e in calls(p, "sleep") if e.awaited]
            cy = [e for e in calls(p, cycle)]
            ran += len(cy)
            ctx.ob("no-spin", p.outcome.kind != "cut" or any(e.args and norm(e.args[0]) == per for e in sl), ps, f"a cycle of {name} ends without waiting for the period [{describe(p)}]", name)
            for e in sl:
                want = [per] + ([("param", delay)] if delay else [])
                ctx.ob("configured-interval", e.args and norm(e.args[0]) in want, ps, f"{name} wait {show(norm(e.args[0]))}", f"{name}sleep")
            if delay:
                first = [e for e in sl if norm(e.args[0]) == ("param", delay)]
                ctx.ob("initial-delay", bool(first) and (not cy or index(p, first[0]) < index(p, cy[0])), ps, f"{name} do not wait for the initial delay", name)
            ctx.ob("loop-continues", p.outcome.kind == "cut", ps, f"{name} end by themselves ({p.outcome.kind}) [{describe(p)}]", f"{name}end")
            done = [e for e in calls(p) if e.awaited and (e.name == cycle or any(contains(norm(a), norm(c.value)) for c in cy for a in e.args))] + [e for e in p.events if e.kind == "await" and any(norm(e.base) == norm(c.value) for c in cy if c.value is not None)]
            ctx.ob("cycle-runs", not cy or bool(done), ps, f"a cycle of {name} is started but not waited for", f"{name}await")
            # a topology cycle is skipped only while another scan is running
            if name == "topology scans" and not cy:
                busy = any(norm(a) == ("truthy", ("call", ("attr", ps.T("self._scan_task"), "done"), (), ())) and not v for _, a, v in p.trail)
                ctx.ob("cycle-runs", busy, ps, f"a cycle of {name} does nothing [{describe(p)}]", f"{name}skip")
            if name == "topology scans" and cy:
                ctx.ob("scheduled-scan-yields", idle(p, ps.T("self._scan_task")), ps, "a scheduled scan interrupts a running one", "busy")
            if name in ("backups", "firmware announcements", "watchdog"):
                ctx.ob("cycle-runs", bool(cy), ps, f"a cycle of {name} does nothing [{describe(p)}]", f"{name}skip")
        ctx.ob("cycle-runs", ran >= 1, ps, f"{name} never run", name)

        def at(t, n, a):
            return a and n != "sleep" and not (n == "gather" and tolerant)

        ps = ctx.paths(q, noinline=(cycle, "connection_lost"), handler_inject=False, loop=1, inject=("Exception",), inject_at=at)
        n = 0
        for p in ps:
            ctx.ob("no-spin", p.outcome.kind != "cut" or any(e.awaited and e.args and norm(e.args[0]) == per for e in calls(p, "sleep")), ps, f"a failing cycle of {name} ends without waiting for the period [{describe(p)}]", name + "failed")
            fail = [e for e in p.events if e.kind in ("call", "await") and not e.ok]
            lost = calls(p, "connection_lost")
            for e in fail:
                n += 1
                if name == "watchdog":
                    h = [x for x in p.events if x.kind == "handler"]
                    ctx.ob("watchdog-reports-once", len(lost) == 1 and p.outcome.kind not in ("cut", "raise"), ps, f"after a failed feed the lost connection is reported {len(lost)} times and the watchdog {'goes on' if p.outcome.kind == 'cut' else p.outcome.kind} [{describe(p)}]", "fail")
                    ctx.ob("watchdog-reports-once", not lost or lost[0].args and "exc" in show(norm(lost[0].args[0])), ps, f"the lost connection is reported with {show(norm(lost[0].args[0]))[:40] if lost and lost[0].args else None}", "exc")
                else:
                    ctx.ob("failing-cycle-survived", p.outcome.kind == "cut", ps, f"a failing cycle ends {name} ({p.outcome.kind}) [{describe(p)}]", name)
            if name == "watchdog" and not fail:
                ctx.ob("watchdog-reports-once", not lost, ps, "the connection is reported lost although feeding succeeded", "ok")
        ctx.ob("failing-cycle-survived", n >= 1 or tolerant, ps, f"no failing cycle of {name} was considered", f"{name}n")
        # cancelling the loop ends it wherever it is
        where = {cycle, "gather", "sleep"}
        ps = ctx.paths(q, noinline=(cycle, "connection_lost"), handler_inject=False, loop=1, inject=("asyncio.CancelledError",), inject_at=lambda t, n, a: a and n in where)
        n = 0
        for p in ps:
            for e in p.events:
                if e.kind in ("call", "await") and not e.ok:
                    n += 1
                    ctx.ob("stop-stops", p.outcome.kind == "raise" and "CancelledError" in str(p.outcome.value), ps, f"{name} carry on when cancelled during {e.name} [{describe(p)}]", f"{name}{e.name}")
        ctx.need("cancellation", n, 2, f"places where {name} can be cancelled")


def replaced(ctx):
    """One-off work that a newer request supersedes: the old task is cancelled before the new one is remembered."""
    for q, attr, co, must in ((f"{TOP}.scan", "_scan_task", "_scan", "scan"), ("zigpy.device.Device.schedule_group_membership_scan", "_group_scan_task", "group_membership_scan", "group scan"),
                              ("zigpy.device.Device.schedule_initialize", "_initialize_task", "initialize", "initialization")):
        ps = ctx.paths(q, handler_inject=False, noinline=(co,), inline=("zigpy.device.Device.cancel_initialization", "zigpy.device.Device.initializing"))
        task = ps.T(f"self.{attr}")
        n = 0
        for p in ps:
            guarded(ctx, ps, p, task, f"a new {must}")
            for st in sets(p, attr):
                n += 1
                ctx.ob("start-replaces", bool(cancels(p, task, st)) or idle(p, task), ps, f"a new {must} leaves the previous one running [{describe(p)}]", must)
                ctx.ob("single-instance", any(norm(st.value) == norm(e.value) for e in spawned(p)), ps, f"the new {must} is not the task remembered", f"{must}kept")
        ctx.ob("started", n >= 1, ps, f"{must} never starts", must)


def switched(ctx):
    """Enabled periodic work is started with the configured interval; shutting down stops all of it."""
    ps = ctx.paths(f"{APP}.shutdown", handler_inject=False, inject=("Exception",), inject_at=lambda t, n, a: a)
    wd = ps.T("self._watchdog_task")
    for p in ps:
        guarded(ctx, ps, p, wd, "shutdown")
        for stop in ("stop_periodic_backups", "stop_periodic_scans", "stop_periodic_broadcasts"):
            ctx.ob("shutdown-stops", bool(calls(p, stop)), ps, f"shutdown does not call {stop} [{describe(p)}]", stop)
        ctx.ob("shutdown-stops", bool(cancels(p, wd)) or idle(p, wd), ps, f"shutdown leaves the watchdog running [{describe(p)}]", "watchdog")
    ps = ctx.paths(f"{APP}.initialize", handler_inject=False, noinline=("_watchdog_loop", "_persist_coordinator_model_strings_in_db"))
    cfg = {"backups": ("start_periodic_backups", ["conf.CONF_NWK_BACKUP_ENABLED"], {"period": ("conf.CONF_NWK_BACKUP_PERIOD", 60)}),
           "topology scans": ("start_periodic_scans", ["conf.CONF_TOPO_SCAN_ENABLED"], {"period": ("conf.CONF_TOPO_SCAN_PERIOD", 60)}),
           "announcements": ("start_periodic_broadcasts", ["conf.CONF_OTA conf.CONF_OTA_ENABLED", "conf.CONF_OTA conf.CONF_OTA_BROADCAST_ENABLED"],
                             {"initial_delay": ("conf.CONF_OTA conf.CONF_OTA_BROADCAST_INITIAL_DELAY", 1), "interval": ("conf.CONF_OTA conf.CONF_OTA_BROADCAST_INTERVAL", 1)})}

    def key(path):
        out = []
        for base in ("config", "_config"):
            out.append(ps.T(f"self.{base}" + "".join(f"[{k}]" for k in path.split())))
        return out

    for name, (start, flags, args) in cfg.items():
        on = 0
        for p in ps:
            if not p.normal:
                continue
            st = calls(p, start)
            vals = []
            for fl in flags:
                v = [v for _, a, v in p.trail if norm(a) in [("truthy", k) for k in key(fl)]]
                vals.append(v[-1] if v else None)
            want = all(v is True for v in vals)
            off = any(v is False for v in vals)
            ctx.ob("periodic-work-switched", not st if off else len(st) == 1 and want, ps, f"{name} enabled={vals}: started {len(st)} times [{describe(p)}]", name)
            for e in st[:1]:
                on += 1
                b = ps.bound(e)
                for k, (path, mul) in args.items():
                    t = norm(b.get(k, C(None)))
                    keys = key(path)
                    val = ctx.kit.teval(t, {x: 7 for x in keys})
                    ctx.ob("configured-interval", val == 7 * mul, ps, f"{name}: {k} configured as 7 becomes {val if val is not None else show(t)}", f"{name}{k}")
        ctx.ob("periodic-work-switched", on >= 1, ps, f"{name} are never started", f"{name}n")
    for p in ps:
        w = [v for _, a, v in p.trail if norm(a) in [("truthy", k) for k in key("conf.CONF_WATCHDOG_ENABLED")]]
        st = [e for e in sets(p, "_watchdog_task") if "_watchdog_loop" in show(norm(e.value))]
        if p.normal:
            ctx.ob("periodic-work-switched", w != [] and len(st) == (1 if w[-1] else 0), ps, f"watchdog enabled={w}: started {len(st)} times [{describe(p)}]", "watchdog")


def callbacks(ctx):
    """A listener callback's coroutine is run to completion in a task; its failure stays contained."""
    q = "zigpy.listeners.CallbackListener._resolve"
    ps = ctx.paths(q, handler_inject=False, inject=("Exception",), inject_at=lambda t, n, a: n in ("callback", *SPAWN))
    n = 0
    for p in ps:
        cb = [e for e in calls(p, "callback")]
        ctx.ob("callback-run", len(cb) == 1 and [norm(a) for a in cb[0].args] == [("param", "hdr"), ("param", "command")], ps, f"the callback is called {len(cb)} times", "call")
        ctx.ob("failure-contained", p.outcome.kind == "return" and norm(p.ret) == C(True), ps, f"a failing callback escapes, or the listener reports the command unhandled [{describe(p)}]", "callback")
        for e in cb:
            if not e.ok:
                continue
            aw = [v for _, a, v in p.trail if "isawaitable" in show(norm(a)) or "iscoroutine" in show(norm(a))]
            sp = [x for x in p.events if x.kind == "call" and x.name in SPAWN and x.args and norm(x.args[0]) == norm(e.value)]
            n += 1
            ctx.ob("callback-run", aw != [] and bool(sp) == aw[-1], ps, f"a callback that returned {'an' if aw and aw[-1] else 'no'} awaitable: {len(sp)} tasks started", "task")
    ctx.need("callbacks", n, 2, "paths")


RULES = [kept, callbacks, wrappers, restart, loops, replaced, switched]
