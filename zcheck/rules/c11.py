"""Response listeners are always unregistered and cannot break each other."""
import ast

from ..core import calls, describe, index, norm, show
from ..lib import allfacts, assumed, is_const
from ..model import walk_own
from ..walk import contains, subterms
from . import c07

APP, DEV = c07.APP, c07.DEV
LS = "zigpy.listeners"
STORE = "self._req_listeners[src]"


def registration(ctx):
    for name, cls in (("callback_for_response", "CallbackListener"), ("wait_for_response", "FutureListener")):
        q = f"{APP}.{name}"
        ps = ctx.paths(q, inject=("Exception", "asyncio.CancelledError"), handler_inject=False)
        ctx.ob("scoped-registration", "contextmanager" in [d.split(".")[-1] for d in _decorators(ps.func)], ps, f"{name} is not a context manager")
        n = {True: 0, False: 0}
        for p in ps:
            ys = [e for e in p.events if e.kind == "yield"]
            store = ps.T(STORE)
            add = [e for e in calls(p, ("append", "appendleft")) if e.base is not None and norm(e.base) == store]
            rem = [e for e in calls(p, "remove") if e.base is not None and norm(e.base) == store]
            held = [e for e in add if e.ok]
            ctx.ob("listener-removed", len(rem) == len(held), ps, f"the listener is added {len(held)} times and removed {len(rem)} times [{describe(p)}]", "bal")
            for a in held:
                for r in rem:
                    ctx.ob("listener-removed", norm(a.args[0]) == norm(r.args[0]), (ps.func, r.node), "another listener is removed", "same")
            if not ys:
                ctx.ob("scoped-registration", not p.normal, ps, "the block body never runs", "y")
                continue
            n[p.normal] += 1
            ctx.ob("scoped-registration", len(ys) == 1 and len(held) == 1 and index(p, held[0]) < index(p, ys[0]), ps, f"the block body runs while no listener is registered [{describe(p)}]", "order")
            for r in rem:
                ctx.ob("listener-removed", index(p, r) > index(p, ys[0]), (ps.func, r.node), "the listener is removed before the block body runs", "late")
            for a in held:
                t = norm(a.args[0])
                ok = t[0] == "call" and t[1] == ("glob", f"{LS}.{cls}")
                ctx.ob("scoped-registration", ok, (ps.func, a.node), f"{show(t)[:60]} is registered", "cls")
                if ok:
                    b = dict(zip(["matchers", "callback" if cls == "CallbackListener" else "future"], t[2]))
                    b.update(dict(t[3]))
                    m = b.get("matchers")
                    ctx.ob("scoped-registration", m is not None and contains(m, ("param", "filters")), (ps.func, a.node), "the listener does not use the filters", "flt")
                    if cls == "CallbackListener":
                        ctx.ob("scoped-registration", b.get("callback") == ("param", "callback"), (ps.func, a.node), "another callback is registered", "cb")
                    else:
                        fut = b.get("future")
                        y = norm(ys[0].value)
                        ok = y == ("attr", t, "future") or y == fut
                        ctx.ob("scoped-registration", fut is not None and ok and "create_future" in show(fut), (ps.func, ys[0].node), "the block waits on another future than the listener's", "fut")
        ctx.ob("scoped-registration", n[True] >= 1 and n[False] >= 1, ps, "no way through", "n")


def _decorators(f):
    return [ast.unparse(d) for d in f.node.decorator_list]


def users(ctx):
    """Registrations are always entered; nothing else touches the listener table."""
    n = 0
    for f in ctx.p.funcs.values():
        if not f.module.name.startswith("zigpy."):
            continue
        good = set()
        for x in walk_own(f.node):
            if isinstance(x, (ast.With, ast.AsyncWith)):
                good |= {id(i.context_expr) for i in x.items}
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "enter_context":
                good |= {id(a) for a in x.args}
        for x in walk_own(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("callback_for_response", "wait_for_response"):
                n += 1
                ctx.ob("registration-entered", id(x) in good or any(isinstance(a, ast.Assign) and a.value is x for a in walk_own(f.node)), (f, x), "a listener registration is created and not entered")
    ctx.ob("registration-entered", n >= 3, "zigpy.ota.manager", "no listeners are registered", "n")


def resolving(ctx):
    q = f"{LS}.BaseRequestListener.resolve"
    ps = ctx.paths(q, loop=2, noinline=(f"{LS}.BaseRequestListener._resolve",), handler_inject=False)
    n = m = 0
    for p in ps:
        if not p.normal:
            continue
        its = [e for e in p.events if e.kind == "loopiter"]
        rs = calls(p, "_resolve")
        hits = []
        for i, it in enumerate(its):
            nxt = its[i + 1] if i + 1 < len(its) else None
            fs = assumed(p, after=it, upto=nxt)
            hits.append(any(v is True and a[0] == "truthy" and norm(a)[1][0] == "call" and ("matches" in show(norm(a)[1]) or norm(a)[1][1][0] == "elem") for a, v in fs))
        want = any(hits)
        m += not want
        n += want
        ctx.ob("resolves-on-match", len(rs) == (1 if want else 0), ps, f"a listener {'with' if want else 'without'} a matching filter is resolved {len(rs)} times [{describe(p)}]")
        for e in rs:
            ctx.ob("resolves-on-match", [norm(a) for a in e.args] == [("param", "hdr"), ("param", "command")], (ps.func, e.node), "the listener is resolved with something else", "args")
            ctx.ob("resolves-on-match", norm(p.ret) == norm(e.term if e.term is not None else e.value), (ps.func, e.node), f"whether the listener resolved is reported as {show(p.ret)}", "ret")
        if not want and its and not rs:
            ctx.ob("resolves-on-match", any(e.kind == "loopend" for e in p.events), ps, f"the remaining filters are not tried [{describe(p)}]", "rest")
        if not rs:
            ctx.ob("resolves-on-match", is_const(norm(p.ret), False), ps, f"a listener that did not match reports {show(p.ret)}", "noret")
        if hits and want and len(its) > hits.index(True) + 1:
            ctx.ob("resolves-on-match", False, ps, "filters are tried after one matched", "after")
    ctx.ob("resolves-on-match", n >= 2 and m >= 2, ps, "undecided", "n")

    # filter kinds: command patterns match commands, functions decide for themselves
    ps1 = ctx.paths(q, loop=1, noinline=(f"{LS}.BaseRequestListener._resolve",), handler_inject=False)
    el = ("elem", ps1.T("self.matchers"))
    schema = ("glob", "zigpy.zcl.foundation.CommandSchema")
    im, ic = ("isinstance", el, schema), ("isinstance", ("param", "command"), schema)
    iz = ("isinstance", ("param", "hdr"), ("glob", "zigpy.zdo.types.ZDOHeader"))
    pat = ("call", ("attr", ("param", "command"), "matches"), (el,), ())
    fun = ("call", el, (("param", "hdr"), ("param", "command")), ())
    cal = ("call", ("glob", "builtins.callable"), (el,), ())
    for lab, a, want in (("a matching pattern", {im: True, ic: True, pat: True, iz: False, cal: False}, True), ("a pattern that does not match", {im: True, ic: True, pat: False, iz: False, cal: False}, False),
                         ("a pattern and a ZDO frame", {im: True, ic: False, iz: True, cal: False}, False), ("a function that accepts the frame", {im: False, ic: True, cal: True, fun: True, iz: False}, True),
                         ("a function that accepts the ZDO frame", {im: False, ic: False, cal: True, fun: True, iz: True}, True), ("a function that rejects the frame", {im: False, ic: True, cal: True, fun: False, iz: False}, False)):
        k = 0
        for p in ps1:
            if p.normal and any(e.kind == "loopiter" for e in p.events) and ps1.consistent(p, a):
                k += 1
                ctx.ob("filter-decides", len(calls(p, "_resolve")) == want, ps1, f"{lab} resolves the listener {len(calls(p, '_resolve'))} times [{describe(p)}]", lab)
        ctx.ob("filter-decides", k >= 1, ps1, f"undecided: {lab}", lab + "n")

    q = f"{LS}.FutureListener._resolve"
    ps = ctx.paths(q, handler_inject=False)
    done = "self.future.done()"
    for d in (True, False):
        a = ps.asg({done: d})
        k = 0
        for p in ps:
            if not ps.consistent(p, a):
                continue
            k += 1
            s = [e for e in p.events if e.kind == "call" and e.name in ("set_result", "set_exception")]
            ctx.ob("one-shot-once", len(s) == (0 if d else 1), ps, f"a future that is {'already' if d else 'not yet'} done is resolved {len(s)} times [{describe(p)}]", str(d))
            ctx.ob("one-shot-once", p.normal and is_const(norm(p.ret), not d), ps, f"a listener whose future is {'already' if d else 'not yet'} done reports {show(p.ret) if p.ret else p.outcome.kind}", f"ret{d}")
            for e in s:
                t = norm(e.args[0])
                ctx.ob("one-shot-once", e.name == "set_result" and t[0] == "tuple" and [norm(x) for x in t[1]] == [("param", "hdr"), ("param", "command")] and norm(e.base) == ps.T("self.future"), (ps.func, e.node), "the waiter gets something else than the frame", "val")
        ctx.ob("one-shot-once", k >= 1, ps, "undecided: the future is resolved without looking whether it is done", f"n{d}")

    q = f"{LS}.CallbackListener._resolve"
    ps = ctx.paths(q, inject=("Exception",), handler_inject=False)
    n = 0
    for p in ps:
        cb = [e for e in p.events if e.kind == "call" and (e.name == "callback" or e.value is not None and norm(e.value)[:2] == ("call", ps.T("self.callback")))]
        if any(not e.ok and e.name in ("warning", "debug", "error", "exception", "info") for e in p.events):
            continue
        ctx.ob("callback-contained", p.normal, ps, f"an exception of an observer reaches the dispatcher [{describe(p)}]")
        if not p.normal:
            continue
        n += 1
        ctx.ob("callback-once", len(cb) == 1 and [norm(a) for a in cb[0].args] == [("param", "hdr"), ("param", "command")], ps, f"an observer is called {len(cb)} times [{describe(p)}]")
        ctx.ob("callback-once", is_const(norm(p.ret), True), ps, f"an observer that was called reports {show(p.ret)}", "ret")
        if all(e.ok for e in p.events if e.kind == "call"):
            aw = [v for a, v in allfacts(p) if a[0] == "truthy" and "isawaitable" in show(a)]
            ts = [e for e in calls(p, ("create_task", "ensure_future")) if e.args and cb and norm(e.args[0]) == norm(cb[0].term if cb[0].term is not None else cb[0].value)]
            ctx.ob("callback-task", len(ts) == (1 if aw == [True] else 0), ps, f"a callback's {'awaitable' if aw == [True] else 'plain'} result is scheduled {len(ts)} times [{describe(p)}]")
            for e in ts:
                t = norm(e.term if e.term is not None else e.value)
                keep = [x for x in calls(p, "add") if x.base is not None and norm(x.base) == ps.T("self._tasks") and norm(x.args[0]) == t]
                ctx.ob("callback-task", len(keep) == 1, (ps.func, e.node), "the callback's task is not kept alive", "keep")
    ctx.ob("callback-contained", n >= 4, ps, "undecided", "n")


def dispatch(ctx):
    ps = c07.received(ctx, (), ())
    each = broke = 0
    for p in ps:
        rs = calls(p, "resolve")
        hm = [e for e in calls(p, "handle_message") if "endpoints" in show(e.base)]
        ctx.ob("dispatch-then-handle", not rs or len(hm) == 1 and index(p, hm[0]) > index(p, rs[-1]), ps, f"a frame seen by listeners is handled {len(hm)} times [{describe(p)}]")
        for e in rs:
            it = norm(e.base)[1] if norm(e.base)[0] == "elem" else ("none",)
            s = show(it)
            ctx.ob("dispatch-to-all", "ANY_DEVICE" in s and contains(it, ps.T("self._application._req_listeners[self]")), (ps.func, e.node), f"listeners consulted: {s[:160]}", "both")
            lazy = it[0] == "call" and it[1][0] == "glob" and it[1][1].split(".")[-1] in ("chain", "islice", "filter", "map", "iter", "zip", "reversed") or it[0] in ("idx", "attr")
            ctx.ob("dispatch-snapshot", not lazy, (ps.func, e.node), "listeners are consulted while iterating over the live table: an observer that unregisters itself aborts the dispatch", "lazy")
            ctx.ob("dispatch-to-all", len(e.args) == 2 and c07.decode(e.args[0])[1] in (0, None) and c07.decode(e.args[1])[1] in (1, None), (ps.func, e.node), "listeners are given something else than header and command", "args")
            each += 1
            val = norm(e.term if e.term is not None else e.value)
            fs = {norm(a): v for a, v in assumed(p, after=e)}
            res = fs.get(("truthy", val))
            isf = [v for a, v in fs.items() if a[0] == "isinstance" and norm(a[1]) == norm(e.base) and "FutureListener" in show(a)]
            if not isf:
                isf = [v for a, v in allfacts(p) if norm(a)[0] == "isinstance" and norm(norm(a)[1]) == norm(e.base) and "FutureListener" in show(a)]
            stop = not any(x.kind in ("loopend", "loopiter") for x in p.events[index(p, e) + 1:])
            want = res is True and isf == [True]
            broke += stop
            ctx.ob("only-one-shot-stops", stop == want, (ps.func, e.node), f"dispatch {'stops' if stop else 'goes on'} after a {'one-shot ' if isf == [True] else ''}listener that {'resolved' if res else 'did not resolve' if res is False else 'may not have resolved'} [{describe(p)}]")
    ctx.ob("dispatch-to-all", each >= 4 and broke >= 1, ps, "listeners are not consulted", "n")


RULES = [registration, users, resolving, dispatch]
