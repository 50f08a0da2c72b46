"""Requests release their bookkeeping on every exit."""
import ast

from ..core import calls, describe, ev_callee, index, norm, show
from ..lib import is_const, simplifier
from ..model import walk_own
from ..walk import contains

REQ = "zigpy.util.Request"
DEV = "zigpy.device.Device"
INJ = ("Exception", "asyncio.CancelledError")
INLINE = ("zigpy.util.Requests.new", f"{REQ}.__enter__", f"{REQ}.__exit__")
SEM = ("attr", ("self", DEV), "_concurrent_requests_semaphore")


def is_sem(t, sem=SEM):
    t = norm(t) if t is not None else None
    return t is not None and (t == sem or t[0] == "call" and norm(t[1]) == sem)


def takes(e):
    return e.kind == "enter" and (is_sem(e.base) or e.base is not None and is_sem(("call", e.base, (), ()))) and e.name != "_limit_concurrency" or \
        e.kind == "call" and e.name == "acquire" and e.ok and e.base is not None and is_sem(e.base)


def gives(e):
    return e.kind == "exit" and e.base is not None and is_sem(e.base) and e.name != "_limit_concurrency" or \
        e.kind == "call" and e.name == "release" and e.ok and e.base is not None and is_sem(e.base)


def request_paths(ctx, expect, mode):
    if mode == "await":
        inj = lambda t, n, a: a
    elif mode == "any":
        inj = lambda t, n, a: n in ("request", "timeout", "asyncio_timeout") or a
    return ctx.paths(f"{DEV}.request", inline=INLINE, scenario={"expect_reply": expect}, inject=INJ, inject_at=inj, handler_inject=False)


def bookkeeping(ctx):
    simp = simplifier(ctx, REQ)
    PEND = ("attr", ("self", DEV), "_pending")
    nreg = nexc = nsend = 0
    for expect in (True, False):
        ps = request_paths(ctx, expect, "any")
        seq = ("param", "sequence")
        for p in ps:
            reg = [e for e in p.events if e.kind == "setidx" and simp(e.base) == PEND]
            rel = [e for e in p.events if (e.kind == "delidx" or e.kind == "call" and e.name in ("pop", "__delitem__")) and e.base is not None and simp(e.base) == PEND]
            send = [e for e in calls(p, "request") if e.base is not None and norm(e.base) == ps.T("self.application")]
            aw = [e for e in p.events if e.kind == "await" and "result" in show(e.base or e.term or ("none",))]
            F = ps.func
            nsend += len(send)
            if p.normal:
                ctx.ob("request-sent-once", len(send) == 1, F, f"a request is sent {len(send)} times [{describe(p)}]", str(expect))
            for e in send:
                ctx.ob("slot-held-while-sending", sum(1 for x in p.events[:index(p, e)] if takes(x)) - sum(1 for x in p.events[:index(p, e)] if gives(x)) == 1, (F, e.node),
                       "a frame is sent without holding exactly one slot")
            # slots
            nt, ng = sum(1 for e in p.events if takes(e)), sum(1 for e in p.events if gives(e))
            ctx.ob("slot-returned-once", nt == ng, F, f"slot taken {nt} times, returned {ng} times [{describe(p)}]")
            if not expect:
                ctx.ob("no-reply-no-entry", not reg and not aw, F, "a request that expects no reply waits for one or occupies a transaction number")
                continue
            if p.normal:
                ctx.ob("entry-before-send", len(reg) == 1, F, f"{len(reg)} outstanding entries for one request [{describe(p)}]", "n")
                ctx.ob("reply-awaited", len(aw) == 1, F, f"the reply is not awaited exactly once [{describe(p)}]")
                if aw:
                    got = norm(p.ret) if p.ret is not None else None
                    ctx.ob("reply-returned", got is not None and (contains(got, norm(aw[0].base)) if aw[0].base is not None else True), F, "something else than the reply is returned")
            for e in send:
                ctx.ob("entry-before-send", bool(reg) and index(p, reg[0]) < index(p, e), (F, e.node), "the frame is sent before its outstanding entry exists", "order")
            for e in reg:
                nreg += 1
                key = simp(e.args[0])
                ctx.ob("entry-keyed-by-sequence", key == seq, (F, e.node), f"the entry is filed under {show(key)}")
                mine = [r for r in rel if index(p, r) > index(p, e) and simp(r.args[0]) == key]
                if p.outcome.kind == "raise":
                    nexc += 1
                ctx.ob("entry-released", len(mine) == 1, F, f"an exit leaves the outstanding entry behind [{describe(p)}]")
                val = simp(e.value if e.value is not None else e.args[-1])
                # completed or cancelled
                fin = [x for x in p.events[index(p, e):] if x.kind == "call" and x.name in ("cancel", "set_result", "set_exception") and x.base is not None and "result" in show(x.base)]
                done = any(v is True and a[0] == "truthy" and "done" in show(a) and "result" in show(a) for x in [*p.events, p] for a, v in x.facts.items())
                ctx.ob("result-settled", bool(fin) or done, F, f"an exit leaves the result pending [{describe(p)}]")
            for e in rel:
                ctx.ob("entry-released", any(index(p, r) < index(p, e) for r in reg), (F, e.node), "an entry is removed that this request never made", "foreign")
            for e in aw:
                i = index(p, e)
                ctx.ob("slot-held-until-reply", sum(1 for x in p.events[:i] if takes(x)) - sum(1 for x in p.events[:i] if gives(x)) == 1, (F, e.node), "the slot is returned before the reply arrived: more requests are in flight than configured")
                opens = [x for x in p.events[:i] if x.kind == "enter" and "timeout" in x.name]
                closed = [x for x in p.events[:i] if x.kind == "exit" and "timeout" in x.name]
                ok = len(opens) > len(closed)
                if ok:
                    b = norm(opens[-1].base)
                    a = b[2][0] if b[0] == "call" and b[2] else None
                    ok = a is not None and not is_const(a, None) and (a == ("param", "timeout") or a[0] == "const" and isinstance(a[1], (int, float)) or a[0] in ("glob", "bin", "call", "ifexp", "phi"))
                wf = e.base is not None and "wait_for" in show(e.base) and "None" not in show(e.base).split("wait_for")[-1]
                ctx.ob("wait-bounded", ok or wf, (F, e.node), "the wait for the reply has no timeout")
    ctx.need("entry-released", nreg, 3, "registrations")
    ctx.need("entry-released", nexc, 2, "failing exits")
    ctx.need("request-sent-once", nsend, 3, "sends")


def entry_object(ctx):
    """The context manager files itself on entry and always removes and settles on exit."""
    ps = ctx.paths(f"{REQ}.__exit__", inline=())
    n = 0
    for p in ps:
        n += 1
        if not p.normal:
            ctx.ob("entry-object-cleans-up", p.outcome.kind != "raise", ps, "leaving the block raises")
            continue
        pops = [e for e in p.events if (e.kind == "delidx" or e.kind == "call" and e.name == "pop") and norm(e.base) == ps.T("self._pending")]
        ctx.ob("entry-object-cleans-up", len(pops) == 1 and norm(pops[0].args[0]) in (ps.T("self.sequence"), ps.T("self._sequence")), ps, "the entry is not removed under its own number")
        if ps.consistent(p, ps.asg({"self.result.done()": False})):
            ctx.ob("entry-object-cleans-up", len(calls(p, "cancel")) == 1, ps, "a pending result is left pending")
        if ps.consistent(p, ps.asg({"self.result.done()": True})):
            pass
        # exceptions of the body must propagate
        v = norm(p.ret) if p.ret is not None else ("const", None)
        for val in (ps.kit, ):
            r = ctx.kit.teval(v, ps.asg({"exc_type": ctx_obj()}))
            if ps.consistent(p, ps.asg({"exc_type": ctx_obj()})):
                from ..core import UNK
                r = ctx.kit._truth(r) if r is not UNK else UNK
                ctx.ob("errors-propagate", r is False, ps, "leaving the block swallows the request's error")
    ctx.need("entry-object-cleans-up", n, 1, "exit paths")
    ps = ctx.paths(f"{REQ}.__enter__")
    for p in ps:
        if p.normal:
            s = [e for e in p.events if e.kind == "setidx" and norm(e.base) == ps.T("self._pending")]
            ctx.ob("entry-object-files-itself", len(s) == 1 and norm(s[0].value if s[0].value is not None else s[0].args[-1]) == ps.T("self") and norm(p.ret) == ps.T("self"), ps,
                   "entering does not file the request and return it")
    ps = ctx.paths("zigpy.util.Requests.new")
    k = 0
    for p in ps:
        dup = ps.consistent(p, ps.asg({"sequence in self": True})) and not ps.consistent(p, ps.asg({"sequence in self": False}))
        free = not dup
        if dup:
            k += 1
            ctx.ob("outstanding-number-refused", p.outcome.kind == "raise", ps, "a transaction number that is still outstanding is accepted")
            if p.outcome.kind == "raise":
                ctx.ob("outstanding-number-refused", "ControllerException" in str(p.outcome), ps, "the duplicate is refused with another error", "exc")
        elif p.normal:
            r = norm(p.ret)
            ok = r[0] == "call" and r[1] == ("glob", REQ) and [norm(x) for x in r[2]] + [norm(v) for _, v in r[3]] == [ps.T("self"), ("param", "sequence")]
            ctx.ob("entry-object-files-itself", ok, ps, f"the entry is built as {show(r)}", "new")
            ctx.ob("outstanding-number-refused", ps.consistent(p, ps.asg({"sequence in self": False})) and not ps.consistent(p, ps.asg({"sequence in self": True})), ps,
                   "the outstanding numbers are not consulted", "nocheck")
    ctx.ob("outstanding-number-refused", k >= 1, ps, "the outstanding numbers are not consulted", "none")


def ctx_obj():
    from ..core import Obj
    return Obj("exc")


def limiters(ctx):
    """Both concurrency contexts hold exactly one slot around the body and return it on any exit."""
    for q in (f"{DEV}._limit_concurrency", "zigpy.application.ControllerApplication._limit_concurrency"):
        f = ctx.p.func(q)
        cls = q.rsplit(".", 1)[0]
        sem = ("attr", ("self", cls), "_concurrent_requests_semaphore")
        tk = lambda e: e.kind == "enter" and e.base is not None and is_sem(e.base, sem) or e.kind == "call" and e.name == "acquire" and e.ok and e.base is not None and is_sem(e.base, sem)
        gv = lambda e: e.kind == "exit" and e.base is not None and is_sem(e.base, sem) or e.kind == "call" and e.name == "release" and e.ok and e.base is not None and is_sem(e.base, sem)
        ps = ctx.paths(f, inject=INJ, inject_at=lambda t, n, a: a or n == "yield")
        n = 0
        for p in ps:
            ys = [e for e in p.events if e.kind in ("yield", "await") and e.name == "yield" or e.kind == "yield"]
            nt, ng = sum(map(tk, p.events)), sum(map(gv, p.events))
            ctx.ob("limiter-balanced", nt == ng and nt <= 1, f, f"slot taken {nt} times, returned {ng} times [{describe(p)}]", q)
            for y in ys:
                n += 1
                i = index(p, y)
                ctx.ob("limiter-balanced", sum(map(tk, p.events[:i])) - sum(map(gv, p.events[:i])) == 1, (f, y.node), "the body runs without a slot", q + "y")
            if p.normal:
                ctx.ob("limiter-balanced", len(ys) == 1, f, "the body does not run exactly once", q + "1")
        ctx.need("limiter-balanced", n, 1, f"{q}: guarded bodies")


def users(ctx):
    """Slots and outstanding entries are only handled through their context managers."""
    n = 0
    for f in ctx.p.funcs.values():
        for x in walk_own(f.node):
            if isinstance(x, ast.Attribute) and x.attr == "_concurrent_requests_semaphore" and not isinstance(x.ctx, ast.Store):
                n += 1
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("acquire", "release") and "semaphore" in ast.unparse(x.func.value):
                ctx.ob("slot-by-context-manager", f.qual.endswith("._limit_concurrency"), (f, x), f"{ast.unparse(x.func)} outside the concurrency context")
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "clear", "popitem", "__setitem__", "update", "setdefault") and ast.unparse(x.func.value).endswith("_pending"):
                ctx.ob("entry-by-context-manager", f.cls is not None and f.cls.qual == REQ, (f, x), f"{ast.unparse(x.func)} changes outstanding entries outside their context")
            if isinstance(x, (ast.Assign, ast.Delete)):
                for t in x.targets:
                    if isinstance(t, ast.Subscript) and ast.unparse(t.value).endswith("_pending") and f.cls is not None and f.cls.qual != REQ and f.cls.qual.startswith("zigpy.") and "Pending" not in f.cls.name:
                        ctx.ob("entry-by-context-manager", f.module.name not in ("zigpy.device", "zigpy.application"), (f, x), "outstanding entries are changed outside their context")
    ctx.need("slot-by-context-manager", n, 2, "limiter uses")


RULES = [bookkeeping, entry_object, limiters, users]
