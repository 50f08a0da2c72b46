"""The concurrency limiter never over-admits, leaks or loses a wakeup."""
import ast

from ..core import UNK, calls, describe, ev_callee, index, norm, sets, show
from ..lib import allfacts, assumed, is_const, lin_diff, linear
from ..model import walk_own
from ..walk import contains, subterms
from . import c06

C = "zigpy.datastructures.PriorityDynamicBoundedSemaphore"
WCM = "zigpy.datastructures.WrappedContextManager"
DEV = "zigpy.device.Device"
APP = "zigpy.application.ControllerApplication"
SELF = ("self", C)
VALUE, MAX = ("attr", SELF, "value"), ("attr", SELF, "max_value")
WAITERS, FLAG = ("attr", SELF, "_waiters"), ("attr", SELF, "_wakeup_scheduled")


def pops(e):
    return e.kind == "call" and e.name == "heappop" and e.args and norm(e.args[0]) == WAITERS


def wakers(ctx):
    """Methods that take a waiter from the queue."""
    out = {}
    for m in ctx.p.cls(C).methods.values():
        if any(isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] == "heappop" for x in walk_own(m.node)):
            for o in ctx.kit.owners(m.qual):
                out[o] = ctx.p.funcs[o]
    ctx.ob("wake-live-waiter", len(out) >= 1, C, "no waiter is ever woken", "none")
    return out


def iswake(w):
    return lambda e: e.kind == "call" and (ev_callee(e) in w) and e.ok


def empty(fs):
    """No waiter is queued, by the facts."""
    return any(norm(a) == ("truthy", WAITERS) and v is False for a, v in fs)


def flag_off(e, fs):
    return any(norm(a) == ("truthy", FLAG) and v is False for a, v in fs)


def slot_free(facts):
    """Does a fact state value >= 1?"""
    for a, v in facts.items():
        n = norm(a)
        if n[0] in ("lt", "le") and len(n) == 3:
            x, y = n[1], n[2]
            if not v:
                x, y = y, x
            strict = (n[0] == "lt") == v
            d = linear(("bin", "-", y, x))      # y - x > 0 (strict) or >= 0
            if d.get(VALUE) == 1 and set(d) <= {VALUE, None}:
                k = d.get(None, 0)
                # value + k > 0  /  value + k >= 0
                if (strict and -k >= 0) or (not strict and -k >= 1):
                    return True
    return False


def acquire(ctx):
    w = wakers(ctx)
    isw = iswake(w)
    ps = ctx.paths(f"{C}.acquire", noinline=tuple(w), havoc_await=True, assert_raises=True, inject=("asyncio.CancelledError",), inject_at=lambda t, n, a: a, handler_inject=False)
    n = nc = nl = 0
    for p in ps:
        F = ps.func
        takes = sets(p, "value", SELF)
        aw = [e for e in p.events if e.kind == "await"]
        push = [e for e in calls(p, "heappush") if norm(e.args[0]) == WAITERS]
        bad = [e for e in aw if not e.ok]
        places = set()
        for e in push:
            o = norm(e.args[1]) if len(e.args) > 1 else ("none",)
            items = o[1:] if o[0] in ("tuple", "list") else ()
            if items and isinstance(items[0], tuple) and items[0] and isinstance(items[0][0], tuple):
                items = items[0]
            if len(items) >= 3:
                places.add(items[1])
        again = [x for x in sets(p, "_comparison_counter", SELF) if push and index(p, push[0]) < index(p, x) < index(p, push[-1])]
        ctx.ob("queued-by-priority-then-arrival", len(places) <= 1 and not again, F, "a waiter which has to wait again is queued behind later ones", "again")
        if p.outcome.kind == "raise":
            ctx.ob("failed-acquire-takes-nothing", not takes, F, f"a slot is taken although acquiring fails [{describe(p)}]")
            ctx.ob("failed-acquire-takes-nothing", bool(bad), F, f"acquiring fails although nobody cancelled it: {p.outcome} [{describe(p)}]", "assert")
        if p.normal:
            n += 1
            ctx.ob("one-slot-taken", len(takes) == 1 and not bad, F, f"acquiring takes {len(takes)} slots [{describe(p)}]")
            for e in takes:
                ctx.ob("one-slot-taken", lin_diff(e.value, VALUE) == {None: -1}, (F, e.node), f"the free count becomes {show(e.value)}", "amount")
                ctx.ob("slot-taken-only-when-free", slot_free(e.facts), (F, e.node), f"a slot is taken without one being free [{describe(p)}]")
                later = [x for x in p.events[index(p, e):] if x.kind == "await"]
                ctx.ob("slot-taken-only-when-free", not later, (F, e.node), "the task can be suspended after it took its slot", "await")
                if not aw:
                    ctx.ob("no-overtaking", flag_off(e, e.facts.items()), (F, e.node), f"a newcomer takes the slot of a waiter that was just woken [{describe(p)}]")
        for e in aw:
            nl += 1
            i = index(p, e)
            mine = [x for x in push if index(p, x) < i]
            ok = bool(mine)
            if ok:
                o = norm(mine[-1].args[1])
                items = o[1:] if o[0] in ("tuple", "list") else ()
                if items and isinstance(items[0], tuple) and items[0] and isinstance(items[0][0], tuple):
                    items = items[0]
                ok = bool(items) and items[-1] == norm(e.base)
                ctx.ob("queued-by-priority-then-arrival", len(items) >= 3 and items[0] == ("un", "-", ("param", "priority")), (F, mine[-1].node), "waiters are not queued by descending priority", "prio")
                cnt = ("attr", SELF, "_comparison_counter")
                ctx.ob("queued-by-priority-then-arrival", len(items) >= 3 and set(linear(items[1])) <= {cnt, None} and linear(items[1]).get(cnt) == 1, (F, mine[-1].node),
                       "waiters of equal priority are not queued by arrival", "count")
                inc = sets(p, "_comparison_counter", SELF)
                ctx.ob("queued-by-priority-then-arrival", bool(inc) and all(lin_diff(x.value, cnt).get(None, 0) >= 1 for x in inc) and index(p, inc[0]) < i, F, "the arrival counter does not advance", "inc")
                fresh = [x for x in calls(p, "create_future") if index(p, x) < i]
                n_await = len([x for x in aw if index(p, x) <= i])
                ctx.ob("waits-on-queued-future", len(fresh) >= n_await and len(mine) == n_await, (F, e.node), "a waiter reuses a settled future", "fresh")
            ctx.ob("waits-on-queued-future", ok, (F, e.node), f"a task waits on something that is not queued [{describe(p)}]")
            nxt = [x for x in p.events[i + 1:] if x.kind == "await" or x.kind == "setattr" and x.name == "value"]
            stop = index(p, nxt[0]) if nxt else len(p.events)
            seg = p.events[i + 1:stop]
            off = [x for x in seg if x.kind == "setattr" and x.name == "_wakeup_scheduled" and is_const(norm(x.value), False)]
            if e.ok and (nxt or p.normal):
                ctx.ob("wakeup-consumed", len(off) >= 1, (F, e.node), f"a woken waiter leaves the wakeup marked as pending [{describe(p)}]")
            if not e.ok:
                nc += 1
                ctx.ob("cancellation-propagates", p.outcome.kind == "raise" and "CancelledError" in str(p.outcome.value), F, f"a cancelled waiter carries on [{describe(p)}]")
                fs = [(norm(a), v) for x in [*p.events[i + 1:], p] for a, v in x.facts.items()]
                canc = {v for a, v in fs if a[0] == "truthy" and a[1][0] == "call" and a[1][1] == ("attr", norm(e.base), "cancelled")}
                dn = {v for a, v in fs if a[0] == "truthy" and a[1][0] == "call" and a[1][1] == ("attr", norm(e.base), "done")}
                wk = [x for x in seg if isw(x)]
                if canc == {True}:
                    ctx.ob("wakeup-passed-on", not wk and not off, F, f"a waiter that was never woken passes on a wakeup [{describe(p)}]", "notwoken")
                else:
                    ctx.ob("wakeup-passed-on", len(wk) == 1 and len(off) == 1 and index(p, off[0]) < index(p, wk[0]), F,
                           f"a waiter cancelled at the instant it is woken absorbs the wakeup [{describe(p)}]", "woken")
                    ctx.ob("wakeup-passed-on", canc == {False}, F, "a cancelled waiter does not tell whether it was woken", "ask")
    ctx.need("one-slot-taken", n, 2, "successful acquisitions")
    ctx.ob("wakeup-passed-on", nc >= 2, ps, "cancellation of a waiter is not handled", "n")
    ctx.ob("waits-on-queued-future", nl >= 2, ps, "acquiring never waits", "n")


def wake(ctx):
    n = 0
    for q in wakers(ctx):
        ps = ctx.paths(q, havoc_await=True)
        for p in ps:
            pp = [e for e in p.events if pops(e)]
            sr = [e for e in calls(p, "set_result")]
            on = [e for e in sets(p, "_wakeup_scheduled", SELF) if not is_const(norm(e.value), False)]
            for e in pp:
                ctx.ob("wake-live-waiter", any(norm(a) == ("truthy", WAITERS) and v for a, v in e.facts.items()) or any(contains(norm(a), WAITERS) for a in e.facts), (ps.func, e.node), "an empty queue is popped", "empty")
            for e in sr:
                n += 1
                b = norm(e.base)
                ctx.ob("wake-live-waiter", bool(pp) and b[0] == "idx" and b[1] == norm(pp[-1].value if pp[-1].value is not None else pp[-1].term) and b[2] in (("const", 2), ("const", -1)), (ps.func, e.node),
                       f"{show(b)} is woken instead of the first waiter of the queue", "who")
                ctx.ob("wake-live-waiter", any(norm(a) == ("truthy", ("call", ("attr", b, "done"), (), ())) and v is False for a, v in e.facts.items()), (ps.func, e.node), "a waiter that is already settled is woken", "done")
            ctx.ob("wake-live-waiter", len(sr) <= 1, ps, "two waiters are woken for one slot", "two")
            ctx.ob("wakeup-marked", len(on) == len(sr), ps, f"the pending wakeup is {'not ' if sr else ''}marked [{describe(p)}]")
            # every popped waiter is either settled or woken
            live = []
            for k, e in enumerate(pp):
                fs = assumed(p, e, pp[k + 1] if k + 1 < len(pp) else None)
                if not any(a[0] == "truthy" and a[1][0] == "call" and a[1][1][0] == "attr" and a[1][1][2] == "done" and v is True for a, v in fs):
                    live.append(e)
            if p.normal:
                ctx.ob("wake-live-waiter", len(live) <= len(sr), ps, f"a live waiter is dropped from the queue without being woken [{describe(p)}]", "drop")
                if not sr:
                    ctx.ob("wake-live-waiter", empty(p.facts.items()), ps, f"a queue with waiters is left without waking one [{describe(p)}]", "quiet")
            ctx.ob("wake-live-waiter", p.outcome.kind != "raise", ps, "waking raises", "raise")
    ctx.ob("wake-live-waiter", n >= 1, C, "no waiter is ever woken", "n")
    # nothing else touches the queue order
    c = ctx.p.cls(C)
    for m in c.methods.values():
        for x in walk_own(m.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and ast.unparse(x.func.value).endswith("self._waiters"):
                ctx.ob("queue-order-kept", x.func.attr in ("copy", "index", "count", "__len__"), (m, x), f"the waiter queue is changed by {x.func.attr}")
            if isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in ("heappush", "heappop", "heapify", "heapreplace", "heappushpop"):
                r = ctx.term(ast.unparse(x.func), m)
                ctx.ob("queue-order-kept", show(r).startswith("heapq.") or r[0] == "glob" and r[1].startswith("heapq."), (m, x), "the queue is not kept with heapq", "heapq")


def release(ctx):
    w = wakers(ctx)
    isw = iswake(w)
    ps = ctx.paths(f"{C}.release", noinline=tuple(w))
    k = n = 0
    for p in ps:
        ups = sets(p, "value", SELF)
        wk = [e for e in p.events if isw(e)]
        full = None
        for a, v in allfacts(p):
            nn = norm(a)
            if nn[0] in ("lt", "le", "eq") and len(nn) == 3 and {nn[1], nn[2]} == {VALUE, MAX}:
                if nn[0] == "lt":
                    full = (not v) if nn[1] == VALUE else None if not v else False
                elif nn[0] == "le":
                    full = (v if nn[1] == MAX else None if v else True)
        if full is True:
            k += 1
            ctx.ob("over-release-refused", p.outcome.kind == "raise" and not ups and not wk, ps, f"a release without a holder is accepted [{describe(p)}]")
            ctx.ob("over-release-refused", "ValueError" in str(p.outcome.value), ps, "over-releasing raises another error", "exc")
        else:
            ctx.ob("over-release-refused", full is False or p.outcome.kind == "raise", ps, f"releasing does not check that a slot is held [{describe(p)}]", "check")
        if p.normal:
            n += 1
            ctx.ob("one-slot-returned", len(ups) == 1 and lin_diff(ups[0].value, VALUE) == {None: 1}, ps, f"a release returns {[show(e.value) for e in ups]}")
            ctx.ob("release-wakes-one", len(wk) == 1 or not wk and empty(allfacts(p)), ps, f"a release wakes {len(wk)} waiters [{describe(p)}]")
    ctx.ob("over-release-refused", k >= 1, ps, "over-releasing is not told apart", "n")
    ctx.ob("one-slot-returned", n >= 1, ps, "releasing never succeeds", "n")


def limit(ctx):
    w = wakers(ctx)
    isw = iswake(w)
    ps = ctx.paths(f"{C}.max_value.setter", noinline=tuple(w))
    new = ("param", ps.func.params[1])
    neg = 0
    for p in ps:
        sv, sm = sets(p, "value", SELF), sets(p, "max_value", SELF)
        lt0 = [v for a, v in allfacts(p) if norm(a) == ("lt", new, ("const", 0))] + [not v for a, v in allfacts(p) if norm(a) == ("le", ("const", 0), new)]
        if True in lt0:
            neg += 1
            ctx.ob("negative-limit-refused", p.outcome.kind == "raise" and not sv and not sm, ps, f"a negative limit is accepted [{describe(p)}]")
            continue
        ctx.ob("negative-limit-refused", False in lt0 or p.outcome.kind == "raise", ps, "the sign of a new limit is not checked", "check")
        if not p.normal:
            ctx.ob("limit-adjusts-free-slots", p.outcome.kind == "cut", ps, f"a valid limit is refused [{describe(p)}]", "raise")
            continue
        want = lin_diff(new, MAX)
        ok = len(sv) == 1 and len(sm) == 1
        if not sv and not sm:       # nothing to change
            same = any(norm(a) in (("eq", new, MAX), ("eq", MAX, new)) and v for a, v in allfacts(p))
            ctx.ob("limit-adjusts-free-slots", same, ps, f"a new limit is ignored [{describe(p)}]", "ignored")
            continue
        ctx.ob("limit-adjusts-free-slots", ok and lin_diff(sv[0].value, VALUE) == want and lin_diff(sm[0].value, MAX) == want, ps,
               f"limit and free slots do not move together: {[show(e.value) for e in sv + sm]}")
        loops = [e for e in p.events if e.kind in ("loopiter", "loopend")]
        its = [e for e in p.events if e.kind == "loopiter"]
        wk = [e for e in p.events if isw(e)]
        nowake = any(norm(a) in (("lt", ("const", 0), d), ("lt", MAX, new), ("le", MAX, new)) and not v for a, v in allfacts(p) for d in (norm(("bin", "-", new, MAX)),)) or empty(allfacts(p))
        if not loops:
            ctx.ob("raised-limit-wakes", nowake, ps, f"raising the limit wakes nobody [{describe(p)}]", "none")
            continue
        ctx.ob("raised-limit-wakes", len(wk) >= len(its), ps, f"{len(its)} new slots wake {len(wk)} waiters [{describe(p)}]")
        it = [norm(e.base) for e in loops if e.base is not None]
        for b in it[:1]:
            r = b if b[0] == "call" and b[1] == ("glob", "builtins.range") else None
            if r is None or len(r[2]) != 1:
                continue
            ln = ("call", ("glob", "builtins.len"), (WAITERS,), ())
            for waiting in (0, 1, 3):
                for cur, nw in ((0, 0), (0, 2), (1, 2), (2, 5), (5, 2), (2, 2)):
                    v = ctx.kit.teval(r[2][0], {ln: waiting, MAX: cur, new: nw})
                    if v is not UNK:
                        ctx.ob("raised-limit-wakes", v >= min(waiting, max(0, nw - cur)), ps, f"with {waiting} waiting, raising the limit from {cur} to {nw} wakes {v}", "count")
    ctx.ob("negative-limit-refused", neg >= 1, ps, "negative limits are not told apart", "n")
    ps = ctx.paths("zigpy.datastructures.PriorityLock.max_value.setter")
    for p in ps:
        ctx.ob("lock-limit-fixed", p.outcome.kind == "raise" and not sets(p), ps, "a lock's limit can be changed")
    ps = ctx.paths("zigpy.datastructures.PriorityLock.__init__", inline=(f"{C}.__init__",))
    for p in ps:
        v = [norm(e.value) for e in p.events if e.kind == "setattr" and e.name in ("value", "_value")]
        v += [norm(x) for e in calls(p, "__init__") for x in [*e.args, *[b for _, b in e.kwargs]]]
        ctx.ob("lock-limit-fixed", bool(v) and all(is_const(x, 1) for x in v), ps, "a lock admits more than one holder", "init")


def initial(ctx):
    ps = ctx.paths(f"{C}.__init__")
    for p in ps:
        g = {e.name: norm(e.value) for e in p.events if e.kind == "setattr"}
        v = ("param", "value")
        ctx.ob("starts-with-all-slots-free", g.get("value") == v and g.get("max_value") == v, ps, f"free {g.get('value')}, limit {g.get('max_value')}")
        ctx.ob("starts-with-all-slots-free", is_const(g.get("_wakeup_scheduled"), False), ps, "a new limiter has a wakeup pending", "flag")
    ps = ctx.paths(f"{C}.locked")
    for p in ps:
        for v, want in ((0, True), (1, False), (-1, True), (5, False)):
            a = ps.asg({"self._value": v})
            if ps.consistent(p, a):
                r = ctx.kit.teval(norm(p.ret), a)
                ctx.ob("locked-means-no-free-slot", r is not UNK and bool(r) is want, ps, f"with {v} free slots the limiter says locked={r}")


def contexts(ctx):
    """async with takes one slot on entry and returns one on exit, whatever happens."""
    ps = ctx.paths(f"{C}.__aenter__")
    for p in ps:
        a = [e for e in calls(p, "acquire") if norm(e.base) == SELF]
        if p.normal:
            ctx.ob("context-balanced", len(a) == 1 and a[0].awaited, ps, f"entering takes {len(a)} slots")
    ps = ctx.paths(f"{C}.__aexit__", inline=())
    for p in ps:
        r = [e for e in p.events if e.kind == "call" and e.name == "release" and norm(e.base) == SELF]
        ctx.ob("context-balanced", len(r) == 1, ps, f"leaving returns {len(r)} slots [{describe(p)}]", "exit")
        ctx.ob("context-balanced", p.ret is None or ctx.kit._truth(ctx.kit.teval(norm(p.ret), {})) is False, ps, "leaving swallows the error of the block", "swallow")
    ps = ctx.paths(f"{C}.__call__", noinline=(f"{WCM}.__init__",))
    n = 0
    for p in ps:
        r = norm(p.ret) if p.ret is not None else ("none",)
        if r[0] == "call" and r[1] == ("glob", WCM):
            n += 1
            b = dict(zip(ctx.p.func(f"{WCM}.__init__").params[1:], r[2]))
            b.update(dict(r[3]))
            ctx.ob("context-balanced", norm(b.get("context_manager", ("none",))) == SELF, ps, "the wrapper releases another limiter", "self")
        else:
            ctx.ob("context-balanced", r == SELF, ps, f"calling the limiter gives {show(r)}", "call")
    f = ctx.p.func(f"{C}.__call__")
    acq = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "acquire"]
    ctx.ob("priority-forwarded", len(acq) == 1 and [ast.unparse(a) for a in [*acq[0].args, *[k.value for k in acq[0].keywords]]] == ["priority"] or not n, (f, acq[0] if acq else f.node), "the wrapper does not acquire with the given priority")
    if n:
        ps = ctx.paths(f"{WCM}.__init__")
        for p in ps:
            g = {e.name: norm(e.value) for e in p.events if e.kind == "setattr"}
            ctx.ob("context-balanced", g == {"on_enter": ("param", "on_enter"), "context_manager": ("param", "context_manager")}, ps, "the wrapper mixes up its parts", "init")
        ps = ctx.paths(f"{WCM}.__aenter__", inject=("Exception",), inject_at=lambda t, n, a: a)
        for p in ps:
            a = calls(p, "on_enter")
            x = calls(p, ("__aexit__", "release"))
            ctx.ob("context-balanced", len(a) == 1 and (a[0].awaited or any(e.kind == "await" for e in p.events)) and not x, ps, "entering the wrapper does not take exactly one slot", "wenter")
            if any(not e.ok for e in p.events):
                ctx.ob("context-balanced", p.outcome.kind == "raise", ps, "a failed acquisition enters the block", "wfail")
        ps = ctx.paths(f"{WCM}.__aexit__", inline=())
        for p in ps:
            x = [e for e in calls(p, "__aexit__") if norm(e.base) == ps.T("self.context_manager")]
            ctx.ob("context-balanced", len(x) == 1, ps, f"leaving the wrapper returns {len(x)} slots [{describe(p)}]", "wexit")


def wiring(ctx):
    """Limits and priorities reach the limiter."""
    for cls, want in ((DEV, "MAX_DEVICE_CONCURRENCY"), (APP, "CONF_MAX_CONCURRENT_REQUESTS")):
        f = ctx.p.func(f"{cls}.__init__")
        k = 0
        for x in walk_own(f.node):
            tg = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AnnAssign) and x.value is not None else []
            if any(isinstance(t, ast.Attribute) and t.attr == "_concurrent_requests_semaphore" for t in tg):
                k += 1
                v = x.value
                ok = isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] in ("PriorityDynamicBoundedSemaphore", "DynamicBoundedSemaphore")
                a = [*v.args, *[y.value for y in v.keywords]] if isinstance(v, ast.Call) else []
                if ok and len(a) == 1 and isinstance(a[0], ast.Name) and a[0].id in {t.id for s in walk_own(f.node) if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}:
                    a = [s.value for s in walk_own(f.node) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a[0].id for t in s.targets)]
                ctx.ob("limit-as-configured", ok and len(a) == 1 and want in ast.unparse(a[0]) and not any(isinstance(y, (ast.BinOp, ast.IfExp, ast.BoolOp)) for y in ast.walk(a[0])), (f, x), f"the limiter is built as {ast.unparse(v)}")
        ctx.ob("limit-as-configured", k == 1, f, "the limiter is not created exactly once", "n")
        lf = ctx.p.func(f"{cls}._limit_concurrency")
        ps = ctx.paths(lf)
        sem = ("attr", ("self", cls), "_concurrent_requests_semaphore")
        n = 0
        for p in ps:
            for e in p.events:
                if e.kind == "enter" and e.base is not None and contains(norm(e.base), sem):
                    n += 1
                    b = norm(e.base)
                    if b[0] == "call":
                        a = [*b[2], *[v for _, v in b[3]]]
                    ctx.ob("priority-forwarded", b[0] == "call" and b[1] == sem and a == [("param", "priority")], (lf, e.node), "the request's priority does not reach the limiter", cls)
        ctx.ob("priority-forwarded", n >= 1, lf, "the limiter is not entered", cls + "n")
    for expect in (True, False):
        ps = ctx.paths(f"{DEV}.request", inline=c06.INLINE, scenario={"expect_reply": expect}, noinline=(f"{DEV}._limit_concurrency",))
        for p in ps:
            es = [e for e in p.events if e.kind == "enter" and e.name == "_limit_concurrency" or e.kind == "call" and e.name == "_limit_concurrency"]
            for e in es:
                a = [norm(v) for _, v in e.kwargs] + [norm(x) for x in e.args]
                if e.kind == "call":
                    ctx.ob("priority-forwarded", a == [("param", "priority")], (ps.func, e.node), "the caller's priority is dropped on the way to the limiter", "req")


RULES = [acquire, wake, release, limit, initial, contexts, wiring, c06.limiters, c06.users]
