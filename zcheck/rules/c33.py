"""The duplicate filter, timers, counters and shared calls keep exact state."""
import ast

from ..core import calls, describe, norm, show
from ..lib import allfacts, contains, lin_eq, linear, subst
from ..model import Func
from . import c07

D = "zigpy.datastructures.Debouncer"
T = "zigpy.datastructures.ReschedulableTimeout"
C = "zigpy.state.Counter"
DEV = "zigpy.device.Device"
NONE = ("const", None)


def facts(p):
    """What the path assumed; where a store changed the answer, the answer before it."""
    out = {}
    for _, a, v in p.trail:
        out.setdefault(norm(a), v)
    for a, v in allfacts(p):
        out.setdefault(norm(a), v)
    return out


def clock(t):
    """The term is a reading of the event loop's clock."""
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("time", "monotonic")


def plus(t, x):
    """t == clock() + x; returns the clock reading."""
    d = dict(linear(t))
    if d.pop(x, 0) != 1 or len(d) != 1:
        return None
    (k, v), = d.items()
    return k if v == 1 and k is not None and (clock(k) or k == ("param", "now")) else None


def later(f, a, b):
    """Is a < b (True), a >= b (False) or unknown; strictness is reported separately."""
    if ("lt", a, b) in f:
        return f[("lt", a, b)]
    if ("lt", b, a) in f and f[("lt", b, a)]:
        return False
    if ("le", a, b) in f:
        return f[("le", a, b)]
    if ("lt", b, a) in f:
        return not f[("lt", b, a)]
    return None


def exact(ctx, R, ps, f, x, key):
    """A deadline is compared with the clock itself."""
    for a in f:
        if a[0] in ("lt", "le") and x in a[1:]:
            o = a[2] if a[1] == x else a[1]
            if o[0] == "bin":
                ctx.ob(R, False, ps, f"a deadline is compared with {show(o)[:80]} instead of the time", key)


def owned(ctx, cls, attr):
    """Every store to an attribute of the class: (path set, path, event)."""
    for name, m in ctx.kit.p.classes[cls].methods.items():
        if name == "__init__" or not any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) for x in ast.walk(m.node)):
            continue
        ps = ctx.paths(m.qual, loop=1)
        for p in ps:
            for e in p.events:
                if e.kind == "setattr" and e.name == attr and e.base is not None and norm(e.base) == ps.T("self"):
                    yield ps, p, e


def debouncer(ctx):
    """An object is filtered exactly while an earlier one is remembered; each is remembered for its own time."""
    R = "duplicate-filter"
    ps = ctx.paths(f"{D}.filter", noinline=(f"{D}.is_filtered", f"{D}.clean"))
    obj, exp, times, queue = ("param", "obj"), ("param", "expire_in"), ps.T("self._times"), ps.T("self._queue")
    n = 0
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            if p.normal:
                ctx.ob(R, False, ps, f"the caller is not told whether the object is new [{describe(p)}]", "ret")
            continue
        f, r = facts(p), norm(p.ret)
        asked = calls(p, "is_filtered")
        known = [v for a, v in f.items() if a[0] == "truthy" and a[1][0] == "call" and a[1][1] == ps.T("self.is_filtered")] + [v for a, v in f.items() if a == ("in", obj, times)]
        st = [e for e in p.events if e.kind == "setidx" and norm(e.base) == times]
        pu = [e for e in calls(p, "heappush") if e.args and norm(e.args[0]) == queue]
        for e in asked:
            ctx.ob(R, e.args and norm(e.args[0]) == obj, ps, "another object is looked up", "asked")
        if not known:
            continue
        n += 1
        if all(known):
            ctx.ob(R, r == ("const", True), ps, f"a duplicate is reported as {show(r)}", "dup")
            ctx.ob(R, not st and not pu, ps, "a duplicate extends the time for which it is filtered", "extend")
            continue
        ctx.ob(R, r == ("const", False), ps, f"a new object is reported as {show(r)}", "new")
        ctx.ob(R, len(st) == 1 and len(pu) == 1, ps, f"a new object is stored {len(st)} times and queued for expiry {len(pu)} times [{describe(p)}]", "store")
        for e in st:
            ctx.ob(R, norm(e.args[0]) == obj, ps, "another object is remembered", "key")
            v = norm(e.value if e.value is not None else e.args[1])
            ctx.ob(R, plus(v, exp) is not None, ps, f"an object is remembered until {show(v)[:80]}", "until")
        for e in pu:
            v = norm(e.args[1]) if len(e.args) > 1 else NONE
            if v[0] != "tuple" or len(v[1]) < 2:
                continue
            ctx.ob(R, plus(v[1][0], exp) is not None, ps, f"an object expires at {show(v[1][0])[:80]}", "expiry")
            ctx.ob(R, v[1][-1] == obj, ps, f"{show(v[1][-1])[:60]} expires instead of the object", "expobj")
            ctx.ob(R, len(v[1]) == 3, ps, "objects with the same expiry are compared with each other", "tie")
            if len(v[1]) != 3:
                continue
            seq = v[1][1]
            own = [x for x in linear(seq) if x is not None and x[0] == "attr" and x[1] == ps.T("self")]
            if seq[0] == "call":
                continue
            ctx.ob(R, len(own) == 1 and len([x for x in linear(seq) if x is not None]) == 1, ps, f"the tie-breaker is {show(seq)[:60]}", "seq")
            for x in own:
                bumped = [s for s in p.events if s.kind == "setattr" and s.name == x[2] and s.base is not None and norm(s.base) == ps.T("self")]
                ctx.ob(R, bool(bumped), ps, "two objects get the same tie-breaker", "bump")
                for ps2, p2, s in owned(ctx, D, x[2]):
                    d = dict(linear(norm(s.value)))
                    ctx.ob(R, d.get(x) == 1 and d.get(None, 0) >= 1 and len(d) == 2, ps2, f"the tie-breaker is set to {show(norm(s.value))[:60]}: it can repeat and the objects are compared", "reset")
        for e in asked:
            early = [x for x in st + pu if p.events.index(x) < p.events.index(e)]
            ctx.ob(R, not early, ps, "the object is stored before it is looked up", "order")
    ctx.need(R, n, 0, "outcomes")

    ps = ctx.paths(f"{D}.is_filtered", noinline=(f"{D}.clean",))
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r = norm(p.ret)
        if r[0] == "const":
            ctx.ob(R, False, ps, f"an object is {'always' if r[1] else 'never'} filtered [{describe(p)}]", "const")
        if r == ps.T("obj in self._times") or r == ps.T("obj not in self._times"):
            ctx.ob(R, r == ps.T("obj in self._times"), ps, "an object is filtered when it is new", "neg")
            cl = calls(p, "clean")
            ctx.ob(R, bool(cl), ps, "expired objects are still filtered", "clean")
            for e in cl:
                a = [norm(x) for x in e.args] + [norm(v) for _, v in e.kwargs]
                ctx.ob(R, not a or a == [NONE] or clock(a[0]) or a[0] == ("param", "now"), ps, f"expiry is judged at {show(a[0])[:60] if a else ''}", "when")

    ps = ctx.paths(f"{D}.clean", loop=2)
    head = ps.T("self._queue[0][0]")
    times, queue = ps.T("self._times"), ps.T("self._queue")
    n = 0
    for p in ps:
        if p.outcome.kind == "cut":
            continue
        pops = [e for e in calls(p, "heappop") if e.args and norm(e.args[0]) == queue]
        gone = [e for e in calls(p, "pop") if e.base is not None and norm(e.base) == times] + [e for e in p.events if e.kind == "delidx" and e.base is not None and norm(e.base) == times]
        n += bool(pops)
        ctx.ob(R, len(pops) == len(gone), ps, f"{len(pops)} objects expire, {len(gone)} are forgotten [{describe(p)}]", "both")
        for e in pops:
            f = {norm(a): v for a, v in e.facts.items()}
            v = [later(f, a, b) for a, b in ((head, x) for x in {y for k in f if k[0] in ("lt", "le") for y in k[1:]}) if b != head]
            ctx.ob(R, True in v, ps, f"an object which has not expired is forgotten [{describe(p)}]", "early")
            exact(ctx, R, ps, f, head, "clean")
        for e in gone:
            if e.args:
                a = norm(e.args[0])
                ok = a[0] == "idx" and (a[1] == head[1] or a[1][0] == "call" and a[1][1][-1] in ("heapq.heappop", "heappop")) and a[2] in (("const", 2), ("const", -1))
                ctx.ob(R, ok, ps, f"{show(a)[:60]} is forgotten instead of the expired object", "which")
        last = [(norm(a), v) for _, a, v in p.trail if norm(a) == ("truthy", queue) or norm(a)[0] in ("lt", "le") and contains(norm(a), head)]
        if last:
            a, v = last[-1]
            more = v if a == ("truthy", queue) else later({a: v}, head, a[2] if a[1] == head else a[1])
            ctx.ob(R, more is not True, ps, f"expired objects are kept [{describe(p)}]", "keep")
    ctx.need(R, n, 0, "expiries")

    R = "duplicate-packet"
    ps = c07.received(ctx, (), (), noinline=(f"{DEV}.last_seen",))
    pk = ("param", "packet")
    same, seen = 0, False
    for p in ps:
        fs = [e for e in calls(p, "filter") if e.base is not None and norm(e.base) == ps.T("self._packet_debouncer")]
        ctx.ob(R, len(fs) == 1, ps, f"the duplicate filter is asked {len(fs)} times [{describe(p)}]", "asked")
        if len(fs) != 1:
            continue
        e = fs[0]
        same += 1
        b = dict(zip(("obj", "expire_in"), [norm(a) for a in e.args])) | {k: norm(v) for k, v in e.kwargs}
        o = b.get("obj", NONE)
        if o[0] == "call" and o[1] in (("attr", pk, "replace"), ("glob", "dataclasses.replace")):
            kw = dict(o[3])
            ctx.ob(R, {"tsn", "lqi", "rssi"} <= set(kw), ps, f"a retransmission is not recognised: packets are compared without resetting {sorted({'tsn', 'lqi', 'rssi'} - set(kw))}", "fields")
            ctx.ob(R, set(kw) <= {"timestamp", "tsn", "lqi", "rssi"}, ps, f"different packets count as duplicates: {sorted(set(kw) - {'timestamp', 'tsn', 'lqi', 'rssi'})} is ignored", "fields2")
            ctx.ob(R, all(v[0] == "const" for v in kw.values()), ps, "packets are compared with a changing value", "const")
        elif o == pk:
            ctx.ob(R, False, ps, "a retransmission with another counter or signal strength is not recognised", "raw")
        t = b.get("expire_in", NONE)
        if t[0] == "const":
            ctx.ob(R, isinstance(t[1], (int, float)) and t[1] > 0, ps, f"duplicates are filtered for {t[1]} seconds", "window")
        i = p.events.index(e)
        dup = [v for a, v in facts(p).items() if a[0] == "truthy" and a[1] == norm(e.term if e.term is not None else e.value)]
        act = [x for x in p.events[i + 1:] if x.kind == "call" and x.name in ("handle_message", "set_result", "listener_event", "deserialize", "set_exception")]
        ctx.ob(R, not act or dup == [False], ps, f"a duplicate is processed: {show(act[0].term)[:60] if act and act[0].term is not None else ''}", "dropped")
        ctx.ob(R, dup != [True] or not act, ps, "a duplicate is processed", "dropped2")
        seen = seen or dup == [False] and bool(act)
        pre = [x for x in p.events[:i] if x.kind == "call" and x.name in ("handle_message", "set_result")]
        ctx.ob(R, not pre, ps, "a packet is processed before it is checked for duplicates", "pre")
        ls = [x for x in p.events if (x.kind == "call" or x.kind == "setattr") and x.name in ("last_seen", "_last_seen")]
        ctx.ob("radio-details", any(ps.T("packet.timestamp") in [norm(a) for a in x.args] + [norm(x.value)] if x.value is not None or x.args else False for x in ls), ps, f"a received packet does not update the time the device was last seen [{describe(p)}]", "seen")
        f = facts(p)
        for q in ("lqi", "rssi"):
            none = f.get(("is", ps.T(f"packet.{q}"), NONE))
            st = [x for x in p.events if (x.kind == "call" or x.kind == "setattr") and x.name in (q, "_" + q) and x.base is not None and norm(x.base) == ps.T("self")]
            if none is False:
                ctx.ob("radio-details", any(ps.T(f"packet.{q}") in [norm(a) for a in x.args] + ([norm(x.value)] if x.value is not None else []) for x in st), ps, f"a received {q} is not stored [{describe(p)}]", q)
            if not st:
                ctx.ob("radio-details", none is True or f.get(("truthy", ps.T(f"packet.{q}"))) is None, ps, f"a received {q} of 0 is not stored [{describe(p)}]", q + "0")
            elif none is True:
                ctx.ob("radio-details", not st, ps, f"the {q} is cleared by a packet without one", q + "n")
    ctx.ob(R, not same or seen, ps, "no packet is ever processed", "all")


def timer(ctx):
    """A timer fires exactly once, not before the deadline requested last."""
    R = "timer"
    ps = ctx.paths(f"{T}.reschedule", private=True)
    delay, tm = ("param", "delay"), ps.T("self._timer")
    n = 0

    def arm(ps, p):
        return [e for e in p.events if e.kind == "call" and e.name in ("call_at", "call_later")]

    def check_arm(ps, p, when, key):
        f = facts(p)
        for e in arm(ps, p):
            a = [norm(x) for x in e.args] + [norm(v) for _, v in e.kwargs]
            if e.name == "call_at":
                ctx.ob(R, bool(a) and a[0] == when, ps, f"the timer is set to {show(a[0])[:80] if a else ''} instead of the deadline", key + "at")
            else:
                ctx.ob(R, bool(a) and (a[0] == delay or not contains(a[0], ("const", 0))), ps, "the timer is set to another delay", key + "at")
            ctx.ob(R, ps.T("self._timeout_trigger") in a, ps, "the timer calls something else", key + "cb")
            st = [x for x in p.events if x.kind == "setattr" and x.name == "_timer" and norm(x.value) == norm(e.term if e.term is not None else e.value)]
            ctx.ob(R, bool(st), ps, "the timer cannot be cancelled: its handle is lost", key + "h")
            if f.get(("is", tm, NONE)) is not True:
                cn = [x for x in calls(p, "cancel") if x.base is not None and norm(x.base) in (tm, tm[1])]
                ctx.ob(R, bool(cn) or f.get(("truthy", tm)) is False, ps, f"the previous timer keeps running [{describe(p)}]", key + "old")

    for p in ps:
        if not p.normal:
            continue
        ws = [e for e in p.events if e.kind == "setattr" and e.name == "_when"]
        ctx.ob(R, len(ws) >= 1, ps, f"the deadline is not stored [{describe(p)}]", "when")
        if not ws:
            continue
        n += 1
        w = norm(ws[-1].value)
        ctx.ob(R, plus(w, delay) is not None, ps, f"the deadline is {show(w)[:80]}", "deadline")
        f = facts(p)
        none = f.get(("is", tm, NONE), None if ("truthy", tm) not in f else not f[("truthy", tm)])
        cur = ("call", ("attr", tm, "when"), (), ())
        if not arm(ps, p):
            soon = later(f, w, cur)
            ctx.ob(R, none is False and soon is False, ps, f"no timer fires at the new deadline [{describe(p)}]", "arm")
        check_arm(ps, p, w, "r")
    ctx.need(R, n, 1, "deadlines")
    ps = ctx.paths(f"{T}._timeout_trigger")
    when = ps.T("self._when")
    for p in ps:
        if not p.normal:
            continue
        cb = calls(p, "_callback")
        f = facts(p)
        early = [later(f, k, when) for k in {y for a in f if a[0] in ("lt", "le") for y in a[1:]} if k != when]
        exact(ctx, R, ps, f, when, "bound")
        if True in early:
            ctx.ob(R, not cb, ps, f"the timer fires before its deadline [{describe(p)}]", "early")
            ctx.ob(R, len(arm(ps, p)) == 1, ps, f"the timer is not set again [{describe(p)}]", "again")
        elif early:
            ctx.ob(R, len(cb) == 1, ps, f"the callback is called {len(cb)} times [{describe(p)}]", "fire")
            ctx.ob(R, not arm(ps, p), ps, "the timer fires again", "twice")
            nul = [e for e in p.events if e.kind == "setattr" and e.name == "_timer"]
            ctx.ob(R, nul and norm(nul[-1].value) == NONE and (not cb or p.events.index(nul[-1]) < p.events.index(cb[0])), ps, "the expired handle is kept: a timer set by the callback is lost", "handle")
        else:
            ctx.ob(R, not cb, ps, f"the timer fires without looking at its deadline [{describe(p)}]", "unchecked")
        check_arm(ps, p, when, "t")
    ps = ctx.paths(f"{T}.cancel")
    for p in ps:
        if not p.normal:
            continue
        f = facts(p)
        none = f.get(("is", tm, NONE), None if ("truthy", tm) not in f else not f[("truthy", tm)])
        if none is True:
            continue
        cn = [x for x in calls(p, "cancel") if x.base is not None and norm(x.base) == tm]
        st = [e for e in p.events if e.kind == "setattr" and e.name == "_timer"]
        ctx.ob(R, bool(cn), ps, "a cancelled timer still fires", "cancel")
        ctx.ob(R, st and norm(st[-1].value) == NONE, ps, "the handle of a cancelled timer is kept: the timer can never be set again", "cleared")


def counters(ctx):
    """A counter never loses or repeats counts, whatever the radio's own counter does."""
    R = "counter"
    if C not in ctx.kit.p.classes:
        return
    ps = ctx.paths(C + ".value")
    raw, base, val = ps.T("self._raw_value"), ps.T("self._last_reset_value"), ps.T("self.value")
    total = ("bin", "+", base, raw)
    for p in ps:
        if p.normal and p.ret is not None:
            ctx.ob(R, lin_eq(p.ret, total), ps, f"the value is {show(p.ret)[:80]}", "value")

    def final(p):
        s = {"_raw_value": raw, "_last_reset_value": base, "reset_count": ("attr", raw[1], "reset_count")}
        for e in p.events:
            if e.kind == "setattr" and e.name in s and e.base is not None and norm(e.base) == raw[1]:
                s[e.name] = norm(subst(norm(e.value), val, ("bin", "+", s["_last_reset_value"], s["_raw_value"])))
        return s["_raw_value"], s["_last_reset_value"], s["reset_count"]

    def inc(t):
        d = dict(linear(t))
        return d.pop(("attr", raw[1], "reset_count"), 0) == 1 and d in ({None: 1},)

    ps = ctx.paths(C + ".reset_and_update")
    v = ("param", "value")
    for p in ps:
        if p.normal:
            a, b, c = final(p)
            ctx.ob(R, lin_eq(a, v), ps, f"after a reset the raw count is {show(a)[:60]}", "reset-raw")
            ctx.ob(R, lin_eq(b, total), ps, f"a reset loses counts: {show(b)[:80]}", "reset-total")
            ctx.ob(R, inc(c), ps, f"the number of resets becomes {show(c)[:60]}", "reset-n")
    ps = ctx.paths(C + ".update", inline=(C + ".reset_and_update",))
    new = ("param", "new_value")
    for x, what in ((5, "smaller"), (9, "slightly smaller"), (11, "slightly larger"), (10, "equal"), (17, "larger")):
        k = 0
        for p in ps.scen({"self._raw_value": 10, "new_value": x}):
            a, b, c = final(p)
            k += 1
            if x < 10:
                ctx.ob(R, lin_eq(("bin", "+", a, b), ("bin", "+", total, new)) and lin_eq(a, new), ps, f"a rolled over counter becomes {show(b)[:60]} + {show(a)[:60]}", what)
                ctx.ob(R, inc(c), ps, "a roll-over is not counted", what + "n")
            else:
                ctx.ob(R, lin_eq(b, base) and (lin_eq(a, new) or x == 10 and lin_eq(a, raw)), ps, f"a {what} reading makes the counter {show(b)[:60]} + {show(a)[:60]}", what)
                ctx.ob(R, not inc(c), ps, f"a {what} reading counts as a reset", what + "n")
        ctx.need(R, k, 1, what + " reading")
    ps = ctx.paths(C + ".increment")
    for p in ps:
        if p.normal:
            a, b, c = final(p)
            ctx.ob(R, lin_eq(("bin", "+", a, b), ("bin", "+", total, ("param", "increment"))), ps, f"incrementing gives {show(a)[:60]}", "inc")
    for g in ("CounterGroup", "CounterGroups"):
        ps = ctx.paths(f"zigpy.state.{g}.__missing__")
        key = ("param", ps.func.params[1] if ps.func.params[0] == "self" else ps.func.params[0])
        for p in ps:
            if not p.normal or p.ret is None:
                continue
            r = norm(p.ret)
            if r[0] != "call":
                continue
            made = "Counter" if g == "CounterGroup" else "CounterGroup"
            ctx.ob(R, r[1] == ("glob", f"zigpy.state.{made}") and key in r[2] + tuple(x for _, x in r[3]), ps, f"a missing entry becomes {show(r)[:60]}", g)
            st = [e for e in p.events if e.kind == "setidx" and norm(e.args[0]) == key] + [e for e in calls(p, "__setitem__") if e.args and norm(e.args[0]) == key] + [e for e in calls(p, "setdefault") if e.args and norm(e.args[0]) == key]
            ctx.ob(R, bool(st), ps, "a missing entry is made anew on each access: counts are lost", g + "s")


def shared(ctx):
    """Concurrent calls share one run only when their arguments are equal; the next call runs again."""
    R = "shared-call"
    f = ctx.kit.p.funcs.get("zigpy.util.combine_concurrent_calls")
    if f is None:
        return
    fn = f.params[0]
    inner = [x for x in f.node.body if isinstance(x, (ast.AsyncFunctionDef, ast.FunctionDef))]
    made = {t.id: v for s in f.node.body if isinstance(s, (ast.Assign, ast.AnnAssign)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name) and (v := s.value) is not None}
    store = [n for n, v in made.items() if isinstance(v, ast.Dict) or isinstance(v, ast.Call) and ast.unparse(v.func).endswith("dict") or isinstance(v, ast.DictComp)]
    if len(store) != 1 or len(inner) != 1:
        return
    store, x = store[0], inner[0]
    w = Func(f.module, None, x, f.qual + "." + x.name, None)
    env = {n: ("param", n, None) for n in (fn, *made)}
    ps = ctx.paths(w, env=env, handler_inject=True, inject=("builtins.ValueError",), inject_at=lambda t, n, a: a)
    D_ = ("param", store)
    n = 0
    for p in ps:
        ins = [(norm(a)[1], v) for _, a, v in p.trail if norm(a)[0] == "in" and norm(a)[2] == D_]
        st = [e for e in p.events if e.kind == "setidx" and norm(e.base) == D_]
        dl = [e for e in p.events if e.kind == "delidx" and norm(e.base) == D_] + [e for e in calls(p, "pop") if e.base is not None and norm(e.base) == D_]
        runs = [e for e in p.events if e.kind == "call" and e.term is not None and norm(e.term)[:2] == ("call", ("param", fn))]
        if not ins:
            continue
        n += 1
        key, has = ins[0]
        ctx.ob(R, contains(key, ("param", "*args")) and contains(key, ("param", "**kwargs")), ps, f"calls are told apart by {show(key)[:100]} only", "key")
        vals = [t for t in _sub(key) if t[0] == "attr" and t[2] in ("arguments", "args", "kwargs") or t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("keys",)]
        ctx.ob(R, not vals or any(t[0] == "call" or t[2] != "args" for t in vals), ps, "calls with different keyword arguments share a result", "key3")
        ctx.ob(R, not any(t[0] == "call" for t in vals), ps, "calls with different arguments share a result", "key2")
        if has:
            ctx.ob(R, not runs and not st and not dl, ps, f"a call which is already running is {'started again' if runs else 'forgotten'}", "again")
            continue
        ctx.ob(R, len(runs) == 1, ps, f"a call runs {len(runs)} times", "run")
        for e in runs:
            a = [norm(v) for v in e.args] + [norm(v) for _, v in e.kwargs]
            ctx.ob(R, any(contains(v, ("param", "*args")) for v in a) and any(contains(v, ("param", "**kwargs")) for v in a), ps, "a call is made with other arguments", "args")
        ctx.ob(R, len(st) == 1 and norm(st[0].args[0]) == key, ps, "a running call cannot be shared", "store")
        if p.outcome.kind in ("return", "next", "raise"):
            ctx.ob(R, len(dl) == 1 and dl[0].args and norm(dl[0].args[0]) == key, ps, f"an ended call is never run again: its result is kept ({p.outcome.kind})", "drop")
            aw = [e for e in p.events if e.kind == "await"]
            if dl and aw:
                ctx.ob(R, p.events.index(dl[-1]) > p.events.index(aw[-1]), ps, "a running call is forgotten", "late")
        if p.outcome.kind == "return" and p.ret is not None:
            ctx.ob(R, norm(p.ret) != NONE, ps, "the result of a shared call is lost", "res")
    ctx.need(R, n, 0, "calls")


def _sub(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from _sub(x)


def relays(ctx):
    """A stored route has no coordinator and no repeated hop, and keeps the order of the others."""
    R = "relays"
    q = "zigpy.util.filter_relays"
    ps = ctx.paths(q, loop=1)
    el, src = ("elem", ("param", "relays")), ("param", "relays")
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r, f = norm(p.ret), facts(p)
        if r[0] != "list" or not any(e.kind == "loopiter" for e in p.events):
            continue
        zero = f.get(("eq", el, ("const", 0)), f.get(("eq", ("const", 0), el)))
        if zero is None and ("truthy", el) in f:
            zero = not f[("truthy", el)]
        ctx.ob(R, any(e.kind == "loopend" for e in p.events), ps, "the rest of the route is dropped", "end")
        if r[1]:
            ctx.ob(R, r[1] == (el,) and zero is False, ps, f"the coordinator is kept as a relay [{describe(p)}]", "zero")
        else:
            dup = [v for a, v in f.items() if a[0] == "in" and a[1] == el]
            ctx.ob(R, zero is True or True in dup, ps, f"a relay is dropped [{describe(p)}]", "drop")
    ps = ctx.paths(q, loop=2)
    for p in ps:
        if p.outcome.kind == "return" and p.ret is not None and norm(p.ret)[0] == "list" and len(norm(p.ret)[1]) == 2:
            tests = [(norm(a), v) for _, a, v in p.trail if norm(a)[0] == "in" and norm(a)[1] == el or norm(a) == ("eq", el, el)]
            ctx.ob(R, any(not v for _, v in tests), ps, "a relay is kept twice", "dup")
            part = [a for a, _ in tests if a[0] == "in" and any(t[0] == "slice" for t in _sub(a[2]))]
            ctx.ob(R, not part or any(a not in part for a, _ in tests), ps, f"a relay is only compared with some of the earlier ones: {show(part[0][2])[:60] if part else ''}", "whole")
    R = "chunks"
    ps = ctx.paths("zigpy.util.async_iterate_in_chunks", loop=2)
    for p in ps:
        ys = [e for e in p.events if e.kind == "yield"]
        rd = [e for e in calls(p, "islice")]
        last = [v for _, a, v in p.trail if norm(a)[0] == "truthy" and contains(norm(a), ("glob", "itertools.islice"))]
        if p.normal and rd:
            ctx.ob(R, last and last[-1] is False, ps, f"the iteration ends before its source does [{describe(p)}]", "end")
        for e in rd:
            a = [norm(x) for x in e.args]
            ctx.ob(R, a[:1] and a[0][0] == "call" and a[0][1] == ("glob", "builtins.iter"), ps, "each chunk starts again from the beginning", "iter")
            ctx.ob(R, a[1:] == [("param", "chunk_size")], ps, f"chunks have {show(a[1])[:40] if a[1:] else 'no'} items", "size")
        if p.normal:
            ctx.ob(R, len(ys) == len(rd) - 1, ps, f"{len(rd)} chunks are read, {len(ys)} delivered", "all")


RULES = [debouncer, timer, counters, shared, relays]
