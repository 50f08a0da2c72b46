"""A failing listener never affects the emitter or other listeners."""
import ast

from ..core import calls, describe, index, norm, show
from ..lib import allfacts, is_const
from ..model import walk_own
from ..walk import contains, subterms

LM = "zigpy.util.ListenableMixin"
SNAP = {"tuple", "list", "sorted", "set", "frozenset", "copy"}


def snapshot(t):
    """Is the iterable a copy rather than a live view?"""
    t = norm(t)
    if t[0] in ("list", "tuple", "comp"):
        return True
    return t[0] == "call" and (t[1][0] == "glob" and t[1][1].split(".")[-1] in SNAP or t[1][0] == "attr" and t[1][2] == "copy")


def deliver(ctx):
    for name in ("listener_event", "async_event"):
        ps = ctx.paths(f"{LM}.{name}", loop=1, handler_inject=False, inject=("Exception",), inject_at=lambda t, n, a: n in ("?", "method", None))
        store = ps.T("self._listeners")
        n = {"ok": 0, "fail": 0, "none": 0}
        for p in ps:
            its = [e for e in p.events if e.kind == "loopiter" and contains(norm(e.base), store)]
            if not its:
                continue
            it = norm(its[0].base)
            item = ("elem", it)
            ctx.ob("every-listener-called", snapshot(it), (ps.func, its[0].node), f"{name} iterates over {show(it)}: a listener that (un)registers during delivery breaks it", name + "snap")
            whole = any(x[0] in ("idx", "slice") and x[1] != item and contains(x[1], store) and not contains(x, item) for x in subterms(it)) or any(x[0] == "comp" and x[3] and any(g[1] for g in x[3]) for x in subterms(it))
            ctx.ob("every-listener-called", not whole, (ps.func, its[0].node), f"{name} leaves out listeners: {show(it)}", name + "all")
            ms = [x for a, _ in allfacts(p) for x in [norm(a)] if x[0] == "is" and x[2] == ("const", None) and norm(x[1])[0] == "call" and "getattr" in show(norm(x[1]))]
            cs = [e for e in p.events if e.kind == "call" and (e.name in ("?", "method") or e.term is not None and norm(e.term)[1][0] == "call") and any(contains(norm(a), ("param", "*args")) for a in e.args)]
            cs = [e for e in cs if e.name not in ("debug", "warning", "error", "info", "exception", "getattr", "gather")]
            fails = [e for e in cs if not e.ok]
            ctx.ob("emitter-unaffected", p.normal, ps, f"an exception of a listener reaches the code that announced the event [{describe(p)}]", name)
            done = any(e.kind == "loopend" and norm(e.base) == it for e in p.events)
            ctx.ob("every-listener-called", done or not p.normal, ps, f"delivery stops after a listener {'that raised' if fails else ''} [{describe(p)}]", name + "stop")
            if len(ms) != 1:
                ctx.ob("every-listener-called", False, ps, f"undecided: whether the listener implements the event [{describe(p)}]", name + "impl")
                continue
            m = norm(ms[0][1])
            own = m[2][:2] == (("idx", item, ("const", 0)), ("param", "method_name")) and is_const(m[2][2] if len(m[2]) > 2 else None, None)
            ctx.ob("every-listener-called", own, ps, f"the listener's method is {show(m)[:100]}", name + "m")
            isn = [v for a, v in allfacts(p) if norm(a) == ms[0]][0]
            if isn:
                n["none"] += 1
                ctx.ob("every-listener-called", not cs, ps, "a listener that does not implement the event is called", name + "none")
                continue
            ctx.ob("every-listener-called", len(cs) == 1, ps, f"a listener is called {len(cs)} times [{describe(p)}]", name + "once")
            n["fail" if fails else "ok"] += 1
            cx = ("idx", item, ("const", 1))
            for v in (True, False):
                if ps.consistent(p, {cx: v}):
                    for e in cs:
                        args = [norm(a) for a in e.args]
                        want = ([("self", LM)] if v else []) + [("star", ("param", "*args"))]
                        ok = [a[:1] if a[0] == "self" else a for a in args] == [w[:1] if w[0] == "self" else w for w in want] or [show(a) for a in args] == (["self"] if v else []) + ["(star *args)"]
                        ctx.ob("every-listener-called", ok, (ps.func, e.node), f"a listener {'with' if v else 'without'} context gets {[show(a) for a in args]}", name + f"args{v}")
            if name == "async_event" and p.normal:
                g = [e for e in calls(p, "gather")]
                ok = len(g) == 1 and dict((k, norm(v)) for k, v in g[0].kwargs).get("return_exceptions") == ("const", True)
                ctx.ob("emitter-unaffected", ok, ps, "failures of awaited listeners are not collected", "gather")
        for k, c in n.items():
            ctx.ob("every-listener-called", c >= 1, ps, f"undecided: {k}", name + "n" + k)
        over = [f for f in ctx.p.funcs.values() if f.name == name and f.cls is not None and f.cls.qual != LM and f.module.name.startswith("zigpy.")]
        for f in over:
            ctx.ob("emitter-unaffected", any(isinstance(x, ast.Call) and "super" in ast.unparse(x.func) for x in walk_own(f.node)), f, f"{f.qual} replaces the delivery of events", "over")


def register(ctx):
    ps = ctx.paths(f"{LM}._add_listener", loop=2, private=False)
    store = ps.T("self._listeners")
    n = 0
    for p in ps:
        if not p.normal:
            continue
        n += 1
        s = [e for e in p.events if e.kind == "setidx" and norm(e.base) == store]
        ctx.ob("registers-beside", len(s) == 1, ps, f"a listener is stored {len(s)} times")
        for e in s:
            k = norm(e.args[0])
            free = any(norm(a) == ("in", k, store) and v is False for a, v in allfacts(p)) or "next(" in show(k) or "count" in show(k)
            ctx.ob("registers-beside", free, (ps.func, e.node), f"listener number {show(k)} may displace another listener [{describe(p)}]", "free")
            v = norm(e.value)
            ctx.ob("registers-beside", v[0] == "tuple" and tuple(norm(x) for x in v[1]) == (("param", "listener"), ("param", "include_context")), (ps.func, e.node), f"stores {show(v)}", "val")
    ctx.ob("registers-beside", n >= 1, ps, "listeners are not stored", "n")
    for q, c in (("add_listener", False), ("add_context_listener", True)):
        ps = ctx.paths(f"{LM}.{q}", noinline=(f"{LM}._add_listener",))
        for p in ps:
            if p.normal:
                es = calls(p, "_add_listener")
                ctx.ob("registers-beside", len(es) == 1 and ps.bound(es[0]).get("listener") == ("param", "listener") and is_const(ps.bound(es[0]).get("include_context"), c), ps, f"{q} does not register the listener", q)
    ps = ctx.paths(f"{LM}.remove_listener", loop=2)
    n = 0
    for p in ps:
        if not p.normal:
            ctx.ob("removes-exactly", False, ps, f"removing a listener raises [{describe(p)}]", "raise")
            continue
        its = [e for e in p.events if e.kind == "loopiter"]
        ds = [e for e in p.events if e.kind == "delidx" and norm(e.base) == store or e.kind == "call" and e.name == "pop" and e.base is not None and norm(e.base) == store]
        others = [e for e in p.events if e.kind == "call" and e.name in ("clear", "popitem") or e.kind == "setattr"]
        ctx.ob("removes-exactly", not others, ps, "removing a listener removes others", "others")
        for e in ds:
            n += 1
            i = index(p, e)
            last = [x for x in its if index(p, x) < i]
            ctx.ob("removes-exactly", bool(last), (ps.func, e.node), "a listener is removed by something else than its identity", "loop")
            if not last:
                continue
            it = norm(last[-1].base)
            key, obj = ("idx", ("elem", it), ("const", 0)), ("idx", ("idx", ("elem", it), ("const", 1)), ("const", 0))
            same = any(norm(a)[0] == "is" and {norm(norm(a)[1]), norm(norm(a)[2])} == {obj, ("param", "listener")} and v is True for a, v in e.facts.items())
            ctx.ob("removes-exactly", norm(e.args[0]) == key and same, (ps.func, e.node), f"removes listener {show(e.args[0])[:60]} without having found that it is the given object [{describe(p)}]", "is")
            more = [x for x in p.events[i + 1:] if x.kind in ("loopiter", "loopend") and norm(x.base) == it]
            ctx.ob("removes-exactly", not more or snapshot(it), (ps.func, e.node), "iteration goes on over the table that was just changed", "live")
    ctx.ob("removes-exactly", n >= 1, ps, "listeners are not removed", "n")


def per_instance(ctx):
    c = ctx.p.cls(LM)
    f = c.methods.get("__init__")
    ps = ctx.paths(f, handler_inject=False)
    for p in ps:
        if p.normal:
            s = [e for e in p.events if e.kind == "setattr" and e.name == "_listeners"]
            ctx.ob("own-table", len(s) == 1 and norm(s[0].value)[0] in ("dict", "call"), ps, "an emitter does not get its own listener table")
    n = 0
    for k in ctx.p.classes.values():
        if not k.module.name.startswith("zigpy.") or k.qual == LM or c not in ctx.p.mro(k):
            continue
        n += 1
        g = k.methods.get("__init__")
        if g is None:
            continue
        ok = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__init__" for x in walk_own(g.node)) or \
            any(isinstance(x, ast.Attribute) and x.attr == "_listeners" and isinstance(x.ctx, ast.Store) for x in walk_own(g.node))
        ctx.ob("own-table", ok, g, f"{k.name} does not set up its listener table", k.qual)
        bad = "_listeners" in k.attrs if hasattr(k, "attrs") else False
        ctx.ob("own-table", not bad, g, f"{k.name} shares one listener table", k.qual + "c")
    ctx.need("own-table", n, 8, "classes that announce events")


RULES = [deliver, register, per_instance]
