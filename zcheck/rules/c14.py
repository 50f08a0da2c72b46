"""Group membership is symmetric and every change is announced once."""
import ast

from ..core import Sym, calls, describe, index, norm, show
from ..lib import allfacts, emits, emit_args, is_const
from ..model import walk_own
from ..walk import contains, subterms

G, GS, EP, APP = "zigpy.group.Group", "zigpy.group.Groups", "zigpy.endpoint.Endpoint", "zigpy.application.ControllerApplication"
UID = "ep.unique_id"


def wr(p, base, kinds=("setidx",)):
    return [e for e in p.events if norm(e.base) == base and (e.kind in kinds or "del" in kinds and (e.kind == "delidx" or e.kind == "call" and e.name == "pop"))] if p else []


def W(p, base, dele=False):
    out = []
    for e in p.events:
        if e.base is None or norm(e.base) != base:
            continue
        if not dele and e.kind == "setidx" or dele and (e.kind == "delidx" or e.kind == "call" and e.name == "pop"):
            out.append(e)
    return out


def member(ctx):
    for name, dele, event in (("add_member", False, "member_added"), ("remove_member", True, "member_removed")):
        ps = ctx.paths(f"{G}.{name}", handler_inject=False)
        me, of = ps.T("self"), ps.T("ep.member_of")
        for has in (True, False):
            for sup in (True, False):
                a = ps.asg({f"{UID} in self": has, f"{UID} in self.members": has, "suppress_event": sup, "isinstance(ep, Endpoint)": True, "self.group_id in ep.member_of": has})
                k = 0
                lab = f"{name} ({'member' if has else 'no member'}, events {'suppressed' if sup else 'wanted'})"
                for p in ps:
                    if not p.normal or not ps.consistent(p, a):
                        continue
                    k += 1
                    mine, theirs, ev = W(p, me, dele), W(p, of, dele), emits(p)
                    real = has == dele
                    if real or not dele:
                        n = 1 if real else 0
                        ctx.ob("symmetric-links", len(mine) == n and len(theirs) == n, ps, f"{lab}: {len(mine)} changes of the group and {len(theirs)} of the endpoint [{describe(p)}]", lab)
                    for e in mine:
                        ctx.ob("symmetric-links", norm(e.args[0]) == ps.T(UID) and (dele or norm(e.value) == ("param", "ep")), (ps.func, e.node), f"{lab}: the group's entry is {show(e.args[0])}", name + "mine")
                    for e in theirs:
                        ctx.ob("symmetric-links", norm(e.args[0]) == ps.T("self.group_id") and (dele or norm(e.value)[0] == "self"), (ps.func, e.node), f"{lab}: the endpoint's entry is {show(e.args[0])}", name + "theirs")
                    want = real and not sup
                    ctx.ob("announced-once", len(ev) == (1 if want else 0), ps, f"{lab}: {len(ev)} announcements [{describe(p)}]", lab)
                    for e in ev:
                        ar = emit_args(e)
                        ctx.ob("announced-once", norm(e.args[0]) == ("const", event) and len(ar) == 2 and ar[0][0] == "self" and ar[1] == ("param", "ep"), (ps.func, e.node), f"{lab}: announces {show(e.args[0])} {[show(x) for x in ar]}", name + "args")
                        ctx.ob("announced-after-link", all(index(p, x) < index(p, e) for x in mine + theirs), (ps.func, e.node), f"{lab}: announced before the link is changed", name)
                ctx.ob("symmetric-links", k >= 1, ps, f"undecided: {lab}", lab + "n")
    # nothing else changes memberships
    n = 0
    for f in ctx.p.funcs.values():
        if not f.module.name.startswith("zigpy."):
            continue
        for x in walk_own(f.node):
            t = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                t = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "clear", "update", "setdefault", "popitem"):
                t = x.func.value
            if isinstance(t, ast.Attribute) and t.attr in ("member_of", "_member_of", "members"):
                n += 1
                ctx.ob("symmetric-links", f.cls is not None and f.cls.qual == G, (f, x), f"{f.qual} changes a membership on one side only", "w" + f.qual)
    ctx.ob("symmetric-links", n >= 2, G, "memberships are never recorded at the endpoint", "wn")


def groups(ctx):
    ps = ctx.paths(f"{GS}.add_group", handler_inject=False)
    for has in (True, False):
        for sup in (True, False):
            a = ps.asg({"group_id in self": has, "suppress_event": sup})
            k = 0
            for p in ps:
                if not p.normal or not ps.consistent(p, a):
                    continue
                k += 1
                w, ev, r = W(p, ps.T("self")), emits(p), norm(p.ret)
                lab = f"{'known' if has else 'new'} group"
                if has:
                    ctx.ob("group-added-once", not w and not ev and r == ps.T("self[group_id]"), ps, f"adding a known group changes it [{describe(p)}]", lab)
                    continue
                ok = r[0] == "call" and r[1] == ("glob", G) and r[2][:1] == (("param", "group_id"),) and ("param", "name") in [*r[2], *[v for _, v in r[3]]] and any(norm(x)[0] == "self" for x in [*r[2], *[v for _, v in r[3]]])
                ctx.ob("group-added-once", ok, ps, f"a new group is {show(r)}", lab)
                ctx.ob("group-added-once", len(w) == 1 and norm(w[0].args[0]) in (("param", "group_id"), ("attr", r, "group_id")) and norm(w[0].value) == r, ps, f"a new group is stored {len(w)} times", lab + "w")
                ctx.ob("announced-once", len(ev) == (0 if sup else 1), ps, f"a new group (events {'suppressed' if sup else 'wanted'}) is announced {len(ev)} times [{describe(p)}]", lab + str(sup))
                for e in ev:
                    ctx.ob("announced-once", norm(e.args[0]) == ("const", "group_added") and emit_args(e) == (r,) and w and index(p, w[0]) < index(p, e), (ps.func, e.node), f"announces {show(e.args[0])}", lab + "ev")
            ctx.ob("group-added-once", k >= 1, ps, "undecided", f"n{has}{sup}")
    for h, ev in (("member_added", "group_member_added"), ("member_removed", "group_member_removed")):
        ps = ctx.paths(f"{GS}.{h}", handler_inject=False)
        for p in ps:
            es = emits(p)
            ctx.ob("announced-once", len(es) == 1 and norm(es[0].args[0]) == ("const", ev) and emit_args(es[0]) == (("param", "group"), ("param", "ep")), ps, f"{h} is passed on as {[show(e.args[0]) for e in es]}", h)
    # a group passes its events to the group table
    ps = ctx.paths(f"{G}.__init__", handler_inject=False)
    for val, want in ((None, 0), (5, 1)):
        for p in ps:
            if p.normal and ps.consistent(p, ps.asg({"groups": val})):
                es = [e for e in calls(p, "add_listener") if norm(e.args[0]) == ("param", "groups")]
                ctx.ob("announced-once", len(es) == want, ps, f"a group {'of' if want else 'outside'} the table is observed {len(es)} times", f"init{val}")
    # removal
    ps = ctx.paths(f"{GS}.pop", loop=1, handler_inject=False, noinline=(f"{G}.remove_member",))
    n = m = 0
    for p in ps:
        if not p.normal:
            continue
        r = norm(p.ret)
        pops = [e for e in calls(p, "pop")]
        byobj = [v for a, v in allfacts(p) if norm(a)[0] == "isinstance" and norm(norm(a)[1]) == ("param", "item")]
        for e in pops[:1]:
            key = norm(e.args[0])
            if byobj:
                ctx.ob("group-removed", key == (ps.T("item.group_id") if byobj[0] else ("param", "item")), (ps.func, e.node), f"removing by {'object' if byobj[0] else 'number'} takes out {show(key)}", str(byobj[0]))
        isg = [v for a, v in allfacts(p) if norm(a)[0] == "isinstance" and norm(norm(a)[1]) == r]
        ev = emits(p)
        rm = calls(p, "remove_member")
        ends = [e for e in p.events if e.kind == "loopend" and contains(norm(e.base), r)]
        if isg == [True] or not isg and (ev or rm):
            n += 1
            ctx.ob("group-removed", isg == [True], ps, f"a removal is announced without a group being there [{describe(p)}]", "isg")
            ctx.ob("group-removed", len(ends) == 1, ps, f"a group is removed without taking out its members [{describe(p)}]", "members")
            ctx.ob("announced-once", len(ev) == 1 and norm(ev[0].args[0]) == ("const", "group_removed") and emit_args(ev[0]) == (r,), ps, f"the removal of a group is announced {len(ev)} times [{describe(p)}]", "gone")
            for e in rm:
                m += 1
                b = ps.bound(e) if e.callee is not None else {"ep": norm(e.args[0])}
                quiet = any(k == "suppress_event" for k, _ in e.kwargs) or len(e.args) > 1
                ctx.ob("group-removed", norm(e.base) == r and norm(e.args[0])[0] == "elem" and not quiet, (ps.func, e.node), f"members are removed by {show(e.value)[:80]}", "rm")
                it = norm(e.args[0])[1] if norm(e.args[0])[0] == "elem" else ("none",)
                live = it[0] == "call" and it[1][0] == "attr" and it[1][2] in ("values", "items", "keys")
                ctx.ob("group-removed", not live, (ps.func, e.node), "members are removed while iterating over the group", "live")
                ctx.ob("group-removed", all(index(p, x) > index(p, e) for x in ev), (ps.func, e.node), "the group's removal is announced before its members'", "order")
        else:
            ctx.ob("group-removed", not ev and not rm, ps, f"removing an unknown group announces {[show(e.args[0]) for e in ev]} [{describe(p)}]", "none")
    ctx.ob("group-removed", n >= 2 and m >= 1, ps, "undecided", "n")
    c = ctx.p.cls(GS)
    v = ctx.p.find_attr(c, "remove_group")
    ok = v is not None and isinstance(v[1], ast.Name) and v[1].id == "pop" or "remove_group" in c.methods
    ctx.ob("group-removed", ok, (c, c.node), "remove_group is something else than pop", "alias")
    if "remove_group" in c.methods:
        ps = ctx.paths(c.methods["remove_group"])
        for p in ps:
            ctx.ob("group-removed", not p.normal or len(calls(p, "pop")) == 1, ps, "remove_group does not remove the group", "alias2")


def scans(ctx):
    ps = ctx.paths(f"{GS}.update_group_membership", loop=1, handler_inject=False, noinline=(f"{G}.remove_member", f"{G}.add_member", f"{GS}.add_group"))
    grp = ("param", "groups")

    def old(t):
        """The groups that list the endpoint."""
        t = norm(t)
        if t[0] == "call" and t[1] == ("glob", "builtins.set") and t[2]:
            t = norm(t[2][0])
        if t[0] != "comp":
            return False
        conds = [norm(c) for g in t[3] for c in g[1]]
        gens = [norm(g[0]) for g in t[3]]
        body = norm(t[2])
        if len(gens) != 1 or len(conds) > 1:
            return False
        if gens[0] == ps.T("self.values()"):
            g = ("elem", gens[0])
            ok = body == ("attr", g, "group_id")
        elif gens[0] == ps.T("self.items()"):
            g = ("idx", ("elem", gens[0]), ("const", 1))
            ok = body in (("attr", g, "group_id"), ("idx", ("elem", gens[0]), ("const", 0)))
        else:
            return False
        for c in conds:
            a = c if c[0] == "in" else ("in", c[2], c[3]) if c[0] == "cmp" and c[1] == "in" else None
            ok = ok and a is not None and norm(a[1]) == ps.T(UID) and norm(a[2]) in (g, ("attr", g, "members"))
        return ok
    n = {"rm": 0, "add": 0}
    for p in ps:
        ctx.ob("scan-syncs", p.normal, ps, f"a scan fails [{describe(p)}]")
        facts = [(norm(a), v) for a, v in allfacts(p)]
        for e in calls(p, "remove_member"):
            n["rm"] += 1
            b = norm(e.base)
            ctx.ob("scan-syncs", norm(e.args[0]) == ("param", "ep") and len(e.args) == 1 and not e.kwargs, (ps.func, e.node), "another endpoint is removed", "ep")
            ok = b[0] == "idx" and b[2][0] == "elem" and b[2][1][0] == "bin" and b[2][1][1] == "-" and old(b[2][1][2]) and norm(b[2][1][3]) == grp
            gid = [b[2]] if b[0] == "idx" else [("attr", b, "group_id"), ("idx", ("elem", b[1][1]), ("const", 0)) if b[0] == "idx" and b[1][0] == "elem" else b]
            ok = ok or any(a[0] == "in" and norm(a[2]) == grp and norm(a[1]) in gid and v is False for a, v in facts)
            ctx.ob("scan-syncs", ok, (ps.func, e.node), f"a scan takes the endpoint out of {show(b)[:140]}", "rm")
        for e in calls(p, "add_member"):
            n["add"] += 1
            b = norm(e.base)
            ctx.ob("scan-syncs", norm(e.args[0]) == ("param", "ep") and len(e.args) == 1 and not e.kwargs, (ps.func, e.node), "another endpoint is added", "epa")
            gid = b[2][0] if b[0] == "call" and b[1][0] == "attr" and b[1][2] == "add_group" and len(b[2]) == 1 and not b[3] else None
            it = norm(gid[1]) if gid is not None and gid[0] == "elem" else ("none",)
            ok = it == grp or it[0] == "bin" and it[1] == "-" and norm(it[2]) == grp and old(it[3])
            ctx.ob("scan-syncs", ok, (ps.func, e.node), f"a scan puts the endpoint into {show(b)[:140]}", "add")
    for k, c in n.items():
        ctx.ob("scan-syncs", c >= 1, ps, f"a scan never calls {k}", "n" + k)

    # membership changes at the device first
    S = "zigpy.zcl.foundation.Status"
    ok = {"SUCCESS": 0, "DUPLICATE_EXISTS": 0x8A, "NOT_FOUND": 0x8B, "FAILURE": 1, "INSUFFICIENT_SPACE": 0x89, "INVALID_FIELD": 0x85}
    for q, req, accept, act in (("add_to_group", "add", {"SUCCESS", "DUPLICATE_EXISTS"}, "add_member"), ("remove_from_group", "remove", {"SUCCESS", "NOT_FOUND"}, "remove_member")):
        ps = ctx.paths(f"{EP}.{q}", handler_inject=False, noinline=(f"{G}.add_member", f"{G}.remove_member", f"{GS}.add_group"), inject=("AttributeError", "Exception"), inject_at=lambda t, n, a, req=req: n == req)
        k = {}
        for p in ps:
            rq = [e for e in calls(p, req) if norm(e.base) == ps.T("self.groups")]
            acts = calls(p, act)
            ctx.ob("confirmed-by-device", len(rq) == 1 and norm(rq[0].args[0]) == ("param", "grp_id"), ps, f"{q}: the device is asked {len(rq)} times [{describe(p)}]", q)
            if len(rq) != 1:
                continue
            if not rq[0].ok:
                ctx.ob("confirmed-by-device", not acts and not calls(p, "add_group"), ps, f"{q}: recorded although the request failed [{describe(p)}]", q + "fail")
                continue
            st = ("idx", norm(rq[0].term if rq[0].term is not None else rq[0].value), ("const", 0))
            for name, v in ok.items():
                a = {st: Sym(S, name, v)}
                a.update(ps.asg({"grp_id in self.device.application.groups": True}))
                if not p.normal or not ps.consistent(p, a):
                    continue
                k[name] = 1
                ctx.ob("confirmed-by-device", len(acts) == (1 if name in accept else 0), ps, f"{q}: answer {name} is recorded {len(acts)} times [{describe(p)}]", q + name)
                if name not in accept:
                    ctx.ob("confirmed-by-device", not calls(p, "add_group"), ps, f"{q}: a group is created on answer {name}", q + name + "g")
                r = norm(p.ret)
                ctx.ob("confirmed-by-device", r == st or getattr(ctx.kit.teval(r, a), "name", None) == name, ps, f"{q}: answer {name} is returned as {show(r)}", q + "ret")
            for e in acts:
                ctx.ob("confirmed-by-device", norm(e.args[0])[0] == "self" and not e.kwargs and len(e.args) == 1 and contains(norm(e.base), ("param", "grp_id")), (ps.func, e.node), f"{q}: {show(e.value)[:80]}", q + "act")
                ctx.ob("confirmed-by-device", rq[0].awaited or any(x.kind == "await" for x in p.events), (ps.func, e.node), f"{q}: the answer is not awaited", q + "aw")
        for name in ok:
            ctx.ob("confirmed-by-device", name in k, ps, f"{q}: undecided for {name}", q + "n" + name)
    ps = ctx.paths(f"{EP}.group_membership_scan", handler_inject=False, noinline=(f"{GS}.update_group_membership",), inject=("AttributeError", "asyncio.TimeoutError", "zigpy.exceptions.DeliveryError"), inject_at=lambda t, n, a: n == "get_membership")
    n = 0
    for p in ps:
        u = calls(p, "update_group_membership")
        bad = [e for e in calls(p, "get_membership") if not e.ok]
        ctx.ob("scan-syncs", p.normal, ps, f"a failed scan raises [{describe(p)}]", "scanraise")
        ctx.ob("scan-syncs", not bad or not u, ps, "a failed scan changes memberships", "scanfail")
        dfl = [v for a, v in allfacts(p) if norm(a)[0] == "isinstance"]
        if not bad:
            n += 1
            ctx.ob("scan-syncs", bool(dfl) and (len(u) == (0 if dfl[0] else 1)), ps, f"the answer of a device {'without group support' if dfl and dfl[0] else ''} syncs {len(u)} times [{describe(p)}]", "dfl")
            for e in u:
                g = calls(p, "get_membership")[0]
                want = ("idx", norm(g.term if g.term is not None else g.value), ("const", 1))
                ctx.ob("scan-syncs", norm(e.args[0])[0] == "self" and contains(norm(e.args[1]), want), (ps.func, e.node), f"syncs {show(e.args[1])[:100]}", "u")
    ctx.ob("scan-syncs", n >= 2, ps, "undecided", "scann")


def lifetime(ctx):
    """Loading announces nothing; a removed device leaves its groups."""
    n = 0
    for f in ctx.p.funcs.values():
        if f.module.name == "zigpy.appdb":
            for x in walk_own(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("add_group", "add_member"):
                    n += 1
                    i = 2 if x.func.attr == "add_group" else 1
                    kw = [k.value for k in x.keywords if k.arg == "suppress_event"] + x.args[i:i + 1]
                    ctx.ob("load-silent", len(kw) == 1 and isinstance(kw[0], ast.Constant) and kw[0].value is True, (f, x), f"loading announces {x.func.attr}")
    ctx.ob("load-silent", n >= 2, "zigpy.appdb", "groups are not loaded", "n")
    ps = ctx.paths(f"{APP}.remove", loop=1, handler_inject=False, noinline=(f"{G}.remove_member",), scenario={"self.devices.get(ieee)": True})
    k = m = 0
    for p in ps:
        for e in emits(p, "device_removed"):
            dev = emit_args(e)[0]
            k += 1
            rm = calls(p, "remove_member")
            over = [x for x in p.events if x.kind in ("loopend", "loopiter") and contains(norm(x.base), dev) and "endpoints" in show(norm(x.base))]
            ctx.ob("removed-device-leaves", bool(over), ps, f"a removed device stays in its groups [{describe(p)}]", "loop")
            for x in rm:
                m += 1
                ctx.ob("removed-device-leaves", contains(norm(x.args[0]), dev) and index(p, x) < index(p, e), (ps.func, x.node), "another endpoint is removed", "ep")
    ctx.ob("removed-device-leaves", k >= 1 and m >= 1, ps, "a removed device stays in its groups", "n")


RULES = [member, groups, scans, lifetime]
