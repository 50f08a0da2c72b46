"""Restoring advances the frame counter, incomplete backups are refused, only superseded ones are discarded."""
from ..core import calls, describe, index, norm, show
from ..lib import allfacts, data_fields, deref, emits, field_of, is_const, lin_diff, lin_eq, loops_over, truths
from ..walk import contains, subterms

M = "zigpy.backups.BackupManager"
B = "zigpy.backups.NetworkBackup"
S = "zigpy.state."


def predicates(ctx):
    """What makes a backup complete, and two backups describe the same network."""
    ps = ctx.paths(f"{B}.is_complete")
    e64, key = 111, 222
    base = {"self.node_info.ieee": 1, "self.network_info.extended_pan_id": 2, "self.network_info.pan_id": 0x1234, "self.network_info.channel": 15, "self.network_info.network_key.key": 3, "t.EUI64.UNKNOWN": e64, "t.KeyData.UNKNOWN": key, "t.ExtendedPanId.UNKNOWN": e64}
    a = lambda **kw: ps.asg({**base, **kw})  # noqa: E731
    ctx.ob("complete-needs-everything", truths(ps, a()) == {True}, ps, "a complete backup counts as incomplete", "ok")
    for f, vals in (("node_info.ieee", (e64,)), ("network_info.extended_pan_id", (e64,)), ("network_info.pan_id", (0, 0xFFFF)), ("network_info.channel", (0, 10, 27, 255)), ("network_info.network_key.key", (key,))):
        for v in vals:
            got = truths(ps, a(**{"self." + f: v}))
            ctx.ob("complete-needs-everything", got == {False}, ps, f"a backup with {f} = {'the unknown value' if v in (e64, key) else v} counts as complete", f"{f}{v}")
    for v in range(11, 27):
        ctx.ob("complete-needs-everything", truths(ps, a(**{"self.network_info.channel": v})) == {True}, ps, f"a backup on channel {v} counts as incomplete", f"ch{v}")

    ps = ctx.paths(f"{B}.is_compatible_with")
    fields = ["node_info.nwk", "node_info.logical_type", "node_info.ieee", "network_info.extended_pan_id", "network_info.pan_id", "network_info.channel", "network_info.security_level", "network_info.network_key.key", "network_info.tc_link_key.key", "network_info.nwk_update_id", "network_info.nwk_manager_id"]
    same = {}
    for k, f in enumerate(fields):
        same["self." + f] = same["backup." + f] = 10 + k
    ctx.ob("same-network", truths(ps, ps.asg(same)) == {True}, ps, "two backups of one network do not belong together", "eq")
    for f in fields:
        got = truths(ps, ps.asg({**same, "backup." + f: 99}))
        ctx.ob("same-network", got == {False}, ps, f"backups that differ in {f} count as the same network", f)
    counters = {"self.network_info.network_key.tx_counter": 5, "backup.network_info.network_key.tx_counter": 9}
    ctx.ob("same-network", truths(ps, ps.asg({**same, **counters})) == {True}, ps, "the frame counter decides whether two backups belong together", "fc")


def restore(ctx):
    opq = (f"{M}.create_backup", f"{B}.is_complete")
    ps = ctx.paths(f"{M}.restore_backup", noinline=opq, inject=("zigpy.exceptions.ZigbeeException",), inject_at=lambda t, n, a: n == "write_network_info")
    f = ps.func
    d = f.defaults().get("counter_increment") if callable(f.defaults) else f.defaults.get("counter_increment")
    v = ctx.kit.consteval(f.module, d) if d is not None else None
    ctx.ob("counter-advanced", isinstance(v, int) and v >= 1000, f, f"the default counter increment is {v}", "default")
    for fn, par, val in (("restore_backup", "allow_incomplete", False), ("restore_backup", "create_new", True), ("add_backup", "suppress_event", False)):
        g = ctx.p.func(f"{M}.{fn}")
        d = g.defaults().get(par) if callable(g.defaults) else g.defaults.get(par)
        v = ctx.kit.consteval(g.module, d) if d is not None else None
        ctx.ob("defaults", v is val, g, f"{fn}({par}=) defaults to {v}", par)
    src_net, src_node, key = ps.T("backup.network_info"), ps.T("backup.node_info"), ps.T("backup.network_info.network_key")
    n = set()
    for p in ps:
        ws = calls(p, "write_network_info")
        for complete in (True, False):
            for allow in (True, False):
                if not ps.consistent(p, ps.asg({"backup.is_complete()": complete, "allow_incomplete": allow})):
                    continue
                n.add((complete, allow))
                if complete or allow:
                    ctx.ob("incomplete-refused", len(ws) == 1, ps, f"a {'complete' if complete else 'deliberately incomplete'} backup is written {len(ws)} times [{describe(p)}]", f"w{complete}{allow}")
                else:
                    ctx.ob("incomplete-refused", not ws and not calls(p, "create_backup") and p.outcome.kind == "raise" and "ValueError" in str(p.outcome.value), ps, f"an incomplete backup is not refused [{describe(p)}]", "refuse")
        for e in ws:
            b = ps.bound(e, ("network_info", "node_info"))
            ctx.ob("counter-advanced", e.awaited, (f, e.node), "the write is not awaited", "aw")
            ni, no = b.get("network_info"), b.get("node_info")
            if ni is None or no is None:
                ctx.ob("counter-advanced", False, (f, e.node), f"written: {show(e.value)[:150]}", "args")
                continue
            ni, no = deref(ctx, p, ni), deref(ctx, p, no)
            ctx.ob("rest-unchanged", same_fields(ctx, p, no, src_node, S + "NodeInfo", ()), (f, e.node), f"the node information written is {show(no)[:150]}", "node")
            ctx.ob("rest-unchanged", same_fields(ctx, p, ni, src_net, S + "NetworkInfo", ("network_key",)), (f, e.node), f"the network information written is {show(ni)[:200]}", "net")
            k = deref(ctx, p, field_of(ctx, p, ni, "network_key"))
            ctx.ob("rest-unchanged", same_fields(ctx, p, k, key, S + "Key", ("tx_counter",)), (f, e.node), f"the network key written is {show(k)[:200]}", "key")
            c = field_of(ctx, p, k, "tx_counter")
            ctx.ob("counter-advanced", lin_eq(c, ("bin", "+", ("attr", key, "tx_counter"), ("param", "counter_increment"))), (f, e.node), f"the frame counter written is {show(c)[:150]}", "tx")
            if not e.ok:
                ctx.ob("incomplete-refused", p.outcome.kind == "raise", ps, "a failed write goes unnoticed", "fail")
            for x in p.events:
                if x.kind in ("setattr", "setidx", "delidx") and contains(norm(x.base), ("param", "backup")) and not (norm(x.base)[0] == "call"):
                    ctx.ob("rest-unchanged", False, (f, x.node), f"the stored backup is modified: {show(norm(x.base))}.{x.name}", "mut")
        if p.normal:
            for new in (True, False):
                if ps.consistent(p, ps.asg({"create_new": new})):
                    n.add(new)
                    cs = calls(p, "create_backup")
                    ctx.ob("restored-state-backed-up", len(cs) == new and all(c.awaited and ws and index(p, c) > index(p, ws[0]) for c in cs), ps, f"{len(cs)} backups are made after restoring", f"{new}")
    ctx.ob("incomplete-refused", len(n) == 6, ps, f"undecided: {n}", "n")
    ps = ctx.paths(f"{M}.create_backup", noinline=(f"{M}.add_backup", f"{M}.from_network_state"))
    for p in ps:
        ld, ad = calls(p, "load_network_info", awaited=True), calls(p, "add_backup")
        if p.normal:
            ctx.ob("restored-state-backed-up", len(ld) == 1 and len(ad) == 1 and index(p, ld[0]) < index(p, ad[0]), ps, "a backup does not hold what the radio reported", "load")
            for e in ad:
                fs = calls(p, "from_network_state")
                ctx.ob("restored-state-backed-up", len(fs) == 1 and norm(e.args[0]) == norm(fs[0].value) == norm(p.ret) and index(p, fs[0]) > index(p, ld[0]), ps, f"stores {show(e.args[0])[:80]}", "state")
                ctx.ob("restored-state-backed-up", not dict(e.kwargs) or is_const(dict(e.kwargs).get("suppress_event"), False), (ps.func, e.node), "a new backup is not announced", "quiet")
    ps = ctx.paths(f"{M}.from_network_state")
    for p in ps:
        for f in ("network_info", "node_info"):
            v = field_of(ctx, p, p.ret, f)
            ctx.ob("restored-state-backed-up", contains(v, ps.T(f"self.app.state.{f}")), ps, f"a new backup's {f} is {show(v)[:80]}", f)


def same_fields(ctx, p, t, src, cls, but):
    return all(deref(ctx, p, field_of(ctx, p, t, f)) == ("attr", src, f) for f in data_fields(ctx, cls) if f not in but)


def store(ctx):
    ps = ctx.paths(f"{M}.add_backup", loop=2, noinline=(f"{B}.is_complete", f"{B}.is_compatible_with"))
    bk = ("param", "backup")
    lst = ps.T("self.backups")
    tx = lambda b: ("attr", ("attr", ("attr", b, "network_info"), "network_key"), "tx_counter")  # noqa: E731
    n = set()
    for p in ps:
        app = [e for e in p.events if e.kind == "call" and e.base is not None and norm(e.base) == lst and e.name in ("append", "insert", "extend")]
        sa = [e for e in p.events if e.kind in ("setattr", "setidx") and (norm(e.base) == lst or norm(("attr", e.base, e.name) if e.kind == "setattr" else ("none",)) == lst)]
        rem = [e for e in p.events if e.kind == "call" and e.base is not None and norm(e.base) == lst and e.name in ("remove", "pop", "clear")] + [e for e in p.events if e.kind == "delidx" and norm(e.base) == lst]
        for e in calls(p, ("sort", "reverse", "insert", "extend")):
            ctx.ob("stored-last", norm(e.base) != lst, (ps.func, e.node), f"{e.name}() changes which backup is the newest", "reordered")
        created, removed = emits(p, "network_backup_created"), emits(p, "network_backup_removed")
        if ps.consistent(p, ps.asg({"backup.is_complete()": False})):
            n.add("inc")
            ctx.ob("incomplete-never-stored", not app and not sa and not rem and not created and not removed, ps, f"an incomplete backup is stored or replaces another [{describe(p)}]", "inc")
            continue
        if not p.normal:
            continue
        if sa and not app:
            rebuilt(ctx, ps, p, sa, n, tx)
            continue
        ctx.ob("stored-last", len(app) == 1 and app[0].name == "append" and norm(app[0].args[0]) == bk and not sa, ps, f"a new backup is not stored last [{describe(p)}]", "app")
        for sup in (True, False):
            if ps.consistent(p, ps.asg({"suppress_event": sup})):
                n.add(sup)
                ctx.ob("announced", len(created) == (0 if sup else 1) and all(tuple(norm(a) for a in e.args[1:]) == (bk,) for e in created), ps, f"a stored backup is announced {len(created)} times{' while loading' if sup else ''}", f"c{sup}")
                if not any(e.base is not None and norm(e.base) == lst for e in rem):
                    continue
                want = [] if sup else [norm(e.args[0]) for e in rem if e.args]
                ctx.ob("announced", [norm(x) for e in removed for x in e.args[1:]] == want, ps, f"removals announced: {[show(x)[:60] for e in removed for x in e.args[1:]]}, removed {[show(norm(e.args[0]))[:60] for e in rem if e.args]}", f"r{sup}")
        its = loops_over(p, lst, "loopiter")
        ends = loops_over(p, lst, "loopend")
        ctx.ob("only-superseded-removed", bool(ends) and all(any(x.node is e.node for x in ends) for e in its), ps, f"not every stored backup is considered [{describe(p)}]", "all")
        for e in its[:1]:
            b = norm(e.base)
            ctx.ob("only-superseded-removed", b != lst and not (b[0] == "call" and b[1] == ("glob", "builtins.enumerate") and norm(b[2][0]) == lst) or not rem, (ps.func, e.node), "the list is modified while it is iterated", "live")
            part = [x for x in subterms(b) if x[0] == "idx" and x[1] == lst and x[2] != ("slice", ("const", None), ("const", None), ("const", None))]
            ctx.ob("only-superseded-removed", not part, (ps.func, e.node), f"only {show(b)} is considered", "part")
        if len(its) == 1:
            old = ("elem", norm(its[0].base))
            for comp in (True, False):
                for new, o in ((5, 4), (5, 5), (5, 6), (0, 0)):
                    a = {norm(("call", ("attr", bk, "is_compatible_with"), (old,), ())): comp, norm(("call", ("attr", old, "is_compatible_with"), (bk,), ())): comp, tx(bk): new, tx(old): o}
                    if not ps.consistent(p, a, trail=True):
                        continue
                    n.add((comp, new >= o))
                    want = comp and new >= o
                    ctx.ob("only-superseded-removed", (len(rem) == 1) == want and len(rem) <= 1, ps, f"a stored backup of {'the same' if comp else 'another'} network with frame counter {o} is {'kept' if want else 'discarded'} for one with {new}", f"{comp}{new - o}")
            for e in rem:
                if e.kind == "call" and e.name == "remove":
                    ctx.ob("only-superseded-removed", norm(e.args[0]) == old, (ps.func, e.node), f"removes {show(norm(e.args[0]))}", "which")
    ctx.ob("only-superseded-removed", n >= {"inc", True, False, (True, True), (True, False), (False, True), (False, False)}, ps, f"undecided: {n}", "n")


def rebuilt(ctx, ps, p, sa, n, tx):
    """The list is replaced by a filtered copy."""
    bk = ("param", "backup")
    lst = ps.T("self.backups")
    v = norm(sa[-1].value)
    comps = [x for x in subterms(v) if x[0] == "comp" and x[3] and contains(norm(x[3][0][0]), lst)]
    ctx.ob("stored-last", contains(v, bk) and len(comps) == 1 and not (v[0] == "list" and v[1] and norm(v[1][-1]) != bk), ps, f"stored: {show(v)[:150]}", "app")
    for x in comps[:1]:
        it, conds = x[3][0]
        old = ("elem", norm(it))
        for comp in (True, False):
            for new, o in ((5, 4), (5, 5), (5, 6), (0, 0)):
                a = {norm(("call", ("attr", bk, "is_compatible_with"), (old,), ())): comp, tx(bk): new, tx(old): o}
                vals = [ps.kit._truth(ps.kit.teval(norm(c), a)) for c in conds]
                kept = all(z is True for z in vals)
                if not (kept or any(z is False for z in vals)):
                    ctx.ob("only-superseded-removed", False, ps, f"undecided which backups are kept: {show(v)[:150]}", "cond")
                    continue
                n.add((comp, new >= o))
                want = comp and new >= o
                ctx.ob("only-superseded-removed", kept != want, ps, f"a stored backup of {'the same' if comp else 'another'} network with frame counter {o} is {'kept' if want else 'discarded'} for one with {new}", f"{comp}{new - o}")
    for sup in (True, False):
        if ps.consistent(p, ps.asg({"suppress_event": sup})):
            n.add(sup)
            created = emits(p, "network_backup_created")
            ctx.ob("announced", len(created) == (0 if sup else 1), ps, f"a stored backup is announced {len(created)} times", f"c{sup}")


def newest(ctx):
    ps = ctx.paths(f"{M}.most_recent_backup")
    lst = ps.T("self.backups")
    n = 0
    for p in ps:
        r = norm(p.ret) if p.ret is not None else ("const", None)
        for some in (True, False):
            a = {lst: ("x",) if some else ()}
            a[("call", ("glob", "builtins.len"), (lst,), ())] = int(some)
            if p.normal and ps.consistent(p, a):
                n += 1
                while r[0] in ("ite", "ifexp", "cond") and len(r) == 4:
                    v = ps.kit._truth(ps.kit.teval(norm(r[1]), a))
                    r2 = norm(r[2] if v else r[3])
                    if not isinstance(v, bool):
                        break
                    r = r2
                last = r == ("idx", lst, ("const", -1)) or r[0] == "idx" and r[1] == lst and lin_eq(r[2], ("bin", "-", ("call", ("glob", "builtins.len"), (lst,), ()), ("const", 1)))
                ctx.ob("newest-restored", last if some else is_const(r, None), ps, f"the most recent of {'some' if some else 'no'} backups is {show(norm(p.ret))[:80]}", f"{some}")
                r = norm(p.ret) if p.ret is not None else ("const", None)
    ctx.ob("newest-restored", n >= 2, ps, "undecided", "n")
    A = "zigpy.application.ControllerApplication"
    ps = ctx.paths(f"{A}.initialize", inject=("zigpy.exceptions.NetworkNotFormed",), inject_at=lambda t, n, a: n == "load_network_info", handler_inject=False, noinline=(f"{M}.*", f"{A}.*", "zigpy.topology*", f"{B}.*"))
    n = set()
    for p in ps:
        ld = calls(p, "load_network_info")
        rs, fm = calls(p, "restore_backup"), calls(p, "form_network")
        bk = [norm(e.value) for e in calls(p, "most_recent_backup")]
        if ld and not ld[0].ok:
            for auto in (True, False):
                for have in (True, False):
                    if not bk or not ps.consistent(p, {**ps.asg({"auto_form": auto}), bk[0]: "BK" if have else None}):
                        continue
                    n.add((auto, have))
                    want = (0, 0) if not auto else (1, 0) if have else (0, 1)
                    ctx.ob("newest-restored", (len(rs), len(fm)) == want, ps, f"without a network, auto_form={auto}, {'a' if have else 'no'} backup: {len(rs)} restored, {len(fm)} networks formed", f"{auto}{have}")
                    if not auto:
                        ctx.ob("newest-restored", p.outcome.kind == "raise", ps, "a missing network goes unnoticed", "raise")
            for e in rs:
                a = [norm(x) for x in e.args] + [norm(x) for k, x in e.kwargs if k == "backup"]
                ctx.ob("newest-restored", e.awaited and a == bk[:1] and index(p, calls(p, "most_recent_backup")[0]) < index(p, ld[0]), (ps.func, e.node), f"restores {show(e.value)[:80]}", "which")
                kw = dict(e.kwargs)
                ctx.ob("newest-restored", not (set(kw) - {"backup", "create_new"}) or all(k != "allow_incomplete" or is_const(norm(x), False) for k, x in e.kwargs) and "counter_increment" not in kw, (ps.func, e.node), f"restores with {sorted(kw)}", "opts")
        else:
            n.add("formed")
            ctx.ob("newest-restored", not rs and not fm, ps, "a network that exists is replaced at start-up", "keep")
    ctx.ob("newest-restored", len(n) == 5, ps, f"undecided: {n}", "init")


RULES = [predicates, restore, store, newest]
