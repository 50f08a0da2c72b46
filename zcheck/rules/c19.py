"""Forming a network: configured settings, else fresh random ones; joining stays limited; channel migration."""
from ..core import UNK, Obj, calls, describe, index, norm, show
from ..lib import allfacts, deref, field_of, is_const, lin_eq
from ..walk import contains, subterms

A = "zigpy.application.ControllerApplication"
OPQ = ("zigpy.backups.*", "zigpy.application.*", "zigpy.zdo.*")
SECURE = ("os.urandom", "secrets.token_bytes")
C = lambda v: ("const", v)  # noqa: E731


def rnd_calls(t):
    """Random sources in a term: (secure?, call term)."""
    out = []
    for x in subterms(t):
        if x[0] != "call":
            continue
        q = x[1][1] if x[1][0] == "glob" else None
        if q in SECURE or q and q.startswith("secrets."):
            out.append((True, x))
        elif q and q.startswith("random.") and q != "random.SystemRandom":
            out.append((False, x))
        elif x[1][0] == "attr" and x[1][1][0] == "call" and x[1][1][1] == ("glob", "random.SystemRandom"):
            out.append((True, x))
        elif q in ("uuid.uuid1", "uuid.uuid4", "time.time", "time.monotonic", "builtins.hash", "builtins.id"):
            out.append((False, x))
    return out


def span(ctx, x):
    """(low, high) of a random integer draw, None when unknown."""
    m = x[1][1].split(".")[-1] if x[1][0] == "glob" else x[1][2]
    a = [ctx.kit.teval(norm(v), {}) for v in x[2]]
    if any(v is UNK or not isinstance(v, int) for v in a):
        return None
    if m == "randint" and len(a) == 2:
        return a[0], a[1]
    if m == "randrange" and a:
        return (0, a[0] - 1) if len(a) == 1 else (a[0], a[1] - 1)
    if m == "randbelow" and a:
        return 0, a[0] - 1
    if m in ("getrandbits", "randbits") and a:
        return 0, 2 ** a[0] - 1
    return None


def form(ctx):
    ps = ctx.paths(f"{A}.form_network", noinline=OPQ, inject=("zigpy.exceptions.NetworkNotFormed",), inject_at=lambda t, n, a: n == "start_network", handler_inject=False)
    cfg = lambda k: ps.T(f"self.config[conf.CONF_NWK][conf.{k}]")  # noqa: E731
    K = {k: cfg(v) for k, v in dict(channel="CONF_NWK_CHANNEL", channels="CONF_NWK_CHANNELS", pan="CONF_NWK_PAN_ID", epid="CONF_NWK_EXTENDED_PAN_ID", key="CONF_NWK_KEY", tc="CONF_NWK_TC_ADDRESS", upd="CONF_NWK_UPDATE_ID", seq="CONF_NWK_KEY_SEQ", tclk="CONF_NWK_TC_LINK_KEY").items()}
    n = set()
    for p in ps:
        if p.outcome.kind == "raise":
            continue
        rs = calls(p, "restore_backup")
        ctx.ob("network-written-once", len(rs) == 1 and rs[0].awaited, ps, f"forming a network writes {len(rs)} networks [{describe(p)}]", "once")
        if len(rs) != 1:
            continue
        e = rs[0]
        b = ps.bound(e, ("backup", "counter_increment", "allow_incomplete", "create_new"))
        bk = b.get("backup")
        if bk is None:
            ctx.ob("network-written-once", False, (ps.func, e.node), f"forms {show(e.value)[:80]}", "arg")
            continue
        ni, no = deref(ctx, p, field_of(ctx, p, bk, "network_info")), deref(ctx, p, field_of(ctx, p, bk, "node_info"))
        f = lambda name: deref(ctx, p, field_of(ctx, p, ni, name))  # noqa: E731
        key, tclk = f("network_key"), f("tc_link_key")
        k = lambda t, name: deref(ctx, p, field_of(ctx, p, t, name))  # noqa: E731
        vals = {"channel": f("channel"), "pan": f("pan_id"), "epid": f("extended_pan_id"), "key": k(key, "key"), "tc": k(tclk, "partner_ieee"), "upd": f("nwk_update_id"), "seq": k(key, "seq"), "tclk": k(tclk, "key")}
        for name in ("upd", "seq", "tclk"):
            ctx.ob("configured-settings-used", strip(vals[name]) == K[name], (ps.func, e.node), f"{name} is {show(vals[name])[:80]}", name)
        for name in ("pan", "epid", "key"):
            if rnd_calls(strip(vals[name])):
                absent = [(norm(a), v) for _, a, v in p.trail]
                ctx.ob("configured-settings-used", (("is", K[name], C(None)), True) in absent or (("truthy", K[name]), False) in absent or not any(contains(a, K[name]) for a, _ in absent), (ps.func, e.node), f"a configured {name} can be replaced by a random one", name + "absent")
        for name in ("channel", "pan", "epid", "key", "tc"):
            for given in (True, False):
                if not ps.consistent(p, {K[name]: Obj("v") if given else None}):
                    continue
                n.add((name, given))
                v = strip(vals[name])
                if given:
                    ctx.ob("configured-settings-used", v == K[name], (ps.func, e.node), f"the configured {name} is replaced by {show(v)[:80]}", name)
                elif name in ("key", "epid"):
                    r = rnd_calls(v)
                    want = 16 if name == "key" else 8
                    ctx.ob("fresh-random", len(r) == 1 and r[0][0], (ps.func, e.node), f"the {name} is {show(v)[:80]}: not drawn from the secure random source", name)
                    if len(r) == 1:
                        src = r[0][1]
                        ctx.ob("fresh-random", src[1][0] == "glob" and src[1][1] in SECURE and src[2] == (C(want),) and v == src, (ps.func, e.node), f"the {name} is {show(v)[:80]}", name + "len")
                elif name == "pan":
                    r = rnd_calls(v)
                    ctx.ob("fresh-random", len(r) == 1 and r[0][0], (ps.func, e.node), f"the PAN ID is {show(v)[:80]}: not drawn from the secure random source", name)
                    if len(r) == 1:
                        sp = span(ctx, r[0][1])
                        off = 0 if v == r[0][1] else None
                        for d in range(0, 3):
                            if off is None and lin_eq(v, ("bin", "+", r[0][1], C(d))):
                                off = d
                        ctx.ob("pan-id-valid", sp is None or off is None or 0x0001 <= sp[0] + off and sp[1] + off <= 0xFFFE, (ps.func, e.node), f"the PAN ID is drawn from {sp}", "range")
                        ctx.ob("pan-id-valid", sp is None or off is None or sp[1] - sp[0] >= 0x3FFF, (ps.func, e.node), f"the PAN ID is drawn from {sp}", "wide")
                elif name == "channel":
                    ctx.ob("channel-from-set", contains(v, K["channels"]), (ps.func, e.node), f"the channel is {show(v)[:100]}: not one of the configured channels", "set")
                    if contains(v, ("glob", "zigpy.util.pick_optimal_channel")):
                        pc = [x for x in subterms(v) if x[0] == "call" and x[1] == ("glob", "zigpy.util.pick_optimal_channel")][0]
                        a = pc[2][1] if len(pc[2]) > 1 else dict(pc[3]).get("channels")
                        ctx.ob("channel-from-set", a is not None and contains(norm(a), K["channels"]), (ps.func, e.node), f"the channel is picked by {show(pc)[:120]}", "pick")
                        n.add("pick")
                else:
                    ctx.ob("configured-settings-used", v == ps.T("t.EUI64.UNKNOWN"), (ps.func, e.node), f"the trust center address is {show(v)}", "tc")
        cm = f("channel_mask")
        ch = vals["channel"]
        ctx.ob("channel-from-set", cm[0] == "call" and cm[1][0] == "attr" and cm[1][2] == "from_channel_list" and norm(cm[2][0]) == ("list", (ch,)), (ps.func, e.node), f"the channel mask of a network on {show(ch)[:50]} is {show(cm)[:80]}", "mask")
        inc = b.get("counter_increment")
        ctx.ob("counters-start-at-zero", inc is not None and is_const(norm(inc), 0), (ps.func, e.node), f"a new network's frame counter is advanced by {show(inc) if inc else 'the default'}", "inc")
        for t, w in ((key, "network key"), (tclk, "trust center link key")):
            for c in ("tx_counter", "rx_counter"):
                v = k(t, c)
                ctx.ob("counters-start-at-zero", is_const(v, 0) or v[0] == "default", (ps.func, e.node), f"the {c} of a new {w} is {show(v)[:60]}", c)
        for c in ("children", "key_table"):
            ctx.ob("network-starts-empty", f(c) in (("list", ()), ("default", "zigpy.state.NetworkInfo", c)), (ps.func, e.node), f"a new network has {c} {show(f(c))[:60]}", c)
        ctx.ob("network-starts-empty", f("nwk_addresses") in (("dict", ()), ("default", "zigpy.state.NetworkInfo", "nwk_addresses")), (ps.func, e.node), f"a new network has addresses {show(f('nwk_addresses'))[:60]}", "addr")
        ctx.ob("network-written-once", k(no, "logical_type") == ps.T("zdo_types.LogicalType.Coordinator") and strip(k(no, "nwk")) == C(0) and k(no, "ieee") == ps.T("t.EUI64.UNKNOWN"), (ps.func, e.node), f"the node written is {show(no)[:120]}", "node")
        ctx.ob("network-written-once", strip(f("security_level")) == C(5) and strip(f("nwk_manager_id")) == C(0), (ps.func, e.node), f"security level {show(f('security_level'))[:40]}, network manager {show(f('nwk_manager_id'))[:40]}", "sec")
        ctx.ob("network-written-once", is_const(norm(b.get("allow_incomplete", C(False))), True), (ps.func, e.node), "a new network (whose address is unknown) cannot be written", "inc")
        for x in p.events:
            if x.kind == "call" and x.name in ("debug", "info", "warning", "error", "exception", "print"):
                ctx.ob("key-not-logged", not any(contains(norm(y), vals["key"]) for y in x.args), (ps.func, x.node), "the network key is logged", "log")
        for fast in (True, False):
            if not ps.consistent(p, ps.asg({"fast": fast})):
                continue
            n.add(("fast", fast))
            new = norm(b.get("create_new", C(True)))
            ctx.ob("ephemeral-network", ps.kit._truth(ps.kit.teval(new, ps.asg({"fast": fast}))) is (not fast), (ps.func, e.node), f"a{'n ephemeral' if fast else ''} network is{' ' if fast else ' not '}backed up", f"{fast}")
            if fast:
                ctx.ob("ephemeral-network", not calls(p, "energy_scan") and not calls(p, "form_network") and not calls(p, "start_network"), ps, "forming an ephemeral network needs a network", "loop")
            ss = f("stack_specific")
            ctx.ob("ephemeral-network", ("form_quickly" in show(ss) or any(x.kind == "setidx" and x.args[0] == C("form_quickly") for x in p.events)) == fast, ps, f"stack-specific settings: {show(ss)[:80]}", f"q{fast}")
        for x in calls(p, "form_network"):
            ctx.ob("ephemeral-network", is_const(norm(dict(x.kwargs).get("fast", C(False))), True), (ps.func, x.node), "forming a network repeats itself", "rec")
    ctx.ob("configured-settings-used", len(n) == 13, ps, f"undecided: {n}", "n")
    ps = ctx.paths("zigpy.util.pick_optimal_channel", loop=1)
    for p in ps:
        if p.normal:
            r = norm(p.ret) if p.ret is not None else C(None)
            src = r
            while src[0] in ("idx", "elem") or src[0] == "call" and src[2]:
                if src[0] == "call":
                    fn = src[1][1] if src[1][0] == "glob" else ""
                    src = src[2][0] if fn in ("builtins.min", "builtins.max", "builtins.sorted", "builtins.list", "builtins.next", "builtins.iter", "builtins.tuple", "builtins.set") else ("none",)
                else:
                    src = src[1]
            if src[0] == "comp" and len(src[3]) == 1:
                src = src[3][0][0]
            ctx.ob("channel-from-set", src == ("param", "channels"), ps, f"the optimal channel is {show(r)[:100]}: not one of the given channels", "optimal")


def strip(t):
    """Value without type conversions."""
    while t is not None and t[0] == "call" and t[1][0] == "glob" and t[1][1].startswith("zigpy.types.") and len(t[2]) == 1 and not t[3]:
        t = norm(t[2][0])
    return t


def migrate(ctx):
    ps = ctx.paths(f"{A}.move_network_to_channel", loop=2, noinline=OPQ)
    ch, old = ps.T("self.state.network_info.channel"), ps.T("self.state.network_info.nwk_update_id")
    n = set()
    for p in ps:
        bc, mv, ld = calls(p, "broadcast"), calls(p, "_move_network_to_channel") + calls(p, "Mgmt_NWK_Update_req"), calls(p, "load_network_info")
        first = ps.trail_eq(p, ch) if hasattr(ps, "trail_eq") else [v for _, at, v in p.trail if norm(at)[0] == "eq" and {norm(at)[1], norm(at)[2]} == {ch, ("param", "new_channel")}]
        if first and first[0]:
            n.add("same")
            ctx.ob("migration-order", not bc and not mv, ps, "moving to the current channel disturbs the network", "same")
            continue
        its = [e for e in p.events if e.kind == "loopiter" and contains(norm(e.base), ("param", "num_broadcasts"))]
        ends = [e for e in p.events if e.kind == "loopend" and contains(norm(e.base), ("param", "num_broadcasts"))]
        if p.normal:
            ctx.ob("migration-order", len(bc) == len(its) and bool(ends), ps, f"{len(its)} of the broadcasts send {len(bc)} messages", "num")
            ctx.ob("migration-order", len(mv) == 1 and mv[0].awaited and all(index(p, e) < index(p, mv[0]) for e in bc), ps, "the coordinator moves before the network is told" if mv else "the coordinator does not move", "order")
            ctx.ob("migration-visible", bool(first) and first[-1] and len(first) >= 2, ps, "the migration counts as finished before the channel has changed", "wait")
        seen = 0
        for e in p.events:
            if e.kind == "call" and e.name == "load_network_info":
                seen += 1
                ctx.ob("migration-visible", e.awaited, (ps.func, e.node), "the settings are not read", "aw")
        if len(first) >= 2:
            ctx.ob("migration-visible", seen >= len(first) - 2 and (seen or len(first) == 2), ps, "waiting for the channel change never reads the settings again", "poll")
            n.add("wait")
        for e in bc:
            n.add("bc")
            kw = dict(e.kwargs)
            ctx.ob("migration-order", e.awaited and norm(kw.get("command", e.args[1] if len(e.args) > 1 else C(None))) == ps.T("zigpy.zdo.types.ZDOCmd.Mgmt_NWK_Update_req"), (ps.func, e.node), f"broadcasts {show(e.value)[:80]}", "cmd")
            ad = norm(kw.get("broadcast_address", C(None)))
            ctx.ob("migration-order", ad == ps.T("zigpy.types.BroadcastAddress.ALL_DEVICES"), (ps.func, e.node), f"the migration is announced to {show(ad)}", "addr")
            update(ctx, ps, p, e, [norm(x) for x in list(kw.values()) + list(e.args)], old)
        for e in mv:
            n.add("mv")
            kw = {k: norm(v) for k, v in e.kwargs}
            if e.name == "_move_network_to_channel":
                a = [norm(x) for x in e.args]
                c, u = kw.get("new_channel", a[0] if a else None), kw.get("new_nwk_update_id", a[1] if len(a) > 1 else None)
                ctx.ob("migration-order", c == ("param", "new_channel"), (ps.func, e.node), f"the coordinator moves to {show(c) if c else None}", "mvc")
                ident(ctx, ps, e, u, old)
            else:
                update(ctx, ps, p, e, [norm(x) for x in list(kw.values()) + list(e.args)], old)
        for e in calls(p, "sleep"):
            pass
    ctx.ob("migration-order", n >= {"same", "bc", "mv", "wait"}, ps, f"undecided: {n}", "n")
    ps = ctx.paths(f"{A}._move_network_to_channel", noinline=OPQ)
    for p in ps:
        rq = calls(p, "Mgmt_NWK_Update_req")
        ctx.ob("migration-order", not p.normal or len(rq) == 1 and rq[0].awaited, ps, "the coordinator is not moved", "self")
        for e in rq:
            update(ctx, ps, p, e, [norm(x) for x in e.args] + [norm(v) for _, v in e.kwargs], None)


def update(ctx, ps, p, e, args, old):
    up = [x for a in args for x in subterms(a) if x[0] == "call" and x[1] == ("glob", "zigpy.zdo.types.NwkUpdate")]
    if not ctx.ob("migration-order", len(up) == 1, (ps.func, e.node), f"sends {show(e.value)[:80]}", "upd"):
        return
    f = dict(up[0][3])
    ctx.ob("migration-order", f.get("ScanDuration") == ps.T("zigpy.zdo.types.NwkUpdate.CHANNEL_CHANGE_REQ"), (ps.func, e.node), "the message is not a channel change request", "dur")
    sc = f.get("ScanChannels", C(None))
    ctx.ob("migration-order", sc[0] == "call" and sc[1][0] == "attr" and sc[1][2] == "from_channel_list" and sc[2] == (("list", (("param", "new_channel"),)),), (ps.func, e.node), f"the new channel is {show(sc)[:80]}", "chan")
    ident(ctx, ps, e, f.get("nwkUpdateId"), old)


def ident(ctx, ps, e, u, old):
    if old is None:
        ctx.ob("migration-order", u == ("param", "new_nwk_update_id"), (ps.func, e.node), f"the update identifier is {show(u) if u else None}", "id")
        return
    for v in (0, 5, 253):
        got = ps.kit.teval(norm(u), {old: v}) if u is not None else None
        ctx.ob("migration-order", got == v + 1, (ps.func, e.node), f"the update identifier after {v} is {got}", "id")
    got = ps.kit.teval(norm(u), {old: 254}) if u is not None else None
    ctx.ob("migration-order", got in (0, 255), (ps.func, e.node), f"the update identifier after 254 is {got}", "idw")
    got = ps.kit.teval(norm(u), {old: 255}) if u is not None else None
    ctx.ob("migration-order", isinstance(got, int) and 0 <= got <= 255, (ps.func, e.node), f"the update identifier after 255 is {got}", "idm")


def permit(ctx):
    ps = ctx.paths(f"{A}.permit", assert_raises=True, handler_inject=False, inject=("KeyError",), inject_at=lambda t, n, a: n == "get_device", noinline=OPQ)
    n = set()
    for p in ps:
        sent = [e for e in p.events if e.kind == "call" and e.name in ("permit", "permit_ncp", "broadcast", "Mgmt_Permit_Joining_req")]
        for ti in (-1, -100, 255, 1000):
            if ps.consistent(p, ps.asg({"time_s": ti}), trail=True):
                n.add("bad")
                ctx.ob("permit-bounded", p.outcome.kind == "raise" and not sent, ps, f"joining can be permitted for {ti} seconds", f"{ti}")
        for ti in (0, 1, 254):
            if not ps.consistent(p, ps.asg({"time_s": ti}), trail=True):
                continue
            for node in (False, True):
                for own in (True, False):
                    a = ps.asg({"time_s": ti, "node": Obj("ieee") if node else None})
                    for _, at, _ in p.trail:
                        x = norm(at)
                        if x[0] == "eq" and contains(x, ps.T("self.state.node_info.ieee")):
                            a[x] = own
                    if not ps.consistent(p, a, trail=True):
                        continue
                    if not node and own:
                        continue
                    n.add((node, own))
                    handled = any(e.kind == "handler" for e in p.events)
                    bc, ncp, dv = [e for e in sent if e.name == "broadcast"], [e for e in sent if e.name == "permit_ncp"], [e for e in sent if e.name in ("permit", "Mgmt_Permit_Joining_req")]
                    if not node:
                        ctx.ob("permit-where-asked", len(bc) == 1 and len(ncp) == 1 and not dv and p.normal, ps, f"permitting joins everywhere sends {[e.name for e in sent]}", "all")
                    elif own:
                        ctx.ob("permit-where-asked", not bc and not dv and len(ncp) == 1, ps, f"permitting joins through the coordinator sends {[e.name for e in sent]}", "own")
                    else:
                        ctx.ob("permit-where-asked", not bc and not ncp and len(dv) == (0 if handled else 1), ps, f"permitting joins through one router sends {[e.name for e in sent]}", "one")
        for e in sent:
            a = [norm(x) for x in e.args] + [norm(x) for _, x in e.kwargs]
            ctx.ob("permit-where-asked", e.awaited and a.count(("param", "time_s")) == 1, (ps.func, e.node), f"joining is permitted by {show(e.value)[:80]}", "time")
            if e.name == "broadcast":
                pos = [norm(x) for x in e.args]
                ctx.ob("permit-where-asked", len(pos) < 6 or pos[2:] == [C(0), C(0), ("param", "time_s"), C(0)], (ps.func, e.node), f"broadcasts {show(e.value)[:100]}", "bcargs")
                ctx.ob("permit-where-asked", ps.T("zdo_types.ZDOCmd.Mgmt_Permit_Joining_req") in a and norm(dict(e.kwargs).get("broadcast_address", C(None))) == ps.T("t.BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR"), (ps.func, e.node), f"broadcasts {show(e.value)[:100]}", "bc")
            if e.name == "permit":
                g = [x for x in subterms(norm(e.base)) if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "get_device"]
                g0 = dict(g[0][3]).get("ieee", C(None)) if g else C(None)
                ctx.ob("permit-where-asked", bool(g) and contains(g0, ("param", "node")), (ps.func, e.node), f"joining is permitted through {show(norm(e.base))[:80]}", "dev")
    ctx.ob("permit-bounded", n == {"bad", (True, True), (True, False), (False, False)}, ps, f"undecided: {n}", "n")
    ps = ctx.paths("zigpy.zdo.ZDO.permit", noinline=("zigpy.zdo.*",))
    for p in ps:
        rq = calls(p, "Mgmt_Permit_Joining_req")
        d = norm(rq[0].args[0]) if rq and rq[0].args else norm(dict(rq[0].kwargs).get("PermitDuration", C(None))) if rq else None
        ctx.ob("permit-where-asked", len(rq) == 1 and d == ("param", "duration"), ps, f"a router is asked to permit joining for {show(d) if d else 'nothing'}", "zdo")


def startup(ctx):
    ps = ctx.paths(f"{A}.initialize", inject=("zigpy.exceptions.DeliveryError",), inject_at=lambda t, n, a: n == "permit", handler_inject=False, noinline=OPQ + ("zigpy.topology*", "zigpy.ota*"))
    n = set()
    for p in ps:
        pm, st = calls(p, "permit"), calls(p, "start_network")
        if p.normal:
            n.add("ok")
            ctx.ob("startup-closes-joining", len(pm) == 1 and pm[0].awaited and (list(pm[0].args) + [v for _, v in pm[0].kwargs])[:1] == [C(0)], ps, "start-up leaves joining open", "close")
            ctx.ob("startup-closes-joining", bool(st) and bool(pm) and index(p, st[-1]) < index(p, pm[0]), ps, "joining is closed before the network runs", "order")
        if pm and not pm[0].ok:
            for st_ in (ctx.kit.enum_value("zigpy.types.named.MACStatus", "MAC_CHANNEL_ACCESS_FAILURE"), 0xE9):
                hs = [norm(at) for _, at, _ in p.trail if norm(at)[0] == "eq" and "MACStatus.MAC_CHANNEL_ACCESS_FAILURE" in show(norm(at))]
                if not hs:
                    ctx.ob("startup-closes-joining", not p.normal, ps, "a failure to close joining goes unnoticed", "any")
                    continue
                h = hs[0]
                v = [v for _, at, v in p.trail if norm(at) == h][0]
                n.add(v)
                ctx.ob("startup-closes-joining", p.normal == v or p.outcome.kind == "cut", ps, "a failure to close joining goes unnoticed" if p.normal else "interference prevents start-up", f"{v}")
    ctx.ob("startup-closes-joining", "ok" in n, ps, f"undecided: {n}", "n")


RULES = [form, migrate, permit, startup]
