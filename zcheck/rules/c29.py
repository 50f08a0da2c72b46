"""Outgoing frames are addressed and numbered exactly as requested."""
import ast

from .. import sendspec as S
from ..core import UNK, Obj, Sym, calls, describe, index, norm, show
from ..lib import is_const, subst
from ..walk import contains, subterms

CL, ZDO, EP, DEV, APP = S.CL, S.ZDO, S.EP, S.DEV, S.APP
PACKET = "zigpy.types.named.ZigbeePacket"
ADDR = "zigpy.types.named.AddrModeAddress"
OTA = "zigpy.ota.OTA"


def fields(ctx, ps, p, t, cls, upto=None):
    """Fields given to a dataclass instance: constructor arguments, then later assignments."""
    t = norm(t)
    if t[0] != "call" or t[1] != ("glob", cls):
        return None
    names = [n for n in ctx.p.cls(cls).annots]
    out = dict(zip(names, t[2]))
    out.update(dict(t[3]))
    for e in p.events:
        if e is upto:
            break
        if e.kind == "setattr" and e.base is not None and norm(e.base) == t:
            out[e.name] = norm(e.value)
    return out


def default(ctx, cls, name):
    """Constant default of a dataclass field, UNK otherwise."""
    c = ctx.p.cls(cls)
    for st in c.node.body:
        if isinstance(st, ast.AnnAssign) and st.target.id == name and st.value is not None:
            v = st.value
            if isinstance(v, ast.Call):
                v = next((k.value for k in v.keywords if k.arg == "default"), None)
                if v is None:
                    return UNK
            return ctx.kit.consteval(c.module, v)
    return UNK


def plain(v):
    return getattr(v, "value", v)


def value(ctx, t, asg):
    """Value of a flag or enumeration term in a scenario, as a plain number."""
    t = norm(t)
    lo = ("attr", ("self", ZDO), "LeaveOptions")
    if contains(t, lo):
        t = subst(t, lo, ("glob", f"{ZDO}.LeaveOptions"))
    if t[0] == "bin" and t[1] == "|":
        a, b = value(ctx, t[2], asg), value(ctx, t[3], asg)
        return a | b if isinstance(a, int) and isinstance(b, int) else UNK
    return plain(ctx.kit.teval(t, asg))


def frame(ctx, rule, qual, spec, *, scenario=None, base="self", sender="send_packet", **kw):
    """Every way through `qual` sends one packet whose fields are those of `spec`."""
    kw.setdefault("handler_inject", False)
    ps = ctx.paths(qual, **kw)
    asg = ps.asg(scenario or {})
    n = 0
    for p in ps:
        if not ps.consistent(p, asg):
            continue
        if p.outcome.kind == "raise":
            continue
        n += 1
        es = calls(p, sender)
        ctx.ob(rule, len(es) == 1, ps, f"{len(es)} frames are sent [{describe(p)}]", f"{qual}:count:{scenario}")
        for e in es:
            F = (ps.func, e.node)
            ctx.ob(rule, e.base is not None and norm(e.base) == ps.T(base), F, f"the frame is handed to {show(e.base) if e.base is not None else '?'}", f"{qual}:radio")
            t = norm(e.term if e.term is not None else e.value)
            ctx.ob(rule, e.awaited or any(x.kind == "await" and x.base is not None and norm(x.base) == t for x in p.events) or p.ret is not None and norm(p.ret) == t, F, "sending is never awaited", f"{qual}:await")
            arg = e.args[0] if e.args else dict(e.kwargs).get("packet")
            fs = fields(ctx, ps, p, arg, PACKET, e) if arg is not None else None
            if fs is None:
                ctx.ob(rule, False, F, f"what is sent is {show(norm(arg))[:120] if arg is not None else 'nothing'}", f"{qual}:packet")
                continue
            for k in set(spec) | set(fs):
                match(ctx, rule, ps, p, asg, F, k, fs.get(k), spec.get(k), f"{qual}:{k}:{scenario}")
    ctx.ob(rule, n >= 1, ps, f"nothing is sent in {scenario}", f"{qual}:n:{scenario}")


def match(ctx, rule, ps, p, asg, F, k, got, want, key):
    if want is None:  # not asked for: must be the default
        d = default(ctx, PACKET, k)
        v = value(ctx, got, asg)
        ok = k == "timestamp" or d is UNK or v is UNK or v == plain(d)
        ctx.ob(rule, ok, F, f"{k} of the frame is {show(got)[:80]} though nobody asks for it", key)
        return
    if isinstance(want, tuple):  # address
        mode, addr = want
        fs = fields(ctx, ps, p, got, ADDR) if got is not None else None
        if fs is None:
            ctx.ob(rule, False, F, f"{k} is {show(got)[:100] if got is not None else 'missing'}", key)
            return
        m = ctx.kit.teval(fs.get("addr_mode", ("none",)), asg)
        ctx.ob(rule, getattr(m, "name", None) == mode, F, f"{k} has address mode {getattr(m, 'name', m)}, {mode} expected", key + "m")
        a = fs.get("address")
        alts = [addr] if isinstance(addr, str) else addr
        ctx.ob(rule, a is not None and any(a == ps.T(x) for x in alts), F, f"{k} is {show(a)[:100] if a is not None else 'missing'}, {alts[0]} expected", key + "a")
        return
    if isinstance(want, int) or want is False:
        v = UNK if got is None else value(ctx, got, asg)
        if got is None:
            v = plain(default(ctx, PACKET, k))
        ctx.ob(rule, v is not UNK and v is not None and v == want, F, f"{k} is {v if v is not UNK else show(got)[:80]}, {want} expected", key)
        return
    alts = [want] if isinstance(want, str) else want
    if got is None:
        d = default(ctx, PACKET, k)
        ok = "None" in alts and d is None
    else:
        ok = any(got == ps.T(a) for a in alts)
        if not ok and "None" in alts:
            ok = ctx.kit.teval(got, asg) is None
    ctx.ob(rule, ok, F, f"{k} is {show(got)[:100] if got is not None else 'not set'}, {alts[0]} expected", key)


BODY = dict(src_ep="src_ep", tsn="sequence", profile_id="profile", cluster_id="cluster", data="t.SerializableBytes(data)", priority="priority")
ME = "self.state.node_info"


def unicast(ctx):
    """ControllerApplication.request: one packet with the caller's fields, addressing and options."""
    R = "unicast-frame"
    for use, mode, fld in ((False, "NWK", "nwk"), (True, "IEEE", "ieee")):
        for routing in (False, True):
            for ack, expect, opt in ((None, True, 0), (None, False, 1), (True, True, 1), (True, False, 1), (False, True, 0), (False, False, 0)):
                spec = dict(BODY, dst_ep="dst_ep", src=(mode, f"{ME}.{fld}"), dst=(mode, f"device.{fld}"), extended_timeout="extended_timeout", tx_options=opt,
                            source_route=["self.build_source_route_to(dest=device)", "self.build_source_route_to(device)"] if routing else "None")
                frame(ctx, R, f"{APP}.request", spec, scenario={"use_ieee": use, "self.config[conf.CONF_SOURCE_ROUTING]": routing, "ask_for_ack": ack, "expect_reply": expect})


def multicast(ctx):
    """mrequest, broadcast, group requests and the OTA notification."""
    frame(ctx, "multicast-frame", f"{APP}.mrequest", dict(BODY, src=("NWK", f"{ME}.nwk"), dst=("Group", "group_id"), tx_options=0, radius="hops", non_member_radius="non_member_radius"))
    frame(ctx, "broadcast-frame", f"{APP}.broadcast", dict(BODY, dst_ep="dst_ep", src=("NWK", f"{ME}.nwk"), dst=("Broadcast", "broadcast_address"), tx_options=0, radius="radius"))
    frame(ctx, "group-frame", "zigpy.group.Group.request",
          dict(src_ep=["self.application.get_endpoint_id(cluster, is_server_cluster=False)", "self.application.get_endpoint_id(cluster)", "self.application.get_endpoint_id(cluster, False)"], dst=("Group", ["self.group_id", "self._group_id"]), tsn="sequence",
               profile_id="profile", cluster_id="cluster", data="t.SerializableBytes(data)", radius=0, non_member_radius=3, tx_options=0), base="self.application")



def chain(ctx):
    """request() at every layer hands the next one the caller's arguments, unchanged."""
    R = "request-forwarded-unchanged"
    S.zcl_send(ctx, R, "request")
    S.zcl_commands(ctx, R)
    S.zdo_send(ctx, R, "request")
    S.ep_send(ctx, R, "request")
    S.dev_reply(ctx, R)
    S.dev_request(ctx, R)
    for q in (f"{CL}.request", f"{EP}.request", f"{DEV}.request", f"{ZDO}.request", f"{APP}.request"):
        S.defaults(ctx, R, q, expect_reply=True, use_ieee=False, ask_for_ack=None)
    for q in (f"{CL}.command", f"{CL}.general_command"):
        S.defaults(ctx, R, q, expect_reply=True)
    S.defaults(ctx, R, f"{APP}.request", extended_timeout=False)
    S.defaults(ctx, R, f"{APP}.mrequest", hops=0, non_member_radius=3)
    # extended timeouts: exactly when the frame of a sleeping or unknown device is answered
    ps = ctx.paths(f"{DEV}.request", handler_inject=False, inline=("zigpy.util.Requests.new", "zigpy.util.Request.__enter__", "zigpy.util.Request.__exit__"))
    for expect, desc, want in ((True, None, True), (True, True, True), (True, False, False), (False, None, False), (False, True, False), (False, False, False)):
        a = ps.asg({"expect_reply": expect, "self.node_desc": None if desc is None else Obj("nd"), "self.node_desc.is_end_device": desc})
        for p in ps:
            if p.normal and ps.consistent(p, a):
                for e in calls(p, "request"):
                    if e.base is not None and norm(e.base) == ps.T("self._application"):
                        v = ctx.kit.teval(S.bindings(ctx, ps, e, f"{APP}.request").get("extended_timeout", ("const", False)), a)
                        ctx.ob("extended-timeout", v is want, (ps.func, e.node), f"extended_timeout is {v} when a reply {'is' if expect else 'is not'} expected from {'an unknown' if desc is None else 'a sleeping' if desc else 'an awake'} device", f"{expect}{desc}")


def groups(ctx):
    """Group endpoints, broadcasts and their helpers hand their arguments on."""
    R = "multicast-forwarded-unchanged"
    G = "zigpy.group.GroupEndpoint"
    prof = ["zha_profile.PROFILE_ID"]
    # seen from the bottom: every group frame carries the home automation profile
    for kind in ("request", "reply"):
        S.forward(ctx, R, f"{G}.{kind}", "request", dict(profile=prof, cluster="cluster", sequence="sequence", data="data"), callee="zigpy.group.Group.request", base="self.device", inline=(f"{G}.request",))
    # the answer made up for a group request names the command which was sent
    ps = ctx.paths("zigpy.group.Group.request", handler_inject=False)
    for p in ps:
        if p.normal and p.ret is not None:
            a = dict(norm(p.ret)[3]) if norm(p.ret)[0] == "call" else {}
            c = a.get("command_id")
            bad = c is not None and any(x[0] == "idx" and x[1] == ("param", "data") for x in subterms(c))
            ctx.ob("group-answer", not bad, ps, f"the command of the answer is {show(c) if c is not None else '?'}: not where manufacturer-specific frames have it", "answer")
            ctx.ob("group-answer", "status" not in a or getattr(ctx.kit.teval(a["status"], {}), "name", None) == "SUCCESS", ps, "the answer reports a failure", "answer st")
    bc = dict(profile="profile", cluster="cluster", src_ep="src_ep", dst_ep="dst_ep", radius="radius", sequence="sequence", data="data", broadcast_address="broadcast_address")
    S.forward(ctx, R, "zigpy.device.broadcast", "broadcast", bc, callee=f"{APP}.broadcast", base="app")
    q = "zigpy.zdo.broadcast"
    ps = S.forward(ctx, R, q, "broadcast", dict(profile="0", cluster="command", src_ep="0", dst_ep="0", radius="radius", sequence="app.get_sequence()", broadcast_address="broadcast_address"), callee="zigpy.device.broadcast", noinline=("zigpy.device.broadcast",))
    for p in ps:
        if not p.normal:
            continue
        ctx.ob(R, len(calls(p, "get_sequence")) == 1, ps, "the broadcast is numbered more than once", "zdo bc tsn")
        for e in calls(p, "broadcast"):
            d = S.bindings(ctx, ps, e, "zigpy.device.broadcast").get("data")
            F = (ps.func, e.node)
            if d is None or d[0] != "bin" or d[1] != "+":
                ctx.ob(R, d is not None, F, "the broadcast carries no payload", "zdo bc data")
                continue
            seq = ps.T("app.get_sequence()")
            ctx.ob(R, contains(d[2], seq) and d[3] != d[2], F, f"the payload starts with {show(d[2])}, not with its transaction number", "zdo bc head")
            body = d[3]
            ctx.ob(R, contains(body, ps.T("types.CLUSTERS[command][1]")) or contains(body, ps.T("types.CLUSTERS[command]")), F, "the payload is not serialized with the command's types", "zdo bc types")
            ctx.ob(R, contains(d, seq) and all(any(contains(norm(x), ("param", n)) for x in [d] + [y for c in calls(p, "update") for y in list(c.args) + [v for _, v in c.kwargs]]) for n in ("*args", "**kwargs")), F, "arguments of the broadcast never reach its payload", "zdo bc args")
            # arguments given by name are put where the definition has them
            vals = [x for x in subterms(body) if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "values" and not x[2]]
            upd = [c for c in calls(p, "update") if any(contains(norm(x), ("param", "**kwargs")) for x in list(c.args) + [v for _, v in c.kwargs])]
            mixed = [x for x in vals if any(c.base is not None and norm(c.base) == x[1][1] for c in upd) or contains(x[1][1], ("param", "**kwargs"))]
            ctx.ob("broadcast-arguments-by-name", not mixed, F, "arguments given by name are serialized in the order in which the caller wrote them, not in the order of the command's definition", "zdo bc order")


def senders(ctx):
    """Helpers which build a frame of their own."""
    R = "command-arguments"
    def args(qual, target, want, base="self", minimum=1, asg=None, **kw):
        ps = ctx.paths(qual, handler_inject=False, **kw)
        a = ps.asg(asg or {})
        k = 0
        for p in ps:
            if not p.normal or not ps.consistent(p, a):
                continue
            es = [e for e in calls(p, target) if e.base is None or any(norm(e.base) == ps.T(b) for b in ([base] if isinstance(base, str) else base))]
            ctx.ob(R, len(es) == 1, ps, f"{target} is sent {len(es)} times [{describe(p)}]", f"{qual}:{target}:{asg}")
            for e in es:
                k += 1
                for i, w in enumerate(want):
                    if w is None:
                        continue
                    got = norm(e.args[i]) if i < len(e.args) else None
                    if callable(w):
                        ok = got is not None and w(ps, p, got, a)
                        w = "required value"
                    else:
                        alts = [w] if isinstance(w, str) else w
                        ok = got is not None and any(got == ps.T(x) for x in alts)
                        w = alts[0]
                    ctx.ob(R, ok, (ps.func, e.node), f"argument {i + 1} of {target} is {show(got)[:100] if got is not None else 'missing'}, {w} expected", f"{qual}:{target}:{i}:{asg}")
        ctx.ob(R, k >= minimum, ps, f"{target} is never sent", f"{qual}:{target}:n:{asg}")
        return ps
    own = ["self._device.ieee", "self.device.ieee"]
    dst = ["self.device.application.get_dst_address(cluster)", "self._device.application.get_dst_address(cluster)"]
    for kind, cmd in (("bind", "Bind_req"), ("unbind", "Unbind_req")):
        args(f"{ZDO}.{kind}", cmd, [own, "cluster.endpoint.endpoint_id", "cluster.cluster_id", dst])
        S.forward(ctx, R, f"{CL}.{kind}", kind, dict(cluster="self"), callee=f"{ZDO}.{kind}")
    for rc in (True, False):
        for rj in (True, False):
            w = (0x40 if rc else 0) | (0x80 if rj else 0)
            args(f"{ZDO}.leave", "Mgmt_Leave_req", [own, lambda ps, p, got, a, w=w: value(ctx, got, a) == w], asg={"remove_children": rc, "rejoin": rj})
    S.defaults(ctx, R, f"{ZDO}.leave", remove_children=True, rejoin=False)
    args(f"{ZDO}.permit", "Mgmt_Permit_Joining_req", ["duration", "tc_significance"])
    # destination of bindings: this coordinator, by its IEEE address
    ps = ctx.paths(f"{APP}.get_dst_address", handler_inject=False)
    k = 0
    for p in ps:
        if not p.normal or p.ret is None:
            continue
        k += 1
        r = norm(p.ret)
        got = {}
        if r[0] == "call":
            got = dict(r[3])
        for e in p.events:
            if e.kind == "setattr" and e.base is not None and norm(e.base) == r:
                got[e.name] = norm(e.value)
        ctx.ob(R, ctx.kit.teval(got.get("addrmode", ("none",)), {}) == 3, ps, "a binding destination is not given as an IEEE address and endpoint", "dst mode")
        ctx.ob(R, got.get("ieee") == ps.T("self.state.node_info.ieee"), ps, f"bindings are made to {show(got['ieee']) if 'ieee' in got else 'nothing'}", "dst ieee")
        alts = [ps.T(x) for x in ("self.get_endpoint_id(cluster.cluster_id, cluster.is_server)", "self.get_endpoint_id(cluster.cluster_id, is_server_cluster=cluster.is_server)", "self.get_endpoint_id(cluster_id=cluster.cluster_id, is_server_cluster=cluster.is_server)")]
        e = got.get("endpoint")
        if e is not None and e[0] == "call":
            ctx.ob(R, e in alts, ps, f"bindings are made to endpoint {show(e)}", "dst ep")
        else:
            ctx.ob(R, e is not None, ps, "bindings are made to no endpoint", "dst ep")
    ctx.ob(R, k >= 1, ps, "no binding destination", "dst n")
    # discovery of an unknown sender
    q = f"{APP}._discover_unknown_device"
    ps = ctx.paths(q, handler_inject=False, noinline=("zigpy.zdo.broadcast",))
    for p in ps:
        if not p.normal:
            continue
        es = calls(p, "broadcast")
        ctx.ob(R, len(es) == 1, ps, f"{len(es)} address requests for one unknown device", "disc n")
        for e in es:
            b = S.bindings(ctx, ps, e, "zigpy.zdo.broadcast")
            b.update({x: norm(v) for x, v in e.kwargs if x})
            F = (ps.func, e.node)
            pos = [norm(a) for a in e.args[4:]]
            nwk = b.get("NWKAddrOfInterest", pos[0] if pos else None)
            ctx.ob(R, nwk == ("param", "nwk"), F, f"the address asked for is {show(nwk) if nwk is not None else 'missing'}", "disc nwk")
            ctx.ob(R, b.get("app") == ps.T("self"), F, "the request goes out over another application", "disc app")
            c = ctx.kit.teval(b.get("command", ("none",)), {})
            ctx.ob(R, getattr(c, "name", None) == "IEEE_addr_req", F, f"the command is {c}", "disc cmd")
            kind = b.get("RequestType", pos[1] if len(pos) > 1 else None)
            ctx.ob(R, kind is not None and value(ctx, kind, {}) == 0, F, "the request is not for a single device's address", "disc type")


def notify(ctx):
    """The OTA notification broadcast."""
    R = "broadcast-frame"
    q = f"{OTA}.broadcast_notify"
    H = None
    ps = ctx.paths(q, handler_inject=False)
    k = 0
    for p in ps:
        if not p.normal:
            continue
        es = calls(p, "send_packet")
        ctx.ob(R, len(es) == 1 and len(calls(p, "get_sequence")) == 1, ps, f"{len(es)} notifications with {len(calls(p, 'get_sequence'))} transaction numbers", "ota n")
        for e in es:
            k += 1
            F = (ps.func, e.node)
            fs = fields(ctx, ps, p, e.args[0], PACKET, e) if e.args else None
            if fs is None:
                ctx.ob(R, False, F, "what is sent is no packet", "ota packet")
                continue
            for name, want in (("tsn", "self._application.get_sequence()"), ("src", ("NWK", "self._application.state.node_info.nwk")), ("dst", ("Broadcast", "broadcast_address")), ("src_ep", 1), ("dst_ep", 0xFF), ("profile_id", 0x0104), ("cluster_id", 0x0019), ("tx_options", 0)):
                match(ctx, R, ps, p, {}, F, name, fs.get(name), want, "ota" + name)
            d = fs.get("data")
            ctx.ob(R, d is not None, F, "the notification is empty", "ota data")
            h = S._header(d) if d is not None else None
            ha, fa = {}, {}
            if h is not None:
                ha = S.header_args(ctx, h)
                fc = ha.get("frame_control")
                fa = dict(fc[3]) if fc is not None and fc[0] == "call" else {}
            for c in calls(p, "_create_request"):
                fa = ha = {x: norm(v) for x, v in c.kwargs}
                t = norm(c.term if c.term is not None else c.value)
                parts = [x for x in subterms(d)] if d is not None else []
                ok = any(x[0] == "bin" and x[1] == "+" and contains(x[2], t) and contains(x[3], t) and x[2] != x[3] and contains(x[2], ("const", 0)) for x in parts)
                ctx.ob(R, ok, F, "the notification is not its header followed by its payload", "ota body")
            if not ha:
                continue
            ctx.ob(R, ha.get("tsn") == ps.T("self._application.get_sequence()"), F, "header and packet are numbered differently", "ota tsn")
            c = ctx.kit.teval(ha.get("command_id", ("none",)), {})
            ctx.ob(R, c is UNK or plain(c) == 0, F, f"the notification is sent as command {c}", "ota cmd")
            for name, want in (("direction", 1), ("disable_default_response", True), ("frame_type", 1), ("general", False)):
                v = value(ctx, fa[name], {}) if name in fa else UNK
                ctx.ob(R, v is UNK or v == want, F, f"the notification has {name} {v}", "ota" + name)
            ctx.ob(R, "direction" not in ha or value(ctx, ha["direction"], {}) in (1, UNK), F, "the notification travels to the server", "ota dir")
    ctx.ob(R, k >= 1, ps, "no notification is sent", "ota k")


def numbers(ctx):
    """Transaction numbers: every call moves on by one and wraps at a byte."""
    R = "transaction-numbers"
    owners = (APP, DEV, "zigpy.group.Group")
    for c in owners:
        q = f"{c}.get_sequence"
        f = ctx.p.func(q)
        ctx.ob(R, not isinstance(f.node, ast.AsyncFunctionDef), f, "numbering can be interleaved", q + "async")
        ps = ctx.paths(q)
        for old in range(256):
            a = ps.asg({"self._send_sequence": old})
            k = 0
            for p in ps:
                if not p.normal or not ps.consistent(p, a):
                    continue
                st = [e for e in p.events if e.kind == "setattr" and e.name == "_send_sequence"]
                if not st and contains(norm(p.ret), ("glob", "next")):
                    continue
                k += 1
                r = ctx.kit.teval(norm(p.ret), a)
                if r is UNK:
                    continue
                ctx.ob(R, r == (old + 1) % 256, ps, f"after {old} comes {r}", q + f"n{old}")
                v = ctx.kit.teval(norm(st[-1].value), a) if st else old
                ctx.ob(R, v is UNK or v == r, ps, f"number {r} is handed out while {v} is remembered", q + f"s{old}")
        init = ctx.paths(f"{c}.__init__", handler_inject=False)
        for p in init:
            if p.normal:
                st = [e for e in p.events if e.kind == "setattr" and e.name == "_send_sequence"]
                v = ctx.kit.teval(norm(st[-1].value), {}) if st else UNK
                ctx.ob(R, v is UNK or isinstance(v, int) and 0 <= v <= 255, init, f"numbering starts at {v}", q + "init")
                break
    for m in ctx.p.modules.values():
        if not m.name.startswith("zigpy."):
            continue
        for node in ast.walk(m.tree):
            for tgt in (node.targets if isinstance(node, ast.Assign) else [node.target] if isinstance(node, (ast.AugAssign, ast.AnnAssign)) else []):
                if isinstance(tgt, ast.Attribute) and tgt.attr == "_send_sequence":
                    own = any(fn.module is m and fn.cls is not None and fn.cls.qual in owners and fn.node.lineno <= tgt.lineno <= fn.node.end_lineno for fn in ctx.p.funcs.values())
                    ctx.ob(R, own, (m, tgt), "the numbering of outgoing frames is changed from elsewhere", f"w{m.name}")


def lookup(ctx):
    """Which device an address stands for."""
    R = "device-lookup"
    q = f"{APP}.get_device"
    ps = ctx.paths(q, handler_inject=False)
    N = "self.state.node_info.nwk"
    cases = (("by IEEE address", {"ieee": Obj("i"), "nwk": None, N: 0}, "self.devices[ieee]"),
             ("by IEEE address and the coordinator's short address", {"ieee": Obj("i"), "nwk": 0, N: 0}, "self.devices[ieee]"),
             ("by the coordinator's short address", {"ieee": None, "nwk": 0x0000, N: 0x0000}, "self.devices[self.state.node_info.ieee]"),
             ("by another short address", {"ieee": None, "nwk": 0x1234, N: 0x0000}, None))
    for name, sc, want in cases:
        a = ps.asg(sc)
        k = 0
        for p in ps:
            if not ps.consistent(p, a) or p.outcome.kind == "cut":
                continue
            if p.outcome.kind == "raise":
                if want is not None:
                    ctx.ob(R, False, ps, f"a lookup {name} fails", name)
                else:
                    ctx.ob(R, p.outcome.exc is None or "KeyError" in str(p.outcome.exc), ps, "an unknown address is not reported as KeyError", name + "ke") if hasattr(p.outcome, "exc") else None
                continue
            k += 1
            r = norm(p.ret) if p.ret is not None else ("const", None)
            if want is not None:
                ctx.ob(R, r == ps.T(want), ps, f"a lookup {name} gives {show(r)}", name)
                continue
            ok = contains(r, ps.T("self.devices")) and (r[0] == "elem" or contains(r, ("param", "nwk")))
            ctx.ob(R, ok, ps, f"a lookup {name} gives {show(r)}", name)
            if r[0] == "elem":
                eq = [(at, v) for _, at, v in p.trail if norm(at)[0] == "eq" and contains(norm(at), ("param", "nwk")) and contains(norm(at), ("attr", r, "nwk"))]
                ctx.ob(R, bool(eq) and eq[-1][1] is True, ps, "a device is found whose short address is another one", name + "eq")
        ctx.ob(R, k >= 1, ps, f"a lookup {name} finds nothing", name + "n")
    q = f"{APP}.get_device_with_address"
    ps = ctx.paths(q, handler_inject=False, noinline=(f"{APP}.get_device",))
    M = "zigpy.types.named.AddrMode"
    c = ctx.p.cls(M)
    for mode, val in (("NWK", 2), ("IEEE", 3), ("Group", 1), ("Broadcast", 15)):
        a = ps.asg({"address.addr_mode": Sym(M, mode, val)})
        k = 0
        for p in ps:
            if not ps.consistent(p, a):
                continue
            k += 1
            if mode in ("NWK", "IEEE"):
                es = calls(p, "get_device")
                ctx.ob(R, len(es) == 1 and p.ret is not None, ps, f"a {mode} address is not looked up", f"mode{mode}")
                for e in es:
                    b = S.bindings(ctx, ps, e, f"{APP}.get_device")
                    b = {x: y for x, y in b.items() if not is_const(y, None) and x != "self"}
                    ctx.ob(R, b == {mode.lower(): ps.T("address.address")}, (ps.func, e.node), f"a {mode} address is looked up as {', '.join(f'{x}={show(y)}' for x, y in b.items())}", f"arg{mode}")
            else:
                ctx.ob(R, p.outcome.kind == "raise", ps, f"a {mode} address stands for a device", f"mode{mode}")
        ctx.ob(R, k >= 1, ps, "undecided", f"moden{mode}")
    # the sender of a packet is found by the mode of its address
    q = f"{APP}.packet_received"
    ps = ctx.paths(q, noinline=("_maybe_parse_zdo", f"{APP}.get_device_with_address", f"{APP}.get_device", "schedule_initialize"), handler_inject=True)
    k = 0
    for p in ps:
        for e in calls(p, "packet_received"):
            if e.base is None or norm(e.base) == ps.T("self"):
                continue
            k += 1
            ctx.ob(R, norm(e.base) == ps.T("self.get_device_with_address(packet.src)") and [norm(x) for x in e.args] == [("param", "packet")], (ps.func, e.node), f"the frame is handed to {show(e.base)}", "sender")
    ctx.ob(R, k >= 1, ps, "no frame reaches its device", "sender n")
    # routes are given from this end
    ps = ctx.paths(f"{APP}.build_source_route_to")
    for rel in (None, Obj("r")):
        a = ps.asg({"dest.relays": rel})
        k = 0
        for p in ps:
            if p.normal and ps.consistent(p, a):
                k += 1
                r = norm(p.ret) if p.ret is not None else ("const", None)
                alts = [ps.T(x) for x in ("dest.relays[::-1]", "list(reversed(dest.relays))")]
                ok = (is_const(r, None) or r == ps.T("dest.relays")) if rel is None else r in alts
                ctx.ob("source-route", ok, ps, f"the route is {show(r)}", f"route{rel is None}")
        ctx.ob("source-route", k >= 1, ps, "no route", f"routen{rel is None}")


RULES = [unicast, multicast, chain, groups, senders, notify, numbers, lookup]
