"""A response resolves only the matching outstanding request, once."""
import ast

from ..core import UNK, Sym, calls, describe, ev_callee, index, norm, sets, show
from ..lib import allfacts, emits, is_const, root
from ..model import walk_own
from ..walk import contains, subterms
from . import c06

DEV = "zigpy.device.Device"
APP = "zigpy.application.ControllerApplication"
REQS = "zigpy.util.Requests"
STD = {"type(self).deserialize is not Device.deserialize": False, 'getattr(self.deserialize, "__func__", None) is not Device.deserialize': False}
PEND = ("attr", ("self", DEV), "_pending")
ZCLH = "zigpy.zcl.foundation.ZCLHeader"


def received(ctx, inject, names, **kw):
    return ctx.paths(f"{DEV}.packet_received", scenario=STD, handler_inject=False, loop=1, inject=inject,
                     inject_at=lambda t, n, a: n in names, **kw)


def decode(t):
    """The decoding call whose result's first or second element `t` is: (call, index)."""
    t = norm(t)
    if t[0] == "idx" and t[1][0] == "call" and t[1][1][0] == "attr" and t[1][1][2] == "deserialize" and t[2][0] == "const":
        return t[1], t[2][1]
    return None, None


def header_of(t):
    """`<header>.<field>` -> the header term."""
    for x in subterms(norm(t)):
        if decode(x)[1] == 0:
            return x
    return None


def facts(p):
    return [(norm(a), v) for a, v in allfacts(p)]


def outstanding(fs):
    """(key, held) for the test whether a number is outstanding."""
    out = []
    for a, v in fs:
        if a[0] == "in" and a[2] == PEND:
            out.append((a[1], v))
        if a[0] == "is" and is_const(a[2], None) and a[1][0] == "call" and a[1][1] == ("attr", PEND, "get"):
            out.append((a[1][2][0], not v))
    return out


def isreply(ctx, fs):
    """Was the frame found to travel in the reply direction? True/False/None."""
    zcl = ep0 = None
    for a, v in fs:
        if a[0] == "isinstance" and decode(a[1])[1] == 0:
            if "ZCLHeader" in show(a[2]):
                zcl = v
            elif "ZDOHeader" in show(a[2]):
                zcl = not v
        if a[0] == "eq" and ("attr", ("param", "packet"), "dst_ep") in (a[1], a[2]) and (is_const(a[1], 0) or is_const(a[2], 0)):
            ep0 = v
    if zcl is not None and ep0 is not None and zcl == ep0:
        return "infeasible"
    if zcl is None and ep0 is not None:
        zcl = not ep0
    res = {}
    for a, v in fs:
        if a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == "attr" and x[2] == "direction" and header_of(x) is not None:
                    d = ctx.kit.teval(y, {})
                    if isinstance(d, Sym):
                        res["zcl"] = v if d.name == "Server_to_Client" else (not v)
        if a[0] == "truthy" and a[1][0] == "attr" and a[1][2] == "is_reply" and header_of(a[1]) is not None:
            res["zdo"] = v
        if a[0] == "truthy" and a[1][0] == "attr" and a[1][2] == "direction" and header_of(a[1]) is not None:
            res["zcl"] = v
    if zcl is True:
        return res.get("zcl")
    if zcl is False:
        return res.get("zdo")
    return None if len(set(res.values())) != 1 else list(res.values())[0]


SETS = ("set_result", "set_exception", "cancel")


def settles(p):
    """Events that complete something taken from the outstanding table."""
    return [e for e in p.events if e.kind == "call" and e.name in SETS and e.base is not None and contains(norm(e.base), PEND)]


def matching(ctx):
    ps = received(ctx, ("ValueError", "Exception"), ("deserialize",))
    n = nerr = nno = 0
    for p in ps:
        fs = facts(p)
        ss = settles(p)
        failed = [e for e in calls(p, "deserialize") if not e.ok]
        held = outstanding(fs)
        rep = isreply(ctx, fs)
        if rep == "infeasible":
            continue
        match = bool(held) and all(v for _, v in held) and rep is True
        passed = any(e.kind == "call" and e.name in ("resolve", "handle_message") for e in p.events)
        if not ss and p.normal and (passed or bool(held) and all(v for _, v in held) or rep is True):
            ctx.ob("reply-completes-request", rep is False or any(not v for _, v in held), ps, f"a frame is passed by although it may be the reply to an outstanding request [{describe(p)}]", "passed")
        for e in ss:
            ctx.ob("only-matching-reply-completes", match, (ps.func, e.node),
                   f"an outstanding request is completed without {'the number being outstanding' if not held or not all(v for _, v in held) else 'the frame being a reply'} [{describe(p)}]")
            keys = [k for k, _ in held]
            b = norm(e.base)
            ent = [x for x in subterms(b) if x[0] == "idx" and x[1] == PEND] + [x for x in subterms(b) if x[0] == "call" and x[1] == ("attr", PEND, "get")]
            key = None
            if ent:
                key = ent[0][2] if ent[0][0] == "idx" else ent[0][2][0]
            ok = key is not None and key in keys and key[0] == "attr" and key[2] == "tsn" and header_of(key) is not None
            ctx.ob("matched-by-transaction-number", ok, (ps.func, e.node), f"the request filed under {show(key) if key else '?'} is completed")
            # header and payload come from this frame
            h = header_of(key) if key is not None else None
            if h is not None:
                ctx.ob("matched-by-transaction-number", any(x == ("param", "packet") for x in subterms(h)), (ps.func, e.node), "the transaction number does not come from the received frame", "frame")
            ctx.ob("matched-by-transaction-number", b[0] == "attr" and b[2] == "result", (ps.func, e.node), f"{show(b)} is completed instead of the request's result", "result")
        if match:
            reached = emits(p) + [e for e in p.events if e.kind == "call" and e.name in ("resolve", "handle_message") and e.name != "debug"]
            ctx.ob("reply-not-dispatched-twice", not reached, ps, "a reply that completed a request also reaches listeners or handlers")
            # distinguish header failures (never get here) from payload failures
            bad = any(not e.ok for e in failed)
            if bad:
                nerr += 1
                ok = len(ss) == 1 and ss[0].name == "set_exception" and ss[0].args and not is_const(norm(ss[0].args[0]), None)
                ctx.ob("undecodable-reply-fails-requester", ok, ps, f"an undecodable reply leaves its requester {'waiting' if not ss else 'with ' + ss[0].name} [{describe(p)}]")
            else:
                n += 1
                ok = len(ss) == 1 and ss[0].name == "set_result"
                ctx.ob("reply-completes-request", ok, ps, f"a decoded reply completes its request {len(ss)} times [{describe(p)}]")
                if ok:
                    c, i = decode(ss[0].args[0])
                    ctx.ob("reply-completes-request", i == 1 and c is not None and ("param", "packet") in list(subterms(c)) and not c[1][1][0] == "glob", (ps.func, ss[0].node),
                           "the requester receives something else than the decoded payload of the frame", "payload")
        elif held or rep is not None:
            nno += 1
            ctx.ob("only-matching-reply-completes", not ss, ps, "an outstanding request is completed by another frame", "none")
            if not failed and rep is False:
                ctx.ob("non-replies-dispatched", any(e.name == "handle_message" and e.kind == "call" for e in p.events), ps, f"a frame that is not a reply is swallowed [{describe(p)}]")
    ctx.ob("reply-completes-request", n >= 2, ps, "no path completes a request with a decoded reply", "n")
    ctx.ob("undecodable-reply-fails-requester", nerr >= 2, ps, "no path fails the requester of an undecodable reply", "n")
    ctx.ob("only-matching-reply-completes", nno >= 4, ps, "whether a number is outstanding and the direction of a frame are not told apart", "n")


def duplicates(ctx):
    """A reply for a request that is already settled is ignored without error."""
    ps = received(ctx, ("asyncio.InvalidStateError",), SETS)
    n = 0
    for p in ps:
        bad = [e for e in settles(p) if not e.ok]
        guarded = [e for e in settles(p) if any(v is False and a[0] == "truthy" and a[1][0] == "call" and a[1][1][0] == "attr" and a[1][1][2] == "done" for a, v in facts(p))]
        if bad and not guarded:
            n += 1
            ctx.ob("late-reply-ignored", p.normal and len(settles(p)) == 1 and not [e for e in p.events if e.name in ("resolve", "handle_message") and e.kind == "call"], ps,
                   f"a duplicate reply {'raises' if not p.normal else 'is handled further'} [{describe(p)}]")
        elif guarded:
            n += 1
    ctx.ob("late-reply-ignored", n >= 2, ps, "no settled request is handled", "n")


def directions(ctx):
    # ZDO: the reply bit of the command identifier
    q = "zigpy.zdo.types.ZDOHeader.is_reply"
    ps = ctx.paths(q)
    for cmd, want in ((0x8000, True), (0x0000, False), (0x8036, True), (0x0036, False), (0x7FFF, False)):
        k = 0
        for p in ps:
            for field in ("self._command_id", "self.command_id"):
                a = ps.asg({"self._command_id": cmd, "self.command_id": cmd})
            if not p.normal or not ps.consistent(p, a):
                continue
            v = ctx.kit.teval(norm(p.ret), a)
            v = ctx.kit._truth(v) if v is not UNK else UNK
            k += 1
            ctx.ob("zdo-reply-direction", v is want, ps, f"command 0x{cmd:04x} is {'not ' if want else ''}taken for a reply")
        ctx.ob("zdo-reply-direction", k >= 1, ps, "undecided", "n")
    ps = ctx.paths("zigpy.zdo.types.ZDOHeader.deserialize", handler_inject=False)
    for p in ps:
        if p.normal and p.ret is not None:
            r = norm(p.ret)
            h = r[1][0] if r[0] in ("tuple", "list") and isinstance(r[1], tuple) and r[1] and isinstance(r[1][0], tuple) else r
            ctx.ob("zdo-reply-direction", contains(r, ("param", "command_id")), ps, "the header's command does not come from the frame's cluster identifier", "cmd")
    # ZCL: direction bit values
    for name, val in (("Client_to_Server", 0), ("Server_to_Client", 1)):
        ctx.ob("zcl-reply-direction", ctx.kit.enum_value("zigpy.zcl.foundation.Direction", name) == val, "zigpy.zcl.foundation.Direction", f"{name} is not {val}")
    ps = ctx.paths(f"{ZCLH}.direction")
    for p in ps:
        ctx.ob("zcl-reply-direction", p.normal and norm(p.ret) == ps.T("self.frame_control.direction"), ps, "the header's direction is not its frame control's")


def per_device(ctx):
    f = ctx.p.func(f"{DEV}.__init__")
    n = 0
    for x in walk_own(f.node):
        tg = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AnnAssign) and x.value is not None else []
        if any(isinstance(t, ast.Attribute) and t.attr == "_pending" for t in tg):
            n += 1
            v = x.value
            ok = isinstance(v, ast.Call) and not v.args and not v.keywords
            ctx.ob("outstanding-table-per-device", ok and ast.unparse(v.func).split(".")[-1] == "Requests", (f, x), "the device's table of outstanding requests is not its own")
    ctx.ob("outstanding-table-per-device", n == 1, f, "the device does not create its own table of outstanding requests", "n")
    d = ctx.p.cls(DEV)
    others = 0
    for fn in ctx.p.funcs.values():
        for x in walk_own(fn.node):
            if isinstance(x, ast.Attribute) and x.attr == "_pending" and (fn.cls is None or fn.cls.qual not in (DEV, "zigpy.util.Request", "zigpy.util.Requests")):
                others += 1
                ctx.ob("outstanding-table-per-device", False, (fn, x), "another class reaches into a table of outstanding requests", fn.qual)
    c = ctx.p.cls(REQS)
    ctx.ob("outstanding-table-per-device", not any(isinstance(s, (ast.Assign, ast.AnnAssign)) and getattr(s, "value", None) is not None for s in c.node.body), REQS, "outstanding requests are stored on the class", "cls")


def routing(ctx):
    """The device whose table is consulted is the one the frame's source address names."""
    ps = ctx.paths(f"{APP}.packet_received", noinline=(f"{APP}._maybe_parse_zdo",), handler_inject=False)
    n = 0
    want = ps.T("self.get_device_with_address(packet.src)")
    for p in ps:
        for e in calls(p, "packet_received"):
            n += 1
            ctx.ob("routed-by-source", norm(e.base) == want and [norm(a) for a in e.args] == [("param", "packet")], (ps.func, e.node), f"the frame is handed to {show(e.base)}")
        ctx.ob("routed-by-source", len(calls(p, "packet_received")) <= 1, ps, "a frame is handled twice", "twice")
    ctx.ob("routed-by-source", n >= 2, ps, "frames are not handed to their device", "n")
    ps = ctx.paths(f"{APP}.get_device_with_address", inline=(f"{APP}.get_device",), loop=1)
    modes = {m: ctx.kit.teval(ps.T(f"t.AddrMode.{m}"), {}) for m in ("NWK", "IEEE", "Group", "Broadcast")}
    for m, val in modes.items():
        k = 0
        for p in ps:
            a = ps.asg({"address.addr_mode": val, "address.address": _obj(), "address.address is None": False, "address.address is not None": True})
            if not ps.consistent(p, a):
                continue
            k += 1
            if p.outcome.kind == "raise":
                continue
            r = norm(p.ret) if p.ret is not None else None
            if m == "IEEE":
                ok = r == ps.T("self.devices[address.address]")
            elif m == "NWK":
                fs = facts(p)
                addr = ps.T("address.address")
                ok = False
                for at, v in fs:
                    if v and at[0] == "eq" and addr in (at[1], at[2]):
                        o = at[2] if at[1] == addr else at[1]
                        if o == ps.T("self.state.node_info.nwk") and r == ps.T("self.devices[self.state.node_info.ieee]"):
                            ok = True
                        if o[0] == "attr" and o[2] == "nwk" and o[1] == r and r[0] == "elem":
                            ok = True
            else:
                ok = False
            ctx.ob("address-mode-honoured", ok, ps, f"{m} address resolves to {show(r) if r else None} [{describe(p)}]", m)
        ctx.ob("address-mode-honoured", k >= 1, ps, f"{m} undecided", m + "n")


def _obj():
    from ..core import Obj
    return Obj("address")


def unique(ctx):
    """Second request with an outstanding number is refused (the table entry object)."""
    c06.entry_object(ctx)


RULES = [matching, duplicates, directions, per_device, routing, unique]


RESPONSES = {"Read_Attributes_rsp", "Write_Attributes_rsp", "Configure_Reporting_rsp", "Read_Reporting_Configuration_rsp", "Default_Response",
             "Discover_Attributes_rsp", "Write_Attributes_Structured_rsp", "Discover_Commands_Received_rsp", "Discover_Commands_Generated_rsp",
             "Discover_Attribute_Extended_rsp"}


def table_directions(ctx):
    """A command is a reply when its definition says so: reports are not, whatever side sends them."""
    m = ctx.p.modules["zigpy.zcl.foundation"]
    n = 0
    for st in m.tree.body:
        tg = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []
        if any(isinstance(t, ast.Name) and t.id == "GENERAL_COMMANDS" for t in tg) and isinstance(st.value, ast.Dict):
            for k, v in zip(st.value.keys, st.value.values):
                name = ast.unparse(k).split(".")[-1]
                d = [ast.unparse(kw.value).split(".")[-1] for kw in v.keywords if kw.arg == "direction"] if isinstance(v, ast.Call) else []
                n += 1
                want = "Server_to_Client" if name in RESPONSES or name.endswith("_rsp") else "Client_to_Server"
                ctx.ob("general-command-direction", d == [want], (m, k), f"general command {name} is defined as {d}", name)
    ctx.need("general-command-direction", n, 15, "general commands")
    ps = ctx.paths("zigpy.zcl.Cluster.deserialize", handler_inject=False)
    H = ps.T("foundation.ZCLHeader")
    n = 0
    for p in ps:
        if not p.normal:
            continue
        hd = [e for e in calls(p, "deserialize") if norm(e.base) == H]
        sch = [e for e in calls(p, "deserialize") if norm(e.base) != H]
        if not hd:
            ctx.ob("direction-from-definition", False, ps, "a frame is decoded without its header", "hdr")
            continue
        hdr = ("idx", norm(hd[0].value if hd[0].value is not None else hd[0].term), ("const", 0))
        r = norm(p.ret) if p.ret is not None else ("none",)
        items = r[1] if r[0] == "tuple" else ()
        ctx.ob("direction-from-definition", len(items) == 2 and items[0] == hdr, ps, f"{show(items[0]) if items else '?'} is returned as the header", "ret")
        fs = facts(p)
        for e in sch:
            n += 1
            b = norm(e.base)                  # <table>[id].schema
            cmd = b[1] if b[0] == "attr" and b[2] == "schema" else None
            ds = [x for x in sets(p, "direction") if norm(x.base) == ("attr", hdr, "frame_control") or norm(x.base) == hdr]
            ctx.ob("direction-from-definition", cmd is not None and len(ds) == 1 and norm(ds[0].value) == ("attr", cmd, "direction"), (ps.func, e.node),
                   f"the header keeps the direction the sender claimed instead of the command's [{describe(p)}]")
            if cmd is not None and cmd[0] == "idx":
                tbl = cmd[1]
                ctx.ob("command-table-by-direction", cmd[2] == ("attr", hdr, "command_id"), (ps.func, e.node), "another command is looked up", "id")
                clu = [v for a, v in fs if a[0] == "eq" and any(x[0] == "attr" and x[2] in ("frame_type",) for x in a[1:]) and "CLUSTER_COMMAND" in show(a)] + \
                      [v for a, v in fs if a[0] == "truthy" and a[1][0] == "attr" and a[1][2] == "is_cluster"] + [not v for a, v in fs if a[0] == "truthy" and a[1][0] == "attr" and a[1][2] == "is_general"]
                s2c = [v if "Server_to_Client" in show(a) else not v for a, v in fs if a[0] == "eq" and any(x[0] == "attr" and x[2] == "direction" for x in a[1:])]
                if tbl[0] == "attr" and tbl[2] in ("client_commands", "server_commands"):
                    ok = clu[:1] == [True] and s2c[:1] == [tbl[2] == "client_commands"]
                else:
                    ok = clu[:1] == [False] and tbl == ps.T("foundation.GENERAL_COMMANDS")
                ctx.ob("command-table-by-direction", ok, (ps.func, e.node), f"the command is looked up in {show(tbl)} [{describe(p)}]")
    ctx.ob("direction-from-definition", n >= 3, ps, "no command is decoded", "n")


RULES.append(table_directions)
