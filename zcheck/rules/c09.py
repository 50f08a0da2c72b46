"""Malformed or unexpected frames are contained."""
import ast

from ..core import UNK, Sym, calls, describe, ev_callee, index, norm, sets, show
from ..lib import allfacts, assumed, emits, is_const
from ..model import walk_own
from ..walk import contains, subterms
from . import c07

DEV, APP = c07.DEV, c07.APP
EP = "zigpy.endpoint.Endpoint"
CL = "zigpy.zcl.Cluster"
DISPATCH = ("resolve", "handle_message", "set_result", "listener_event", "handle_join", "handle_leave", "schedule_initialize")
BOOK = {"last_seen", "lqi", "rssi"}


def dispatched(p):
    return [e for e in p.events if e.kind == "call" and e.name in DISPATCH and "Logg" not in show(e.base or ("none",))]


def changes(p):
    """Device state changed on a path (other than the frame's own decoded objects)."""
    return [e for e in p.events if e.kind in ("setattr", "setidx", "delidx") and norm(e.base)[0] in ("self", "attr", "idx", "elem") and any(x[0] == "self" for x in subterms(norm(e.base)))
            and not (e.kind == "setattr" and e.name in BOOK)]


def decoding(ctx):
    n = h = 0
    ps = c07.received(ctx, ("ValueError", "Exception"), ("deserialize",))
    for p in ps:
        bad = [e for e in calls(p, "deserialize") if not e.ok]
        if not bad:
            continue
        e = bad[0]
        header = "Header" in show(e.base)
        kind = [x.name for x in p.events if x.kind == "handler"]
        if header and p.outcome.kind == "raise" and p.outcome.value[1] == "Exception":
            continue        # header decoders only raise the value error (C26)
        if header:
            h += 1
        else:
            n += 1
        ctx.ob("decode-error-contained", p.normal, (ps.func, e.node), f"a frame that cannot be decoded raises out of the packet entry point [{describe(p)}]", str(header))
        d = dispatched(p)
        ctx.ob("undecodable-not-dispatched", not d, (ps.func, d[0].node if d else e.node), f"a frame that cannot be decoded reaches {[x.name for x in d]} [{describe(p)}]")
        ch = changes(p)
        ctx.ob("undecodable-changes-nothing", not ch, (ps.func, ch[0].node if ch else e.node), f"a frame that cannot be decoded changes {[x.name for x in ch]}")
    ctx.ob("decode-error-contained", n >= 4, ps, "failures of payload decoders are not handled", "n")
    ctx.ob("decode-error-contained", h >= 2, ps, "failures of header decoders are not handled", "h")


def unknown(ctx):
    ps = c07.received(ctx, (), ())
    e = 'packet.src_ep in self.endpoints'
    ep = 'self.endpoints[packet.src_ep]'
    dup = {}
    rows = [
        ("unknown endpoint", {e: False, "packet.dst_ep": 1, "packet.src_ep": 3}, False),
        ("unknown endpoint, ZDO", {e: False, "packet.dst_ep": 0, "packet.src_ep": 3}, False),
        ("unknown cluster", {e: True, "packet.dst_ep": 1, "packet.src_ep": 3, f"packet.cluster_id in {ep}.in_clusters": False, f"packet.cluster_id in {ep}.out_clusters": False}, False),
        ("ZDO endpoint to another endpoint", {e: True, "packet.dst_ep": 1, "packet.src_ep": 0}, False),
        ("known server cluster", {e: True, "packet.dst_ep": 1, "packet.src_ep": 3, f"packet.cluster_id in {ep}.in_clusters": True, f"packet.cluster_id in {ep}.out_clusters": False}, True),
        ("known client cluster", {e: True, "packet.dst_ep": 1, "packet.src_ep": 3, f"packet.cluster_id in {ep}.in_clusters": False, f"packet.cluster_id in {ep}.out_clusters": True}, True),
        ("ZDO frame", {e: True, "packet.dst_ep": 0, "packet.src_ep": 0, f"packet.cluster_id in {ep}.in_clusters": False, f"packet.cluster_id in {ep}.out_clusters": False}, True),
    ]
    for name, sc, through in rows:
        k = 0
        a = ps.asg(sc)
        for p in ps:
            if not ps.consistent(p, a):
                continue
            filt = [v for x, v in allfacts(p) if norm(x)[0] == "truthy" and "debouncer" in show(x)]
            if through and True in filt:
                continue
            k += 1
            dec = calls(p, "deserialize")
            d = dispatched(p)
            if through:
                ctx.ob("known-frames-decoded", bool(dec), ps, f"{name}: the frame is dropped before it is decoded [{describe(p)}]", name)
            else:
                ctx.ob("unknown-target-ignored", p.normal and not d and not changes(p), ps, f"{name}: the frame reaches {[x.name for x in d]} [{describe(p)}]", name)
                idx = [x for x in p.events if x.kind == "call" and x.base is not None and contains(norm(x.base), ps.T(ep)) and sc[e] is False]
                ctx.ob("unknown-target-ignored", not idx, ps, f"{name}: a missing endpoint is used", name + "idx")
        ctx.ob("unknown-target-ignored" if not through else "known-frames-decoded", k >= 1, ps, f"{name}: no path", name + "n")
    # the endpoint's own dispatch
    ps = ctx.paths(f"{EP}.handle_message")
    i, o = "cluster in self.in_clusters", "cluster in self.out_clusters"
    for a, b in ((True, True), (True, False), (False, True), (False, False)):
        sel = ps.scen({i: a, o: b})
        for p in sel:
            hs = [x for x in p.events if x.kind == "call" and x.name in ("handle_message", "handler")]
            want = ps.T("self.in_clusters[cluster]") if a else ps.T("self.out_clusters[cluster]")
            if a or b:
                ctx.ob("cluster-dispatch", len(hs) == 1 and contains(norm(hs[0].term)[1] if hs[0].term else norm(hs[0].base), want), ps, f"the frame is handled by {[show(x.base or x.term) for x in hs]}", f"{a}{b}")
            else:
                ctx.ob("cluster-dispatch", not hs, ps, "a frame for an unknown cluster is dispatched", "none")
        ctx.ob("cluster-dispatch", len(sel) >= 1, ps, "no path", f"{a}{b}n")


def entry(ctx):
    """Unknown senders: look-up failures and undecodable notifications stay inside."""
    q = f"{APP}.packet_received"
    ps = ctx.paths(q, noinline=(f"{APP}._maybe_parse_zdo",), inject=("KeyError",), inject_at=lambda t, n, a: n == "get_device_with_address", handler_inject=False)
    nwk = ps.value(ps.T("t.AddrMode.NWK"), {})
    k = {True: 0, False: 0}
    for p in ps:
        bad = [e for e in calls(p, "get_device_with_address") if not e.ok]
        if not bad:
            continue
        ctx.ob("unknown-sender-contained", p.normal, ps, f"a frame from an unknown device raises [{describe(p)}]")
        d = [e for e in p.events if e.kind == "call" and (e.name in ("packet_received", "listener_event", "handle_message_from_uninitialized_sender"))]
        ctx.ob("unknown-sender-contained", not d, ps, "a frame from an unknown device is dispatched", "disp")
        tasks = calls(p, "create_task")
        for isnwk in (True, False):
            a = ps.asg({"packet.src.addr_mode": nwk if isnwk else Sym("zigpy.types.named.AddrMode", "IEEE", 3)})
            if ps.consistent(p, a):
                k[isnwk] += 1
                if isnwk:
                    ok = len(tasks) == 1 and bool(tasks[0].args)
                    if ok:
                        c = norm(tasks[0].args[0])
                        vals = [*c[2], *[v for _, v in c[3]]] if c[0] == "call" else []
                        ok = c[0] == "call" and (c[1] == ("glob", "zigpy.zdo.broadcast") and ps.T("zdo_types.ZDOCmd.IEEE_addr_req") in vals and dict(c[3]).get("NWKAddrOfInterest", ps.T("packet.src.address")) == ps.T("packet.src.address") and ps.T("packet.src.address") in vals
                                                 or c[1][0] == "attr" and c[1][2] == "_discover_unknown_device" and vals == [ps.T("packet.src.address")])
                    ctx.ob("unknown-sender-discovered", ok, ps, f"an unknown short address does not trigger a discovery request [{describe(p)}]")
                else:
                    ctx.ob("unknown-sender-discovered", not tasks, ps, "a long address is discovered as a short one", "ieee")
    ctx.ob("unknown-sender-discovered", k[True] >= 1 and k[False] >= 1, ps, "no path for a frame from an unknown device", "n")
    ps = ctx.paths(f"{APP}._discover_unknown_device")
    for p in ps:
        b = [e for e in p.events if e.kind == "call" and e.name == "broadcast"]
        ok = len(b) == 1 and (b[0].awaited or any(e.kind == "await" for e in p.events))
        if ok:
            kw = {kk: norm(v) for kk, v in b[0].kwargs}
            args = [norm(x) for x in b[0].args]
            ok = ("param", "nwk") in [*kw.values(), *args] and ps.T("zdo_types.ZDOCmd.IEEE_addr_req") in [*kw.values(), *args]
        ctx.ob("unknown-sender-discovered", ok, ps, "the discovery does not ask for the unknown address's IEEE address", "req")

    ps = ctx.paths(f"{APP}._maybe_parse_zdo", inject=("ValueError", "KeyError"), inject_at=lambda t, n, a: n in ("deserialize", "zdo", "_device"), handler_inject=False)
    n = 0
    for p in ps:
        bad = [e for e in calls(p, "deserialize") if not e.ok]
        joins = calls(p, "handle_join")
        if bad and "KeyError" not in str(p.outcome.value if p.outcome.kind == "raise" else ""):
            n += 1
            ctx.ob("undecodable-notification-contained", p.normal and not joins, ps, f"an undecodable notification {'raises' if not p.normal else 'is interpreted'} [{describe(p)}]")
        for j in joins:
            dec = [e for e in calls(p, "deserialize") if e.ok]
            ctx.ob("notification-from-decoded", bool(dec), (ps.func, j.node), "a join is taken from something that was not decoded")
    ctx.ob("undecodable-notification-contained", n >= 1, ps, "decode failures are not handled", "n")
    # early frames: no coordinator object yet
    f = ctx.p.func(f"{APP}._maybe_parse_zdo")
    ok = False
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try) and any("_device" in ast.unparse(x) for x in t.body):
            hs = [ast.unparse(h.type) if h.type else "BaseException" for h in t.handlers]
            ok = ok or any(x in ("KeyError", "LookupError", "Exception", "BaseException") or "KeyError" in x for x in hs)
    uses = any(isinstance(x, ast.Attribute) and x.attr == "_device" for x in walk_own(f.node))
    ctx.ob("early-frames-contained", ok or not uses, f, "a frame received before the coordinator object exists raises")


def guard(fs, cmdterms, table):
    """General commands a path is restricted to."""
    out = set()
    for a, v in fs:
        if a[0] == "eq" and v:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x in cmdterms:
                    out.add(y)
    return out


def general_fields(ctx):
    """Command -> set of payload field names, from the table of general commands."""
    m = ctx.p.modules["zigpy.zcl.foundation"]
    out = {}
    for st in m.tree.body:
        tg = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []
        if any(isinstance(t, ast.Name) and t.id == "GENERAL_COMMANDS" for t in tg):
            d = st.value
            if isinstance(d, ast.Dict):
                for k, v in zip(d.keys, d.values):
                    name = ast.unparse(k).split(".")[-1]
                    fields = set()
                    if isinstance(v, ast.Call):
                        for kw in v.keywords:
                            if kw.arg == "schema" and isinstance(kw.value, ast.Dict):
                                fields = {x.value.rstrip("?") for x in kw.value.keys if isinstance(x, ast.Constant)}
                            if kw.arg == "schema" and isinstance(kw.value, (ast.Name, ast.Attribute)):
                                c = ctx.p.classes.get(f"zigpy.zcl.foundation.{ast.unparse(kw.value).split('.')[-1]}")
                                if c is not None:
                                    fields = {s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign)}
                    out[name] = fields
    return out


def payloads(ctx):
    """Handlers touch payload fields only of commands whose payload was decoded."""
    fields = general_fields(ctx)
    ctx.need("payload-fields-known", len(fields), 15, "general commands")
    q = f"{CL}.handle_cluster_general_request"
    ps = ctx.paths(q, loop=1, noinline=(f"{CL}._update_attribute", f"{CL}.update_attribute"), handler_inject=False, inject=("KeyError", "TypeError", "ValueError"), inject_at=lambda t, n, a: n in ("type",))
    cmd = ps.T("hdr.command_id")
    A = ("param", "args")
    n = nt = 0
    for p in ps:
        for e in p.events:
            used = {x[2] for t in [e.base, e.term, *e.args, *[v for _, v in e.kwargs]] if t is not None for x in subterms(norm(t)) if x[0] == "attr" and x[1] == A}
            if not used:
                continue
            g = {y[1].name if y[0] == "const" and hasattr(y[1], "name") else show(y).split(".")[-1] for y in guard([(norm(a), v) for a, v in e.facts.items()], {cmd}, fields)}
            for u in used:
                n += 1
                ctx.ob("payload-fields-known", any(u in fields.get(x, ()) for x in g), (ps.func, e.node), f"args.{u} is read without knowing that the frame carries it (command {sorted(g) or 'unknown'})", u)
        bad = [e for e in p.events if e.kind == "call" and not e.ok]
        if bad:
            nt += 1
            ctx.ob("conversion-error-contained", p.normal, (ps.func, bad[0].node), f"a reported value that does not fit its attribute raises out of the packet entry point [{describe(p)}]")
            ctx.ob("conversion-error-contained", any(e.name in ("_update_attribute", "update_attribute") for e in p.events[index(p, bad[0]):]), (ps.func, bad[0].node), "a report whose value does not fit is dropped", "drop")
    ctx.ob("payload-fields-known", n >= 4, ps, "no handled payload found", "n")
    ctx.ob("conversion-error-contained", nt >= 3, ps, "values are not converted under protection", "n")
    # undecoded cluster commands are passed on raw, never looked up blindly
    ps = ctx.paths(f"{CL}.deserialize", handler_inject=False)
    k = 0
    for p in ps:
        if not p.normal:
            continue
        sch = [e for e in p.events if e.kind == "call" and e.name == "deserialize" and norm(e.base) != ps.T("foundation.ZCLHeader")]
        for e in sch:
            k += 1
            tbl = [x for x in subterms(norm(e.base)) if x[0] == "idx"]
            ok = any(norm(a)[0] == "in" and v and tbl and norm(a)[1] == tbl[0][2] and norm(a)[2] == tbl[0][1] for a, v in allfacts(p)) or not tbl
            ctx.ob("unknown-commands-raw", ok, (ps.func, e.node), "a command is looked up without knowing that it is defined")
        if not sch:
            r = norm(p.ret) if p.ret is not None else ("none",)
            items = r[1] if r[0] == "tuple" else ()
            ctx.ob("unknown-commands-raw", len(items) == 2, ps, "an unknown command is not passed on with its header", "ret")
    ctx.ob("unknown-commands-raw", k >= 2, ps, "no command is decoded", "n")


RULES = [decoding, unknown, entry, payloads]
