"""Replies echo the requester's transaction and direction."""
import ast

from .. import sendspec as S
from ..core import UNK, Obj, Sym, calls, describe, ev_callee, index, norm, show
from ..lib import allfacts, is_const
from ..model import walk_own
from ..walk import contains, subterms

CL, ZDO, EP, DEV = S.CL, S.ZDO, S.EP, S.DEV
HT = ("attr", ("param", "hdr"), "tsn")


def chain(ctx):
    """reply() at every layer: number, cluster, endpoint and device of the request; no reply expected."""
    S.zcl_send(ctx, "reply-echoes-transaction", "reply")
    S.zcl_commands(ctx, "reply-echoes-transaction")
    S.zdo_send(ctx, "reply-echoes-transaction", "reply")
    S.ep_send(ctx, "reply-echoes-transaction", "reply")
    S.dev_reply(ctx, "reply-echoes-transaction")
    S.dev_request(ctx, "reply-echoes-transaction")
    for q in (f"{CL}.reply", f"{EP}.reply", f"{DEV}.reply", f"{ZDO}.reply"):
        S.defaults(ctx, "reply-not-awaited", q, expect_reply=False)
    # ZDO commands with the reply bit are replies
    ps = ctx.paths(f"{ZDO}.__getattr__")
    for cmd, want in ((0x8000, "reply"), (0x0036, "request"), (0x8036, "reply"), (0, "request")):
        a = ps.asg({"types.ZDOCmd[name]": cmd})
        k = 0
        for p in ps:
            if p.normal and ps.consistent(p, a):
                k += 1
                r = norm(p.ret)
                ok = r[0] == "call" and r[1] == ("glob", "functools.partial") and r[2][:1] == (ps.T(f"self.{want}"),) and r[2][1:2] == (ps.T("types.ZDOCmd[name]"),)
                ctx.ob("zdo-reply-by-reply-bit", ok, ps, f"command 0x{cmd:04x} is sent through {show(r)}", str(cmd))
        ctx.ob("zdo-reply-by-reply-bit", k >= 1, ps, "undecided", f"{cmd}n")
    for name in ("read_attributes_rsp",):
        v = ctx.p.find_attr(ctx.p.cls(CL), name)[1]
        ok = isinstance(v, ast.Call) and ast.unparse(v.func).endswith("partialmethod") and [ast.unparse(a).split(".")[-1] for a in v.args] == ["general_command", "Read_Attributes_rsp"]
        ctx.ob("reply-command", ok, (ctx.p.cls(CL), v), f"{name} sends {ast.unparse(v) if v is not None else None}")


def zdo_commands(ctx):
    c = ctx.p.cls("zigpy.zdo.types.ZDOCmd")
    out = {}
    for st in c.node.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            v = ctx.kit.consteval(c.module, st.value)
            if isinstance(v, int):
                out[st.targets[0].id] = int(v)
    return out


def kwarg(e, name):
    return dict((k, norm(v)) for k, v in e.kwargs).get(name)


def owned(p, e, names=("create_catching_task", "create_task")):
    t = norm(e.term if e.term is not None else e.value)
    return [x for x in calls(p, names) if any(contains(norm(a), t) for a in x.args)]


def zdo_replies(ctx):
    cmds = zdo_commands(ctx)
    ctx.need("zdo-reply-matches-request", len(cmds), 60, "ZDO commands")
    low = {k.lower(): k for k in cmds}
    n = 0
    c = ctx.p.cls(ZDO)
    for m in c.methods.values():
        if not m.name.startswith("handle_") or m.name == "handle_message":
            continue
        req = low.get(m.name[7:])
        ps = ctx.paths(m, handler_inject=False)
        for p in ps:
            es = [e for e in p.events if e.kind == "call" and e.name in cmds and e.base is not None and norm(e.base)[0] == "self"]
            es += [e for e in p.events if e.kind == "call" and e.name in ("reply", "request") and e.base is not None and norm(e.base)[0] == "self"]
            for e in es:
                n += 1
                ok = req is not None and e.name in cmds and cmds[e.name] == cmds[req] | 0x8000 and not cmds[req] & 0x8000
                if e.name == "reply" and e.args:
                    v = ctx.kit.teval(norm(e.args[0]), {})
                    ok = req is not None and getattr(v, "value", v) == cmds[req] | 0x8000
                ctx.ob("zdo-reply-matches-request", ok, (m, e.node), f"{m.name} answers with {e.name}")
                ctx.ob("zdo-reply-matches-request", kwarg(e, "tsn") == HT, (m, e.node), f"the answer is numbered {show(kwarg(e, 'tsn')) if kwarg(e, 'tsn') else 'anew'} instead of with the request's number", "tsn" + e.name)
                ctx.ob("reply-not-awaited", kwarg(e, "expect_reply") in (None, ("const", False)), (m, e.node), "an answer waits for an answer", "zdo" + e.name)
                ctx.ob("reply-in-owned-task", len(owned(p, e)) == 1, (m, e.node), "the answer is not sent from an owned task")
            ctx.ob("one-answer", len(es) <= 1, m, f"a request is answered {len(es)} times [{describe(p)}]")
    ctx.ob("zdo-reply-matches-request", n >= 3, ZDO, "ZDO requests are not answered", "n")
    # address requests are answered for the coordinator's own addresses only
    own = "self._device.application.state.node_info"
    for h, par, mine, extra, cmd in (("handle_nwk_addr_req", "ieee", f"{own}.ieee", (), "NWK_addr_rsp"),
                                     ("handle_ieee_addr_req", "nwk", f"{own}.nwk", ("ALL_DEVICES", "RX_ON_WHEN_IDLE", "ALL_ROUTERS_AND_COORDINATOR"), "IEEE_addr_rsp")):
        f = ctx.p.func(f"{ZDO}.{h}")
        ps = ctx.paths(f, handler_inject=False)
        for val, want in ((0x1111, True), (0x2222, False)):
            a = ps.asg({par: val, mine: 0x1111})
            k = 0
            for p in ps:
                if p.normal and ps.consistent(p, a):
                    k += 1
                    es = calls(p, cmd) + calls(p, "reply")
                    ctx.ob("address-answered-for-self", bool(es) == want, f, f"a request for {'its own' if want else 'another'} address is {'' if es else 'not '}answered [{describe(p)}]", f"{h}{want}")
                    for e in es:
                        if e.name == cmd:
                            args = [norm(x) for x in e.args[:3]]
                            ctx.ob("address-answered-for-self", len(args) == 3 and args[1:] == [ps.T(f"{own}.ieee"), ps.T(f"{own}.nwk")] and ctx.kit.teval(args[0], {}) == 0, (f, e.node),
                                   f"the answer says {[show(x) for x in args]}", h + "args")
            ctx.ob("address-answered-for-self", k >= 1, f, "undecided", h + str(want))


def zcl_replies(ctx):
    q = f"{CL}.handle_cluster_general_request"
    ps = ctx.paths(q, loop=1, handler_inject=False, noinline=(f"{CL}._update_attribute",))
    G = lambda n: ctx.kit.teval(ps.T(f"foundation.GeneralCommand.{n}"), {})
    c = ctx.p.cls("zigpy.zcl.foundation.GeneralCommand")
    names = [s.targets[0].id for s in c.node.body if isinstance(s, ast.Assign)]
    ctx.need("answers-only-requests", len(names), 15, "general commands")
    cmd = ps.T("hdr.command_id")
    SENDS = ("send_default_rsp", "general_command", "read_attributes_rsp", "reply", "request", "client_command", "command", "default_response")
    for nm in names:
        for ddr in (True, False):
            a = ps.asg({"hdr.frame_control.disable_default_response": ddr})
            a[cmd] = G(nm)
            k = 0
            for p in ps:
                if not ps.consistent(p, a):
                    continue
                k += 1
                es = [e for e in p.events if e.kind == "call" and e.name in SENDS]
                dfl = [e for e in es if e.name == "send_default_rsp"]
                rd = [e for e in es if e.name == "read_attributes_rsp"]
                if nm == "Report_Attributes":
                    ctx.ob("default-response-unless-disabled", len(es) == (0 if ddr else 1) == len(dfl), ps, f"a report {'that suppresses' if ddr else 'without suppressing'} default responses gets {len(es)} answers [{describe(p)}]", str(ddr))
                    for e in dfl:
                        b = S.bindings(ctx, ps, e, f"{CL}.send_default_rsp")
                        st = ctx.kit.teval(b.get("status", ("none",)), {})
                        ctx.ob("default-response-unless-disabled", b.get("hdr") == ("param", "hdr") and getattr(st, "name", None) == "SUCCESS", (ps.func, e.node), "the default response does not confirm this report", "args")
                elif nm == "Read_Attributes":
                    ctx.ob("read-answered-once", len(es) == 1 == len(rd), ps, f"a read request gets {[e.name for e in es]} [{describe(p)}]")
                    for e in rd:
                        ctx.ob("reply-echoes-transaction", kwarg(e, "tsn") == HT, (ps.func, e.node), "the read response does not carry the request's number", "read")
                        ctx.ob("reply-in-owned-task", len(owned(p, e)) == 1, (ps.func, e.node), "the answer is not sent from an owned task", "read")
                        ctx.ob("reply-not-awaited", kwarg(e, "expect_reply") in (None, ("const", False)), (ps.func, e.node), "an answer waits for an answer", "read")
                else:
                    ctx.ob("answers-only-requests", not es, ps, f"{nm} is answered with {[e.name for e in es]}", nm)
            ctx.ob("answers-only-requests", k >= 1, ps, "undecided", nm + "n")
    S.forward(ctx, "reply-echoes-transaction", f"{CL}.send_default_rsp", "general_command",
              dict(command_id="foundation.GeneralCommand.Default_Response", tsn="hdr.tsn", args=lambda ps, p, got: got is not None and got[0] in ("tuple", "list") and [norm(x) for x in got[1]] == [ps.T("hdr.command_id"), ("param", "status")]),
              base="self", returned=False)
    ps = ctx.paths(f"{CL}.send_default_rsp", handler_inject=False)
    for p in ps:
        for e in calls(p, "general_command"):
            ctx.ob("reply-in-owned-task", len(owned(p, e)) == 1, (ps.func, e.node), "the default response is not sent from an owned task", "dfl")
    # every other place that sends a default response asks first
    n = 0
    for f in ctx.p.funcs.values():
        if f.qual in ctx.kit.owners(f.qual) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "send_default_rsp" for c in ctx.kit.whole(f.qual) for x in walk_own(c)):
            ps = ctx.paths(f, loop=1, handler_inject=False, noinline=(f"{CL}._update_attribute",))
            for p in ps:
                for e in calls(p, "send_default_rsp"):
                    n += 1
                    ddr = [v for a, v in e.facts.items() if norm(a)[0] == "truthy" and show(norm(a)[1]).endswith("disable_default_response")]
                    ctx.ob("default-response-unless-disabled", ddr == [False], (f, e.node), f"a default response is sent without asking whether it is wanted [{describe(p)}]", "site")
    ctx.ob("default-response-unless-disabled", n >= 1, CL, "no default response is ever sent", "n")


def read_records(ctx):
    """A read request is answered with one record per requested attribute."""
    ps = ctx.paths(f"{CL}.handle_cluster_general_request", loop=1, handler_inject=False, noinline=(f"{CL}._update_attribute",), inject=("KeyError",), inject_at=lambda t, n, a: n == "find_attribute",
                   scenario={"hdr.command_id == foundation.GeneralCommand.Read_Attributes": True, "hdr.command_id == foundation.GeneralCommand.Report_Attributes": False})
    n = 0
    for p in ps:
        its = [e for e in p.events if e.kind == "loopiter" and "attribute_ids" in show(e.base)]
        sent = [e for e in calls(p, "read_attributes_rsp") if e.args]
        if not sent or norm(sent[0].args[0])[0] not in ("list", "tuple"):
            continue
        recs = norm(sent[0].args[0])[1]
        for e in its:
            drop = [x for x in subterms(norm(e.base)) if x[0] == "call" and (x[1] in [("glob", f"builtins.{w}") for w in ("set", "frozenset", "filter", "dict.fromkeys")] or x[1][0] == "attr" and x[1][2] == "fromkeys") or x[0] in ("set", "slice") or x[0] == "comp" and (x[1] == "set" or any(c for _, c in x[3]))]
            ctx.ob("one-record-per-attribute", not drop, (ps.func, e.node), f"only some of the requested attributes are answered: {show(norm(e.base))[-80:]}", "all")
        ctx.ob("one-record-per-attribute", len(recs) == len(its), ps, f"{len(its)} requested attributes give {len(recs)} records [{describe(p)}]")
        for r in recs:
            e = sent[0]
            n += 1
            r = norm(r)
            ids = [v for k, v in r[3] if k == "attrid"] + list(r[2][:1]) if r[0] == "call" else []
            ctx.ob("one-record-per-attribute", len(ids) == 1 and ids[0][0] == "elem" and "attribute_ids" in show(ids[0]), (ps.func, e.node), "the record is for another attribute", "id")
            st = [x for x in p.events if x.kind == "setattr" and x.name == "status" and norm(x.base) == r]
            val = [x for x in p.events if x.kind == "setattr" and x.name == "value" and norm(x.base) == r]
            ctx.ob("one-record-per-attribute", len(st) == 1, (ps.func, e.node), f"the record's status is set {len(st)} times [{describe(p)}]", "status")
            for x in st:
                v = ctx.kit.teval(norm(x.value), {})
                ok = getattr(v, "name", None) == ("SUCCESS" if val else "UNSUPPORTED_ATTRIBUTE")
                ctx.ob("one-record-per-attribute", ok, (ps.func, x.node), f"a record {'with' if val else 'without'} a value has status {getattr(v, 'name', v)}", "st")
    ctx.ob("one-record-per-attribute", n >= 3, ps, "read requests are not answered", "n")


def client_names(ctx):
    """Names of client commands that answer a request."""
    out = set()
    for q, c in ctx.p.classes.items():
        if q.startswith("zigpy.zcl.clusters.") and c.name == "ClientCommandDefs":
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) or isinstance(st, ast.Assign):
                    nm = st.target.id if isinstance(st, ast.AnnAssign) else st.targets[0].id
                    if nm.endswith(("_response", "_rsp")):
                        out.add(nm)
    return out


def cluster_replies(ctx):
    """Cluster-specific responses sent by the stack name the request they answer."""
    names = client_names(ctx)
    ctx.need("reply-echoes-transaction", len(names), 30, "cluster responses")
    n = 0
    for f in ctx.p.funcs.values():
        if not f.module.name.startswith("zigpy."):
            continue
        if f.qual not in ctx.kit.owners(f.qual) or not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in names for c in ctx.kit.whole(f.qual) for x in walk_own(c)):
            continue
        ps = ctx.paths(f, handler_inject=False, loop=1)
        for p in ps:
            for e in calls(p, names):
                n += 1
                b = kwarg(e, "tsn")
                ok = b is not None and b[0] == "attr" and b[2] == "tsn" and b[1][0] == "param"
                ctx.ob("reply-echoes-transaction", ok, (f, e.node), f"{e.name} is numbered {show(b) if b else 'anew'} instead of with the number of the request it answers", f"{f.qual}:{e.name}")
                ctx.ob("reply-not-awaited", kwarg(e, "expect_reply") in (None, ("const", False)), (f, e.node), f"{e.name} waits for an answer", f"{f.qual}:{e.name}")
    ctx.ob("reply-echoes-transaction", n >= 4, "zigpy", "no cluster responses are sent", "n")
    # only requests are answered (firmware queries)
    f = ctx.p.func("zigpy.zcl.clusters.general.Ota.handle_cluster_request")
    ps = ctx.paths(f, handler_inject=False)
    k = 0
    for p in ps:
        if calls(p, ("create_catching_task", "create_task")):
            k += 1
            d = ps.consistent(p, ps.asg({"hdr.direction": Sym("zigpy.zcl.foundation.Direction", "Server_to_Client", 1)}))
            ctx.ob("answers-only-requests", not d, f, f"a response is answered like a request [{describe(p)}]", "ota")
            ctx.ob("firmware-updates-undisturbed", not ps.consistent(p, ps.asg({"self.endpoint.device.ota_in_progress": True})), f, "the cluster answers while an update is running")
    ctx.ob("answers-only-requests", k >= 1, f, "firmware queries are not answered", "otan")
    # names resolve to replies
    ps = ctx.paths(f"{CL}.__getattr__")
    k = 0
    for p in ps:
        if p.normal:
            r = norm(p.ret)
            s = show(r)
            k += 1
            cl = "ClientCommandDefs" in s
            ok = r[0] == "call" and r[1] == ("glob", "functools.partial") and r[2][0] == ps.T("self.client_command" if cl else "self.command") and r[2][1][0] == "attr" and r[2][1][2] == "id"
            ctx.ob("reply-command", ok, ps, f"a {'response' if cl else 'request'} name sends {s[:80]}", "getattr" + str(cl))
    ctx.ob("reply-command", k >= 2, ps, "command names do not resolve", "n")


RULES = [chain, zdo_replies, zcl_replies, read_records, cluster_replies]
