"""The layers a frame passes on its way out, as argument-forwarding specifications."""
from __future__ import annotations

from .core import calls, describe, index, norm, show
from .lib import is_const
from .walk import contains, subterms

CL = "zigpy.zcl.Cluster"
EP = "zigpy.endpoint.Endpoint"
DEV = "zigpy.device.Device"
ZDO = "zigpy.zdo.ZDO"
APP = "zigpy.application.ControllerApplication"


def bindings(ctx, ps, e, callee):
    """Arguments of a call by the parameter names of `callee` (a qualified name or None)."""
    if e.callee is not None:
        return ps.bound(e)
    if callee is not None:
        f = ctx.p.func(callee)
        names = list(f.params)
        if f.cls is not None and not f.is_staticmethod:
            names = names[1:]
        out = dict(zip(names, [norm(a) for a in e.args]))
        out.update({k: norm(v) for k, v in e.kwargs})
        for pn, d in f.defaults().items():
            if pn not in out:
                try:
                    out[pn] = norm(ctx.term(_unparse(d), f))
                except Exception:
                    pass
        return out
    return ps.bound(e)


def _unparse(d):
    import ast
    return ast.unparse(d)


def forward(ctx, rule, qual, target, spec, *, callee=None, base=None, scenario=None, returned=True, minimum=1, count=1, **kw):
    """Every normal path of `qual` calls `target` once with the arguments of `spec`."""
    kw.setdefault("handler_inject", False)
    ps = ctx.paths(qual, **kw)
    names = (target,) if isinstance(target, str) else target
    n = 0
    asg = ps.asg(scenario) if scenario else {}
    for p in ps:
        if not p.normal or not ps.consistent(p, asg):
            continue
        n += 1
        es = [e for e in calls(p, names) if base is None or (e.base is not None and norm(e.base) == ps.T(base))]
        ctx.ob(rule, len(es) == count, ps, f"{'/'.join(names)} is called {len(es)} times [{describe(p)}]", f"{qual}:{target}:count")
        for e in es:
            b = bindings(ctx, ps, e, callee)
            for k, want in spec.items():
                got = b.get(k)
                if callable(want):
                    ok = want(ps, p, got)
                    w = "required"
                else:
                    alts = want if isinstance(want, (list, tuple)) else [want]
                    ok = got is not None and any(got == ps.T(a) for a in alts)
                    if not ok and got is not None and asg:
                        v = ctx.kit.teval(got, asg)
                        ok = any(v is not None and not repr(v) == "?" and v == ctx.kit.teval(ps.T(a), asg) and type(v) is type(ctx.kit.teval(ps.T(a), asg)) for a in alts)
                    w = " or ".join(alts)
                ctx.ob(rule, ok, (ps.func, e.node), f"{e.name}: {k} is {show(got)[:160] if got is not None else 'not passed'}, {w} expected", f"{qual}:{target}:{k}:{scenario}")
            if returned:
                t = norm(e.term if e.term is not None else e.value)
                ok = p.ret is not None and norm(p.ret) == t or e.awaited or any(x.kind == "await" and x.base is not None and norm(x.base) == t for x in p.events)
                ctx.ob(rule, ok, (ps.func, e.node), f"{e.name} is neither awaited nor returned", f"{qual}:{target}:await")
    ctx.ob(rule, n >= minimum, ps, f"no way through in {scenario}", f"{qual}:{target}:n:{scenario}")
    return ps


def same(*names, **more):
    out = {n: n for n in names}
    out.update(more)
    return out


OPTS = ("timeout", "expect_reply", "use_ieee", "ask_for_ack", "priority")


def _header(t):
    """ZCLHeader(...) construction inside a term."""
    for x in subterms(norm(t)):
        if x[0] == "call" and x[1] == ("glob", "zigpy.zcl.foundation.ZCLHeader"):
            return x
    return None


def header_args(ctx, h):
    f = ctx.p.find_method(ctx.p.cls("zigpy.zcl.foundation.ZCLHeader"), "__new__") or ctx.p.find_method(ctx.p.cls("zigpy.zcl.foundation.ZCLHeader"), "__init__")
    names = [x for x in (f.params[1:] if f is not None else ["frame_control", "manufacturer", "tsn", "command_id"]) if not x.startswith("*")]
    out = dict(zip(names, h[2]))
    out.update(dict(h[3]))
    return out


def zcl_send(ctx, rule, kind):
    """Cluster.request / Cluster.reply: header and payload as asked, numbered once."""
    q = f"{CL}.{kind}"
    ps = ctx.paths(q, handler_inject=False)
    n = 0
    for p in ps:
        if not p.normal:
            continue
        es = [e for e in calls(p, kind) if e.base is not None and norm(e.base) == ps.T("self._endpoint")]
        ctx.ob(rule, len(es) == 1, ps, f"{len(es)} frames are sent for one {kind} [{describe(p)}]", q + "count")
        for e in es:
            n += 1
            b = bindings(ctx, ps, e, f"{EP}.{kind}")
            F = (ps.func, e.node)
            for k in OPTS:
                ctx.ob(rule, b.get(k) == ("param", k), F, f"{k} is {show(b[k]) if k in b else 'dropped'}", q + k)
            ctx.ob(rule, b.get("cluster") == ps.T("self.cluster_id"), F, "the frame goes to another cluster", q + "cluster")
            h = _header(b["sequence"]) if "sequence" in b else None
            d = b.get("data")
            hd = _header(d) if d is not None else None
            h = h or hd
            if h is None or hd is None or h != hd:
                ctx.ob(rule, False, F, "header and transaction number of the frame are not built together", q + "hdr")
                continue
            ha = header_args(ctx, h)
            tsn = ha.get("tsn")
            ctx.ob(rule, b.get("sequence") in (("attr", h, "tsn"), tsn), F, "the frame is numbered differently from its header", q + "seq")
            ctx.ob(rule, b.get("command_id") in (("attr", h, "command_id"), ("param", "command_id")) and ha.get("command_id") == ("param", "command_id"), F, "another command is sent", q + "cmd")
            ctx.ob(rule, ha.get("manufacturer") == ("param", "manufacturer"), F, f"the manufacturer code is {show(ha['manufacturer']) if 'manufacturer' in ha else 'dropped'}", q + "mfr")
            # serialized header followed by serialized payload
            ok = d[0] == "bin" and d[1] == "+" and d[2] == ("call", ("attr", h, "serialize"), (), ()) and d[3][0] == "call" and d[3][1][0] == "attr" and d[3][1][2] == "serialize"
            pl = d[3][1][1] if ok else None
            ok = ok and pl[0] == "call" and pl[1] == ("param", "schema") and contains(("x", *pl[2]), ("param", "*args")) and any(k is None or "kwargs" in show(v) for k, v in pl[3])
            ctx.ob(rule, ok, F, f"the payload is {show(d)[-120:]}", q + "data")
            new = [c for c in calls(p, "get_sequence")]
            for val, want in ((None, "self._endpoint.device.get_sequence()"), (0, "tsn"), (7, "tsn")):
                if ps.consistent(p, ps.asg({"tsn": val})):
                    ok = tsn == ps.T(want)
                    ctx.ob(rule, ok, F, f"with tsn={val} the frame is numbered {show(tsn) if tsn else '?'}", q + f"tsn{val}")
                    ctx.ob(rule, len(new) == (val is None), F, f"with tsn={val}, {len(new)} transaction numbers are drawn", q + f"draw{val}")
            fc = ha.get("frame_control")
            fa = dict(fc[3]) if fc is not None and fc[0] == "call" and fc[1][0] == "glob" and fc[1][1].endswith("FrameControl") else None
            if fa is None:
                ctx.ob(rule, False, F, "the frame control field is not built here", q + "fc")
                continue
            for client, want in ((True, "Server_to_Client"), (False, "Client_to_Server")):
                a = ps.asg({"self.is_client": client})
                if ps.consistent(p, a):
                    v = ctx.kit.teval(fa.get("direction", ("none",)), a)
                    ctx.ob(rule + "-direction" if kind == "reply" else rule, getattr(v, "name", None) == want, F, f"a {'client' if client else 'server'} cluster's {kind} travels {v}", q + f"dir{client}")
                    dv = ctx.kit.teval(fa.get("disable_default_response", ("none",)), a)
                    wd = True if kind == "reply" else client
                    ctx.ob(rule, dv is wd, F, f"disable_default_response is {dv}", q + f"ddr{client}")
            for g, want in ((True, "GLOBAL_COMMAND"), (False, "CLUSTER_COMMAND")):
                a = ps.asg({"general": g})
                if ps.consistent(p, a):
                    v = ctx.kit.teval(fa.get("frame_type", ("none",)), a)
                    ctx.ob(rule, getattr(v, "name", None) == want, F, f"general={g} is sent as {v}", q + f"ft{g}")
            from .core import Obj
            for m, want in ((None, False), (0x1234, True), (0, True)):
                a = ps.asg({"manufacturer": m})
                if ps.consistent(p, a):
                    v = ctx.kit.teval(fa.get("is_manufacturer_specific", ("none",)), a)
                    ctx.ob(rule, v is want or v == want, F, f"manufacturer={m} is sent with is_manufacturer_specific={v}", q + f"ms{m}")
            ctx.ob(rule, e.awaited or p.ret is not None and norm(p.ret) == norm(e.term if e.term is not None else e.value) or any(x.kind == "await" for x in p.events), F, "the frame is never awaited", q + "aw")
    ctx.ob(rule, n >= 2, ps, "nothing is sent", q + "n")


def zcl_commands(ctx, rule):
    r = "foundation.GENERAL_COMMANDS[command_id]"
    from .core import Sym
    s2c = {f"{r}.direction": Sym("zigpy.zcl.foundation.Direction", "Server_to_Client", 1)}
    c2s = {f"{r}.direction": Sym("zigpy.zcl.foundation.Direction", "Client_to_Server", 0)}
    star = lambda name: (lambda ps, p, got: got is not None and contains(got, ("param", name)) or got == ("param", name))
    common = dict(manufacturer="manufacturer", tsn="tsn", args=star("*args"), kwargs=star("**kwargs"))
    forward(ctx, rule, f"{CL}.general_command", "reply", dict(general="True", command_id=[f"{r}.id", "command_id"], schema=f"{r}.schema", **common), base="self", scenario=s2c)
    forward(ctx, rule, f"{CL}.general_command", "request", dict(general="True", command_id=[f"{r}.id", "command_id"], schema=f"{r}.schema", expect_reply="expect_reply", **common), base="self", scenario=c2s)
    forward(ctx, rule, f"{CL}.general_command", "request", {}, base="self", scenario=s2c, count=0)
    forward(ctx, rule, f"{CL}.client_command", "reply", dict(general="False", command_id="command_id", schema="self.client_commands[command_id].schema", **common), base="self")
    forward(ctx, rule, f"{CL}.command", "request", dict(general="False", command_id="command_id", schema="self.server_commands[command_id].schema", expect_reply="expect_reply", **common), base="self")


def zdo_send(ctx, rule, kind):
    opts = {k: k for k in OPTS}
    for val in (None, 0, 9) if kind == "reply" else (None,):
        seq = "self.device.get_sequence()" if val is None else "tsn"
        sc = {"tsn": val} if kind == "reply" else None

        def data(ps, p, got, seq=seq):
            return got is not None and got[0] == "bin" and got[1] == "+" and got[2] == ps.T(f"t.uint8_t({seq}).serialize()") and contains(got[3], ("param", "command")) and contains(got[3], ("param", "*args"))
        forward(ctx, rule, f"{ZDO}.{kind}", kind, dict(profile="0", cluster="command", src_ep=["ZDO_ENDPOINT", "0"], dst_ep=["ZDO_ENDPOINT", "0"], sequence=seq, data=data, **opts),
                callee=f"{DEV}.{kind}", base="self._device", scenario=sc)
    if kind == "request":
        ps = ctx.paths(f"{ZDO}.request")
        for p in ps:
            ctx.ob(rule, not p.normal or len(calls(p, "get_sequence")) == 1, ps, "one request draws several transaction numbers", "zdo draw")


def ep_send(ctx, rule, kind):
    ps = forward(ctx, rule, f"{EP}.{kind}", kind, dict(cluster="cluster", src_ep=["self._endpoint_id", "self.endpoint_id"], dst_ep=["self._endpoint_id", "self.endpoint_id"], sequence="sequence", data="data", **{k: k for k in OPTS}),
                 callee=f"{DEV}.{kind}", base="self.device")
    zll, zha = "zigpy.profiles.zll.PROFILE_ID", "zigpy.profiles.zha.PROFILE_ID"
    ll = "zigpy.zcl.clusters.lightlink.LightLink.cluster_id"
    own = "self.profile_id"
    ZLL = ctx.kit.teval(ps.T(zll), {})
    L = ctx.kit.teval(ps.T(ll), {})
    ZHA = ctx.kit.teval(ps.T(zha), {})
    plain = lambda v: getattr(v, "value", v)
    ZLL, L, ZHA = plain(ZLL), plain(L), plain(ZHA)
    ctx.ob(rule, (ZLL, ZHA, L) == (0xC05E, 0x0104, 0x1000), ps, f"profile identifiers are {ZLL}, {ZHA}, light link cluster {L}", kind + "ids")
    if not isinstance(L, int):
        return
    for prof, cl, cmd, want in ((0x0104, 6, 0, 0x0104), (0xC05E, 6, 0, ZHA), (0xC05E, L, 0x00, ZLL), (0xC05E, L, 0x3F, ZLL), (0xC05E, L, 0x40, ZHA), (0xA1E0, 6, 0, 0xA1E0)):
        asg = ps.asg({own: prof, "cluster": cl, "command_id": cmd})
        for p in ps:
            if p.normal and ps.consistent(p, asg):
                for e in calls(p, kind):
                    b = bindings(ctx, ps, e, f"{DEV}.{kind}")
                    v = plain(ctx.kit.teval(b.get("profile", ("none",)), asg))
                    ctx.ob(rule, v == want and type(v) is not bool, (ps.func, e.node), f"a frame of an endpoint with profile 0x{prof:04x} for cluster 0x{cl:04x}, command 0x{cmd:02x} carries profile {v}", f"{kind}profile{prof}{cl}{cmd}")


def dev_reply(ctx, rule):
    forward(ctx, rule, f"{DEV}.reply", "request", same("profile", "cluster", "src_ep", "dst_ep", "sequence", "data", *OPTS), base="self")


def dev_request(ctx, rule):
    """Device.request hands one request to the application with the caller's arguments."""
    for expect in (True, False):
        ps = ctx.paths(f"{DEV}.request", scenario={"expect_reply": expect}, handler_inject=False, inline=("zigpy.util.Requests.new", "zigpy.util.Request.__enter__", "zigpy.util.Request.__exit__"))
        n = 0
        for p in ps:
            if not p.normal:
                continue
            es = [e for e in calls(p, "request") if e.base is not None and norm(e.base) == ps.T("self._application")]
            ctx.ob(rule, len(es) == 1, ps, f"{len(es)} frames for one request [{describe(p)}]", f"dev{expect}")
            for e in es:
                n += 1
                b = bindings(ctx, ps, e, f"{APP}.request")
                want = same("profile", "cluster", "src_ep", "dst_ep", "sequence", "data", "expect_reply", "use_ieee", "ask_for_ack", "priority", device="self")
                for k, v in want.items():
                    ok = b.get(k) == ps.T(v) or k == "expect_reply" and is_const(b.get(k), expect)
                    ctx.ob(rule, ok, (ps.func, e.node), f"{k} is {show(b[k]) if k in b else 'dropped'}", f"dev{k}")
        ctx.ob(rule, n >= 1, ps, "nothing is sent", f"devn{expect}")


def defaults(ctx, rule, qual, **want):
    """Default values of parameters."""
    f = ctx.p.func(qual)
    d = f.defaults()
    for k, v in want.items():
        got = ctx.kit.consteval(f.module, d[k]) if k in d else "required"
        ctx.ob(rule, got is v or got == v and type(got) is type(v), f, f"{k} defaults to {got}", f"{qual}:{k}")
