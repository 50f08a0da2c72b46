"""What the gateway says about itself and knows about its devices is true: clock, endpoints, scans, names, replies."""
import ast

from ..core import UNK, calls, describe, norm, show
from ..lib import allfacts, contains, linear
from ..model import Func

G = "zigpy.zcl.clusters.general."
APP = "zigpy.application.ControllerApplication"
F = "zigpy.zcl.foundation."
Z = "zigpy.zdo.types."
NONE = ("const", None)


def facts(p):
    return {norm(a): v for a, v in allfacts(p)}


def sub(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from sub(x)


def fn(t):
    """Name of the called function or method."""
    return t[1][-1].rsplit(".", 1)[-1] if t[0] == "call" and t[1][0] in ("glob", "attr") else None


def is_now(t):
    """A reading of the wall clock in UTC."""
    return fn(t) == "now" and any("utc" in repr(x) for x in t[2] + t[3]) or fn(t) == "utcnow" and False


def offset(t):
    """The local zone's offset at this moment."""
    return fn(t) == "utcoffset" and any(fn(x) in ("now", "localtime") for x in sub(t))


def clock(ctx):
    """The time served is the number of seconds since the start of 2000, in UTC or local time."""
    R = "clock"
    want = {"time": ("UTCTime", 1, 0, -1), "local_time": ("LocalTime", 1, 1, -1), "time_zone": ("int32s", 0, 1, 0)}
    for n, (typ, nows, offs, epochs) in want.items():
        q = f"{G}Time.handle_read_attribute_{n}"
        if q not in ctx.kit.p.funcs:
            continue
        ps = ctx.paths(q)
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            r = norm(p.ret)
            if r[0] == "call" and r[1][0] == "glob" and len(r[2]) == 1:
                ctx.ob(R, r[1][1].endswith("." + typ), ps, f"the {n} attribute is a {r[1][1].rsplit('.', 1)[-1]}", n + "type")
                r = r[2][0]
            if fn(r) in ("int", "round", "floor") and r[2]:
                r = r[2][0]
            if fn(r) not in ("total_seconds",):
                bad = [t for t in sub(r) if t[0] == "attr" and t[2] in ("seconds", "microseconds", "days")]
                ctx.ob(R, not bad, ps, f"the {n} attribute wraps around: {show(r)[:80]}", n + "sec")
                continue
            d = dict(linear(r[1][1]))
            got = [0, 0, 0]
            other = []
            for t, k in d.items():
                if t is None:
                    other.append(t)
                elif is_now(t):
                    got[0] += k
                elif offset(t):
                    got[1] += k
                elif t[0] == "glob" and "EPOCH" in t[1]:
                    got[2] += k
                else:
                    other.append(t)
            if other:
                ctx.ob(R, not any(fn(x) in ("now", "utcnow", "today") for t in other if t for x in sub(t)), ps, f"the {n} attribute is based on {show(other[0])[:80] if other[0] else 'a constant shift'}", n + "src")
                ctx.ob(R, None not in other, ps, f"the {n} attribute is shifted", n + "shift")
                continue
            ctx.ob(R, got == [nows, offs, epochs], ps, f"the {n} attribute is {show(r)[:100]}", n)
    m = ctx.kit.p.modules.get("zigpy.zcl.clusters.general")
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and "EPOCH" in st.targets[0].id and isinstance(st.value, ast.Call):
            a = [x.value for x in st.value.args if isinstance(x, ast.Constant)]
            if len(a) == len(st.value.args) and len(a) >= 3:
                ctx.ob(R, a[:3] == [2000, 1, 1] and not any(a[3:7]), (m, st), f"time starts at {a}", "epoch")
                tz = [k.value for k in st.value.keywords if k.arg == "tzinfo"]
                ctx.ob(R, len(tz) == 1 and "utc" in ast.unparse(tz[0]).lower(), (m, st), "time does not start at midnight UTC", "epochtz")


def endpoints(ctx):
    """The coordinator registers its standard endpoints and every configured one, each under its own number."""
    R = "own-endpoints"
    ps = ctx.paths(APP + ".register_endpoints", loop=1)
    src = ps.T("self.config['additional_endpoints']")
    for p in ps:
        if not p.normal:
            continue
        its = [e for e in p.events if e.kind == "loopiter" and norm(e.base) == src]
        ends = [e for e in p.events if e.kind == "loopend" and norm(e.base) == src]
        ad = calls(p, "add_endpoint")
        loops = [norm(e.base) for e in p.events if e.kind in ("loopiter", "loopend") and contains(norm(e.base), src)]
        ctx.ob(R, bool(loops) or any(contains(norm(x), src) for e in p.events for x in e.args), ps, "configured endpoints are not registered", "cfg")
        ctx.ob(R, not any(t[0] == "slice" or t[0] == "comp" and t[3][0][1] for b in loops for t in sub(b)), ps, f"only some configured endpoints are registered: {show(loops[0])[:60] if loops else ''}", "part")
        if its:
            ctx.ob(R, sum(e.args and norm(e.args[0]) == ("elem", src) for e in ad) == 1, ps, "a configured endpoint is not registered", "extra")
        if its or ends:
            ctx.ob(R, bool(ends), ps, "only some of the configured endpoints are registered", "all")
        descs = [norm(e.args[0]) for e in ad if e.args and fn(norm(e.args[0])) == "SimpleDescriptor"]
        nums = [dict(d[3]).get("endpoint") for d in descs]
        ctx.ob(R, len(set(nums)) == len(nums), ps, f"two own endpoints have the same number: {[show(n) for n in nums if n]}", "nums")
        ctx.ob(R, ("const", 1) in nums, ps, "the default endpoint is not registered", "one")
        for d in descs:
            kw = dict(d[3])
            for side in ("input_clusters", "output_clusters"):
                ctx.ob(R, side in kw, ps, f"an own endpoint has no {side}", side)
            if kw.get("endpoint") == ("const", 1) and kw.get("input_clusters", NONE)[0] == "list":
                have = repr(kw["input_clusters"])
                for c in ("Time", "Ota"):
                    ctx.ob(R, f".{c}" in have, ps, f"the {c} cluster which the gateway serves is not advertised", c)
        if p.outcome.kind in ("next", "return"):
            for e in ad:
                aw = [x for x in p.events if x.kind == "await" and norm(x.value if x.value is not None else x.term) == norm(e.term)] if e.term is not None else []
                ctx.ob(R, bool(aw) or e.term is None or not any(x.kind == "await" for x in p.events), ps, "an endpoint is registered without waiting for it", "await")


def scan(ctx):
    """Each scanned channel gets its own reading; the request asks for what the caller asked."""
    R = "energy-scan"
    q = APP + ".energy_scan"
    ps = ctx.paths(q, handler_inject=True, noinline=(APP + ".get_device",))
    n = 0
    for p in ps:
        req = [e for e in p.events if e.kind == "call" and e.name == "NwkUpdate"]
        for e in req:
            kw = {k: norm(v) for k, v in e.kwargs}
            for f, par in (("ScanChannels", "channels"), ("ScanDuration", "duration_exp"), ("ScanCount", "count")):
                ctx.ob(R, f not in kw and e.args or kw.get(f) == ("param", par), ps, f"a scan is requested with {f} {show(kw[f])[:40] if f in kw else 'missing'}", f)
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r = norm(p.ret)
        z = [t for t in sub(r) if fn(t) == "zip"]
        if fn(r) != "dict" or not z:
            continue
        n += 1
        a = z[0][2]
        failed = any(e.kind == "handler" for e in p.events)
        if failed:
            ctx.ob(R, len(a) == 2 and contains(a[0], ("param", "channels")), ps, f"a failed scan reports {show(r)[:80]}", "fail")
            ctx.ob(R, len(a) != 2 or a[1][0] != "list", ps, f"a failed scan reports another number of channels: {show(r)[:80]}", "failone")
            if len(a) == 2 and a[1][0] == "bin" and a[1][1] == "*":
                ln = [t for t in sub(a[1]) if fn(t) == "len"]
                ctx.ob(R, ln and contains(ln[0], a[0]), ps, f"a failed scan reports another number of channels: {show(r)[:80]}", "failn")
        else:
            ctx.ob(R, len(a) == 2 and a[0][0] == "idx" and a[1][0] == "idx" and a[0][1] == a[1][1], ps, f"scan results are {show(r)[:100]}", "src")
            if len(a) == 2 and a[0][0] == "idx" and a[1][0] == "idx":
                ctx.ob(R, a[0][2] == ("const", 1) and a[1][2] in (("const", 4), ("const", -1)), ps, f"channels come from field {show(a[0][2])} and readings from field {show(a[1][2])} of the response", "fields")
    ctx.need(R, n, 1, "results")


def model(ctx):
    """A device's model and manufacturer are the values it reported under those names."""
    R = "model-info"
    q = "zigpy.endpoint.Endpoint.get_model_info"
    ps = ctx.paths(q, loop=3, noinline=("zigpy.zcl.Cluster.read_attributes",), handler_inject=True)
    reads = 0
    for p in ps:
        f = facts(p)
        size = {(len(t[2][0][1]), a[1 + (a[1] == t)], v) for a, v in f.items() if a[0] == "eq" for t in a[1:] if fn(t) == "len" and t[2] and t[2][0][0] in ("list", "tuple")}
        if any((k == ("const", n)) != v for n, k, v in size):
            continue
        rd = calls(p, "read_attributes")
        reads += len(rd)
        for e in p.events:
            if e.kind == "setattr" and e.name in ("_model", "_manufacturer", "model", "manufacturer"):
                v, n = norm(e.value), e.name.lstrip("_")
                if v[0] == "idx" and v[2][0] == "const" and isinstance(v[2][1], str):
                    ctx.ob(R, v[2][1] == n, ps, f"the {n} is set to the {v[2][1]}", n)
                    ctx.ob(R, v[1][0] != "idx" or v[1][2] == ("const", 0), ps, f"the {n} is read from the failures", n + "src")
                else:
                    ctx.ob(R, v[0] not in ("const",), ps, f"the {n} becomes {show(v)[:40]}", n + "c")
        for a, v in f.items():
            if a[0] == "in" and a[1][0] == "const" and a[1][1] in ("model", "manufacturer") and v and contains(a[2], ("attr", ("attr", ps.T("self"), "basic"), "read_attributes")):
                st = [e for e in p.events if e.kind == "setattr" and e.name.lstrip("_") == a[1][1] and contains(norm(e.value), a[2])]
                ctx.ob(R, bool(st), ps, f"a reported {a[1][1]} is not stored", a[1][1] + "st")
            if a[0] == "truthy" and fn(a[1]) == "get" and a[1][2] and a[1][2][0] in (("const", "model"), ("const", "manufacturer")) and not v:
                ctx.ob(R, False, ps, f"an empty {a[1][2][0][1]} is not stored: the previous one is kept", "empty")
        if p.outcome.kind == "raise" and rd:
            ctx.ob(R, len(rd) > 1 or not rd[0].args or norm(rd[0].args[0])[0] != "list" or len(norm(rd[0].args[0])[1]) != 2 or not any(e.kind == "handler" for e in p.events), ps, f"a device which cannot answer for two attributes at once has no model [{describe(p)}]", "retry")
        if p.outcome.kind == "return" and p.ret is not None and rd:
            asked = {x[1] for e in rd if e.args for x in norm(e.args[0])[1] if norm(e.args[0])[0] == "list"}
            failed = any(e.kind == "handler" for e in p.events)
            if failed:
                single = {norm(e.args[0])[1][0][1] for e in rd if e.args and norm(e.args[0])[0] == "list" and len(norm(e.args[0])[1]) == 1}
                ctx.ob(R, {"model", "manufacturer"} <= single or not single and len(asked) < 2, ps, f"after a timeout only {sorted(single)} is read again", "again")
            ctx.ob(R, {"model", "manufacturer"} <= asked or not asked, ps, f"only {sorted(asked)} is read", "asked")
            r = norm(p.ret)
            if r[0] == "tuple" and len(r[1]) == 2:
                for x, n in zip(r[1], ("model", "manufacturer")):
                    ok = x == ps.T(f"self._{n}") or x == ps.T(f"self.{n}") or x[0] == "idx" and x[2] == ("const", n)
                    bad = x[0] == "attr" and x[2].lstrip("_") in ("model", "manufacturer") or x[0] == "idx" and x[2] in (("const", "model"), ("const", "manufacturer"))
                    ctx.ob(R, ok or not bad, ps, f"the {n} is reported as {show(x)[:60]}", n + "r")
    ctx.ob(R, reads > 0, ps, "the model is never read", "reads")

    R = "signature"
    ps = ctx.paths("zigpy.device.Device.get_signature", loop=1)
    src = ps.T("self.endpoints.items()")
    el = ("elem", src)
    ep = ("idx", el, ("const", 1))
    want = {"manufacturer": ps.T("self.manufacturer"), "model": ps.T("self.model"), "node_desc": ps.T("self.node_desc")}
    eps = {"profile_id": "profile_id", "device_type": "device_type", "input_clusters": "in_clusters", "output_clusters": "out_clusters"}
    for p in ps:
        if not p.normal:
            continue
        f = facts(p)
        st = {norm(e.args[0]): norm(e.value if e.value is not None else e.args[1]) for e in p.events if e.kind == "setidx"}
        for n in want:
            none = [f[a] for a in {("is", ps.T("self." + n), NONE), ("is", ps.T("self._" + n), NONE)} if a in f]
            v = st.get(("const", n))
            if none == [False]:
                ctx.ob(R, v is not None, ps, f"the signature has no {n}", n)
            if v is not None:
                ctx.ob(R, any(contains(v, x) for x in (ps.T("self." + n), ps.T("self._" + n))), ps, f"the {n} of the signature is {show(v)[:60]}", n + "v")
        zero = [v for a, v in f.items() if a[0] == "eq" and ("const", 0) in a and contains(a, el)]
        if zero and any(e.kind == "loopiter" for e in p.events):
            e_ = {k: v for k, v in st.items() if contains(k, el) and v[0] == "dict"}
            ctx.ob(R, bool(e_) != zero[0] or not e_ and not any(contains(k, el) for k in st) and zero[0], ps, f"{'the management endpoint is' if zero[0] else 'an endpoint is not'} part of the signature", "ep")
            ctx.ob(R, any(e.kind == "loopend" for e in p.events), ps, "only some endpoints are part of the signature", "all")
            for k, d in e_.items():
                ctx.ob(R, k == ("idx", el, ("const", 0)), ps, f"an endpoint is listed as {show(k)[:60]}", "num")
                for kk, v in d[1]:
                    if kk[0] == "const" and kk[1] in eps:
                        ctx.ob(R, contains(v, ("attr", ep, eps[kk[1]])) and not any(contains(v, ("attr", ep, x)) for x in eps.values() if x != eps[kk[1]]), ps, f"the {kk[1]} of an endpoint is {show(v)[:60]}", kk[1])


def groups(ctx):
    """A group's virtual cluster is the standard cluster asked for, made once."""
    R = "group-cluster"
    q = "zigpy.group.GroupEndpoint."
    for name, make, store, par in (("__getitem__", "from_id", "_clusters", "item"), ("__getattr__", "from_attr", "_cluster_by_attr", "name")):
        ps = ctx.paths(q + name, noinline=(f"zigpy.group.GroupCluster.{make}",))
        par = ("param", ps.func.params[-1])
        stores = (ps.T("self." + store), ps.T("self.clusters"))
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            r = norm(p.ret)
            mk = calls(p, make)
            if mk:
                a = [norm(x) for x in mk[0].args]
                ctx.ob(R, a == [ps.T("self"), par], ps, f"a group cluster is made from {[show(x)[:30] for x in a]}", make)
                st = [e for e in p.events if e.kind == "setidx" and norm(e.base) in stores]
                st2 = [e for e in calls(p, "setdefault") if e.base is not None and norm(e.base) in stores]
                ctx.ob(R, bool(st or st2), ps, "a group cluster is made anew each time: its listeners are lost", make + "st")
                for e in st:
                    ctx.ob(R, norm(e.args[0]) == par, ps, f"a group cluster is stored under {show(e.args[0])[:40]}", make + "k")
                    ctx.ob(R, norm(e.value if e.value is not None else e.args[1]) == norm(mk[0].term), ps, "something else than the group cluster is stored", make + "v")
                ctx.ob(R, r == norm(mk[0].term) or r[0] == "idx", ps, f"a group cluster is {show(r)[:60]}", make + "r")
            elif r[0] == "idx":
                ctx.ob(R, r[2] == par, ps, f"another group cluster is returned: {show(r)[:60]}", make + "c")
    ps = ctx.paths("zigpy.group.GroupCluster.from_id")
    cid = ("param", "cluster_id")
    for p in ps:
        f = facts(p)
        if p.outcome.kind == "return" and p.ret is not None:
            r = norm(p.ret)
            ctx.ob(R, r[0] != "call" or r[1][0] != "idx" or r[1][2] == cid, ps, f"a group cluster is {show(r)[:60]}", "id")
            ctx.ob(R, r[0] != "call" or r[2][:1] == (("param", "group_endpoint"),), ps, "a group cluster belongs to another group", "idg")
            kw = dict(r[3]) if r[0] == "call" else {}
            ctx.ob(R, kw.get("is_server", ("const", True)) in (("const", True), ("param", "is_server")), ps, "a group cluster is a client", "ids")
            srv = [v for a, v in f.items() if a[0] in ("is", "truthy", "eq") and a[1] == ("param", "is_server")]
            ctx.ob(R, srv and all(srv), ps, "a client cluster is accepted for a group", "srv")
    ps = ctx.paths("zigpy.group.GroupCluster.from_attr", loop=1)
    for p in ps:
        its = [e for e in p.events if e.kind == "loopiter"]
        same = [v for a, v in facts(p).items() if a[0] == "eq" and ("param", ps.func.params[-1]) in a and any(t[0] == "attr" and t[2] == "ep_attribute" for t in a[1:])]
        if p.outcome.kind == "return" and p.ret is not None and its:
            r = norm(p.ret)
            ctx.ob(R, r[0] != "call" or same == [True], ps, f"a group cluster of another name is returned [{describe(p)}]", "attr")
            ctx.ob(R, r[0] != "call" or r[2][:1] == (("param", "group_endpoint"),), ps, "a group cluster belongs to another group", "attrg")
            ctx.ob(R, r != NONE, ps, "an unknown group cluster is None", "attrn")
        elif p.outcome.kind == "raise" and its:
            ctx.ob(R, True not in same and any(e.kind == "loopend" for e in p.events), ps, "a known group cluster is refused", "attrr")


def replies(ctx):
    """A reply about several attributes lists exactly the failures, or one success when there are none."""
    R = "partial-failure"
    SUC = ("attr", ("glob", F + "Status"), "SUCCESS")
    for q in (F + "WriteAttributesResponse.serialize", F + "ConfigureReportingResponse.serialize"):
        ps = ctx.paths(q)
        me = ps.T("self")
        for p in ps:
            f = facts(p)
            comps = {a[1]: v for a, v in f.items() if a[0] == "truthy" and a[1][0] == "comp"}
            if p.outcome.kind == "raise":
                ctx.ob(R, f.get(("truthy", me)) is False, ps, f"a response cannot be sent [{describe(p)}]", q + "raise")
                continue
            if p.outcome.kind != "return" or p.ret is None or len(comps) != 1:
                continue
            r = norm(p.ret)
            (c, some), = comps.items()
            it, conds = c[3][0]
            el = ("elem", me)
            ctx.ob(R, it == me, ps, f"the failures are taken from {show(it)[:60]}", q + "src")
            ctx.ob(R, len(conds) == 1, ps, "successes are counted as failures", q + "cond")
            for x in conds:
                if x[0] == "cmp" and x[1] in ("==", "!=", "is", "is not"):
                    ctx.ob(R, x[1] in ("!=", "is not") and any("SUCCESS" in repr(t) for t in x[2:]), ps, f"the failures are the records with {show(x)[:60]}", q + "ne")
            if some:
                inner = [t for t in sub(r) if t[0] == "comp" and t != c]
                used = [t for t in inner if t[3][0][0] == c or contains(t[3][0][0], me)]
                if used:
                    ctx.ob(R, used[0][3][0][0] == c, ps, "successes are listed among the failures", q + "all")
                    ctx.ob(R, not used[0][3][0][1], ps, "some failures are left out", q + "left")
                ctx.ob(R, not contains(r, ("idx", c, ("const", 0))) or bool(used), ps, "only the first failure is reported", q + "first")
            else:
                ctx.ob(R, "SUCCESS" in repr(r) and not any(t[0] == "comp" for t in sub(r)), ps, f"success is reported as {show(r)[:80]}", q + "ok")
    q = F + "WriteAttributesResponse.deserialize"
    ps = ctx.paths(q, loop=1)
    for p in ps:
        ds = [e for e in p.events if e.kind == "call" and e.name == "deserialize"]
        suc = [v for a, v in facts(p).items() if a[0] in ("eq", "is") and "SUCCESS" in repr(a)]
        if p.outcome.kind == "return" and suc == [False]:
            last = [(norm(a), v) for _, a, v in p.trail if norm(a)[0] in ("lt", "le", "truthy")]
            ctx.ob(R, bool(last), ps, "further failures are not read", "more")
            for a, v in last[-1:]:
                ln = [t for t in a[1:] if fn(t) == "len"]
                k = [t[1] for t in a[1:] if t[0] == "const"]
                if a[0] == "lt" and ln and k:
                    # reading stops only with less than one record (3 bytes) left
                    stop = (a[1] == ln[0]) == v
                    bound = k[0] - 1 if a[1] == ln[0] else k[0]
                    ctx.ob(R, not stop or bound <= 2, ps, f"a failure is not read when {bound} bytes are left", "bound")
    for q in (F + "ConfigureReportingResponseRecord.serialize",):
        ps = ctx.paths(q)
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            r = norm(p.ret)
            suc = [v for a, v in facts(p).items() if a[0] in ("eq", "is") and "SUCCESS" in repr(a)]
            for n in ("direction", "attrid"):
                has = contains(r, ps.T("self." + n))
                ctx.ob(R, suc != [True] or not has, ps, f"a success carries the {n}", n + "s")
                ctx.ob(R, suc != [False] or has, ps, f"a failure does not say the {n}", n + "f")
            ctx.ob(R, contains(r, ps.T("self.status")), ps, "the status is not sent", "status")
    R = "optional-descriptor"
    ps = ctx.paths(Z + "SizePrefixedSimpleDescriptor.deserialize")
    data = ("param", ps.func.params[-1])
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r, f = norm(p.ret), facts(p)
        empty = f.get(("truthy", data)) is False or any(v for a, v in f.items() if a[0] == "eq" and ("const", 0) in a)
        none = r[0] == "tuple" and r[1][0] == NONE
        ctx.ob(R, none == empty, ps, f"{'an absent' if empty else 'a'} descriptor is decoded as {show(r)[:60]} [{describe(p)}]", "none")
        rest = ("idx", data, ("slice", ("const", 1), NONE, NONE))
        ctx.ob(R, contains(r, rest) or f.get(("truthy", data)) is False, ps, "the length byte is not consumed", "rest")
    ps = ctx.paths(Z + "SizePrefixedSimpleDescriptor.serialize")
    for p in ps:
        if p.outcome.kind == "return" and p.ret is not None:
            r = norm(p.ret)
            s = [t for t in sub(r) if fn(t) == "serialize"]
            ln = [t for t in sub(r) if fn(t) == "len"]
            if s and ln and r[0] == "bin":
                ctx.ob(R, ln[0][2] == (s[-1],) or ln[0][2] == (s[0],), ps, f"the length is that of {show(ln[0][2][0])[:60]}", "len")
                ctx.ob(R, not any(t[0] == "bin" and contains(t, ln[0]) for t in sub(r[2])), ps, f"the length is {show(r[2])[:80]}", "lenexact")
                ctx.ob(R, r[1] == "+" and contains(r[2], ln[0]) and r[3] in s, ps, f"a descriptor is encoded as {show(r)[:80]}", "lenfirst")
    R = "bind-target"
    for m in ("serialize", "deserialize"):
        ps = ctx.paths(f"{Z}MultiAddress.{m}")
        for p in ps:
            eqs = {}
            for a, v in facts(p).items():
                if a[0] in ("eq", "is") and any(t[0] == "attr" and t[2] == "addrmode" for t in a[1:]):
                    eqs.update({t[1]: v for t in a[1:] if t[0] == "const"})
            if not eqs:
                continue
            for k in (0, 1, 2, 3, 15, 255):
                if any((x == k) != v for x, v in eqs.items()):
                    continue
                ctx.ob(R, (p.outcome.kind == "raise") == (k not in (1, 3)), ps, f"a bind target with address mode {k} is {'refused' if p.outcome.kind == 'raise' else 'accepted'}", f"{m}{k}")
    R = "conditional-field"
    fe, ff = 0xFE, 0xFF
    want = {"MultiAddress": ("addrmode", (0, 1, 2, 3, 15), dict(nwk={1}, ieee={3}, endpoint={3})), "NwkUpdate": ("ScanDuration", (0, 1, 4, 5, 6, 0x7F, 0xFD, fe, ff), dict(ScanCount=set(range(6)), nwkUpdateId={fe, ff}, nwkManagerAddr={ff}))}
    for c, (on, vals, fields) in want.items():
        cls = ctx.kit.p.classes.get(Z + c)
        if cls is None:
            continue
        for st in cls.node.body:
            if not (isinstance(st, ast.AnnAssign) and isinstance(st.value, ast.Call) and isinstance(st.target, ast.Name) and st.target.id in fields):
                continue
            lam = [k.value for k in st.value.keywords if k.arg == "requires" and isinstance(k.value, ast.Lambda)]
            if not lam:
                continue
            node = ast.FunctionDef(name="requires", args=lam[0].args, body=[ast.Return(value=lam[0].body)], decorator_list=[], returns=None, type_params=[])
            ast.copy_location(node, lam[0])
            ast.fix_missing_locations(node)
            par = lam[0].args.args[0].arg
            ps = ctx.paths(Func(cls.module, None, node, f"{Z}{c}.{st.target.id}.requires", None), env={par: ("param", par, None)})
            me = ("param", par)
            consts = {("attr", me, k): v.value for k, v in ((x.targets[0].id, x.value) for x in cls.node.body if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name)) if isinstance(v, ast.Constant)}
            for k in vals:
                asg = consts | {("attr", me, on): k}
                for p in ps.scen(asg):
                    if p.ret is None:
                        continue
                    v = ps.value(norm(p.ret), asg)
                    ctx.ob(R, v is UNK or bool(v) == (k in fields[st.target.id]), ps, f"the {st.target.id} of a {c} with {on} {k} is {'sent' if v else 'not sent'}", f"{c}{st.target.id}{k}")


def history(ctx):
    """A backup supersedes another one only of the same network with a higher counter and no older update."""
    R = "supersedes"
    q = "zigpy.backups.NetworkBackup.supersedes"
    ps = ctx.paths(q, noinline=("zigpy.backups.NetworkBackup.is_compatible_with",))
    a, b, u, w = "self.network_info.network_key.tx_counter", "backup.network_info.network_key.tx_counter", "self.network_info.nwk_update_id", "backup.network_info.nwk_update_id"
    for comp in (True, False):
        for x in (4, 5, 6):
            for y in (4, 5, 6):
                asg = {a: x, b: 5, u: y, w: 5, "self.is_compatible_with(backup)": comp}
                for p in ps.scen(asg):
                    if p.ret is None:
                        continue
                    v = ps.value(norm(p.ret), asg)
                    want = comp and x > 5 and y >= 5
                    ctx.ob(R, v is UNK or bool(v) == want, ps, f"a backup {'of the same' if comp else 'of another'} network with counter {x} and update {y} {'supersedes' if v else 'does not supersede'} one with 5 and 5", f"{comp}{x}{y}")

    R = "known-route"
    ps = ctx.paths(APP + ".handle_relays", noinline=("zigpy.util.filter_relays", APP + ".get_device", APP + "._discover_unknown_device"))
    nwk, rel = ("param", "nwk"), ("param", "relays")
    for p in ps:
        if not p.normal:
            continue
        unknown = any(e.kind == "handler" for e in p.events)
        st = [e for e in p.events if e.kind in ("setattr", "call") and e.name == "relays"]
        dis = calls(p, "_discover_unknown_device")
        for e in calls(p, "get_device"):
            x = [norm(v) for v in e.args] + [norm(v) for _, v in e.kwargs]
            ctx.ob(R, x == [nwk], ps, "the route of another device is changed", "dev")
        if unknown:
            ctx.ob(R, dis and [norm(x) for x in dis[0].args] == [nwk], ps, "an unknown sender is not looked for", "disc")
            ctx.ob(R, not st, ps, "a route is stored without a device", "nodev")
        elif calls(p, "get_device"):
            v = [norm(x) for e in st for x in (list(e.args) + ([e.value] if e.kind == "setattr" else []))]
            ctx.ob(R, any(contains(x, rel) and fn(x) == "filter_relays" and not any(t[0] == "slice" for t in sub(x)) for x in v), ps, f"a route is stored as {show(v[0])[:60] if v else 'nothing'}", "route")


def hashing(ctx):
    """An install code's key covers the whole code, its padding and its length."""
    R = "install-hash"
    q = "zigpy.util.aes_mmo_hash"
    upd = q + "_update"
    ps = ctx.paths(q, loop=1, noinline=(upd,))
    bs = None
    for n in (6, 8, 12, 14, 16, 18, 31, 32, 46):
        k = 0
        for p in ps:
            for B in ("block_size",):
                # the block is 16 bytes: AES.block_size // 8
                blk = {t for a in facts(p) for t in sub(a) if t[0] == "bin" and t[1] == "//" and t[3] == ("const", 8)} | {t for e in p.events for x in e.args for t in sub(norm(x)) if t[0] == "bin" and t[1] == "//" and t[3] == ("const", 8)}
            asg = {ps.T("len(data)"): n, ("param", "data"): b"x" * n} | {t: 16 for t in blk}
            if not ps.consistent(p, ps.asg(asg)):
                continue
            if p.outcome.kind != "return" or p.ret is None:
                continue
            k += 1
            r = norm(p.ret)
            nest = sorted({t for t in sub(r) if t[0] == "call" and t[1] == ("glob", upd)}, key=lambda t: len(repr(t)))
            chain = len([e for e in p.events if e.kind == "call" and e.name == "aes_mmo_hash_update"])
            pads = 1 + (n % 16 >= 14)
            want = pads + (n >= 16)
            ctx.ob(R, chain == want, ps, f"{chain} blocks are hashed for {n} bytes of which the last {n % 16} need {pads} padded ones", f"n{n}")
            def length(t):
                if t[0] == "idx" and t[2] == ("const", 0) and t[1][0] == "call" and t[1][1] == ("glob", upd):
                    got = length(t[1][2][0])
                    blocks = n // 16 if contains(t[1][2][2], ("param", "data")) else 1
                    return UNK if got is UNK else got + 16 * blocks
                if t[0] == "bin" and any(contains(t, x) for x in nest):
                    a, b = length(t[2]), length(t[3])
                    return UNK if a is UNK or b is UNK else ctx.kit.teval(("bin", t[1], ("const", a), ("const", b)), {})
                return ctx.kit.teval(t, ps.asg(asg))

            last = {}
            for e in p.events:
                if e.kind == "setidx":
                    at = ctx.kit.teval(norm(e.args[0]), ps.asg(asg))
                    last[at] = norm(e.value if e.value is not None else e.args[1])
            for at, w in ((15, 8 * n & 255), (14, 8 * n >> 8)):
                if UNK not in last:
                    ctx.ob(R, at in last or not w, ps, f"the length of {n} bytes is not hashed", f"nolen{at}{n}")
                if at in last and not (at == n % 16 and last[at] == ("const", 0x80)):
                    v = length(last[at])
                    ctx.ob(R, v is UNK or v == w, ps, f"byte {at} of the length of {n} bytes is {v}", f"len{at}{n}")
            top = [e for e in p.events if e.kind == "setidx" and e.value is not None and norm(e.value) == ("const", 0x80)]
            ctx.ob(R, len(top) == 1 or not last, ps, "the padding does not start with a one", "pad")
            for e in top:
                at = ctx.kit.teval(norm(e.args[0]), ps.asg(asg))
                ctx.ob(R, at is UNK or at == n % 16, ps, f"the padding of {n} bytes starts at {at}", f"at{n}")
        ctx.need(R, k, 1, f"{n} bytes")
    ps = ctx.paths(upd, loop=1)
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r = norm(p.ret)
        enc = [t for t in sub(r) if fn(t) == "AES"]
        for t in enc:
            ctx.ob(R, contains(t, ("param", "result")), ps, f"a block is encrypted with {show(t)[:60]}", "key")
        if enc:
            xs = [e for e in p.events if e.kind in ("setidx",)]
            its = [e for e in p.events if e.kind == "loopiter"]
            if its:
                ctx.ob(R, len(xs) == 1, ps, "the plaintext is not mixed in", "xor")
            for e in xs:
                v = norm(e.value if e.value is not None else e.args[1])
                ctx.ob(R, v[0] != "bin" or v[1] == "^", ps, f"the plaintext is mixed in by {v[1]}", "xorop")
                ctx.ob(R, contains(v, ("param", "data")), ps, f"the block is mixed with {show(v)[:80]}", "xorsrc")


RULES = [clock, endpoints, scan, model, groups, replies, history, hashing]
