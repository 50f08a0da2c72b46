"""Attributes, clusters and commands are addressed by their own identity, type and maker's code."""
from .. import sendspec as S
from ..core import UNK, calls, describe, norm, show
from ..lib import allfacts
from ..walk import contains, subterms

CL, EP = S.CL, S.EP
CC = "zigpy.quirks.CustomCluster"
F = "zigpy.zcl.foundation."
NI = (f"{CL}.find_attribute", f"{CL}._write_attr_records", f"{CL}._attr_reporting_rec")


def stores(p, base):
    """Attributes stored in the object denoted by one of the terms, last store of each name."""
    out = {}
    for e in p.events:
        if e.kind == "setattr" and e.base is not None and norm(e.base) in base and isinstance(e.name, str):
            out[e.name] = norm(e.value)
    return out


def made(t, cls):
    return t[0] == "call" and t[1] == ("glob", cls)


def records(ctx):
    """One record per attribute: its own identifier, its declared type, the value converted to that type."""
    R = "write-record"
    q = f"{CL}._write_attr_records"
    ps = ctx.paths(q, loop=2, handler_inject=False, noinline=NI, inject=("KeyError", "ValueError"), inject_at=lambda t, n, a: n in ("find_attribute", "type"))
    n = 0
    src = ps.T("attributes.items()")
    for p in ps:
        finds = calls(p, "find_attribute")
        known = [e for e in finds if e.ok]
        if p.outcome.kind == "raise":
            rs = [e for e in finds if not e.ok] + [e for e in calls(p, "type") if not e.ok]
            ctx.ob(R, bool(rs), ps, f"a valid write is refused [{describe(p)}]", "refuse")
            continue
        if p.outcome.kind != "return" or p.ret is None:
            continue
        bad = [e for e in finds if not e.ok]
        for e in bad:
            names = [v for a, v in allfacts(p) if norm(a)[0] == "isinstance" and "str" in show(norm(a)[2])]
            ctx.ob(R, bool(names) and not all(names), ps, f"an attribute name which does not exist is skipped silently [{describe(p)}]", "name")
        r = norm(p.ret)
        its = [e for e in p.events if e.kind == "loopiter" and norm(e.base) == src]
        if r[0] != "list":
            continue
        ctx.ob(R, len(r[1]) == len(known), ps, f"{len(r[1])} records are written for {len(known)} attributes [{describe(p)}]", "one each")
        fresh_ = [e for e in p.events if e.kind == "call" and e.name in ("TypeValue", "Attribute")]
        ctx.ob(R, not fresh_ or all(sum(e.name == k for e in fresh_) >= len(r[1]) for k in {e.name for e in fresh_}), ps, f"several records share one value object [{describe(p)}]", "shared")
        ctx.ob(R, len(finds) == len(its) or not its, ps, f"{len(its)} attributes are given, {len(finds)} are looked up [{describe(p)}]", "all")
        for t in r[1]:
            if not made(t, F + "Attribute"):
                continue
            n += 1
            d = ("call", ("attr", ("self", CL), "find_attribute"), (), ())
            aid = t[2][0] if t[2] else dict(t[3]).get("attrid")
            ok = aid is not None and aid[0] == "attr" and aid[2] == "id" and aid[1][0] == "call" and aid[1][1][0] == "attr" and aid[1][1][2] == "find_attribute"
            ctx.ob(R, ok, ps, f"the record names {show(aid)[:80] if aid else 'nothing'}", "id")
            if not ok:
                continue
            d = aid[1]
            key = d[2][0]
            ctx.ob(R, contains(key, src), ps, f"the record is for {show(key)[:80]}", "key")
            tv = t[2][1] if len(t[2]) > 1 else dict(t[3]).get("value")
            ctor = dict(zip(("type", "value"), tv[2])) | dict(tv[3]) if tv is not None and made(tv, F + "TypeValue") else {}
            # TypeValue takes type and value, or another TypeValue; both may also be stored later
            st = ctor | stores(p, (("attr", t, "value"), tv))
            ctx.ob(R, st.get("type") == ("attr", d, "zcl_type"), ps, f"the record is sent with type {show(st['type'])[:80] if 'type' in st else 'unset'} instead of the declared ZCL type", "type")
            v = st.get("value")
            want = ("call", ("attr", d, "type"), (("idx", key[1], ("const", 1)) if key[0] == "idx" else ("idx", ("param", "attributes"), key),), ())
            ctx.ob(R, v == want, ps, f"the record holds {show(v)[:100] if v else 'nothing'} instead of the given value in the declared type", "value")
    ctx.ob(R, n >= 1, ps, "no record is built", "n")
    for q, target, args in ((f"{CL}.write_attributes", "write_attributes_raw", "attrs"), (f"{CL}.write_attributes_undivided", "_write_attributes_undivided", None)):
        ps = ctx.paths(q, handler_inject=False, noinline=(*NI, f"{CL}.write_attributes_raw"))
        k = 0
        for p in ps:
            if not p.normal:
                continue
            es = calls(p, target)
            ctx.ob(R, len(es) == 1, ps, f"{target} is called {len(es)} times [{describe(p)}]", q)
            for e in es:
                k += 1
                a = [norm(x) for x in e.args] + [norm(v) for _, v in e.kwargs]
                ctx.ob(R, ps.T("self._write_attr_records(attributes)") in a, ps, "the attributes are not converted to records", q + "a")
                ctx.ob("maker-code", ("param", "manufacturer") in a and (dict((k2, norm(v)) for k2, v in e.kwargs).get("manufacturer", ("param", "manufacturer")) == ("param", "manufacturer")), ps, "the manufacturer code is dropped", q + "m")
                t = norm(e.term if e.term is not None else e.value)
                ctx.ob(R, e.awaited or p.ret is not None and norm(p.ret) == t, ps, "the write is never sent", q + "aw")
        ctx.ob(R, k >= 1, ps, "nothing is written", q + "n")
    ps = S.forward(ctx, "maker-code", f"{CL}.write_attributes_raw", "_write_attributes", dict(manufacturer="manufacturer"), base="self", loop=1)
    for p in ps:
        for e in calls(p, "_write_attributes"):
            ctx.ob(R, e.args and norm(e.args[0]) == ("param", "attrs"), ps, "other records are written", "raw")
    ps = S.forward(ctx, "maker-code", f"{CL}.read_attributes_raw", "_read_attributes", dict(manufacturer="manufacturer"), base="self")
    for p in ps:
        for e in calls(p, "_read_attributes"):
            a = norm(e.args[0]) if e.args else ("none",)
            ok = a == ("param", "attributes") or a[0] == "comp" and a[3] and norm(a[3][0][0]) == ("param", "attributes") and len(a[3]) == 1 and not a[3][0][1] and contains(a[2], ("elem", ("param", "attributes")))
            ctx.ob("read-record", ok, ps, f"the device is asked for {show(a)[:100]}", "rraw")


def reporting(ctx):
    """Reporting is configured with each attribute's own identifier, declared type and intervals."""
    R = "reporting-record"
    q = f"{CL}._attr_reporting_rec"
    ps = ctx.paths(q, noinline=NI)
    n = 0
    d = ps.T("self.find_attribute(attribute)")
    for p in ps:
        if p.outcome.kind == "raise":
            ctx.ob(R, any(not e.ok for e in calls(p, "find_attribute")), ps, f"a valid configuration is refused [{describe(p)}]", "refuse")
            continue
        if p.outcome.kind != "return" or p.ret is None:
            continue
        t = norm(p.ret)
        if not made(t, F + "AttributeReportingConfig"):
            continue
        n += 1
        st = stores(p, (t,))
        for k, want in (("attrid", ("attr", d, "id")), ("datatype", ("attr", d, "zcl_type")), ("direction", ("param", "direction")), ("min_interval", ("param", "min_interval")), ("max_interval", ("param", "max_interval")), ("reportable_change", ("param", "reportable_change"))):
            ctx.ob(R, st.get(k) == want, ps, f"{k} of the configuration is {show(st[k])[:100] if k in st else 'unset'} instead of {show(want)}", k)
    ctx.ob(R, n >= 1, ps, "no configuration is built", "n")
    q = f"{CL}.configure_reporting"
    ps = ctx.paths(q, handler_inject=False, noinline=(f"{CL}.configure_reporting_multiple",))
    k = 0
    for p in ps:
        if not p.normal:
            continue
        for e in calls(p, "configure_reporting_multiple"):
            k += 1
            b = S.bindings(ctx, ps, e, f"{CL}.configure_reporting_multiple")
            want = ps.T("{attribute: (min_interval, max_interval, reportable_change)}")
            ctx.ob(R, b.get("attributes") == want, ps, f"{show(b.get('attributes', ('none',)))[:100]} is configured", "one")
            ctx.ob("maker-code", b.get("manufacturer") == ("param", "manufacturer"), ps, "the manufacturer code is dropped", "one m")
    ctx.ob(R, k >= 1 or not any(p.normal for p in ps), ps, "nothing is configured", "k")
    q = f"{CL}.configure_reporting_multiple"
    ps = ctx.paths(q, handler_inject=False, noinline=NI, loop=1)
    src = ps.T("attributes.items()")
    key, rep = ("idx", ("elem", src), ("const", 0)), ("idx", ("elem", src), ("const", 1))
    for p in ps:
        if not p.normal:
            continue
        es = calls(p, "_configure_reporting")
        ctx.ob(R, len(es) == 1, ps, f"{len(es)} configuration requests are sent [{describe(p)}]", "many")
        for e in es:
            b = {k2: norm(v) for k2, v in e.kwargs}
            ctx.ob("maker-code", b.get("manufacturer") == ("param", "manufacturer"), ps, "the manufacturer code is dropped", "many m")
            a = norm(e.args[0]) if e.args else ("none",)
            if a[0] == "comp" and a[3]:
                ctx.ob(R, not any(c for _, cs in a[3] for c in cs), ps, "some attributes are left out", "many if")
            if e.args:
                ctx.ob(R, contains(a, src) or contains(a, ("param", "attributes")) or a == ("list", ()), ps, f"{show(a)[:80]} is configured", "many src")
        for e in calls(p, "_attr_reporting_rec"):
            b = S.bindings(ctx, ps, e, f"{CL}._attr_reporting_rec")
            for k2, want in (("attribute", key), ("min_interval", ("idx", rep, ("const", 0))), ("max_interval", ("idx", rep, ("const", 1))), ("reportable_change", ("idx", rep, ("const", 2)))):
                got = b.get(k2)
                if got is not None and contains(got, src):
                    ctx.ob(R, got == want, ps, f"{k2} is {show(got)[:80]}", "many" + k2)
                else:
                    ctx.ob(R, got is not None and got[0] not in ("const", "param"), ps, f"{k2} is {show(got)[:80] if got else 'not given'}", "many" + k2)


OPS = {"command": "request", "client_command": "reply", "_read_attributes": "_read_attributes", "_write_attributes": "_write_attributes",
       "_write_attributes_undivided": "_write_attributes_undivided", "_configure_reporting": "_configure_reporting"}


def maker(ctx):
    """The caller's manufacturer code is always used; without one, the device's exactly for maker-specific clusters, attributes and commands."""
    R = "maker-code"
    for op, target in OPS.items():
        q = f"{CC}.{op}"
        ps = ctx.paths(q, handler_inject=False, loop=1, noinline=(f"{CL}.*",))
        own = ps.T("self.endpoint.manufacturer_id")
        alt = (own, ps.T("self._endpoint.manufacturer_id"), ps.T("self.endpoint.device.manufacturer_id"), ps.T("self._endpoint.device.manufacturer_id"))
        n = 0
        for p in ps:
            if not p.normal:
                continue
            es = calls(p, target)
            ctx.ob(R, len(es) == 1, ps, f"{op} sends {len(es)} requests [{describe(p)}]", q + "1")
            if not es:
                continue
            e = es[0]
            b = {k: norm(v) for k, v in e.kwargs}
            args = [norm(a) for a in e.args]
            # what is sent is what was asked for
            if op in ("command", "client_command"):
                tbl = ps.T("self.server_commands[command_id]" if op == "command" else "self.client_commands[command_id]")
                bb = S.bindings(ctx, ps, e, f"{CL}.{target}")
                ctx.ob("command-record", bb.get("schema") == ("attr", tbl, "schema"), ps, f"{op} is encoded with {show(bb.get('schema', ('none',)))[:80]}", q + "schema")
                ctx.ob("command-record", bb.get("command_id") in (("attr", tbl, "id"), ("param", "command_id")), ps, f"{op} sends command {show(bb.get('command_id', ('none',)))[:80]}", q + "id")
                ctx.ob("command-record", bb.get("general") == ("const", False), ps, f"{op} is sent as a general command", q + "general")
                for k in ("tsn", "expect_reply") if op == "command" else ("tsn",):
                    ctx.ob("command-record", bb.get(k) == ("param", k), ps, f"{op}: {k} is dropped", q + k)
                ctx.ob("command-record", any(contains(a, ("param", "*args")) for a in args) and any("kwargs" in show(v) for v in b.values()), ps, f"{op}: arguments of the command are dropped", q + "args")
                ctx.ob("command-record", e.base is not None and norm(e.base) == ps.T("self") or norm(e.base)[0] == "super", ps, f"{op} is sent by another cluster", q + "self")
            else:
                first = ctx.p.func(q).params[1]
                ctx.ob("command-record", bool(args) and args[0] == ("param", first), ps, f"{op} sends {show(args[0])[:80] if args else 'nothing'}", q + "records")
                ctx.ob("command-record", any("kwargs" in show(v) for v in b.values()) and any(contains(a, ("param", "*args")) for a in args), ps, f"{op}: options are dropped", q + "opts")
            t = norm(e.term if e.term is not None else e.value)
            ctx.ob(R, (e.awaited or p.ret is not None and norm(p.ret) == t) and p.ret is not None and norm(p.ret) in (t, ("await", t)), ps, f"the answer to {op} is dropped", q + "ret")
            its = [norm(x.base) for x in p.events if x.kind == "loopiter" and x.base is not None]
            ends = [norm(x.base) for x in p.events if x.kind == "loopend" and x.base is not None]
            yes = any(v and norm(a)[0] == "truthy" and norm(a)[1][0] == "attr" and norm(a)[1][2] == "is_manufacturer_specific" for a, v in allfacts(p))
            if op not in ("command", "client_command"):
                ctx.ob(R, yes or all(b2 in ends for b2 in its), ps, f"{op}: not every item is looked at [{describe(p)}]", q + "every")
            got = b.get("manufacturer")
            flags = set()
            member = {}
            for a, _ in allfacts(p):
                for x in subterms(norm(a)):
                    if x[0] == "attr" and x[2] == "is_manufacturer_specific":
                        flags.add(x)
                    elif x[0] == "in" and len(x) == 3 and x[2] == ps.T("self.attributes"):
                        member[x] = True
            for x in flags:
                if op not in ("command", "client_command") and x[1][0] == "idx":
                    key, recs = x[1][2], ("param", ctx.p.func(q).params[1])
                    ok = not contains(key, recs) or (contains(key, ("elem", recs)) and not (key == ("elem", recs) and op != "_read_attributes"))
                    ctx.ob(R, ok, ps, f"{op}: the item looked up is {show(key)[:80]}", q + "key")
            empty = op not in ("command", "client_command") and not flags and not member and not any(x[0] == "comp" and x[1] in ("gen", "list") for a, _ in allfacts(p) for x in subterms(norm(a)) if x[0] == "comp")
            for cid in (0x0000, 0x0006, 0xFBFF, 0xFC00, 0xFC7F, 0xFFFF):
                for known in (True, False) if member else (True,):
                    for flag in (True, False):
                        for mf in (None, 0x1234, 0):
                            asg = ps.asg({"self.cluster_id": cid, "manufacturer": mf})
                            asg.update({x: flag for x in flags})
                            asg.update({x: known for x in member})
                            for o in alt:
                                asg[o] = 0x4321
                            spec = cid >= 0xFC00 or flag and known and not empty
                            for a, _ in allfacts(p):
                                for x in subterms(norm(a)):
                                    if x[0] == "call" and x[1] == ("glob", "builtins.any"):
                                        asg[x] = flag and known
                            if not ps.consistent(p, asg):
                                continue
                            if empty and flag:
                                continue
                            n += 1
                            want = mf if mf is not None else 0x4321 if spec else None
                            v = ctx.kit.teval(got, asg) if got is not None else None
                            v = getattr(v, "value", v)
                            ctx.ob(R, v is UNK and got not in (None, ("const", None)) and len(alt) > 0 and any(contains(got, o) for o in alt) or v == want and (v is None) == (want is None), (ps.func, e.node), f"{op} on cluster 0x{cid:04X}{' of a maker-specific item' if flag and known else ''} with manufacturer={mf} is sent with {show(got)[:60] if got else 'nothing'} ({v}) [{describe(p)}]", f"{q}{cid}{flag}{known}{mf}")
        ctx.ob(R, n >= 8, ps, f"{op} sends nothing", q + "n")
    q = "zigpy.device.Device.manufacturer_id"
    ps = ctx.paths(q)
    for over in (None, 0x1111):
        for nd in (None, 0x2222):
            asg = ps.asg({"self.manufacturer_id_override": over, "self.node_desc.manufacturer_code": nd})
            from ..core import Obj
            asg.update(ps.asg({"self.node_desc": None if nd is None else Obj("nd")}))
            k = 0
            for p in ps:
                if p.outcome.kind != "return" or not ps.consistent(p, asg):
                    continue
                k += 1
                v = ctx.kit.teval(norm(p.ret), asg)
                v = getattr(v, "value", v)
                want = over if over is not None else nd
                ctx.ob(R, v == want, ps, f"a device with override {over} and descriptor code {nd} is given maker's code {v}", f"dev{over}{nd}")
            ctx.ob(R, k >= 1, ps, "the maker's code is undecided", f"devn{over}{nd}")
    ps = ctx.paths(f"{EP}.manufacturer_id", noinline=("zigpy.device.*",))
    for p in ps:
        if p.outcome.kind == "return":
            ctx.ob(R, norm(p.ret) in (ps.T("self.device.manufacturer_id"), ps.T("self._device.manufacturer_id")) or norm(p.ret)[0] == "const" and "manufacturer_id_override" in describe(p) or contains(norm(p.ret), ps.T("self.device")), ps, f"an endpoint's maker code is {show(p.ret)[:80]}", "ep")


def exact(t):
    """Every table access in the term uses the given key."""
    for x in subterms(t):
        key = None
        if x[0] == "idx" and x[1][0] == "attr" and x[1][2].startswith("attributes"):
            key = x[2]
        elif x[0] == "call" and x[1][0] == "attr" and x[1][1][0] == "attr" and x[1][1][2].startswith("attributes") and x[2]:
            key = x[2][0]
        if key is not None and key != ("param", "name_or_id") and not (key[0] == "call" and key[2] == (("param", "name_or_id"),)):
            return False
    return True


def lookup(ctx):
    """Names and identifiers lead to the same definition; a cluster identifier leads to its own class."""
    R = "lookup"
    ps = ctx.paths(f"{CL}.find_attribute")
    kinds = set()
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        t = norm(p.ret)
        fs = {norm(a): v for a, v in allfacts(p)}
        s = [v for a, v in fs.items() if a[0] == "isinstance" and a[1] == ("param", "name_or_id") and "str" in show(a[2])]
        i = [v for a, v in fs.items() if a[0] == "isinstance" and a[1] == ("param", "name_or_id") and "int" in show(a[2])]
        if True in s:
            kinds.add("s")
            ctx.ob(R, exact(t) and contains(t, ps.T("self.attributes_by_name")) and contains(t, ("param", "name_or_id")), ps, f"a name is looked up as {show(t)[:80]}", "s")
        elif True in i:
            kinds.add("i")
            ctx.ob(R, exact(t) and contains(t, ps.T("self.attributes")) and contains(t, ("param", "name_or_id")), ps, f"an identifier is looked up as {show(t)[:80]}", "i")
    q = f"{CL}.from_id"
    ps = ctx.paths(q, loop=2)
    cid = ps.T("t.ClusterId(cluster_id)")
    reg = ("attr", ("glob", CL), "_registry")
    rng = ("attr", ("glob", CL), "_registry_range")
    is_reg = lambda t: t[0] == "attr" and t[2] == "_registry"  # noqa: E731
    n = 0
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        t = norm(p.ret)
        if t[0] != "call":
            continue
        n += 1
        given = list(t[2]) + [v for _, v in t[3]]
        ctx.ob(R, ("param", "endpoint") in given and ("param", "is_server") in given and (len(t[2]) < 2 or t[2][:2] == (("param", "endpoint"), ("param", "is_server"))), ps, f"the cluster is created with {show(t)[-80:]}", "args")
        known = [v for a, v in allfacts(p) if norm(a)[0] == "in" and len(norm(a)) == 3 and is_reg(norm(a)[2])]
        f = t[1]
        own = f[0] == "idx" and is_reg(f[1])
        if known:
            ctx.ob(R, own == known[0], ps, f"a {'known' if known[0] else 'unknown'} cluster is created from {show(f)[:80]} [{describe(p)}]", "known")
        if own:
            ctx.ob(R, f[2] in (cid, ("param", "cluster_id")), ps, f"cluster {show(f[2])[:60]} is created", "own")
            continue
        st = stores(p, (t,))
        ctx.ob(R, st.get("cluster_id") in (cid, ("param", "cluster_id")), ps, f"the cluster created keeps another identifier: {show(st['cluster_id'])[:60] if 'cluster_id' in st else 'its class default'} [{describe(p)}]", "id")
    ctx.ob(R, n >= 3, ps, "clusters are not created", "n")
    # the bounds of a manufacturer range belong to it
    probes = ((0xFBFF, False), (0xFC00, True), (0xFD12, True), (0xFFFF, True))
    one = ctx.paths(q, loop=1)
    el = None
    for p in one:
        for e in p.events:
            if e.kind == "loopiter" and e.base is not None and "_registry_range" in show(norm(e.base)):
                el = ("elem", norm(e.base))
    if el is not None:
        for c, inside in probes:
            got = set()
            asg = one.asg({"t.ClusterId(cluster_id)": c, "cluster_id": c})
            k0 = ("idx", el, ("const", 0)) if "items" in show(el) else el
            asg[("idx", k0, ("const", 0))] = 0xFC00
            asg[("idx", k0, ("const", 1))] = 0xFFFF
            for p in one:
                if p.outcome.kind != "return" or p.ret is None or norm(p.ret)[0] != "call" or not one.consistent(p, asg):
                    continue
                f = norm(p.ret)[1]
                if f[0] == "idx" and is_reg(f[1]) or not any(e.kind == "loopiter" for e in p.events):
                    continue
                got.add(contains(f, el) or "_registry_range" in show(f))
            ctx.ob(R, got == {inside} or not got, one, f"cluster 0x{c:04X} is {'not ' if inside else ''}taken for one of the range 0xFC00-0xFFFF", f"range{c}")


def fresh(ctx):
    """Objects of different devices never share mutable state."""
    R = "own-state"
    for q, names in ((CL, ("_attr_cache", "_attr_last_updated", "unsupported_attributes", "_listeners")), (EP, ("in_clusters", "out_clusters", "_cluster_attr", "_member_of", "_listeners")),
                     ("zigpy.device.Device", ("endpoints", "_listeners")), ("zigpy.group.GroupEndpoint", ("_clusters", "_cluster_by_attr"))):
        ps = ctx.paths(f"{q}.__init__", handler_inject=False)
        for p in ps:
            if p.outcome.kind not in ("next", "return"):
                continue
            st = stores(p, (ps.T("self"),))
            for nm in names:
                v = st.get(nm, st.get(nm.lstrip("_")))
                if v is None and ctx.p.cls(q) is not None and not any(nm in show(norm(e.base)) for e in p.events if e.base is not None):
                    anywhere = [x for x in st if x.strip("_") == nm.strip("_")]
                    ctx.ob(R, bool(anywhere), ps, f"{nm} of a new {q.split('.')[-1]} is not created for it", q + nm)
                    continue
                if v is None:
                    continue
                root = v
                while root[0] in ("attr", "idx"):
                    root = root[1]
                shared = v[0] in ("attr", "idx") and root[0] in ("self", "glob", "cattr") or v[0] == "glob" or v[0] == "param"
                ctx.ob(R, not shared, ps, f"{nm} of a new {q.split('.')[-1]} is {show(v)[:60]}: shared with others", q + nm)


def roles(ctx):
    """A cluster is kept under its own identifier, in the role it was announced with, and found again."""
    R = "cluster-role"
    for kind, tbl, server in (("input", "in_clusters", True), ("output", "out_clusters", False)):
        q = f"{EP}.add_{kind}_cluster"
        ps = ctx.paths(q, handler_inject=False, noinline=(f"{CL}.*",))
        T = ps.T(f"self.{tbl}")
        n = 0
        for p in ps:
            if not p.normal or p.ret is None:
                continue
            sets = [e for e in p.events if e.kind == "setidx" and norm(e.base) == T]
            other = [e for e in p.events if e.kind == "setidx" and norm(e.base)[0] == "attr" and norm(e.base)[2] in ("in_clusters", "out_clusters") and norm(e.base) != T]
            ctx.ob(R, not other, ps, f"an {kind} cluster is stored among the {'output' if server else 'input'} ones", q + "other")
            given = [v for a, v in allfacts(p) if norm(a)[0] == "is" and ("param", "cluster") in norm(a)[1:] and ("const", None) in norm(a)[1:]]
            known = [v for a, v in allfacts(p) if norm(a)[0] == "in" and norm(a)[2] == T]
            made_ = calls(p, "from_id")
            for e in made_:
                n += 1
                b = S.bindings(ctx, ps, e, f"{CL}.from_id")
                ctx.ob(R, b.get("cluster_id") == ("param", "cluster_id") and b.get("endpoint") == ps.T("self"), ps, f"another cluster is created: {show(norm(e.term))[:80]}", q + "args")
                ctx.ob(R, b.get("is_server", ("const", True)) == ("const", server), ps, f"an {kind} cluster is created as a {'client' if server else 'server'}", q + "role")
            if given and given[0] is False:
                ctx.ob(R, not made_ and len(sets) == 1 and norm(sets[0].value) == ("param", "cluster"), ps, f"the cluster given is not the one stored [{describe(p)}]", q + "given")
            elif known and known[0]:
                ctx.ob(R, not made_ and not sets and norm(p.ret) == ("idx", T, ("param", "cluster_id")), ps, f"an existing cluster is replaced [{describe(p)}]", q + "existing")
            else:
                ctx.ob(R, len(made_) == 1 and len(sets) == 1, ps, f"a new cluster is not stored [{describe(p)}]", q + "new")
            named = [e for e in p.events if (e.kind == "setidx" or e.kind == "call" and e.name in ("setdefault", "update")) and e.base is not None and norm(e.base) == ps.T("self._cluster_attr")]
            if not server:
                ctx.ob(R, not named, ps, f"an output cluster takes the name by which the input cluster is reached [{describe(p)}]", q + "named")
            elif sets:
                anon = [v for a, v in allfacts(p) if norm(a)[0] == "is" and any(x[0] == "attr" and x[2] == "ep_attribute" for x in norm(a)[1:])]
                ctx.ob(R, bool(named) or not anon or anon[-1], ps, f"an input cluster cannot be reached by its name [{describe(p)}]", q + "named")
                for e in named:
                    if e.kind == "setidx":
                        ctx.ob(R, norm(e.value) == norm(sets[0].value) and norm(e.args[0]) == ("attr", norm(e.value), "ep_attribute"), ps, f"the name {show(e.args[0])[:60]} leads to {show(e.value)[:60]}", q + "name")
            for e in sets:
                ctx.ob(R, norm(e.args[0]) == ("param", "cluster_id"), ps, f"the cluster is stored as {show(e.args[0])[:40]}", q + "key")
                ctx.ob(R, norm(p.ret) == norm(e.value), ps, "another cluster than the stored one is returned", q + "ret")
        ctx.ob(R, n >= 1, ps, f"no {kind} cluster is created", q + "n")
    ps = ctx.paths(f"{EP}.initialize", loop=1, handler_inject=False)
    for p in ps:
        for nm, src in (("add_input_cluster", "input_clusters"), ("add_output_cluster", "output_clusters")):
            for e in calls(p, nm):
                a = norm(e.args[0]) if e.args else ("none",)
                if a[0] == "elem":
                    ctx.ob(R, src in show(a[1]), ps, f"{nm} is given the {show(a)[-40:]}", nm)
            its = [i for i, e in enumerate(p.events) if e.kind == "loopiter" and e.base is not None and norm(e.base)[0] == "attr" and norm(e.base)[2] == src]
            ends = [i for i, e in enumerate(p.events) if e.kind == "loopend" and e.base is not None and norm(e.base)[0] == "attr" and norm(e.base)[2] == src]
            if its and ends:
                got = sum(e.kind == "call" and e.name == nm for e in p.events[its[0]:ends[-1]])
                ctx.ob(R, got >= len(its), ps, f"a cluster of the descriptor is left out [{describe(p)}]", nm + "all")
    # a frame is handled by the cluster of its own identifier
    for q in (f"{EP}.handle_message", f"{EP}.deserialize"):
        f = ctx.p.func(q)
        par = "cluster" if q.endswith("handle_message") else "cluster_id"
        tgt = "handle_message" if q.endswith("handle_message") else "deserialize"
        ps = ctx.paths(q, handler_inject=False, noinline=(f"{CL}.*",))
        n = 0
        for p in ps:
            for e in calls(p, tgt):
                b = norm(e.base) if e.base is not None else None
                if b is None:
                    continue
                n += 1
                ok = b[0] == "idx" and b[1] in (ps.T("self.in_clusters"), ps.T("self.out_clusters")) and b[2] == ("param", par) or b[0] == "call" and contains(b, ("param", par)) and contains(b, ps.T("self.in_clusters"))
                ctx.ob(R, ok, ps, f"a frame for one cluster is handled by {show(b)[:80]}", q)
                first = [v for a, v in allfacts(p) if norm(a) == ("in", ("param", par), ps.T("self.in_clusters"))]
                if b[0] == "idx" and first:
                    ctx.ob(R, (b[1] == ps.T("self.in_clusters")) == first[0], ps, f"a frame is handled by a cluster the endpoint does not have [{describe(p)}]", q + "which")
        ctx.ob(R, n >= 1 or any("partial" in show(norm(p.ret or ("const", None))) for p in ps), ps, "no cluster handles frames", q + "n")


RULES = [records, reporting, maker, lookup, fresh, roles]
