"""Converting, copying or naming a value keeps every part of it."""
import ast

from ..core import UNK, calls, describe, norm, sets, show
from ..lib import allfacts, contains

F = "zigpy.zcl.foundation."
Z = "zigpy.zdo.types."
N = "zigpy.types.named.Channels."
S = "zigpy.types.struct.Struct."
REG = "zigpy.quirks.registry.DeviceRegistry."
Q = "zigpy.quirks.BaseCustomDevice."
NONE = ("const", None)


def facts(p):
    out = {}
    for _, a, v in p.trail:
        out.setdefault(norm(a), v)
    for a, v in allfacts(p):
        out.setdefault(norm(a), v)
    return out


def sub(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from sub(x)


def attrs(t, base):
    return {x[2] for x in sub(t) if x[0] == "attr" and x[1] == base and isinstance(x[2], str)}


def stored(ps, p, base):
    return {e.name: norm(e.value) for e in sets(p) if e.base is not None and norm(e.base) == base and isinstance(e.name, str)}


def copies(ctx):
    """A record built from another one of its kind has the same content."""
    R = "copy"
    for cls, par, need in ((F + "TypeValue", "type", ("type", "value")), (F + "ReadAttributeRecord", "attrid", ("attrid", "status", "value"))):
        ps = ctx.paths(cls + ".__init__")
        n = 0
        for p in ps:
            if not p.normal:
                continue
            f, o, v = facts(p), ("param", par), stored(ps, p, ps.T("self"))
            same = [x for a, x in f.items() if a[0] == "isinstance" and a[1] == o]
            if not same and f.get(("is", ("param", "value"), NONE)) is None and f.get(("is", o, NONE)) is None:
                continue
            for k in need:
                x = v.get(k, NONE)
                if same == [True]:
                    n += 1
                    ctx.ob(R, x == ("attr", o, k) or x[0] == "call" and ("attr", o, k) in x[2], ps, f"the copy's {k} is {show(x)[:60]}", cls + k)
                else:
                    ctx.ob(R, contains(x, ("param", k)), ps, f"the {k} of a new record is {show(x)[:60]}", cls + k + "new")
                    ctx.ob(R, not attrs(x, o), ps, f"a plain value is taken for a record: {show(x)[:60]}", cls + k + "plain")
        ctx.need(R, n, 0, f"copies of {cls.rsplit('.', 1)[-1]}")

    R = "reporting-record"
    cls = F + "AttributeReportingConfig"
    recv = ctx.kit.enum_value(F + "ReportingDirection", "ReceiveReports")
    receives = ("direction", "attrid", "timeout")
    sends = ("direction", "attrid", "datatype", "min_interval", "max_interval", "reportable_change")
    ps = ctx.paths(cls + ".__init__")
    o, me = ("param", "other"), ps.T("self")
    dirs = (ps.T("other.direction"), ps.T("self.direction"))

    def way(p, what):
        """Does the path assume the direction of reports is `receive`?"""
        for a, v in facts(p).items():
            if a[0] == "eq":
                for x, y in (a[1:], a[1:][::-1]):
                    c = ctx.kit.teval(x, {})
                    if c is not UNK and c == recv and not isinstance(c, type(None)) and x[0] in ("attr", "const", "glob") and what(y):
                        return v
        return None

    def has(p, base):
        """Names asked for with hasattr(): {name: answer}."""
        out = {}
        for a, v in facts(p).items():
            if a[0] == "truthy" and a[1][0] == "call" and a[1][1][-1] in ("builtins.hasattr", "hasattr") and a[1][2][:1] == (base,):
                out[a[1][2][1][1]] = v
        return out

    body = ctx.kit.p.classes[cls].node.body
    default = {t.id for s in body if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)}
    ds = ctx.paths(cls + ".deserialize")
    decoded = []
    for p in ds:
        if p.outcome.kind == "return":
            names = {e.name for e in sets(p) if e.name in receives + sends}
            decoded.append((names, way(p, lambda y: y[0] != "attr" or y[2] == "direction")))

    def present(p, base):
        hs, w = has(p, base), way(p, lambda y: y in (("attr", base, "direction"), ("attr", me, "direction")))
        ok = [s for s, d in decoded if (w is None or d is None or d == w) and all((k in s) == v for k, v in hs.items())]
        return set.intersection(*ok) | default if ok else None

    n = 0
    for p in ps:
        if not p.normal or not any(a[0] == "isinstance" and a[1] == o and v for a, v in facts(p).items()):
            continue
        v, w = stored(ps, p, me), way(p, lambda y: y in dirs)
        if any(e.kind == "call" and any(isinstance(x, tuple) and (norm(x) == o or contains(norm(x), ("attr", o, "__dict__"))) for x in e.args) for e in p.events):
            continue
        have = present(p, o)
        n += 1
        for k in receives if w else sends if w is False else ("direction", "attrid"):
            if has(p, o).get(k) is False:
                continue
            ctx.ob(R, k in v, ps, f"the {k} is not copied [{describe(p)}]", "copy-" + k)
        for k, x in v.items():
            if k in receives + sends:
                ctx.ob(R, attrs(x, o) in ({k}, set()) and (attrs(x, o) or k not in default and x[0] == "call"), ps, f"the copy's {k} is {show(x)[:60]}", "value-" + k)
            if have is not None:
                miss = attrs(x, o) - have if x[0] == "attr" else set()
                ctx.ob(R, not miss, ps, f"a decoded record without {sorted(miss)} cannot be copied", "present-" + k)
    ctx.need(R, n, 0, "copies")
    rs = ctx.paths(cls + ".__repr__")
    for p in rs:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        have = present(p, rs.T("self"))
        if have is not None:
            miss = (attrs(norm(p.ret), rs.T("self")) | {x for a, _ in facts(p).items() for x in attrs(a, rs.T("self")) if a[0] != "truthy" or a[1][0] != "call"}) & set(receives + sends) - have
            ctx.ob(R, not miss, rs, f"a decoded record without {sorted(miss)} cannot be printed [{describe(p)}]", "repr")


def descriptors(ctx):
    """A descriptor built from raw bytes has the fields those bytes encode."""
    R = "packed-descriptor"
    q = Z + "NodeDescriptor._old_constructor"
    if q in ctx.kit.p.funcs:
        ps = ctx.paths(q)
        parts = {"byte1": ("logical_type", "complex_descriptor_available", "user_descriptor_available", "reserved"), "byte2": ("aps_flags", "frequency_band")}
        types = {"logical_type": "LogicalType", "complex_descriptor_available": "uint1_t", "user_descriptor_available": "uint1_t", "reserved": "uint3_t", "aps_flags": "uint3_t", "frequency_band": "FrequencyBand"}
        rest = ("mac_capability_flags", "manufacturer_code", "maximum_buffer_size", "maximum_incoming_transfer_size", "server_mask", "maximum_outgoing_transfer_size", "descriptor_capability_field")
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            r = norm(p.ret)
            if r[0] != "call":
                continue
            kw, f = dict(r[3]), facts(p)
            if not kw:
                continue
            for k in rest:
                ctx.ob(R, contains(kw.get(k, NONE), ("param", k)), ps, f"{k} is {show(kw.get(k, NONE))[:60]}", k)
            for b, names in parts.items():
                none = f.get(("is", ("param", b), NONE))
                bits = None
                for k in names:
                    x = kw.get(k, NONE)
                    if none is True:
                        ctx.ob(R, x == NONE, ps, f"{k} is {show(x)[:60]} without its byte", k + "none")
                        continue
                    if none is None:
                        ctx.ob(R, f.get(("truthy", ("param", b))) is None, ps, f"a {b} of 0 is ignored", k + "zero")
                    ok = x[0] == "idx" and x[2] == ("const", 0) and x[1][0] == "call" and x[1][1][0] in ("attr",) and x[1][1][2] == "from_bits"
                    if not ok:
                        ctx.ob(R, x[0] == "call" or x[0] == "idx", ps, f"{k} is {show(x)[:60]}", k + "set")
                        break
                    ctx.ob(R, show(x[1][1][1]).endswith(types[k]), ps, f"{k} is decoded as {show(x[1][1][1])[-40:]}", k + "type")
                    src = x[1][2][0]
                    if bits is None:
                        ctx.ob(R, contains(src, ("param", b)), ps, f"{k} is taken from {show(src)[:60]}", k + "src")
                    ctx.ob(R, src == bits if bits is not None else not any(y[0] == "call" and y[1][0] == "attr" and y[1][2] == "from_bits" for y in sub(src)), ps, f"{k} is taken from the wrong bits of {b}", k + "bits")
                    bits = ("idx", x[1], ("const", 1))
    q = Z + "Neighbor._parse_packed"
    if q in ctx.kit.p.funcs:
        ps = ctx.paths(q)
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            r = norm(p.ret)
            if r[0] != "dict":
                continue
            for k, x in r[1]:
                if k[0] == "const" and x[0] == "attr":
                    ctx.ob(R, k[1] == x[2], ps, f"{k[1]} is {x[2]}", "packed-" + str(k[1]))
            for e in calls(p, "deserialize"):
                t, lens = norm(e.args[0]) if e.args else NONE, []

                def flat(t):
                    if t[0] == "bin" and t[1] == "+":
                        flat(t[2])
                        flat(t[3])
                    else:
                        lens.append(len(t[1]) if t[0] == "const" and isinstance(t[1], bytes) else None)
                flat(t)
                if lens.count(None) == 1 and len(lens) == 3:
                    ctx.ob(R, lens == [18, None, 3], ps, f"the packed byte lies at offset {lens[0]} of {lens[0] or 0}+2+{lens[2]} bytes", "layout")


def channels(ctx):
    """A channel mask stands for exactly the channels it was made from."""
    R = "channel-list"
    lo, hi = 11, 26
    ps = ctx.paths(N + "from_channel_list", loop=1)
    ch = ("elem", ("param", "channels"))
    n = 0
    for p in ps:
        if p.outcome.kind == "cut" or not any(e.kind == "loopiter" for e in p.events):
            continue
        f = facts(p)
        for x in (0, lo - 1, lo, lo + 5, hi, hi + 1):
            if not ps.consistent(p, {ch: x}):
                continue
            n += 1
            if lo <= x <= hi:
                ctx.ob(R, p.outcome.kind != "raise", ps, f"channel {x} is refused", f"ok{x}")
                if p.outcome.kind == "return" and p.ret is not None:
                    r = norm(p.ret)
                    ctx.ob(R, contains(r, ch), ps, f"channel {x} is missing from the mask", f"in{x}")
                    ctx.ob(R, r[0] != "bin" or r[1] in ("|", "+", "^"), ps, f"the mask is {show(r)[:60]}", "or")
            else:
                ctx.ob(R, p.outcome.kind == "raise", ps, f"channel {x} is accepted", f"bad{x}")
    ctx.need(R, n, 0, "channels")
    ps = ctx.paths(N + "from_channel_list", loop=2)
    for p in ps:
        if p.outcome.kind == "return" and p.ret is not None and sum(e.kind == "loopiter" for e in p.events) == 2:
            k = [x for x in sub(norm(p.ret)) if x == ch]
            ctx.ob(R, len(k) >= 2, ps, "only the last channel is in the mask", "all")
    ps = ctx.paths(N + "__iter__", loop=1)
    me = ps.T("self")
    bad = 0
    for p in ps:
        back = [(a, v) for a, v in facts(p).items() if a[0] == "eq" and me in a[1:] and any(x[0] == "call" for x in a[1:])]
        if p.outcome.kind == "raise":
            bad += 1
            ctx.ob(R, not back or back[0][1] is False, ps, "a valid mask is refused", "valid")
            continue
        if p.outcome.kind != "return" or p.ret is None:
            continue
        ctx.ob(R, not back or back[0][1] is True, ps, "a mask with unknown bits is accepted", "unknown")
        for x in sub(norm(p.ret)):
            if x[0] == "call" and x[1] in (("glob", "builtins.range"), ("glob", "range")) and all(a[0] == "const" for a in x[2]) and len(x[2]) >= 2:
                ctx.ob(R, (x[2][0][1], x[2][1][1]) == (lo, hi + 1), ps, f"channels {x[2][0][1]} to {x[2][1][1] - 1} are looked for", "range")
            if x[0] == "comp" and x[1] in ("list", "gen", "set"):
                ctx.ob(R, x[2][0] == "elem", ps, f"{show(x[2])[:60]} is listed for a channel", "elt")
                cs = x[3][0][1]
                pos = [c for c in cs if contains(c, me)]
                ctx.ob(R, bool(pos) and not any(c[0] == "not" for c in pos), ps, f"channels are listed if {[show(c)[:60] for c in cs]}", "cond")
    ctx.ob(R, bad >= 1, ps, "a mask with unknown bits is never refused", "refuse")


def datatypes(ctx):
    """The data type of a Python type is that of its nearest known ancestor."""
    R = "nearest-type"
    q = F + "DataType.from_python_type"
    ps = ctx.paths(q, loop=2)
    mro = ("attr", ("param", "python_type"), "__mro__")
    n = 0
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r = norm(p.ret)
        src = [norm(a)[1] for a, _ in allfacts(p) if norm(a)[0] == "in" and norm(a)[1][0] == "elem"]
        for s in src:
            if contains(s[1], mro):
                n += 1
                ctx.ob(R, s[1] == mro, ps, f"ancestors are tried in the order {show(s[1])[:60]}", "order")
        if r[0] == "idx" and r[2][0] == "elem":
            hit = [v for _, a, v in p.trail if norm(a)[0] == "in" and norm(a)[1] == r[2]]
            ctx.ob(R, not hit or hit[-1] is True, ps, "an unknown type is looked up", "hit")
            ctx.ob(R, True not in hit[:-1], ps, "a farther ancestor is preferred", "first")
        elif r[0] == "attr":
            hit = [v for _, a, v in p.trail if norm(a)[0] == "in"]
            ctx.ob(R, True not in hit, ps, f"a known type becomes {show(r)[:60]}", "known")
            ctx.ob(R, r[2] == "unk", ps, f"an unknown type becomes {show(r)[:60]}", "unk")
    ctx.need(R, n, 0, "ancestors")


def structs(ctx):
    """A structure is built from a dictionary field by field; valid means it can be sent."""
    R = "from-dict"
    ps = ctx.paths(S + "from_dict", loop=1)
    n = 0
    for p in ps:
        if p.outcome.kind != "return" or not any(e.kind == "loopiter" for e in p.events):
            continue
        it = ("elem", ("call", ("attr", ("param", "obj"), "items"), (), ()))
        key, vals = ("idx", it, ("const", 0)), [("idx", it, ("const", 1))]
        if not any(contains(norm(x), it) for e in p.events for x in (e.term, e.value, *e.args) if isinstance(x, tuple)):
            it = key = ("elem", ("param", "obj"))
            vals = [("idx", ("param", "obj"), key), ("call", ("attr", ("param", "obj"), "get"), (key,), ())]
        names = [key, ("attr", ("call", ("glob", "builtins.getattr"), (ps.T("cls.fields"), key), ()), "name")]
        st = [e for e in p.events if e.kind == "setattr"]
        f = facts(p)
        nested = [v for a, v in f.items() if a[0] == "truthy" and a[1][0] == "call" and a[1][1][-1] in ("builtins.issubclass", "issubclass")]
        if not nested and not st:
            ctx.ob(R, not any(contains(a, it) for a in f), ps, f"an entry is dropped [{describe(p)}]", "drop")
            continue
        n += 1
        ctx.ob(R, len(st) == 1, ps, f"an entry sets {len(st)} fields [{describe(p)}]", "set")
        for e in st:
            v = norm(e.value)
            ctx.ob(R, not isinstance(e.name, tuple) or norm(e.name) in names or contains(norm(e.name), key), ps, f"an entry is stored in {show(norm(e.name))[:60] if isinstance(e.name, tuple) else e.name}", "name")
            if nested == [True]:
                ctx.ob(R, v[0] == "call" and v[1][0] == "attr" and v[1][2] == "from_dict" and any(x in v[2] for x in vals) and v[1][1] != ps.T("cls"), ps, f"a nested structure is {show(v)[:80]}", "nested")
            elif nested == [False]:
                ctx.ob(R, v in vals, ps, f"a value is stored as {show(v)[:80]}", "value")
        ctx.ob(R, p.ret is not None and all(norm(e.base) == norm(p.ret) for e in st), ps, "another structure is returned", "ret")
    ctx.need(R, n, 0, "entries")
    R = "is-valid"
    ps = ctx.paths(S + "is_valid")
    for p in ps:
        ctx.ob(R, p.outcome.kind != "raise" or any(e.kind == "raise" for e in p.events), ps, f"asking whether a structure is valid fails [{describe(p)}]", "raise")
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r, failed = norm(p.ret), any(e.kind == "handler" for e in p.events)
        ctx.ob(R, bool(calls(p, "serialize", ok=None)), ps, "a structure counts as valid or not without being tried", "tried")
        for e in p.events:
            if e.kind == "handler":
                ctx.ob(R, str(e.name).rsplit(".", 1)[-1] in ("ValueError", "Exception", "BaseException"), ps, f"only a {e.name} makes a structure invalid", "which")
        if r[0] == "const":
            ctx.ob(R, r[1] is (not failed), ps, f"a structure which {'cannot' if failed else 'can'} be sent is {'valid' if r[1] else 'invalid'}", "value")


def custom(ctx):
    """Removing custom quirks removes all of them and nothing else; every custom cluster is configured."""
    R = "purge-quirks"
    q = REG + "purge_custom_quirks"
    f = ctx.kit.p.funcs.get(q)
    if f is not None:
        purge(ctx, R, f)
    R = "custom-configuration"
    q = Q + "apply_custom_configuration"
    ps = ctx.paths(q, loop=1)
    seen = set()
    for p in ps:
        if p.outcome.kind in ("cut", "raise"):
            continue
        fs = facts(p)
        zdo = [v for a, v in fs.items() if a[0] == "isinstance" and show(a[2]).endswith("ZDO")]
        if zdo == [True]:
            continue
        for a, v in fs.items():
            if a[0] != "isinstance" or not v or not show(a[2]).endswith("CustomCluster"):
                continue
            c = a[1]
            own = [x for b, x in fs.items() if b[0] in ("eq", "is") and ("attr", c, "apply_custom_configuration") in b[1:]]
            if not own or not contains(c, ps.T("self")):
                continue
            done = [e for e in calls(p, "apply_custom_configuration") if e.base is not None and norm(e.base) == c]
            if not own[0]:
                for x in sub(c):
                    if x[0] == "attr" and x[2] in ("in_clusters", "out_clusters"):
                        seen.add(x[2])
                ctx.ob(R, len(done) >= 1, ps, f"a cluster with its own configuration is configured {len(done)} times [{describe(p)}]", "once")
                for e in done:
                    ctx.ob(R, e.awaited is not False, ps, "the configuration is not waited for", "await")
                    ctx.ob(R, ("param", "*args") in [norm(y)[1] if norm(y)[0] == "star" else norm(y) for y in e.args] or contains(("x", *map(norm, e.args)), ("param", "*args")) or contains(norm(e.term), ("param", "*args")), ps, "the caller's arguments are dropped", "args")
    if seen:
        ctx.ob(R, seen == {"in_clusters", "out_clusters"}, ps, f"only {sorted(seen)} are configured", "both")


def purge(ctx, R, f):
    """The quirks collected for removal are those of the folder and all of them are removed from their own list."""
    tests = [(x.test, x.body) for x in ast.walk(f.node) if isinstance(x, ast.If)]
    tests += [(c, None) for x in ast.walk(f.node) if isinstance(x, ast.comprehension) for c in x.ifs]
    for t, body in tests:
        x, neg = t, False
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, True
        if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == "is_relative_to"):
            continue
        pick = body is not None and [s for b in body for s in ast.walk(b) if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ("append", "add", "remove", "discard", "insert")]
        ctx.ob(R, not (neg and pick), (f, x), "quirks outside of the folder are removed", "neg")
        ctx.ob(R, not (isinstance(t.func.value, ast.Name) and t.func.value.id in f.params), (f, x), "folders of which the root is a part are removed", "inverse")
        ctx.ob(R, t.args and isinstance(t.args[0], ast.Name) and t.args[0].id in f.params, (f, x), "quirks of another folder are removed", "root")
    for lp in ast.walk(f.node):
        if not isinstance(lp, ast.For) or not isinstance(lp.target, ast.Name):
            continue
        for s in ast.walk(lp):
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ("remove", "discard") and s.args and isinstance(s.args[0], ast.Name) and s.args[0].id == lp.target.id:
                # the list removed from must not be the list being walked
                ctx.ob(R, ast.unparse(lp.iter) != ast.unparse(s.func.value), (f, s), "quirks are removed from the list being walked: every other one is skipped", "walk")
                if isinstance(lp.iter, ast.Name) and any(isinstance(b, ast.Break) for b in ast.walk(lp)):
                    ctx.ob(R, False, (f, lp), "only the first custom quirk is removed", "break")
    src = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and x.attr in ("_registry", "registry", "_registry_v2")}
    if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.startswith("_") and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" for x in ast.walk(f.node)):
        ctx.ob(R, "_registry_v2" in src and bool(src & {"_registry", "registry"}), (f, f.node), f"only {sorted(src)} are searched", "both")


RULES = [copies, descriptors, channels, datatypes, structs, custom]
