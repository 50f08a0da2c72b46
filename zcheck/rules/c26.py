"""Wire decoders never read past their input and encoders mirror them: decoder o encoder rewrites to the identity."""
import ast

from ..codec import REST, Wire, int_info
from ..core import UNK, calls, describe, norm, show
from ..lib import lin_diff
from ..model import Func
from ..walk import contains, subterms

B = "zigpy.types.basic."
C = lambda v: ("const", v)  # noqa: E731
G = lambda q: ("glob", q)  # noqa: E731
LEN = ("glob", "builtins.len")


def feasible(w, path, facts=()):
    """Can the path be taken on the encoded input?"""
    return all(w.holds(a, facts) is not (not v) for _, a, v in path.trail)


def facts_of(w, path):
    return [(w.bare(w.go(a)), v) for _, a, v in path.trail]


def limits(facts):
    """x < K known from an encoder's conditions: [(x, K)] with constant K."""
    out = []
    for t, v in facts:
        if t[0] == "lt" and v and t[2][0] == "const":
            out.append((t[1], t[2][1]))
        if t[0] == "lt" and not v and t[1][0] == "const":
            out.append((t[2], t[1][1] + 1))
    return out


def excluded(w, path, facts):
    """Does the path require x == K although the encoder refused x >= K?"""
    lim = limits(facts)
    for _, a, v in path.trail:
        t = w.bare(w.go(a))
        if t[0] == "eq" and v:
            for x, k in ((t[1], t[2]), (t[2], t[1])):
                if k[0] == "const" and any(y == x and k[1] >= m for y, m in lim):
                    return True
    return False


def same(a, b):
    return a == b


def compose(ctx, qual, want, types=None, consts=None, label="", count=None, encpaths=None, decpaths=None, assume=(), composite=None, match=None):
    """On the bytes the type encodes to, followed by anything, the decoder returns the value and exactly what follows."""
    enc = encpaths or ctx.paths(qual + ".serialize")
    dec = decpaths or ctx.paths(qual + ".deserialize")
    short = qual.split(".")[-1] + label
    n = 0
    for e in enc:
        if e.outcome.kind == "raise" or e.ret is None:
            continue
        w = Wire(ctx, qual, types, consts=consts, count=count)
        f0 = list(assume)
        if not all(w.holds(a, f0) is not (not v) for _, a, v in e.trail):
            continue
        w.composite = dict(composite or {})
        parts = w.encode(e.ret)
        if parts is None:
            ctx.ob("round-trip", False, enc, f"{short}: the encoder builds {show(norm(e.ret))[:80]}, not a concatenation of encoded parts", short)
            continue
        facts = f0 + facts_of(w, e)
        expect = want(w, e, facts)
        k = 0
        for d in dec:
            if not feasible(w, d, facts) or excluded(w, d, facts):
                continue
            if match is not None and not match(e, d):
                continue
            if count is not None and not iterations(w, d, count):
                continue
            k += 1
            if d.outcome.kind == "raise":
                ctx.ob("round-trip", False, dec, f"{short}: the decoder refuses what the encoder wrote [{describe(d)}]", short)
                continue
            r = w.go(d.ret)
            if r[0] != "tuple" or len(r[1]) != 2:
                ctx.ob("round-trip", False, dec, f"{short}: the decoder returns {show(r)[:80]}", short)
                continue
            rest = r[1][1]
            ctx.ob("exact-consumption", rest in ((("cat", ()),) if w.types.get(REST) == "empty" else (("cat", (REST,)), REST)), dec, f"{short}: after decoding what the encoder wrote, the decoder hands back {show(rest)[:120]} instead of exactly what followed [{describe(d)}]", short)
            if count is not None:
                for e2 in d.events:
                    b = norm(e2.base) if e2.kind == "loopend" and e2.base is not None else None
                    if b is not None and b[0] == "call" and b[1] == G("builtins.range"):
                        hi = [w.bare(w.go(x)) for x in b[2]]
                        hi = hi[0] if len(hi) == 1 else hi[1] if len(hi) == 2 and hi[0] == C(0) else None
                        ctx.ob("item-count", hi in (C(count), ("call", LEN, (("self", qual),), ())), dec, f"{short}: the decoder reads {show(hi) if hi else '?'} items, {count} were written", short)
            got = value(ctx, w, d, r[1][0])
            ctx.ob("round-trip", got == expect, dec, f"{short}: {show(expect)[:120]} is decoded as {show(got)[:160]} [{describe(d)}]", short)
            n += 1
        ctx.ob("round-trip", k >= 1, dec, f"{short}: no way of decoding what the encoder wrote [{describe(e)}]", short + "none")
    ctx.ob("round-trip", n >= 1, enc, f"{short}: the encoder never produces a value the decoder accepts", short + "any")


def iterations(w, d, count):
    """Does the path take exactly `count` rounds of its (single) loop?"""
    its = [e for e in d.events if e.kind == "call" and e.name == "deserialize" and e.base is not None and contains(w.canon(norm(e.base)), ("cattr", "_item_type"))]
    return len(its) == count and d.outcome.kind != "cut"


def value(ctx, w, d, t):
    """The decoded value: constructor arguments and the fields and items stored afterwards."""
    out = w.bare(t)
    extra = []
    raw = d.ret[1][0] if d.ret[0] == "tuple" else None
    base = norm(raw) if raw is not None else None
    for e in d.events:
        if e.kind == "setattr" and base is not None and norm(e.base) == base:
            extra.append((e.name, w.bare(w.go(e.value))))
        elif e.kind == "call" and e.name in ("append", "extend") and base is not None and e.base is not None and norm(e.base) == base and e.args:
            extra.append((e.name, w.bare(w.go(e.args[0]))))
    if extra:
        return ("built", out, tuple(extra))
    return out


def me(ctx, qual):
    return lambda w, e, facts: ("self", qual)


def selfterm(ps):
    return ps.T("self")


def primitives(ctx):
    ident = lambda q: (lambda w, e, facts: w.bare(("call", G(q), (("self", q),), ())))  # noqa: E731
    q = B + "FixedIntType"
    compose(ctx, q, ident(q))
    q = B + "LVBytes"
    compose(ctx, q, ident(q))
    for n in ("CharacterString", "LongCharacterString"):
        q = B + n
        pre, marker = class_consts(ctx, q)
        ctx.ob("length-marker", pre is not None and marker == 256 ** pre - 1, ctx.paths(B + "CharacterString.serialize"), f"{n}: the marker of an invalid string is {marker}, not the largest {pre}-byte length", n)
        if pre is None or marker is None:
            continue
        base = B + "CharacterString"

        def want(w, e, facts, base=base):
            inv = [v for a, v in facts if a == ("truthy", ("attr", ("self", base), "invalid"))]
            return ("call", G(base), (C(""),), (("invalid", C(True)),)) if inv and inv[0] else ("built", ("call", G(base), (("self", base),), ()), (("raw", ("call", ("attr", ("self", base), "encode"), (C("utf8"),), ())),))
        compose(ctx, base, want, consts={"_prefix_length": C(pre), "_invalid_length": C(marker)}, label=f"/{pre}")
    for n, want in (("LVBytes", 1), ("LongOctetString", 2)):
        v = class_const(ctx, B + n, "_prefix_length")
        ctx.ob("prefix-width", v == want, ctx.paths(B + "LVBytes.serialize"), f"{n} has a length prefix of {v} bytes (standard: {want})", n)
    for n, want in (("CharacterString", 1), ("LongCharacterString", 2)):
        v = class_const(ctx, B + n, "_prefix_length")
        ctx.ob("prefix-width", v == want, ctx.paths(B + "CharacterString.serialize"), f"{n} has a length prefix of {v} bytes (standard: {want})", n)


def class_const(ctx, q, name):
    """Constant of a class body, with names of the same body in scope."""
    p = ctx.p
    k, e = p.find_attr(p.cls(q), name)
    if k is None:
        return None
    env = {}
    for st in k.node.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            v = _fold(st.value, env)
            if v is not None:
                env[st.targets[0].id] = v
    return env.get(name)


def _fold(e, env):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        return env.get(e.id)
    if isinstance(e, ast.BinOp):
        a, b = _fold(e.left, env), _fold(e.right, env)
        ops = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Pow: lambda x, y: x ** y, ast.LShift: lambda x, y: x << y, ast.RShift: lambda x, y: x >> y, ast.FloorDiv: lambda x, y: x // y}
        if isinstance(a, int) and isinstance(b, int) and type(e.op) in ops:
            return ops[type(e.op)](a, b)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "pow" and len(e.args) == 2:
        a, b = _fold(e.args[0], env), _fold(e.args[1], env)
        return a ** b if isinstance(a, int) and isinstance(b, int) else None
    return None


def class_consts(ctx, q):
    return class_const(ctx, q, "_prefix_length"), class_const(ctx, q, "_invalid_length")


def containers(ctx):
    item = ("cattr", "_item_type")
    for n, types, consts in (("List", {REST: "empty"}, {}), ("LVList", {}, {"_length_type": G(B + "uint8_t")}), ("FixedList", {}, None)):
        q = B + n
        for k in (0, 1, 2):
            cs = {"_length": C(k)} if consts is None else consts

            def want(w, e, facts, q=q, k=k):
                cls = ("call", G(q), (), ())
                xs = tuple(("append", ("nth", ("self", q), i)) for i in range(k))
                return ("built", cls, xs) if k else cls
            compose(ctx, q, want, types=types, consts=cs, label=f"[{k} items]", count=k)
        ps = ctx.paths(q + ".deserialize")
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            r = norm(p.ret)
            got = r[1][0] if r[0] == "tuple" and len(r[1]) == 2 else None
            for e in p.events:
                if e.kind == "call" and e.name == "append" and e.base is not None and e.args and contains(norm(e.args[0]), item):
                    ctx.ob("items-in-order", got == norm(e.base), ps, f"{n}: the list returned is not the one the items were read into: {show(got)[:100] if got else '?'} [{describe(p)}]", n + "built")
            if n != "List":
                for e in p.events:
                    if e.kind == "loopiter" and e.base is not None:
                        done = any(x.kind == "loopend" and x.base is not None and norm(x.base) == norm(e.base) for x in p.events)
                        ctx.ob("item-count", done, ps, f"{n}: decoding stops before all announced items were read [{describe(p)}]", n + "early")
        for f in ("serialize", "deserialize"):
            used = {x.attr for nd in ctx.kit.whole(f"{q}.{f}") for x in ast.walk(nd) if isinstance(x, ast.Attribute)}
            for a in ["_item_type"] + (["_length_type"] if n == "LVList" else []) + (["_length"] if n == "FixedList" else []):
                ctx.ob("container-parameters", a in used, ctx.paths(f"{q}.{f}"), f"{n}.{f} ignores the {a} the container was declared with", n + f + a)


F = "zigpy.zcl.foundation."


def fields(ctx, qual, **kw):
    """Expected value: a new object of the class whose fields are those of the encoded one."""
    def want(w, e, facts):
        return ("call", G(qual), (), tuple((k, w.bare(v)) for k, v in kw.items()))
    return want


def composites(ctx):
    a = lambda q, n: ("attr", ("self", q), n)  # noqa: E731
    pyt = lambda ty: ("attr", ("call", ("attr", G(F + "DataType"), "from_type_id"), (ty,), ()), "python_type")  # noqa: E731
    q = F + "TypeValue"
    compose(ctx, q, fields(ctx, q, type=a(q, "type"), value=a(q, "value")), types={a(q, "value"): pyt(a(q, "type"))})
    q = F + "TypedCollection"
    lst = ("idx", G(B + "LVList"), ("tuple", (pyt(a(q, "type")), G(B + "uint16_t"))))
    compose(ctx, q, fields(ctx, q, type=a(q, "type"), value=a(q, "value")), types={a(q, "value"): lst}, encpaths=ctx.paths(q + ".serialize", selfcls=q))
    q = "zigpy.zcl.clusters.security._SquawkOrWarningCommand"
    compose(ctx, q, lambda w, e, facts: ("call", G(q), (a(q, "value"),), ()))
    q = F + "ReadAttributeRecord"
    types = {a(q, "attrid"): G(B + "uint16_t"), a(q, "status"): G(F + "Status")}
    for kind in ("Array", "Set", "Bag", None):
        ty = G(F + (kind or "TypeValue"))
        tid = ("attr", ("call", ("attr", G(F + "DataType"), "from_python_type"), (("call", G("builtins.type"), (a(q, "value"),), ()),), ()), "type_id")
        def want(w, e, facts):
            ok = all(v for f, v in facts if f[0] == "eq" and a(q, "status") in f[1:])
            return fields(ctx, q, attrid=a(q, "attrid"), status=a(q, "status"), value=a(q, "value") if ok else C(None))(w, e, facts)
        compose(ctx, q, want,
                types={**types, a(q, "value"): ty, tid: G(F + "DataTypeId")}, label=f"[{kind or 'simple value'}]",
                assume=[] if kind else [(("eq", G(F + "DataTypeId." + k), ("attr", a(q, "value"), "type")), False) for k in ("array", "set", "bag")],
                composite={} if kind else {a(q, "value"): (("call", ("attr", ("attr", a(q, "value"), "type"), "to_bytes"), (C(1), C("little")), ()), ("call", ("attr", ("attr", a(q, "value"), "value"), "serialize"), (), ()))})
    reporting(ctx, a)


def reporting(ctx, a):
    q = F + "AttributeReportingConfig"
    names = ("direction", "attrid", "timeout", "datatype", "min_interval", "max_interval", "reportable_change")
    enc = ctx.paths(q + ".serialize", inject=("KeyError",), inject_at=lambda t, n, aw: n == "from_type_id")
    dec = ctx.paths(q + ".deserialize", inject=("KeyError",), inject_at=lambda t, n, aw: n == "from_type_id")
    kinds = {}

    def want(w, e, facts):
        wr = [x for x in written(w, e)]
        kinds[tuple(wr)] = kinds.get(tuple(wr), 0) + 1
        return ("built", ("call", G(q), (), ()), tuple((n, a(q, n)) for n in wr))

    def written(w, e):
        return [n for n in names if any(x == a(q, n) for x in subterms(w.bare(("cat", w.parts))) )]
    known = lambda p: all(c.ok for c in calls(p, "from_type_id"))  # noqa: E731
    compose(ctx, q, want, encpaths=enc, decpaths=dec, match=lambda e, d: known(e) == known(d))
    for k in (names[:2], names[:3], names[:2] + names[3:6], names[:2] + names[3:]):
        ctx.ob("reporting-config", kinds.get(k, 0) >= 1, enc, f"no reporting configuration is encoded as {', '.join(k)}", "/".join(k))
    q3 = F + "ConfigureReportingResponseRecord"
    for empty in (True, False):
        def want3(w, e, facts, empty=empty):
            return ("built", ("call", G(q3), (), ()), (("status", a(q3, "status")),) + tuple((n, C(None) if empty else a(q3, n)) for n in ("direction", "attrid")))
        fact = (("eq", G(F + "Status.SUCCESS"), a(q3, "status")), empty)
        compose(ctx, q3, want3, types={REST: "empty"} if empty else {}, assume=[fact], label="[success]" if empty else "[failure]")
    # the record with a status: nothing but direction and attribute follows a failure
    q2 = F + "AttributeReportingConfigWithStatus"
    for f in ("serialize", "deserialize"):
        ps = ctx.paths(f"{q2}.{f}")
        for p in ps:
            w = Wire(ctx, q2)
            ev = [e for e in p.events if e.kind == "call" and e.name == f and any(k == "_only_dir_and_attrid" for k, _ in (e.kwargs or ()))]
            st = a(q2, "status") if f == "serialize" else None
            for e in ev:
                v = norm(dict(e.kwargs)["_only_dir_and_attrid"])
                sts = {x for x in subterms(v) if st is not None and x == st or st is None and x[0] == "idx" and x[2] == C(0) and x[1][0] == "call" and x[1][1][-1] == "deserialize"}
                got = [ctx.kit._truth(ctx.kit.teval(v, {x: n for x in sts})) for n in (0, 1, 0x86)]
                good = got == [False, True, True]
            ctx.ob("reporting-config", len(ev) == 1, ps, f"{f}: the status does not decide how much of the configuration follows", f + "n")


def ranges(ctx):
    """A fixed-width integer refuses values outside its range, which follows from its width and signedness."""
    q = B + "FixedIntType"
    ps = ctx.paths(q + ".__new__", private=False)
    slf = ps.T("self") if False else None
    cls = next((norm(a)[1][1] for p in ps for _, a, v in p.trail if norm(a)[0] == "is" and norm(a)[1][0] == "attr"), ("self", q))
    at = lambda n: ("attr", cls, n)  # noqa: E731
    made = {norm(e.value) for p in ps for e in p.events if e.kind == "call" and e.name == "__new__"}
    ctx.ob("range-refused", len(made) == 1, ps, "a fixed-width integer is not built from the value given", "made")
    for lo, hi, vals in ((0, 255, (-1, 0, 255, 256)), (-128, 127, (-129, -128, 127, 128))):
        for n in vals:
            asg = {at("_signed"): lo < 0, at("_bits"): 8, at("min_value"): lo, at("max_value"): hi, **{m: n for m in made}, **{("call", G("builtins.int"), (m,), ()): n for m in made}}
            hit = [p for p in ps if ps.consistent(p, asg, trail=True)]
            for p in hit:
                good = (p.outcome.kind == "raise" and any(e.kind == "raise" and e.name.endswith("ValueError") for e in p.events)) if not lo <= n <= hi else p.outcome.kind != "raise" and norm(p.ret) in made
                ctx.ob("range-refused", good, ps, f"{n} as an integer of {lo}..{hi}: {'accepted' if p.outcome.kind != 'raise' else 'refused'} [{describe(p)}]", str(n))
            ctx.ob("range-refused", len(hit) >= 1, ps, f"{n} as an integer of {lo}..{hi}: no path decides", f"{n}?")
    ps = ctx.paths(q + ".__init_subclass__", private=False)
    for signed in (True, False):
        for bits in (1, 4, 8, 24, 64):
            lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
            want = {"min_value": lo, "max_value": hi, "_bits": bits, "_signed": signed, "_size": None if bits % 8 else bits // 8}
            asg = {("param", "signed"): signed, ("param", "bits"): bits, **{("is", G(B + "NOT_SET"), ("param", x)): False for x in ("signed", "bits")}}
            n = 0
            for p in ps:
                if p.outcome.kind == "raise" or not ps.consistent(p, asg, trail=True):
                    continue
                last = {e.name: e for e in p.events if e.kind == "setattr"}
                n += 1
                for k, v in want.items():
                    got = ctx.kit.teval(last[k].value, {**asg, ("attr", norm(last[k].base), "_bits"): bits, ("attr", norm(last[k].base), "_signed"): signed}) if k in last else None
                    ctx.ob("range-derived", got == v, ps, f"a {'signed' if signed else 'unsigned'} {bits}-bit integer gets {k} = {got!r} instead of {v}", f"{k}{signed}{bits}")
            ctx.ob("range-derived", n >= 1, ps, f"no range is derived for a {bits}-bit integer", f"{signed}{bits}")
    for x in ("signed", "bits"):
        asg = {("is", G(B + "NOT_SET"), ("param", x)): True}
        for p in ps:
            if p.outcome.kind != "raise" and ps.consistent(p, asg, trail=True):
                ctx.ob("range-derived", not any(e.kind == "setattr" and e.name == "_" + x for e in p.events), ps, f"the inherited {x} of an integer type is overwritten [{describe(p)}]", "inherit" + x)


DATA = ("param", "data")


def enough(w, path, k):
    """Do the path's conditions imply len(data) >= k?"""
    ln = ("call", LEN, (DATA,), ())
    if k[0] == "const" and k[1] == 0:
        return True
    for _, a, v in path.trail:
        t = w.canon(norm(a))
        low = None
        if t[0] == "lt" and t[1] == ln and not v:
            low = t[2]  # len >= X
        elif t[0] == "lt" and t[2] == ln and v:
            low = ("bin", "+", t[1], C(1))
        elif t[0] == "eq" and ln in t[1:] and v:
            low = t[2] if t[1] == ln else t[1]
        elif t[0] == "truthy" and t[1] == DATA and v:
            low = C(1)
        if low is not None:
            d = lin_diff(low, k)
            if all(c >= 0 and (x is None or positive(x)) for x, c in d.items()):
                return True
    return False


def positive(x):
    return x[0] == "cattr" or x[0] == "call" and (x[1] in (LEN, G("builtins.int.from_bytes")) or x[1][0] == "glob" and x[1][1].endswith("from_bytes"))


def short_input(ctx):
    """Fixed-size decoders use data[a:b] only where the path has established len(data) >= b, and refuse the rest with ValueError."""
    for q in (B + "FixedIntType", B + "BaseFloat", B + "LVBytes", B + "CharacterString", "zigpy.ota.image.HeaderString"):
        short = q.split(".")[-1]
        ps = ctx.paths(q + ".deserialize", **({"noinline": ("_convert_format",)} if short == "BaseFloat" else {}))
        w = Wire(ctx, q)
        refused = 0
        for p in ps:
            if p.outcome.kind == "raise":
                rs = [e.name for e in p.events if e.kind == "raise"]
                align = any(norm(a)[0] == "eq" and norm(a)[1][0] == "bin" and norm(a)[1][1] == "%" for _, a, v in list(p.trail)[-1:])
                ctx.ob("short-input", bool(rs) and (rs[-1].endswith("ValueError") or align and rs[-1].endswith("TypeError")), ps, f"{short}: bad input is refused with {rs[-1] if rs else 'nothing'}, callers handle ValueError [{describe(p)}]", short)
                refused += 1
                continue
            r = w.canon(norm(p.ret))
            ends = []
            for t in subterms(r):
                if t[0] == "idx" and t[1] == DATA:
                    if t[2][0] == "slice":
                        ends += [x for x in t[2][1:3] if x != C(None)]
                    else:
                        ends.append(("bin", "+", t[2], C(1)))
            ctx.ob("short-input", len(ends) >= 1, ps, f"{short}: the input is not read [{describe(p)}]", short)
            for k in ends:
                ctx.ob("short-input", enough(w, p, k), ps, f"{short}: uses the input up to {show(k)[:60]} without having checked that it is that long [{describe(p)}]", short)
            if r[0] == "tuple" and len(r[1]) == 2:
                rest = r[1][1]
                ctx.ob("exact-consumption", rest[0] == "idx" and rest[1] == DATA and rest[2][0] == "slice" and rest[2][2] == C(None) and rest[2][3] in (C(None), C(1)) and any(lin_diff(rest[2][1], k) == {} for k in ends), ps, f"{short}: the remainder returned is {show(rest)[:80]}", short)
        ctx.ob("short-input", refused >= 1, ps, f"{short}: no input is too short", short + "r")


# composite decoders: the input is handed from field to field
CHAINS = {
    B + "List.deserialize": "data", B + "LVList.deserialize": "data", B + "FixedList.deserialize": "data",
    F + "TypeValue.deserialize": "data", F + "TypedCollection.deserialize": "data", F + "ReadAttributeRecord.deserialize": "data",
    F + "WriteAttributesResponse.deserialize": "data", F + "AttributeReportingConfig.deserialize": "data",
    F + "AttributeReportingConfigWithStatus.deserialize": "data", F + "ConfigureReportingResponseRecord.deserialize": "data",
    "zigpy.types.deserialize": "data", "zigpy.types.struct.Struct.deserialize": "data",
    "zigpy.zdo.types.MultiAddress.deserialize": "data", "zigpy.zdo.types.ZDOHeader.deserialize": "data", "zigpy.zdo.ZDO.deserialize": "data",
    "zigpy.zcl.Cluster.deserialize": "data", "zigpy.zcl.clusters.general.PowerSource.deserialize": "data",
    "zigpy.zcl.clusters.security._SquawkOrWarningCommand.deserialize": "data",
}
NO_REST = ("zigpy.zdo.ZDO.deserialize", "zigpy.zcl.Cluster.deserialize")  # return (header, values): trailing bytes are reported, not returned


def chain(ctx):
    """Every nested decoder starts where the previous one stopped, and what is returned is what the last one left."""
    for q, par in CHAINS.items():
        ps = ctx.paths(q)
        src = ("param", par)
        n = 0
        for p in ps:
            cur, used = src, 0
            bad = None
            for e in p.events:
                if e.kind != "call" or e.name not in ("deserialize", "_deserialize") or not e.args or not e.ok:
                    continue
                a = [norm(x) for x in e.args]
                inp = [x for x in a if x == cur]
                re = [x for x in a if x[0] == "bin" and x[1] == "+" and x[3] == cur]
                part = [x for x in a if x[0] == "idx" and x[1] == cur and x[2][0] == "slice"]
                if not inp and not re and not part:
                    if any(contains(x, src) for x in a):
                        bad = e
                        break
                    continue
                used += 1
                if part:
                    cur = ("idx", cur, ("slice", part[0][2][2], C(None), C(None)))
                else:
                    cur = ("idx", norm(e.value), C(1))
            ctx.ob("chain", bad is None, ps, f"{'a field' if bad is None else show(norm(bad.value))[:80]} is decoded from bytes that were already consumed or skipped [{describe(p)}]", q)
            n += used
            if bad is None and p.outcome.kind == "return" and p.ret is not None:
                r = norm(p.ret)
                if q not in NO_REST and r[0] == "tuple" and len(r[1]) == 2 and used:
                    ctx.ob("chain", r[1][1] == cur, ps, f"what is left after the last field is not returned: {show(r[1][1])[:80]} [{describe(p)}]", q + "r")
        ctx.ob("chain", n >= 1, ps, f"{q} decodes nothing", q + "n")


def rng(t):
    """range(...) / reversed(range(...)) as (first, past-the-end, step); None: something else."""
    if t[0] == "call" and t[1] == G("builtins.range") and 1 <= len(t[2]) <= 3 and not t[3]:
        a = list(t[2])
        return (C(0), a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else (a[0], a[1], a[2][1]) if a[2][0] == "const" else None
    if t[0] == "call" and t[1] == G("builtins.reversed") and len(t[2]) == 1:
        r = rng(t[2][0])
        if r and r[2] == 1:
            return ("bin", "-", r[1], C(1)), ("bin", "-", r[0], C(1)), -1
    return None


def msb_first(t, x, width):
    """Is the collection `t` the bits of `x`, most significant first?  None: another shape."""
    if t[0] != "comp" or len(t[3]) != 1 or t[3][0][1]:
        return None
    it = t[3][0][0]
    r = rng(it)
    el = ("elem", it)
    one = ("bin", "&", ("bin", ">>", x, el), C(1))
    if r is None or t[2] not in (one, ("bin", "&", C(1), ("bin", ">>", x, el))):
        return False if r is not None and contains(t[2], el) and contains(t[2], x) and t[2][0] == "bin" else None
    return r[2] == -1 and lin_diff(r[0], ("bin", "-", width, C(1))) == {} and lin_diff(r[1], C(-1)) == {}


def at_index(t, vals):
    """Substitute the i-th element of the (single) iterated collection by a constant."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "elem" and len(t) > 2 and isinstance(t[2], int):
        return C(vals[t[2]]) if t[2] < len(vals) else t
    return tuple(at_index(x, vals) if isinstance(x, tuple) else x for x in t)


def bit_order(ctx):
    """Bit fields: least significant field first, and within a field most significant bit first, on both sides."""
    slf = ("self", B + "FixedIntType")
    ps = ctx.paths(B + "FixedIntType.bits")
    for p in ps:
        ctx.ob("bit-order", p.ret is not None and contains(norm(p.ret), slf), ps, "the bits of an integer do not depend on it", "bits0")
        if p.ret is None:
            continue
        r = norm(p.ret)
        lst = r[2][0] if r[0] == "call" and len(r[2]) == 1 else r
        ok = msb_first(lst, slf, ("attr", slf, "_bits"))
        ctx.ob("bit-order", ok is not False, ps, f"the bits of an integer are {show(lst)[:100]}, not all of them from the most significant", "bits")
    ps = ctx.paths(B + "Bits.deserialize")
    for p in ps:
        looped = [e for e in p.events if e.kind == "loopend" and norm(e.base) == DATA]
        dep = p.ret is not None and (bool(looped) or contains(norm(p.ret), DATA))
        ctx.ob("bit-order", dep, ps, "the bits read do not depend on the data", "bytes0")
        for t in subterms(norm(p.ret)) if p.ret is not None else ():
            if t[0] == "comp":
                ok = msb_first(t, ("elem", DATA), C(8))
                ctx.ob("bit-order", ok is not False, ps, f"the bits of a byte are {show(t)[:100]}, not all eight from the most significant", "bytes")
    q = B + "FixedIntType.from_bits"
    ps = ctx.paths(q)
    w = Wire(ctx, B + "FixedIntType")
    bits, width = ("param", "bits"), ("cattr", "_bits")
    tail = ("idx", bits, ("slice", ("un", "-", width), C(None), C(None)))
    head = ("idx", bits, ("slice", C(None), ("un", "-", width), C(None)))
    for p in ps:
        if p.outcome.kind == "raise":
            continue
        src = [w.canon(norm(e.base)) for e in p.events if e.kind == "loopend" and e.base is not None]
        for s in src:
            if s[0] == "idx" and s[1] == bits:
                ctx.ob("bit-order", s == tail, ps, f"a field is read from {show(s)[:60]}, not from the last bits", "tail")
        r = p.ret
        if r[0] == "tuple" and len(r[1]) == 2:
            left = w.canon(norm(r[1][1]))
            if left[0] == "idx" and left[1] == bits:
                ctx.ob("bit-order", left == head, ps, f"after a field {show(left)[:60]} is left, not the bits before it", "head")
            its = [e for e in p.events if e.kind == "loopiter"]
            if len(its) == 2 and src == [tail]:
                for b0, b1, signed in ((x, y, z) for x in (0, 1) for y in (0, 1) for z in BOOL):
                    if True:
                        asg = {("attr", G(B + "FixedIntType"), "_bits"): 2, ("attr", G(B + "FixedIntType"), "_signed"): signed}
                        conds = [(ctx.kit.teval(at_index(a, (b0, b1)), asg), v) for _, a, v in p.trail]
                        if any(ctx.kit._truth(x) is (not v) for x, v in conds):
                            continue
                        val = r[1][0]
                        if val[0] != "call" or len(val[2]) != 1:
                            continue
                        got = ctx.kit.teval(at_index(val[2][0], (b0, b1)), asg)
                        want = 2 * b0 + b1 - (4 if signed and b0 else 0)
                        ctx.ob("bit-order", got is UNK or got == want, ps, f"the {'signed' if signed else 'unsigned'} bits {b0}{b1} are read as {got}, not {want} [{describe(p)}]", f"{b0}{b1}{signed}")
        ctx.ob("bit-order", r is not None and contains(norm(r), bits), ps, "the value read does not depend on the bits", "dep")
    # from_bits refuses too few bits
    for n, ok in ((3, False), (4, True), (5, True)):
        asg = {("attr", G(B + "FixedIntType"), "_bits"): 4, ("call", LEN, (bits,), ()): n}
        for p in ps:
            if ps.consistent(p, asg, upto=None, trail=True):
                early = p.outcome.kind == "raise"
                ctx.ob("short-input", early is not ok, ps, f"{n} bits for a 4-bit field are {'refused' if early else 'accepted'} [{describe(p)}]", f"bits{n}")
    q = B + "Bits.from_bitfields"
    ps = ctx.paths(q)
    flds = ("param", "fields")
    for p in ps:
        ctx.ob("bit-order", p.ret is not None and norm(p.ret) != C(None) and (contains(norm(p.ret), flds) or any(e.kind == "loopend" and contains(norm(e.base), flds) for e in p.events)), ps, "the packed bits do not depend on the fields", "pack0")
        for e in p.events:
            if e.kind == "loopend" and e.base is not None and contains(norm(e.base), flds):
                b = norm(e.base)
                rev = b == ("idx", flds, ("slice", C(None), C(None), C(-1))) or b[0] == "call" and b[1] == G("builtins.reversed") and b[2] == (flds,)
                ctx.ob("bit-order", rev or b != flds and not (b[0] == "idx" and b[1] == flds), ps, "bit fields are packed with the first field in the most significant bits, the decoder takes it from the least significant", "pack")
    q = B + "Bits.serialize"
    ps = ctx.paths(q)
    me_ = ("self", B + "Bits")
    for p in ps:
        if p.outcome.kind == "raise":
            continue
        ctx.ob("bit-order", p.ret is not None and (contains(norm(p.ret), me_) or any(e.kind == "loopend" and contains(norm(e.base), me_) for e in p.events)), ps, "the bytes packed do not depend on the bits", "ser0")
        if p.ret is None:
            continue
        for e in p.events:
            if e.kind == "loopend" and e.base is not None:
                b = norm(e.base)
                r = rng(b)
                if r is not None:
                    ctx.ob("bit-order", r[0] == C(0) and r[1] == ("call", LEN, (me_,), ()) and r[2] == 8, ps, f"bytes are packed over {show(b)[:60]}, not every eight bits", "range")
                elif b[0] == "idx" and b[1] == me_ and b[2][0] == "slice":
                    ctx.ob("bit-order", lin_diff(b[2][2], b[2][1]) == {None: 8}, ps, f"a byte is packed from {show(b)[:60]}, not from eight bits", "slice")
        ones = [e for e in p.events if e.kind == "loopiter"]
        r = p.ret
        if len(ones) == 3 and r[0] == "call" and len(r[2]) == 1 and r[2][0][0] == "list" and len(r[2][0][1]) == 1:
            for b0 in (0, 1):
                for b1 in (0, 1):
                    got = ctx.kit.teval(inner(r[2][0][1][0], (b0, b1)), {})
                    ctx.ob("bit-order", got is UNK or got == 2 * b0 + b1, ps, f"the bits {b0}{b1} are packed as {got}", f"pack{b0}{b1}")


def inner(t, vals):
    """Substitute elements of the innermost iterated slice only."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "elem" and len(t) > 2 and isinstance(t[2], int) and t[1][0] == "idx":
        return C(vals[t[2]]) if t[2] < len(vals) else t
    return tuple(inner(x, vals) if isinstance(x, tuple) else x for x in t)



S = "zigpy.types.struct.Struct"
BOOL = (True, False)


class Table:
    """Paths against many scenarios: every distinct condition is evaluated once per scenario."""

    def __init__(self, ctx, ps, keep=lambda p: True):
        self.ctx = ctx
        self.rows = []
        self.ids, self.atoms = {}, []
        for p in ps:
            if keep(p):
                row = []
                for _, a, v in p.trail:
                    m = mark(a)
                    if m not in self.ids:
                        self.ids[m] = len(self.atoms)
                        self.atoms.append(m)
                    row.append((self.ids[m], v))
                self.rows.append((p, row))
        self.leaves = {t for a in self.atoms for t in subterms(a)}

    def hits(self, val):
        asg = {}
        for t in self.leaves:
            v = val(t)
            if v is not None:
                asg[t] = v
        kit = self.ctx.kit
        known = [kit._truth(kit.teval(a, asg)) for a in self.atoms]
        return [p for p, row in self.rows if not any(known[i] is (not v) for i, v in row)]


def decider(ctx, val):
    """Branch decisions of one scenario."""
    def decide(at):
        m = mark(at)
        asg = {}
        for t in subterms(m):
            v = val(t)
            if v is not None:
                asg[t] = v
        v = ctx.kit._truth(ctx.kit.teval(m, asg))
        return None if v is UNK else v
    return decide


def mark(t):
    """Normalised term in which the i-th element of an iterated collection keeps its index."""
    return norm(_mark(t))


def _mark(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "elem" and len(t) > 2 and isinstance(t[2], int):
        return ("nth", _mark(t[1]), t[2])
    return tuple(_mark(x) if isinstance(x, tuple) else x for x in t)


def ith(t):
    """i of the term `each(fields)`."""
    return t[2] if t[0] == "nth" else None


def layouts():
    """Two-field layouts: (is an integer, bits or bytes, requires, optional) per field and the number of input bytes."""
    kinds = [(False, 2), (True, 8), (True, 4), (True, 12), (True, 16)]
    for a in kinds:
        for b in kinds:
            for ra, rb in ((None, None), (True, None), (False, None), (None, False), (None, True)):
                for oa, ob in ((False, False), (False, True), (True, True)):
                    for n in (0, 1, 2, 3, 4, 5):
                        if (ra, rb, oa, ob) != (None, None, False, False) and n in (1, 5):
                            continue
                        yield (a + (ra, oa), b + (rb, ob)), n


def decode_spec(fields, n):
    """What decoding n bytes into the fields has to do: ("ok", [(field, start, end, group)], rest) or ("error",)."""
    off, group, out = 0, [], []
    for i, (is_int, size, req, opt) in enumerate(fields):
        if req is False or opt and off >= n:
            continue
        bits = sum(fields[j][1] for j in group)
        if is_int and (bits % 8 or size % 8):
            group = group + [i]
            bits += size
            if bits % 8 == 0:
                if n - off < bits // 8:
                    return ("error",)
                out += [(j, off, off + bits // 8, tuple(group)) for j in group]
                off += bits // 8
                group = []
            continue
        if group:
            return ("error",)
        k = size // 8 if is_int else size
        out.append((i, off, None, None))
        off += k
    return ("error",) if group else ("ok", out, off)


def struct_decode(ctx):
    """Struct.deserialize on every two-field layout: order, grouping of bit fields, skipped fields, consumption, short input."""
    q = S + ".deserialize"
    ps = ctx.paths(q)
    flds = None
    for p in ps:
        for e in p.events:
            if e.kind == "loopiter" and e.base is not None and norm(e.base)[0] == "attr" and norm(e.base)[2] == "fields":
                flds = norm(e.base)
    ctx.ob("struct-layout", flds is not None, ps, "the declared fields are not visited", "fields")
    if flds is None:
        return
    def keep(p, n=2):
        its = sum(e.kind == "loopiter" and norm(e.base) == flds for e in p.events)
        done = any(e.kind == "loopend" and norm(e.base) == flds for e in p.events)
        return p.outcome.kind != "cut" and (its == n or p.outcome.kind == "raise" and its and not done) and (p.outcome.kind != "raise" or any(e.kind == "raise" for e in p.events))
    for p in ps:
        for e in p.events:
            if e.kind == "call" and e.name in ("deserialize", "issubclass"):
                o = norm(e.base) if e.name == "deserialize" and e.base is not None else norm(e.args[0]) if e.name == "issubclass" and e.args else None
                if o is not None and o[0] == "attr" and o[2] == "type" and contains(o, flds):
                    known = any(contains(norm(a), ("attr", o[1], "dynamic_type")) for _, a, v in p.trail)
                    ctx.ob("field-type", known, ps, f"a field whose type depends on earlier values is decoded with its static type [{describe(p)}]", "dynamic")
    table = Table(ctx, ps, keep)
    for fields, n in layouts():
        decode_case(ctx, ps, table.hits(decode_scenario(fields, n)), fields, n)
    for widths in LONG:
        fields = tuple((w > 0, abs(w), None, False) for w in widths)
        total = sum(w if w > 0 else -8 * w for w in widths) // 8
        for n in (total - 1, total, total + 1):
            long = ctx.paths(q, loop=len(fields), decide=decider(ctx, decode_scenario(fields, n)))
            decode_case(ctx, ps, [p for p in long if keep(p, len(fields))], fields, n)


BOTH = (True, True)
# longer layouts: bits of an integer field, or minus the bytes of another field
LONG = ((4, 4, 4, 4), (1, 7, 4, 4), (3, 5, 8, 2, 6), (4, 8, 4), (4, 12, 8), (8, 4, 4, 16), (-2, 4, 4, -1), (4, 4, -2, 3, 5), (2, 2, 4, 1, 2, 5), (4, 8, 8, 4), (12, 4, 8, 8), (2, 3, 4), (9, 8, 7), (4, -1, 4), (4, 8, -1, 4), (20, 20, 4, 4), (40, 24, 8, 4, 4))


def decode_scenario(fields, n):
    m = len(fields)

    def val(t):
        k = ith(t[1]) if t[0] == "attr" else None
        if k is not None and k < m:
            if t[2] == "requires":
                return None if fields[k][2] is None else False
            if t[2] == "optional":
                return fields[k][3]
        if t[0] == "is" and len(t) == 3 and C(None) in t[1:]:
            o = t[1] if t[2] == C(None) else t[2]
            k = ith(o[1]) if o[0] == "attr" and o[2] == "requires" else None
            if k is not None and k < m:
                return fields[k][2] is None
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "requires" and ith(t[1][1]) in range(m):
            return bool(fields[ith(t[1][1])][2])
        k = field_type(t[2][0]) if t[0] == "call" and t[1] == G("builtins.issubclass") and t[2] else None
        if k is not None and k < m:
            return fields[k][0]
        if t[0] == "attr" and t[2] == "_bits":
            k = field_type(t[1])
            if k is not None and k < m and fields[k][0]:
                return fields[k][1]
        o = span(t, fields)
        if o is not None and (t == DATA or t[0] == "idx"):
            return bytes(max(0, (n if o[1] is None else min(o[1], n)) - o[0]))
        return None
    return val


def decode_case(ctx, ps, hits, fields, n):
    want = decode_spec(fields, n)
    for p in hits:
        label = f"{layout(fields)} from {n} bytes"
        if p.outcome.kind == "raise":
            ctx.ob("struct-layout", want[0] == "error", ps, f"{label}: refused [{describe(p)}]", str(fields))
            if want[0] == "error":
                rs = [e.name for e in p.events if e.kind == "raise"]
                ctx.ob("short-input", rs[-1].endswith("ValueError"), ps, f"{label}: refused with {rs[-1]}", str(fields))
            continue
        if want[0] == "error":
            ctx.ob("struct-layout", False, ps, f"{label}: accepted although the fields do not fit [{describe(p)}]", str(fields))
            continue
        got = []
        for e in p.events:
            if e.kind == "setattr" and isinstance(e.name, tuple) and e.name[0] == "attr" and e.name[2] == "name" or e.kind == "call" and e.name == "setattr" and len(e.args) == 3:
                nm, v = (mark(e.name), mark(e.value)) if e.kind == "setattr" else (mark(e.args[1]), mark(e.args[2]))
                got.append((ith(nm[1]) if nm[0] == "attr" else None, *decoded(v, fields)))
        ctx.ob("struct-layout", sorted(got, key=str) == sorted(want[1], key=str), ps, f"{label}: (field, start, end, bit group) read are {got} instead of {want[1]} [{describe(p)}]", str(fields))
        r = mark(p.ret)
        o = span(r[1][1], fields) if r[0] == "tuple" and len(r[1]) == 2 else None
        ctx.ob("exact-consumption", o == (want[2], None), ps, f"{label}: the rest starts at {o[0] if o else '?'} instead of {want[2]} [{describe(p)}]", str(fields))
        obj = r[1][0] if r[0] == "tuple" and len(r[1]) == 2 else None
        ctx.ob("struct-layout", all(norm(e.base if e.kind == "setattr" else e.args[0]) == norm(obj) for e in p.events if e.kind == "setattr" and isinstance(e.name, tuple) or e.kind == "call" and e.name == "setattr" and len(e.args) == 3) if obj else False, ps, f"{label}: the values are not stored in the struct returned", "obj")
    ctx.ob("struct-layout", len(hits) >= 1, ps, f"{layout(fields)} from {n} bytes: no path decides", str(fields))


def layout(fields):
    return " + ".join((f"int{k}" if i else "var") + {None: "", True: " required", False: " not required"}[r] + (" optional" if o else "") for i, k, r, o in fields)


def field_type(t):
    """k when the term is the wire type of the k-th field."""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get_type":
        o = t[1][1]
        if o[0] == "idx" and o[2] == C(0):
            o = o[1]
        return ith(o)
    if t[0] == "attr" and t[2] == "type":
        return ith(t[1])
    return None


def span(t, fields):
    """(start, end or None) of the piece of the input the term denotes; None: unknown."""
    if t == DATA:
        return (0, None)
    if t[0] == "idx" and t[2][0] == "slice" and t[2][3] in (C(None), C(1)):
        o = span(t[1], fields)
        if o is None or o[1] is not None:
            return None
        lo, hi = (size(x, fields) if x != C(None) else None for x in t[2][1:3])
        if t[2][1] != C(None) and lo is None or t[2][2] != C(None) and hi is None:
            return None
        return (o[0] + (lo or 0), None if hi is None else o[0] + hi)
    if t[0] == "idx" and t[2] == C(1) and t[1][0] == "call" and t[1][1][0] == "attr" and t[1][1][2] == "deserialize" and len(t[1][2]) == 1:
        k = field_type(t[1][1][1])
        o = span(t[1][2][0], fields)
        if k is None or k >= len(fields) or o is None or o[1] is not None:
            return None
        return (o[0] + (fields[k][1] // 8 if fields[k][0] else fields[k][1]), None)
    return None


def size(t, fields):
    """Value of an arithmetic term over field widths."""
    if t[0] == "const":
        return t[1] if isinstance(t[1], int) else None
    if t[0] == "attr" and t[2] == "_bits":
        k = field_type(t[1])
        return fields[k][1] if k is not None and k < len(fields) else None
    if t[0] == "bin":
        a, b = size(t[2], fields), size(t[3], fields)
        if a is None or b is None:
            return None
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b if b else None, ">>": lambda: a >> b, "%": lambda: a % b if b else None}.get(t[1], lambda: None)()
    return None


def decoded(v, fields):
    """(start, end, bit group) the decoded value was read from."""
    if v[0] == "idx" and v[2] == C(0) and v[1][0] == "call" and v[1][1][0] == "attr":
        name, owner, args = v[1][1][2], v[1][1][1], v[1][2]
        if name == "deserialize" and len(args) == 1:
            o = span(args[0], fields)
            return (o[0] if o else None, o[1] if o else None, None)
        if name == "from_bits" and len(args) == 1:
            group, x = [field_type(owner)], args[0]
            while x[0] == "idx" and x[2] == C(1) and x[1][0] == "call" and x[1][1][0] == "attr" and x[1][1][2] == "from_bits":
                group.insert(0, field_type(x[1][1][1]))
                x = x[1][2][0]
            if x[0] == "idx" and x[2] == C(0) and x[1][0] == "call" and x[1][1][-1] == "deserialize" and len(x[1][2]) == 1:
                o = span(x[1][2][0], fields)
                if o:
                    # the group is complete once its last member is known
                    full = tuple(group)
                    w = 0
                    k = group[0] if group else None
                    while k is not None and k < len(fields) and (w % 8 or not w):
                        w += fields[k][1]
                        if k not in group:
                            full += (k,)
                        k += 1
                    return (o[0], o[1], full)
    return (None, None, None)


def struct_encode(ctx):
    """Struct.serialize on every two-field layout mirrors the decoder; assigned_fields selects the fields."""
    q = S + ".serialize"
    ps = ctx.paths(q)
    src = next((norm(e.base) for p in ps for e in p.events if e.kind == "loopiter" and e.base is not None and contains(norm(e.base), ("attr", ps.T("self"), "assigned_fields"))), None)
    ctx.ob("struct-layout", src is not None, ps, "the assigned fields are not visited", "fields")
    if src is None:
        return
    strict = src[0] == "call" and dict(src[3]).get("strict") == C(True)
    ctx.ob("struct-layout", strict, ps, "a missing required value is not refused (assigned_fields is not strict)", "strict")
    kinds = [(False, 2), (True, 8), (True, 4), (True, 12), (True, 16)]

    def keep(p, n=2):
        its = sum(e.kind == "loopiter" and norm(e.base) == src for e in p.events)
        done = any(e.kind == "loopend" and norm(e.base) == src for e in p.events)
        return p.outcome.kind != "cut" and (its == n or p.outcome.kind == "raise" and its and not done)
    table = Table(ctx, ps, keep)
    for a in kinds:
        for b in kinds:
            for present in ((True, True), (False, True), (True, False)):
                fields = (a + (None, not present[0]), b + (None, not present[1]))
                encode_case(ctx, ps, table.hits(encode_scenario(fields, present)), fields, present)
            fields = (a + (None, True), b + (None, True))
            encode_case(ctx, ps, table.hits(encode_scenario(fields, BOTH)), fields, BOTH)
    for widths in LONG:
        fields = tuple((w > 0, abs(w), None, False) for w in widths)
        present = (True,) * len(fields)
        long = ctx.paths(q, loop=len(fields), decide=decider(ctx, encode_scenario(fields, present)))
        encode_case(ctx, ps, [p for p in long if keep(p, len(fields))], fields, present)
    q = S + ".assigned_fields"
    ps = ctx.paths(q)
    table = Table(ctx, ps, lambda p: sum(e.kind == "loopiter" for e in p.events) == 1 and p.outcome.kind != "cut")
    for req in (None, True, False):
        for opt in BOOL:
            for missing in BOOL:
                for strict in BOOL:
                    def val(t):
                        if t[0] == "is" and len(t) == 3 and C(None) in t[1:]:
                            o = t[1] if t[2] == C(None) else t[2]
                            if o[0] == "attr" and o[2] == "requires" and ith(o[1]) is not None:
                                return req is None
                            if o[0] == "call" and (o[1] == G("builtins.getattr")) or o[0] == "attr" and isinstance(o[2], tuple):
                                return missing
                        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "requires" and ith(t[1][1]) is not None:
                            return bool(req)
                        if t[0] == "attr" and t[2] == "optional":
                            return opt
                        if t == ("param", "strict"):
                            return strict
                        return None
                    k = 0
                    for p in table.hits(val):
                        k += 1
                        used = [e for e in p.events if e.kind == "call" and e.name == "append" and e.args] or [x for x in (mark(p.ret)[1] if p.ret is not None and mark(p.ret)[0] == "list" else ())]
                        want = "skip" if req is False else "use" if not missing or opt else "refuse" if strict else "skip"
                        got = "refuse" if p.outcome.kind == "raise" else "use" if used else "skip"
                        if got == "refuse":
                            rs = [e.name for e in p.events if e.kind == "raise"]
                            ctx.ob("struct-layout", bool(rs) and rs[-1].endswith("ValueError"), ps, "a missing value is not refused with ValueError", "av")
                        ctx.ob("struct-layout", got == want, ps, f"a {'missing' if missing else 'set'} {'optional' if opt else 'mandatory'} field{'' if req is None else ' whose condition holds' if req else ' whose condition fails'}{' (strict)' if strict else ''}: {got} instead of {want} [{describe(p)}]", f"a{req}{opt}{missing}{strict}")
                        for e in used:
                            if hasattr(e, "args"):
                                if p.outcome.kind == "return":
                                    ctx.ob("struct-layout", p.ret is not None and norm(p.ret) == norm(e.base), ps, "the selected fields are not returned", "returned")
                                v = mark(e.args[0])
                                ctx.ob("struct-layout", v[0] == "tuple" and len(v[1]) == 2 and ith(v[1][0]) is not None and contains(v[1][1], v[1][0]), ps, f"a field is paired with {show(v)[:80]}", "pair")
                    ctx.ob("struct-layout", k >= 1, ps, "a field is neither used nor skipped", f"a{req}{opt}{missing}{strict}")


def encode_scenario(fields, present):
    m = len(fields)

    def val(t):
        if t[0] == "is" and len(t) == 3 and C(None) in t[1:]:
            o = t[1] if t[2] == C(None) else t[2]
            if o[0] == "idx" and o[2] == C(1) and ith(o[1]) in range(m):
                return not present[ith(o[1])]
        if t[0] == "attr" and t[2] == "optional" and t[1][0] == "idx" and ith(t[1][1]) in range(m):
            return fields[ith(t[1][1])][3]
        if t[0] == "call" and t[1] == G("builtins.issubclass") and t[2]:
            k = field_type(t[2][0])
            return fields[k][0] if k is not None and k < m else None
        if t[0] == "attr" and t[2] == "_bits":
            k = field_type(t[1])
            k = conv(t[1]) if k is None else k
            return fields[k][1] if k is not None and k < m and fields[k][0] else None
        return None
    return val


def encode_case(ctx, ps, hits, fields, present):
    want, group, bad = [], [], False
    for i, (is_int, sz, _r, _o) in enumerate(fields):
        if not present[i]:
            continue
        bits = sum(fields[j][1] for j in group)
        if is_int and (bits % 8 or sz % 8):
            group = group + [i]
            if (bits + sz) % 8 == 0:
                want.append(tuple(group))
                group = []
            continue
        if group:
            bad = True
            break
        want.append(i)
    bad = bad or bool(group)
    label = layout(fields)
    for p in hits:
        if p.outcome.kind == "raise":
            ctx.ob("struct-layout", bad, ps, f"{label}: cannot be encoded [{describe(p)}]", "e" + str(fields))
            if bad:
                rs = [e.name for e in p.events if e.kind == "raise"]
                ctx.ob("struct-layout", bool(rs) and rs[-1].endswith("ValueError"), ps, f"{label}: refused with {rs[-1:]}", "e" + str(fields))
            continue
        got = [chunk(x) for x in pieces(mark(p.ret))]
        ctx.ob("struct-layout", not bad and got == want, ps, f"{label}: written as {got}" + (" although the bits do not fill whole bytes" if bad else f" instead of {want}") + f" [{describe(p)}]", "e" + str(fields))
    ctx.ob("struct-layout", len(hits) >= 1, ps, f"{label}: no path encodes it", "e" + str(fields))


def pieces(t):
    """The parts of a concatenation of byte strings."""
    if t[0] == "call" and t[1] == ("attr", C(b""), "join") and len(t[2]) == 1 and t[2][0][0] in ("list", "tuple"):
        return [y for x in t[2][0][1] for y in pieces(x)]
    if t[0] == "bin" and t[1] == "+":
        return pieces(t[2]) + pieces(t[3])
    if t[0] == "call" and t[1] == G("builtins.bytes") and len(t[2]) == 1:
        return pieces(t[2][0])
    return [] if t in (C(b""), ("list", ()), ("call", G("builtins.bytearray"), (), ())) else [t]


def conv(t):
    """k when the term is the k-th assigned value (converted to the field's type)."""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "_convert_type" and len(t[2]) >= 1:
        t = t[2][0]
    return ith(t[1]) if t[0] == "idx" and t[2] == C(1) else None


def chunk(t):
    """Field index of value.serialize(), or the indices of a packed group."""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "serialize":
        o = t[1][1]
        k = conv(o) if o[0] == "call" else None  # the value has to be converted to the field's type
        if k is not None:
            return k
        if o[0] == "call" and o[1][-1] == "from_bitfields" or o[0] == "call" and o[1][0] == "attr" and o[1][2] == "from_bitfields":
            a = o[2][0]
            if a[0] in ("list", "tuple"):
                return tuple(conv(x) for x in a[1])
    return show(t)[:60]


def knobs(ps, **values):
    """Scenario giving the class parameters (self._x, cls._x) these values, and `n` to the length of the input or value."""
    def val(t):
        if t[0] == "attr" and t[2] in values and (t[1][0] in ("self", "glob") or t[1][0] == "call" and t[1][1] == G("builtins.type")):
            return values[t[2]]
        if t[0] == "call" and t[1] == LEN and len(t[2]) == 1:
            o = t[2][0]
            if "SELF" in values and o[0] == "self":
                return values["SELF"]
            if "DATA" in values and o == DATA:
                return values["DATA"]
            if "UTF8" in values and o[0] == "call" and o[1][0] == "attr" and o[1][2] == "encode":
                return values["UTF8"]
            if "SUPER" in values and o[0] == "idx" and o[2] == C(0) and contains(o, DATA) and o[1][0] == "call":
                return values["SUPER"]
        if t[0] == "call" and str(t[1][-1]).endswith("from_bytes") and "PREFIX" in values:
            return values["PREFIX"]
        return None
    return val


def decides(ctx, rule, qual, cases, what, error=("ValueError",), **kw):
    """Each case (parameters, accepted) takes only paths that return / raise."""
    ps = ctx.paths(qual, **kw) if isinstance(qual, str) else qual
    table = Table(ctx, ps, lambda p: p.outcome.kind != "cut")
    for values, ok in cases:
        hits = table.hits(knobs(ps, **values))
        for p in hits:
            if p.outcome.kind == "raise":
                rs = [e.name for e in p.events if e.kind == "raise"]
                ctx.ob(rule, not ok and bool(rs) and rs[-1].split(".")[-1] in error, ps, f"{what}: {values} is refused with {rs[-1] if rs else 'nothing'} [{describe(p)}]", f"{what}{values}")
            else:
                ctx.ob(rule, ok, ps, f"{what}: {values} is accepted [{describe(p)}]", f"{what}{values}")
        ctx.ob(rule, bool(hits), ps, f"{what}: {values}: no path decides", f"{what}{values}")
    return ps


def nested(ctx, q, cls, meth):
    """A method of a class defined inside a function."""
    f = ctx.p.func(q)
    for n in ast.walk(f.node):
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name == meth:
                    return Func(f.module, None, m, f"{q}.{n.name}.{meth}")
    return None


def refusals(ctx):
    """Values that do not fit their length field, and items that do not match their declared number, are refused."""
    for n, w in ((1, 255), (2, 65535)):
        cases = [({"_prefix_length": n, "SELF": k}, ok) for k, ok in ((0, True), (w - 1, True), (w, False), (w + 1, False))]
        decides(ctx, "length-limit", B + "LVBytes.serialize", cases, "LVBytes")
        cases = [({"_prefix_length": n, "_invalid_length": w, "UTF8": k}, ok) for k, ok in ((0, True), (w - 1, True), (w, False), (w + 1, False))]
        decides(ctx, "length-limit", B + "CharacterString.serialize", cases, "CharacterString")
        for name in ("LVBytes", "CharacterString"):
            cases = [({"_prefix_length": n, "_invalid_length": w, "DATA": d, "PREFIX": k}, ok) for d, k, ok in ((n - 1, 0, False), (n, 0, True), (n, 1, False), (n + 3, 3, True), (n + 3, 4, False), (n + 4, 3, True))]
            decides(ctx, "short-input", B + name + ".deserialize", cases, name)
    decides(ctx, "length-limit", B + "FixedList.serialize", [({"_length": 2, "SELF": k}, k == 2) for k in (0, 1, 2, 3)], "FixedList of 2", error=("ValueError", "AssertionError"))
    decides(ctx, "length-limit", B + "LVBytesSize2.serialize", [({"SELF": k}, k == 2) for k in (0, 1, 2, 3)], "LVBytesSize2")
    decides(ctx, "length-limit", B + "LVBytesSize2.deserialize", [({"SUPER": k}, k == 2) for k in (0, 1, 2, 3)], "LVBytesSize2", noinline=(B + "LVBytes.deserialize",))
    decides(ctx, "alignment", B + "FixedIntType.serialize", [({"_bits": k}, k % 8 == 0) for k in (1, 4, 8, 12, 16)], "an integer's width", error=("TypeError", "ValueError"))
    decides(ctx, "alignment", B + "FixedIntType.deserialize", [({"_bits": k, "DATA": 9}, k % 8 == 0) for k in (1, 4, 8, 12, 16)], "an integer's width", error=("TypeError", "ValueError"))
    decides(ctx, "short-input", B + "FixedIntType.deserialize", [({"_bits": 16, "DATA": k}, k >= 2) for k in (0, 1, 2, 3)], "a 16-bit integer")
    decides(ctx, "short-input", B + "BaseFloat.deserialize", [({"_size": 4, "DATA": k}, k >= 4) for k in (0, 3, 4, 5)], "a 4-byte float", noinline=("_convert_format",))
    decides(ctx, "alignment", B + "Bits.serialize", [({"SELF": k}, k % 8 == 0) for k in (0, 1, 7, 8, 12, 16)], "a number of bits")
    for q, cls in (("LimitedLVBytes", "LimitedLVBytes"), ("LimitedCharString", "LimitedCharString")):
        f = nested(ctx, B + q, cls, "serialize")
        if f is not None:
            ps = ctx.paths(f)
            table = Table(ctx, ps)
            for k, ok in ((0, True), (4, True), (5, False)):
                def val(t):
                    return 4 if t[0] == "attr" and t[2] == "_max_len" else k if t[0] == "call" and t[1] == LEN else None
                for p in table.hits(val):
                    ctx.ob("length-limit", (p.outcome.kind != "raise") is ok, ps, f"{q}(4): a value of length {k} is {'accepted' if p.outcome.kind != 'raise' else 'refused'}", f"{q}{k}")
                    if p.outcome.kind != "raise":
                        r = norm(p.ret)
                        ctx.ob("round-trip", r[0] == "call" and r[1][0] == "attr" and r[1][2] == "serialize" and (r[1][1][0] == "super" or r[1][1] == ("call", G("builtins.super"), (), ())), ps, f"{q}: returns {show(r)[:60]}", q)
    f = nested(ctx, B + "Optional", "Optional", "deserialize")
    if f is not None:
        ps = ctx.paths(f, inject=("ValueError",), inject_at=lambda t, n, a: n == "deserialize")
        n = 0
        for p in ps:
            c = next(iter(calls(p, "deserialize")), None)
            r = norm(p.ret) if p.ret is not None else None
            if c is not None and not c.ok:
                n += 1
                ctx.ob("optional", r == ("tuple", (C(None), C(b""))), ps, f"a missing optional value is decoded as {show(r) if r else p.outcome.kind}", "missing")
            elif c is not None:
                n += 1
                v = norm(c.value)
                ctx.ob("optional", r in (v, ("tuple", (("idx", v, C(0)), ("idx", v, C(1))))) and norm(c.args[0]) == ("param", "data"), ps, f"a present optional value is decoded as {show(r) if r else '?'}", "present")
        ctx.ob("optional", n >= 2, ps, "an optional value is never missing or never present", "n")
    # abstract integers cannot be created
    q = B + "FixedIntType"
    ps = ctx.paths(q + ".__new__", private=False)
    table = Table(ctx, ps)
    for s_, b_ in ((None, 8), (True, None), (None, None)):
        def val(t):
            if t[0] == "is" and C(None) in t[1:]:
                o = t[1] if t[2] == C(None) else t[2]
                if o[0] == "attr" and o[2] in ("_signed", "_bits"):
                    return (s_ if o[2] == "_signed" else b_) is None
            return None
        hits = table.hits(val)
        for p in hits:
            ctx.ob("range-refused", p.outcome.kind == "raise", ps, f"an integer type without width or signedness (signed={s_}, bits={b_}) can be created", f"{s_}{b_}")
    # the invalid marker and the text of a character string
    q = B + "CharacterString.__new__"
    ps = ctx.paths(q, private=False)
    for p in ps:
        if p.outcome.kind == "raise" or p.ret is None:
            ctx.ob("string-value", p.outcome.kind == "raise", ps, "no string is created", "none")
            continue
        r = norm(p.ret)
        made = r[0] == "call" and ("param", "value") in r[2]
        ctx.ob("string-value", made, ps, f"a character string is created as {show(r)[:60]}", "made")
        st = {e.name: norm(e.value) for e in p.events if e.kind == "setattr" and norm(e.base) == r}
        ctx.ob("string-value", st.get("invalid") == ("param", "invalid"), ps, f"the invalid mark of a new string is {show(st['invalid'])[:40] if 'invalid' in st else 'not set'}", "invalid")
    es = ctx.paths(B + "CharacterString.serialize")
    mine = ("attr", ("self", B + "CharacterString"), "invalid")
    for inv in BOOL:
        hits = [p for p in es if p.outcome.kind == "return" and es.consistent(p, {mine: inv}, trail=True)]
        for p in hits:
            marked = contains(norm(p.ret), ("attr", ("self", B + "CharacterString"), "_invalid_length"))
            ctx.ob("string-value", marked is inv, es, f"{'an invalid' if inv else 'a valid'} string is written {'as the invalid marker' if marked else 'as text'}", f"inv{inv}")
        ctx.ob("string-value", bool(hits), es, "a string is never written", f"inv{inv}")
    f = ctx.p.func(q)
    d = dict(zip([a.arg for a in f.node.args.kwonlyargs], f.node.args.kw_defaults))
    pos = f.node.args.args
    d.update(zip([a.arg for a in pos[len(pos) - len(f.node.args.defaults):]], f.node.args.defaults))
    if "invalid" in d and d["invalid"] is not None:
        ctx.ob("string-value", ctx.kit.consteval(f.module, d["invalid"]) is False, ps, "a string is invalid unless stated otherwise", "default")
    # byte order: the keyword when given, what is inherited otherwise, little endian at the root
    ps = ctx.paths(B + "FixedIntType.__init_subclass__", private=False)
    par = ("param", "byteorder")
    n = 0
    for p in ps:
        if p.outcome.kind == "raise":
            continue
        tr = [(mark(a), v) for _, a, v in p.trail]
        given = [v for a, v in tr if a[0] == "is" and par in a[1:]]
        root = [v for a, v in tr if a[0] == "is" and C(None) in a[1:] and any(x[0] == "attr" and x[2] == "_byteorder" for x in a[1:] if isinstance(x, tuple))]
        st = [norm(e.value) for e in p.events if e.kind == "setattr" and e.name == "_byteorder"]
        if given and not given[0]:
            n += 1
            ctx.ob("byte-order", st == [par], ps, f"the byte order asked for becomes {[show(x) for x in st]}", "given")
        elif given and root:
            n += 1
            ctx.ob("byte-order", st == ([C("little")] if root[0] else []), ps, f"without a byte order asked for, it becomes {[show(x) for x in st]} ({'none' if root[0] else 'one'} inherited)", "inherited")
        elif given:
            ctx.ob("byte-order", False, ps, "the inherited byte order is not considered", "inherited")
    ctx.ob("byte-order", n >= 3, ps, "the byte order of integers is not settled", "n")


# widths prescribed by the standard: name -> (bits, signed, byte order)
def int_table():
    out = {}
    for k in range(1, 8):
        out[f"uint{k}_t"] = (k, False, "little")
        out[f"enum{k}"] = (k, False, "little")
        if k > 1:
            out[f"bitmap{k}"] = (k, False, "little")
    for k in range(8, 65, 8):
        out[f"uint{k}_t"] = (k, False, "little")
        out[f"int{k}s"] = (k, True, "little")
        out[f"bitmap{k}"] = (k, False, "little")
        if k > 8:
            out[f"uint{k}_t_be"] = (k, False, "big")
            out[f"int{k}s_be"] = (k, True, "big")
            out[f"bitmap{k}_be"] = (k, False, "big")
    for k in (8, 16, 32):
        out[f"enum{k}"] = (k, False, "little")
    for k in (16, 32):
        out[f"enum{k}_be"] = (k, False, "big")
    return out


NAMED = {"NWK": 16, "Group": 16, "PanId": 16, "ClusterId": 16, "BroadcastAddress": 16, "Channels": 32, "AttributeId": 16, "Bool": 8, "DeviceType": None}


def widths(ctx):
    """Width, signedness and byte order of every integer type are those its name promises."""
    base = ctx.paths(B + "FixedIntType.__init_subclass__", private=False)
    n = 0
    for name, want in int_table().items():
        q = B + name
        if q not in ctx.p.classes:
            ctx.ob("integer-width", False, base, f"the type {name} is gone", name)
            continue
        got = int_info(ctx, q)
        n += 1
        ctx.ob("integer-width", got == want, base, f"{name} is (bits, signed, byte order) {got}, not {want}", name)
    for name, bits in NAMED.items():
        q = "zigpy.types.named." + name
        if q in ctx.p.classes and bits is not None:
            got = int_info(ctx, q)
            ctx.ob("integer-width", got is not None and got == (bits, False, "little"), base, f"{name} is {got}, not an unsigned little-endian {bits}-bit integer", name)
    for name, exp, frac in (("Half", 5, 10), ("Single", 8, 23), ("Double", 11, 52)):
        c = ctx.p.cls(B + name)
        kw = {k.arg: ctx.kit.consteval(c.module, k.value) for k in c.node.keywords}
        ctx.ob("integer-width", (kw.get("exponent_bits"), kw.get("fraction_bits")) == (exp, frac), base, f"{name} has {kw}, IEEE 754: {exp} exponent and {frac} fraction bits", name)
    for q, item, length in ((B + "data8", 8, 1), (B + "data16", 8, 2), (B + "data24", 8, 3), (B + "data32", 8, 4), (B + "data40", 8, 5), (B + "data48", 8, 6), (B + "data56", 8, 7), (B + "data64", 8, 8), ("zigpy.types.named.EUI64", 8, 8), ("zigpy.types.named.KeyData", 8, 16)):
        if q in ctx.p.classes:
            k = None
            for c in ctx.p.mro(ctx.p.cls(q)):
                kw = {x.arg: x.value for x in c.node.keywords}
                if "length" in kw:
                    k = (ctx.kit.consteval(c.module, kw["length"]), (int_info(ctx, ctx.p.resolve_expr(c.module, kw["item_type"], None) or "") or (None,))[0] if "item_type" in kw else None)
                    break
            ctx.ob("integer-width", k == (length, item), base, f"{q.split('.')[-1]} has (items, bits) {k}, not {(length, item)}", q)
    # floats: the size and the conversion formula
    ps = ctx.paths(B + "BaseFloat.__init_subclass__", private=False)
    for p in ps:
        if p.outcome.kind != "raise":
            st = {e.name: e.value for e in p.events if e.kind == "setattr"}
            for a_, b_ in ((5, 10), (8, 23), (11, 52)):
                asg = {("param", "exponent_bits"): a_, ("param", "fraction_bits"): b_}
                got = [ctx.kit.teval(norm(st[k]), asg) if k in st else None for k in ("_size", "_exponent_bits", "_fraction_bits")]
                ctx.ob("float-format", got == [(1 + a_ + b_) // 8, a_, b_], ps, f"a float with {a_} exponent and {b_} fraction bits gets {got}", f"{a_}")
    q = B + "BaseFloat"
    ps = ctx.paths(q + ".serialize", noinline=("_convert_format",))
    for p in ps:
        w = [e for e in p.events if e.kind == "call" and e.name == "_convert_format"]
        kw = {k: norm(v) for k, v in w[0].kwargs} if len(w) == 1 else {}
        src = ("call", G("struct.pack"), (C("<d"), ("self", q)), ())
        ctx.ob("float-format", kw.get("src") == G(B + "Double") and kw.get("dst") in (("self", q), ("call", G("builtins.type"), (("self", q),), ())) and endian(kw.get("n"), src), ps, "a float is not converted from the 64-bit format into its own", "enc")
        r = norm(p.ret)
        ctx.ob("float-format", r[0] == "call" and r[1] == ("attr", norm(w[0].value), "to_bytes") and r[2] == (("attr", ("self", q), "_size"), C("little")) if w else False, ps, f"a float is written as {show(r)[:80]}", "encr")
    ps = ctx.paths(q + ".deserialize", noinline=("_convert_format",))
    for p in ps:
        if p.outcome.kind == "raise":
            continue
        w = [e for e in p.events if e.kind == "call" and e.name == "_convert_format"]
        kw = {k: norm(v) for k, v in w[0].kwargs} if len(w) == 1 else {}
        own = ("idx", DATA, ("slice", C(None), ("attr", G(q), "_size"), C(None)))
        ctx.ob("float-format", kw.get("dst") == G(B + "Double") and kw.get("src") == G(q) and endian(kw.get("n"), own), ps, "a float is not converted from its own format into the 64-bit one", "dec")
        r = norm(p.ret)
        v = r[1][0] if r[0] == "tuple" and r[1] else None
        dbl = ("call", ("attr", norm(w[0].value), "to_bytes"), (("attr", G(B + "Double"), "_size"), C("little")), ()) if w else None
        ctx.ob("float-format", v == ("call", G(q), (("idx", ("call", G("struct.unpack"), (C("<d"), dbl), ()), C(0)),), ()), ps, f"a float is read as {show(v)[:100] if v else '?'}", "decr")
    ps = ctx.paths(q + "._convert_format")
    fm = {"Half": (5, 10), "Single": (8, 23), "Double": (11, 52)}
    pats = [(s_, e_, f_) for s_ in (0, 1) for e_ in ("zero", "one", "low", "mid", "high", "max", "under", "over") for f_ in ("zero", "lsb", "msb", "mix")]
    n = 0
    for a_ in fm:
        for b_ in fm:
            if "Double" not in (a_, b_):
                continue
            (se, sf), (de, df) = fm[a_], fm[b_]
            for s_, e_, f_ in pats:
                small = min(se, de)
                top = (1 << se) - 1
                off = 2 ** (small - 1) - 2
                low = off + 1  # the smallest normal exponent of the narrower format
                mid = 2 ** (se - 1)
                e = {"zero": 0, "one": mid - low, "low": mid - 3, "mid": mid, "high": mid + off, "max": top, "under": 1, "over": top - 1}[e_]
                fr = {"zero": 0, "lsb": 1, "msb": 1 << (sf - 1), "mix": int("0110100110010110" * 4, 2) & ((1 << sf) - 1)}[f_]
                x = (s_ << (se + sf)) | (e << sf) | fr
                frac = fr >> (sf - df) if sf > df else fr << (df - sf)
                exp = 0 if e == 0 else (1 << de) - 1 if e == top else max(1, min((1 << de) - 2, e - mid + 2 ** (de - 1)))
                want = (s_ << (de + df)) | (exp << df) | frac
                asg = {("param", "n"): x}
                for par_, (ee, ff) in (("src", fm[a_]), ("dst", fm[b_])):
                    asg[("attr", ("param", par_), "_exponent_bits")] = ee
                    asg[("attr", ("param", par_), "_fraction_bits")] = ff
                for p in ps:
                    if p.outcome.kind != "raise" and ps.consistent(p, asg, trail=True):
                        got = ctx.kit.teval(norm(p.ret), asg)
                        n += got is not UNK
                        ctx.ob("float-format", got == want or got is UNK and not closed(norm(p.ret), asg), ps, f"{a_} {x:#x} becomes {b_} {hex(got) if isinstance(got, int) else got}, not {want:#x} [{describe(p)}]", f"{a_}{b_}{e_}{f_}")


def closed(t, asg):
    """Only arithmetic over known quantities: when it has no value, evaluating it fails."""
    if t in asg or t[0] == "const":
        return True
    if t[0] == "bin":
        return closed(t[2], asg) and closed(t[3], asg)
    if t[0] == "un":
        return closed(t[2], asg)
    if t[0] == "call" and t[1] in (G("builtins.min"), G("builtins.max"), G("builtins.pow"), G("builtins.abs"), G("builtins.int")):
        return all(closed(x, asg) for x in t[2])
    return False


def endian(t, src):
    return t is not None and t[0] == "call" and t[1] == G("builtins.int.from_bytes") and t[2][:2] == (src, C("little")) and (len(t[2]) == 2 and dict(t[3]).get("signed", C(False)) == C(False))


RULES = [primitives, containers, composites, ranges, short_input, chain, bit_order, struct_decode, struct_encode, refusals, widths]
