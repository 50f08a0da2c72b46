"""Frame headers, command schemas, attribute definitions and enumerations follow their definitions exactly."""
import ast

from ..core import UNK, calls, describe, norm, show
from ..lib import allfacts, contains, truths
from ..model import Func

F = "zigpy.zcl.foundation."
B = "zigpy.types.basic."
NONE = ("const", None)
FC_FIELDS = ("frame_type", "is_manufacturer_specific", "direction", "disable_default_response", "reserved")
HDR_FIELDS = ("frame_control", "manufacturer", "tsn", "command_id")


def facts(p):
    return {norm(a): v for a, v in allfacts(p)}


def ctor(t, names):
    """Arguments of a constructor term by name."""
    return dict(zip(names, t[2])) | dict(t[3]) if t[0] == "call" else {}


def sub(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from sub(x)


def headers(ctx):
    """A header's frame control says what kind of frame it is, where it goes and whether it has a maker's code."""
    R = "frame-control"
    kinds = dict(cluster="CLUSTER_COMMAND", general="GLOBAL_COMMAND")
    ev = lambda c, m: ctx.kit.enum_value(F + c, m)
    for kind, ft in kinds.items():
        ps = ctx.paths(f"{F}FrameControl.{kind}")
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            a = ctor(norm(p.ret), FC_FIELDS)
            if not a:
                continue
            for d in ("Client_to_Server", "Server_to_Client"):
                asg = {"direction": ev("Direction", d)}
                if not ps.consistent(p, ps.asg(asg)):
                    continue
                val = lambda t: ctx.kit.teval(norm(t), ps.asg(asg))
                v = val(a.get("disable_default_response", ("const", None)))
                ctx.ob(R, v is UNK or v is not None and bool(v) == (d == "Server_to_Client"), ps, f"a {d} {kind} frame {'allows' if not v else 'refuses'} a default response", f"{kind}ddr{d}")
                v = val(a.get("direction", NONE))
                ctx.ob(R, v is UNK or v == asg["direction"], ps, f"a {d} frame travels in direction {v}", f"{kind}dir{d}")
            v = a.get("frame_type", NONE)
            ctx.ob(R, ctx.kit.teval(v, {}) in (UNK, ev("FrameType", ft)), ps, f"a {kind} frame has type {show(v)[:60]}", kind + "type")
            for m in (True, False):
                v = ctx.kit.teval(a.get("is_manufacturer_specific", NONE), ps.asg({"is_manufacturer_specific": m}))
                ctx.ob(R, v is UNK or bool(v) == m, ps, f"the maker's-code flag of a {kind} frame is {v}", kind + "mfr")
            v = ctx.kit.teval(a.get("reserved", NONE), {})
            ctx.ob(R, v is UNK or v == 0 and v is not None, ps, f"the reserved bits are {v}", kind + "res")
        ps = ctx.paths(f"{F}FrameControl.is_{kind}")
        for other in ("GLOBAL_COMMAND", "CLUSTER_COMMAND", "RESERVED_2", "RESERVED_3"):
            if not any(other == m for m in ctx.kit.p.classes[F + "FrameType"].attrs):
                continue
            asg = {"self.frame_type": ev("FrameType", other)}
            for p in ps.scen(asg):
                if p.ret is None:
                    continue
                v = ps.value(norm(p.ret), asg)
                ctx.ob(R, v is UNK or bool(v) == (other == ft), ps, f"is_{kind} of a {other} frame is {v}", f"is_{kind}{other}")

        R2 = "header"
        ps = ctx.paths(f"{F}ZCLHeader.{kind}", noinline=tuple(f"{F}FrameControl.{k}" for k in kinds))
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            a = ctor(norm(p.ret), HDR_FIELDS)
            if not a:
                continue
            for n in HDR_FIELDS[1:]:
                ctx.ob(R2, a.get(n) == ("param", n), ps, f"the {n} of a {kind} header is {show(a[n])[:60] if n in a else 'missing'}", kind + n)
            fc = a.get("frame_control", NONE)
            if fc[0] == "call" and fc[1][0] == "glob" and fc[1][1].startswith(F + "FrameControl."):
                ctx.ob(R2, fc[1][1].endswith("." + kind), ps, f"a {kind} header has a {fc[1][1].rsplit('.', 1)[1]} frame control", kind + "fc")
            elif fc[0] == "call" and fc[1][0] == "attr":
                ctx.ob(R2, fc[1][2] == kind, ps, f"a {kind} header has a {fc[1][2]} frame control", kind + "fc")
            else:
                ctx.ob(R2, fc != NONE, ps, "a header has no frame control", kind + "fc")
                continue
            b = ctor(fc, ("direction", "is_manufacturer_specific"))
            ctx.ob(R2, b.get("direction") == ("param", "direction"), ps, f"the direction of a {kind} header is {show(b['direction'])[:60] if 'direction' in b else 'the default one'}", kind + "dir")
            for m in (None, 0, 0x1234):
                if "is_manufacturer_specific" in b and ps.consistent(p, ps.asg({"manufacturer": m})):
                    v = ps.value(b["is_manufacturer_specific"], {"manufacturer": m})
                    ctx.ob(R2, v is UNK or bool(v) == (m is not None), ps, f"a header with maker's code {m} has the flag {v}", f"{kind}flag{m}")

    q = F + "ZCLHeader.__new__"
    ps = ctx.paths(q)
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r, f = norm(p.ret), facts(p)
        if r[0] != "call" or "__new__" not in repr(r[1]):
            continue
        args = r[2][1:] if r[2] and len(r[2]) == 5 else r[2]
        a = dict(zip(HDR_FIELDS, args)) | dict(r[3])
        none = [v for k, v in f.items() if k[0] in ("is", "eq") and "NO_MANUFACTURER_ID" in repr(k)]
        for n in HDR_FIELDS:
            want = (NONE,) if n == "manufacturer" and none == [True] else (("param", n),)
            ctx.ob("header", a.get(n) in want, ps, f"the {n} of a header becomes {show(a[n])[:60] if n in a else 'unset'} [{describe(p)}]", "new" + n)
        ctx.ob("header", bool(none), ps, f"a disabled maker's code is sent [{describe(p)}]", "nomfr")
        man, fcp = f.get(("is", ("param", "manufacturer"), NONE)), f.get(("is", ("param", "frame_control"), NONE))
        fl = [e for e in p.events if e.kind == "setattr" and e.name == "is_manufacturer_specific"]
        if man is False and fcp is False and True not in none:
            ctx.ob("header", len(fl) == 1 and norm(fl[0].value) in (("const", True), ("const", 1)), ps, f"a header with a maker's code does not say so [{describe(p)}]", "newflag")
        for e in fl:
            ctx.ob("header", man is False and True not in none, ps, f"a header without a maker's code says it has one [{describe(p)}]", "newflag2")
    ps = ctx.paths(F + "ZCLHeader.__setattr__")
    name, value = ("param", "name"), ("param", "value")
    fc = ps.T("self.frame_control")
    for p in ps:
        if not p.normal:
            continue
        f = facts(p)
        ism = f.get(("eq", name, ("const", "manufacturer")), f.get(("eq", ("const", "manufacturer"), name)))
        none = [v for k, v in f.items() if k[0] in ("is", "eq") and "NO_MANUFACTURER_ID" in repr(k)]
        st = calls(p, "__setattr__")
        ctx.ob("header", len(st) == 1, ps, f"a header field is stored {len(st)} times [{describe(p)}]", "set")
        for e in st:
            a = [norm(x) for x in e.args][-2:]
            want = NONE if ism is True and True in none else value
            ctx.ob("header", ism is not True or bool(none), ps, "a disabled maker's code is sent", "setnone")
            ctx.ob("header", a == [name, want], ps, f"a header field becomes {show(a[-1])[:60] if a else ''} [{describe(p)}]", "setv")
        fl = [e for e in p.events if e.kind == "setattr" and e.name == "is_manufacturer_specific"]
        if ism is True and f.get(("is", fc, NONE)) is False:
            ctx.ob("header", len(fl) == 1, ps, "the maker's-code flag does not follow the maker's code", "flag")
        for e in fl:
            ctx.ob("header", ism is True, ps, "another field changes the maker's-code flag", "flag2")
            v = norm(e.value)
            for m in (None, 0, 0x1234):
                got = ctx.kit.teval(v, {value: m} if True not in none else {})
                exp = m is not None and True not in none
                ctx.ob("header", got is UNK or bool(got) == exp, ps, f"a header with maker's code {m} gets the flag {got}", f"flagv{m}")


def schemas(ctx):
    """A command's compiled schema has each declared parameter, in order, with its type and optionality."""
    R = "command-schema"
    q = F + "ZCLCommandDef.with_compiled_schema"
    ps = ctx.paths(q, loop=1)
    src = ps.T("self.schema.items()")
    el = ("elem", src)
    name, typ = ("idx", el, ("const", 0)), ("idx", el, ("const", 1))
    plain = ("call", ("attr", name, "rstrip"), (("const", "?"),), ())
    ok_names = {plain, ("call", ("attr", name, "removesuffix"), (("const", "?"),), ()), ("call", ("attr", name, "replace"), (("const", "?"), ("const", "")), ())}
    n = 0
    for p in ps:
        f = facts(p)
        it = any(e.kind == "loopiter" and norm(e.base) == src for e in p.events)
        isdict = f.get(("isinstance", ps.T("self.schema"), ("glob", "builtins.dict")))
        bad = [(k, v) for k, v in f.items() if k[0] == "truthy" and k[1][0] == "call" and (k[1][1] == ("glob", "keyword.iskeyword") or k[1][1][0] == "attr" and k[1][1][2] == "isidentifier")]
        wrong = any(v is (k[1][1] == ("glob", "keyword.iskeyword")) for k, v in bad)
        if p.outcome.kind == "raise":
            tup = f.get(("isinstance", ps.T("self.schema"), ("glob", "builtins.tuple")))
            assertion = any(f.get(("is", ps.T(x), NONE)) is True for x in ("self.id", "self.name"))
            ctx.ob(R, tup is True or wrong or assertion, ps, f"a valid schema is refused [{describe(p)}]", "refuse")
            continue
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r = norm(p.ret)
        if isdict is False:
            st = [e for e in p.events if e.kind == "setattr" and e.name == "command"]
            ctx.ob(R, st and norm(st[0].value) == ps.T("self"), ps, "a schema does not know its command", "cmd")
            continue
        ctx.ob(R, not wrong, ps, f"an invalid parameter name is accepted [{describe(p)}]", "name")
        if not it:
            continue
        for what in ("isidentifier", "keyword"):
            ctx.ob(R, any(what in repr(k) for k in f), ps, f"parameter names are not checked ({what})", "name" + what)
        n += 1
        ctx.ob(R, any(e.kind == "loopend" for e in p.events), ps, "the remaining parameters are dropped", "all")
        fields = [e for e in p.events if e.kind == "setidx" and norm(e.value if e.value is not None else e.args[1])[:2] == ("call", ("glob", "zigpy.types.struct.StructField"))]
        ctx.ob(R, len(fields) == 1, ps, f"a parameter becomes {len(fields)} fields [{describe(p)}]", "one")
        anns = [e for e in p.events if e.kind == "setidx" and e not in fields]
        for e in fields:
            k, v = norm(e.args[0]), norm(e.value if e.value is not None else e.args[1])
            ctx.ob(R, k in ok_names, ps, f"the parameter is called {show(k)[-60:]}", "key")
            a = ctor(v, ("name", "type", "dynamic_type", "requires", "optional"))
            ctx.ob(R, a.get("type") == typ, ps, f"the parameter has type {show(a['type'])[-60:] if 'type' in a else 'none'}", "type")
            o = a.get("optional", ("const", False))
            ends = ("call", ("attr", name, "endswith"), (("const", "?"),), ())
            known = f.get(("truthy", ends))
            part = [t for t in sub(o) if t[0] == "idx" and t[1] == name and t[2][0] == "slice"]
            ctx.ob(R, all(t[2] == ("slice", ("const", -1), NONE, NONE) for t in part), ps, f"a parameter is optional when {show(o)[-60:]}", "optpart")
            ctx.ob(R, o == ends or known is not None and o == ("const", known) or o[0] not in ("const", "call"), ps, f"a parameter is optional when {show(o)[-60:]}", "opt")
            ctx.ob(R, not anns or any(norm(x.args[0]) == k for x in anns), ps, "a parameter is not declared", "ann")
        t = [x for x in sub(r) if x[0] == "call" and x[1] == ("glob", "builtins.type") and len(x[2]) == 3]
        for x in t[:1]:
            ctx.ob(R, x[2][0] == ps.T("self.name"), ps, "the schema has another command's name", "tname")
            cmd = [kv[1] for d in [x[2][2]] if d[0] == "dict" for kv in d[1] if kv[0] == ("const", "command")]
            ctx.ob(R, cmd == [ps.T("self")] or not cmd and x[2][2][0] != "dict", ps, "the schema does not know its command", "tcmd")
        ctx.ob(R, r[0] == "call" and r[1] in (ps.T("self.replace"), ("glob", "dataclasses.replace")) and (not t or dict(r[3]).get("schema") == t[0]), ps, f"the compiled schema is lost: {show(r)[:80]}", "ret")
    ctx.need(R, n, 0, "parameters")

    R = "schema-tuple"
    tup = ("call", ("attr", ("self", F + "CommandSchema"), "as_tuple"), (), ())
    for n, ok in (("__iter__", ("call", ("glob", "builtins.iter"), (tup,), ())), ("__getitem__", ("idx", tup, ("param", "item"))), ("__len__", ("call", ("glob", "builtins.len"), (tup,), ()))):
        if f"{F}CommandSchema.{n}" in ctx.kit.p.funcs:
            ps = ctx.paths(f"{F}CommandSchema.{n}", noinline=("zigpy.types.struct.Struct.as_tuple",))
            for p in ps:
                if p.outcome.kind == "return" and p.ret is not None:
                    r = norm(p.ret)
                    src = [t for t in sub(r) if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("as_tuple", "as_dict")]
                    ctx.ob(R, not src or r == ok, ps, f"{n} of a command gives {show(r)[:60]}", n)
    if F + "CommandSchema.__eq__" in ctx.kit.p.funcs:
        ps = ctx.paths(F + "CommandSchema.__eq__", noinline=("zigpy.types.struct.Struct.as_tuple", "zigpy.types.struct.Struct.__eq__"))
        other = ("param", ps.func.params[-1])
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            r, f = norm(p.ret), facts(p)
            istup = f.get(("isinstance", other, ("glob", "builtins.tuple")))
            same = [v for k, v in f.items() if k[0] == "isinstance" and k[1] == other and k[2] != ("glob", "builtins.tuple")]
            if istup is True and same == [False]:
                ctx.ob(R, r[0] == "cmp" and r[1] == "==" and tup in r[2:] and other in r[2:] or r[0] not in ("cmp", "const"), ps, f"a command equals a tuple when {show(r)[:60]}", "eqt")
            elif istup is False or True in same:
                ctx.ob(R, r[0] != "cmp" or "super" in repr(r), ps, f"commands are compared as {show(r)[:60]}", "eqs")
            ctx.ob(R, r[0] != "const", ps, f"equality of commands is {show(r)[:60]} [{describe(p)}]", "eqc")
    ps = ctx.paths(F + "IterableMemberMeta.__iter__", loop=1)
    for p in ps:
        ys = [e for e in p.events if e.kind == "yield"]
        f = facts(p)
        hid = [v for k, v in f.items() if k[0] == "truthy" and k[1][0] == "call" and k[1][1][0] == "attr" and k[1][1][2] == "startswith"]
        if any(e.kind == "loopiter" for e in p.events) and p.normal and hid:
            ctx.ob("cluster-table", len(ys) == (0 if hid[0] else 1), ps, f"a {'hidden' if hid[0] else 'defined'} member is listed {len(ys)} times", "iter")
            ctx.ob("cluster-table", any(e.kind == "loopend" for e in p.events), ps, "later members are left out", "iterall")

    R = "definition"
    for c, q in (("attribute", F + "ZCLAttributeDef.__post_init__"), ("command", F + "ZCLCommandDef.__post_init__")):
        ps = ctx.paths(q, noinline=(F + "ZCLAttributeAccess.from_str", F + "DataType.from_python_type", F + "Direction._from_is_reply", F + "ensure_valid_name"))
        for p in ps:
            if not p.normal:
                continue
            f = facts(p)
            st = {}
            for e in calls(p, "__setattr__"):
                a = [norm(x) for x in e.args]
                if len(a) == 3 and a[1][0] == "const":
                    st.setdefault(a[1][1], []).append(a[2])
            sid = ps.T("self.id")
            isname = f.get(("isinstance", sid, ("glob", "builtins.str")))
            if isname is True:
                ctx.ob(R, st.get("name", [None])[-1] == sid, ps, f"the name of a positional {c} definition is lost", c + "name")
                ctx.ob(R, NONE in st.get("id", []), ps, f"the id of a positional {c} definition is its name", c + "id")
            elif isname is False:
                ctx.ob(R, "name" not in st, ps, f"the name of a {c} definition is replaced", c + "name2")
            for v in st.get("id", []):
                ctx.ob(R, v == NONE or v == ("call", ("glob", "zigpy.types.basic.uint16_t"), (sid,), ()) or v[0] == "call" and v[2] == (sid,), ps, f"the id of a {c} definition becomes {show(v)[:60]}", c + "id2")
            chk = calls(p, "ensure_valid_name")
            ctx.ob(R, any(e.args and norm(e.args[0]) in (ps.T("self.name"), sid) for e in chk), ps, f"the name of a {c} is not checked", c + "valid")
            if c == "attribute":
                z = f.get(("is", ps.T("self.zcl_type"), NONE))
                want = ("attr", ("call", ("attr", ("glob", F + "DataType"), "from_python_type"), (ps.T("self.type"),), ()), "type_id")
                if z is True:
                    ctx.ob(R, st.get("zcl_type") and "from_python_type" in repr(st["zcl_type"][-1]) and contains(st["zcl_type"][-1], ps.T("self.type")), ps, f"an attribute without a declared ZCL type gets {show(st['zcl_type'][-1])[:60] if 'zcl_type' in st else 'none'}", "ztype")
                elif f.get(("truthy", ps.T("self.zcl_type"))) is False:
                    ctx.ob(R, "zcl_type" not in st, ps, "a declared ZCL type of 0 is replaced", "ztype0")
                elif z is False:
                    ctx.ob(R, "zcl_type" not in st, ps, "the declared ZCL type of an attribute is replaced", "ztype2")
                ac = f.get(("isinstance", ps.T("self.access"), ("glob", "builtins.str")))
                if ac is True:
                    ctx.ob(R, st.get("access") and "from_str" in repr(st["access"][-1]) and contains(st["access"][-1], ps.T("self.access")), ps, "the access of an attribute is not read from its letters", "access")
                elif ac is False:
                    ctx.ob(R, "access" not in st, ps, "the declared access of an attribute is replaced", "access2")
            else:
                d = f.get(("isinstance", ps.T("self.direction"), ("glob", "builtins.bool")))
                if d is True:
                    ctx.ob(R, st.get("direction") and "_from_is_reply" in repr(st["direction"][-1]), ps, "a command's old style direction is not converted", "dir")
                elif d is False:
                    ctx.ob(R, "direction" not in st, ps, "a command's direction is replaced", "dir2")
    ps = ctx.paths(F + "Direction._from_is_reply")
    for v, want in ((True, "Server_to_Client"), (False, "Client_to_Server")):
        par = ps.func.params[-1]
        for p in ps.scen({("param", par): v}):
            if p.ret is not None:
                got = ps.value(norm(p.ret), {("param", par): v})
                ctx.ob(R, got is UNK or got == ctx.kit.enum_value(F + "Direction", want), ps, f"the direction of {'a reply' if v else 'a request'} is {got}", "reply" + want)
    ps = ctx.paths(F + "ensure_valid_name")
    nm = ("param", ps.func.params[0])
    for p in ps:
        f = facts(p)
        isid = [v for k, v in f.items() if k[0] == "truthy" and k[1] == ("call", ("attr", nm, "isidentifier"), (), ())]
        if p.outcome.kind == "raise":
            ctx.ob(R, False in isid and f.get(("is", nm, NONE)) is not True, ps, f"a valid name is refused [{describe(p)}]", "vn")
        else:
            ctx.ob(R, True in isid or f.get(("is", nm, NONE)) is True or f.get(("truthy", nm)) is False and False, ps, f"an invalid name is accepted [{describe(p)}]", "vn2")


def access(ctx):
    """Access letters mean exactly the listed rights; unknown letters are refused."""
    R = "access"
    q = F + "ZCLAttributeAccess.from_str"
    ps = ctx.paths(q, loop=1)
    val = ("param", "value")
    for p in ps:
        if p.outcome.kind == "cut":
            continue
        its = [e for e in p.events if e.kind == "loopiter"]
        hit = [(norm(a), v) for _, a, v in p.trail if norm(a)[0] == "truthy" and norm(a)[1][0] == "call" and norm(a)[1][1][0] == "attr" and norm(a)[1][1][2] == "startswith"]
        if p.outcome.kind == "raise":
            ctx.ob(R, not any(v for _, v in hit) and any(e.kind == "loopend" for e in p.events), ps, f"a valid access is refused [{describe(p)}]", "refuse")
            continue
        if p.outcome.kind != "return" or p.ret is None or not its:
            continue
        r = norm(p.ret)
        ctx.ob(R, any(v for _, v in hit), ps, f"unknown letters are ignored [{describe(p)}]", "unknown")
        for a, v in hit:
            if not v:
                continue
            pre = a[1][2][0]
            pair = pre[1] if pre[0] == "idx" else None
            key = ("idx", pair, ("const", 0)) if pair is not None and pre[2] == ("const", 1) else None
            if key is None:
                continue
            ctx.ob(R, contains(r, key), ps, f"the right is lost: {show(r)[:80]}", "or")
            ops = {t[1] for t in sub(r) if t[0] == "bin" and contains(t, key)}
            ctx.ob(R, ops <= {"|", "+"}, ps, f"rights are combined as {show(r)[:80]}", "op")
            rest = [norm(x)[1] for _, x, _ in p.trail if norm(x)[0] == "truthy" and contains(norm(x), pre) and contains(norm(x), val) and norm(x) != a]
            ctx.ob(R, not any(t[0] == "call" and t[1][0] == "attr" and t[1][2] not in ("removeprefix",) for t in rest), ps, f"other letters than the matched ones are consumed: {show(rest[0])[:80] if rest else ''}", "cut2")
            cuts = [t for t in sub(tuple(norm(x) for _, x, _ in p.trail)) if t[0] == "idx" and t[2][0] == "slice" and t[1] == val]
            ctx.ob(R, all(t[2][1:] == (("call", ("glob", "builtins.len"), (pre,), ()), NONE, NONE) for t in cuts), ps, f"other letters than the matched ones are consumed: {show(cuts[0])[:80] if cuts else ''}", "cut")
    m = ctx.kit.p.modules["zigpy.zcl.foundation"]
    for st in m.tree.body if hasattr(m, "tree") else m.node.body:
        if isinstance(st, ast.Assign) and ast.unparse(st.targets[0]) == "ZCLAttributeAccess._names" and isinstance(st.value, ast.Dict):
            t = {ast.unparse(k).rsplit(".", 1)[-1]: ctx.kit.consteval(m, v) for k, v in zip(st.value.keys, st.value.values)}
            ctx.ob(R, len(set(t.values())) == len(t), (m, st), f"two rights have the same letters: {t}", "uniq")
            items = list(t.items())
            for i, (a, x) in enumerate(items):
                for b, y in items[i + 1:]:
                    ctx.ob(R, not (isinstance(x, str) and isinstance(y, str) and y.startswith(x)), (m, st), f"`{y}` ({b}) is read as `{x}` ({a})", a + b)
            want = dict(Write_Optional="*w", Write="w", Read="r", Report="p", Scene="s")
            ctx.ob(R, t == want, (m, st), f"the letters are {t}", "table")


def tables(ctx):
    """Each cluster's lookup tables hold every definition under its own id and name."""
    R = "cluster-table"
    q = "zigpy.zcl.Cluster.__init_subclass__"
    f = ctx.kit.p.funcs[q]
    body = f.node.body
    last = max((i for i, s in enumerate(body) if isinstance(s, (ast.For, ast.While))), default=-1)
    tail = body[last + 1:]
    want = dict(attributes=("id", ("AttributeDefs",)), client_commands=("id", ("ClientCommandDefs",)), server_commands=("id", ("ServerCommandDefs",)), attributes_by_name=("name", ("AttributeDefs",)), commands_by_name=("name", ("ClientCommandDefs", "ServerCommandDefs")))
    node = ast.FunctionDef(name="__init_subclass__", args=f.node.args, body=tail, decorator_list=[], returns=None, type_params=[])
    ast.copy_location(node, tail[0])
    ast.fix_missing_locations(node)
    w = Func(f.module, f.cls, node, q, None)
    ps = ctx.paths(w)
    me = ps.T("cls") if f.params[:1] == ["cls"] else ("self", "zigpy.zcl.Cluster")
    n = 0
    for p in ps:
        if not p.normal:
            continue
        for e in p.events:
            if e.kind != "setattr" or e.name not in want or e.value is None:
                continue
            v = norm(e.value)
            key, srcs = want[e.name]
            if v[0] == "comp" and v[1] == "dict" and len(v) == 4 and len(v[3]) == 1:
                it, conds = v[3][0]
                n += 1
                kv = v[2]
                el = ("elem", it)
                k, x = (kv[0], kv[1]) if not isinstance(kv[0], str) else (kv[1], kv[2]) if len(kv) > 2 else (None, None)
                ctx.ob(R, not conds, ps, f"{e.name} leaves out some definitions", e.name + "if")
                ctx.ob(R, k == ("attr", el, key), ps, f"{e.name} is keyed by {show(k)[-40:] if k else k}", e.name + "k")
                ctx.ob(R, x == el, ps, f"{e.name} holds {show(x)[-40:] if x else x}", e.name + "v")
                names = {t[2] for t in sub(it) if t[0] == "attr" and t[2].endswith("Defs")} if it[0] in ("attr", "call") else set()
                ctx.ob(R, names == set(srcs) or not names, ps, f"{e.name} is made of {sorted(names)}", e.name + "src")
        skip = [v for a, v in allfacts(p) if norm(a)[0] == "truthy" and norm(a)[1][0] == "attr" and norm(a)[1][2] == "_skip_registry"]
        cid = [v for a, v in allfacts(p) if norm(a)[0] == "is" and norm(a)[1][0] == "attr" and norm(a)[1][2] == "cluster_id" and norm(a)[2] == NONE]
        reg = [e for e in p.events if e.kind == "setidx" and norm(e.base)[0] == "attr" and norm(e.base)[2] in ("_registry",)]
        ctx.ob("cluster-registry", not (reg and True in skip), ps, "a quirk's cluster replaces the standard one in the registry", "skip")
        if skip == [False] and cid == [False]:
            ctx.ob("cluster-registry", len(reg) == 1, ps, "a cluster is not registered", "reg")
        for e in reg:
            ctx.ob("cluster-registry", norm(e.args[0])[-1] == "cluster_id" and norm(e.value if e.value is not None else e.args[1])[0] in ("self", "param"), ps, f"a cluster is registered under {show(e.args[0])[:60]}", "key")
    ctx.need(R, n, 0, "tables")


def inner(ctx, q, name):
    """A method of a class defined inside a function."""
    f = ctx.kit.p.funcs.get(q)
    if f is None:
        return
    for c in ast.walk(f.node):
        if isinstance(c, ast.ClassDef):
            for m in c.body:
                if isinstance(m, ast.FunctionDef) and m.name == name:
                    yield f, m


def enums(ctx):
    """A value outside an enumeration keeps its number; text is read as a number or a member's name."""
    R = "enum-unknown"
    for f, m in inner(ctx, B + "enum_factory", "_missing_"):
        w = Func(f.module, None, m, f"{B}enum_factory.{m.name}", None)
        a = [x.arg for x in m.args.args]
        env = {n: ("param", n, None) for n in (*a, *f.params)}
        ps = ctx.paths(w, env=env)
        value = ("param", a[-1])
        for p in ps:
            if p.outcome.kind == "raise":
                ctx.ob(R, False, ps, f"an unknown value is refused [{describe(p)}]", "raise")
                continue
            if p.outcome.kind != "return" or p.ret is None:
                continue
            r = norm(p.ret)
            ctx.ob(R, r[0] == "call" and value in r[2], ps, f"an unknown value becomes {show(r)[:60]}", "new")
            st = {e.name: norm(e.value) for e in p.events if e.kind == "setattr" and e.base is not None and norm(e.base) == r}
            ctx.ob(R, st.get("_value_") in (value, r) or st.get("_value_", ("x",))[0] == "call" and value in st["_value_"][2], ps, f"an unknown value counts as {show(st['_value_'])[:60] if '_value_' in st else 'nothing'}", "value")
            ctx.ob(R, "_name_" in st and (contains(st["_name_"], r) or contains(st["_name_"], value)), ps, f"an unknown value is called {show(st['_name_'])[:60] if '_name_' in st else 'nothing'}", "name")
    chain = {F + "Status": "zigpy.types.named.APSStatus", "zigpy.zdo.types.Status": "zigpy.types.named.APSStatus", "zigpy.types.named.APSStatus": "zigpy.types.named.NWKStatus", "zigpy.types.named.NWKStatus": "zigpy.types.named.MACStatus"}
    for q, nxt in chain.items():
        if q + "._missing_" not in ctx.kit.p.funcs:
            continue
        ps = ctx.paths(q + "._missing_")
        value = ("param", "value")
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            r = norm(p.ret)
            st = {e.name: norm(e.value) for e in p.events if e.kind == "setattr" and e.base is not None and norm(e.base) == r}
            v = st.get("_value_")
            if v is None:
                continue
            src = [t for t in sub((r, *st.values())) if t[0] == "call" and t[2] == (value,) and t[1][0] == "glob"]
            ctx.ob(R, all(t[1][1].rsplit(".", 1)[-1] == nxt.rsplit(".", 1)[-1] for t in src), ps, f"a status unknown to {q} is looked up in {show(src[0])[:60] if src else ''}", q)
            ctx.ob(R, v == value or v[0] == "attr" and v[2] == "value" and v[1] in src, ps, f"an unknown status counts as {show(v)[:60]}", q + "v")
            nm = st.get("_name_", NONE)
            ctx.ob(R, nm[0] != "attr" or nm[2] == "name" and nm[1] in src, ps, f"an unknown status is called {show(nm)[:60]}", q + "n")
            num = [t for t in r[2] if not (t[0] in ("self", "glob", "param") and t != value)] if r[0] == "call" else []
            ctx.ob(R, not num or all(t == value or t[0] == "attr" and t[2] == "value" or t in src for t in num), ps, f"an unknown status becomes {show(r)[:80]}", q + "num")

    R = "enum-text"
    ps = ctx.paths(B + "_IntEnumMeta.__call__")
    value = ("param", "value")
    me = ps.T("self")
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r, f = norm(p.ret), facts(p)
        isstr = f.get(("isinstance", value, ("glob", "builtins.str")))
        got = r[2][0] if r[0] == "call" and r[2] else None
        if got is None or r[1][0] != "attr" or r[1][2] != "__call__":
            continue
        call = lambda fn, *a, **k: ("call", ("glob", "builtins." + fn), a, tuple(k.items()))
        hexa = f.get(("truthy", ("call", ("attr", value, "startswith"), (("const", "0x"),), ())))
        num = [v for k, v in f.items() if k[0] == "truthy" and k[1][0] == "call" and k[1][1][0] == "attr" and k[1][1][1] == value and k[1][1][2] in ("isnumeric", "isdigit", "isdecimal")]
        pre = [v for k, v in f.items() if k[0] == "truthy" and k[1][0] == "call" and k[1][1] == ("attr", value, "startswith") and "__name__" in repr(k)]
        if isstr is False:
            ctx.ob(R, got == value, ps, f"the number of a member becomes {show(got)[:60]}", "num")
        elif hexa is True:
            base = dict(got[3]).get("base", got[2][1] if len(got[2]) > 1 else NONE) if got[0] == "call" else NONE
            ctx.ob(R, got[0] == "call" and got[2][:1] == (value,) and base in (("const", 16), ("const", 0)), ps, f"hexadecimal text is read as {show(got)[:60]}", "hex")
        elif True in num:
            ctx.ob(R, got[0] == "call" and got[1] == ("glob", "builtins.int") and got[2][:1] == (value,) and dict(got[3]).get("base", ("const", 10)) == ("const", 10), ps, f"decimal text is read as {show(got)[:60]}", "dec")
        elif True in pre:
            ok = got[0] == "attr" and got[2] == "value" and got[1][0] == "idx" and got[1][1] == me and got[1][2][0] == "idx" and got[1][2][1] == value
            ctx.ob(R, not contains(got, ("idx", me, value)), ps, "a qualified member name is looked up with its class name", "qual")
            if ok and got[1][2][2][0] == "slice":
                from ..lib import lin_eq
                want = ("bin", "+", ("call", ("glob", "builtins.len"), (("attr", me, "__name__"),), ()), ("const", 1))
                start = got[1][2][2][1]
                ctx.ob(R, lin_eq(start, want) or start[0] == "call" and contains(start, ("const", ".")), ps, f"a qualified member name is cut at {show(start)[:60]}", "cut")
        elif isstr is True and hexa is False and num and pre:
            ctx.ob(R, got == ("attr", ("idx", me, value), "value") or got == ("idx", me, value), ps, f"a member's name is read as {show(got)[:60]}", "name")

    R = "type-factory"
    ps = ctx.paths(B + "KwargTypeMeta.__getitem__")
    reg = ps.T("cls._anonymous_classes") if ps.func.params[:1] == ["cls"] else None
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r = norm(p.ret)
        for e in p.events:
            if e.kind == "setidx" and norm(e.base)[0] == "attr" and norm(e.base)[2] == "_anonymous_classes":
                k = norm(e.args[0])
                ctx.ob(R, any(t[0] in ("self", "param") and t[1] != "key" for t in (k[1] if k[0] == "tuple" else ())), ps, f"types made by different factories are confused: {show(k)[:80]}", "cls")
                ctx.ob(R, contains(k, ("param", "key")) or "arguments" in repr(k), ps, f"types with different parameters are confused: {show(k)[:80]}", "args")
                ctx.ob(R, "arguments" in repr(k), ps, "a type given its defaults differs from the default one", "dflt")
                ctx.ob(R, norm(e.value if e.value is not None else e.args[1]) == r, ps, "another type is remembered", "val")
        if r[0] == "idx" and r[1][0] == "attr" and r[1][2] == "_anonymous_classes":
            ks = {norm(e.args[0]) for q in ps for e in q.events if e.kind == "setidx" and norm(e.base) == r[1]}
            ctx.ob(R, not ks or r[2] in ks, ps, f"a type is remembered as {show(next(iter(ks)))[:60] if ks else ''} and looked up as {show(r[2])[:60]}", "get")
    ps = ctx.paths(B + "KwargTypeMeta.__subclasscheck__", loop=1)
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r, f = norm(p.ret), facts(p)
        anon = [v for k, v in f.items() if k[0] == "truthy" and "Anonymous" in repr(k) and not contains(k, ("param", "subclass"))]
        if r == ("const", True):
            kw = [v for k, v in f.items() if k[0] == "eq" and "_getitem_kwargs" in repr(k)]
            its = any(e.kind == "loopiter" for e in p.events)
            ctx.ob(R, all(kw) and (not its or bool(kw)), ps, f"a type with other parameters counts as a subtype [{describe(p)}]", "kw")
            mro = [v for k, v in f.items() if k[0] == "eq" and "__mro__" in repr(k)]
            ctx.ob(R, mro == [True], ps, f"a type with other ancestors counts as a subtype [{describe(p)}]", "mro")
            ctx.ob(R, any(e.kind == "loopend" for e in p.events), ps, "only some parameters are compared", "all")


RULES = [headers, schemas, access, tables, enums]
