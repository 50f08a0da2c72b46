"""Protocol definition tables are unambiguous, internally consistent and assign what the standard assigns."""
import ast
import json
import keyword
import pathlib
import re
from collections import Counter

from ..codec import datatypes, int_info
from ..core import UNK, norm
from ..lib import truths
from ..tables import B, F, brief, clusters, definitions, resolve, struct_fields, subclasses, wire, wire_class

SPEC = json.loads((pathlib.Path(__file__).parent.parent / "spec" / "tables.json").read_text())
STRUCT = "zigpy.types.struct.Struct"
ZT = "zigpy.zdo.types"
GENERAL = F + "GENERAL_COMMANDS"
KINDS = (("ServerCommandDefs", "server"), ("ClientCommandDefs", "client"))


def check(ctx, ok, rule, where, msg, line=None):
    return ctx.ob(rule, bool(ok), where, msg + (f" (line {line})" if line and not ok else ""), key=msg)


def bare(sig):
    return sig.rstrip("?")


def const(ctx, mod, e):
    v = ctx.kit.consteval(mod, e)
    return None if v is UNK else v


def arguments(ctx, mod, owner, schema):
    """[(name, wire, optional)] of a command schema; None when it cannot be read."""
    if isinstance(schema, ast.Dict):
        out = []
        for k, v in zip(schema.keys, schema.values):
            n = const(ctx, mod, k) if k is not None else None
            if not isinstance(n, str):
                return None
            out.append((n.rstrip("?"), wire(ctx, mod, owner, v), n.endswith("?")))
        return out
    r = resolve(ctx, mod, owner, schema)
    if r in ctx.p.classes and STRUCT in ctx.p.base_names(ctx.p.classes[r]):
        return [(n, w, req is not None or opt is not None) for n, w, req, opt, _ in struct_fields(ctx, ctx.p.classes[r])]
    return None


def swallows(ctx, w):
    """Does the type consume everything that follows it?"""
    if w is None:
        return False
    if w[0] == "list":
        return True
    if w[0] == "optional":
        return swallows(ctx, w[1])
    if w[0] == "struct":
        f = struct_fields(ctx, ctx.p.classes[w[1]])
        return bool(f) and swallows(ctx, f[-1][1])
    return False


def well_formed(ctx, rule, where, fields):
    """Argument lists can be decoded: names usable, types known, what may be missing or consumes the rest comes last."""
    names = [n for n, _, _ in fields]
    check(ctx, len(set(names)) == len(names), rule, where, "an argument name is used twice")
    for n, w, _ in fields:
        check(ctx, n.isidentifier() and not keyword.iskeyword(n), rule, where, f"the argument {n!r} cannot be passed by name")
        check(ctx, w is not None and "?" not in brief(w).rstrip("?") and "None" not in brief(w), rule, where, f"the argument {n} has no wire type known to the stack")
    for i, (n, w, _) in enumerate(fields[:-1]):
        check(ctx, not swallows(ctx, w), rule, where, f"{n} consumes everything that follows, but {fields[i + 1][0]} follows it")
    opt = [bool(o) or (w is not None and w[0] == "optional") for _, w, o in fields]
    check(ctx, opt == sorted(opt), rule, where, "an optional argument precedes a mandatory one")


def redefined(ctx, rule, cls, kind, what):
    """A name bound twice in a definition table silently replaces the first definition."""
    for k in ctx.p.mro(cls):
        d = k.inner.get(kind)
        if d is None:
            continue
        names = Counter(t.id for s in d.node.body if isinstance(s, (ast.Assign, ast.AnnAssign)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name) and (s.value is not None))
        for n, c in names.items():
            check(ctx, c == 1, rule, f"{cls.qual}.{kind}", f"{what} {n} is defined {c} times")
        return


def number(v, bits):
    return isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 1 << bits


def unique_clusters(ctx):
    rule = "unique-clusters"
    ids, eps = Counter(), Counter()
    ranges = []
    for c, i, ep, r in clusters(ctx):
        if i is UNK or ep is UNK or r is UNK:
            continue
        check(ctx, i is not None or r is not None, rule, c.qual, "the cluster has neither an identifier nor a range of identifiers")
        if i is not None:
            check(ctx, number(i, 16), rule, c.qual, f"the cluster identifier {i!r} is not a 16-bit number")
            ids[i] += 1
            check(ctx, ids[i] == 1, rule, c.qual, f"two clusters claim identifier {i:#06x}: only one of them can be looked up")
        if ep is not None:
            eps[ep] += 1
            check(ctx, isinstance(ep, str) and ep.isidentifier() and not keyword.iskeyword(ep), rule, c.qual, f"{ep!r} cannot be used as an attribute name")
            check(ctx, eps[ep] == 1, rule, c.qual, f"two clusters claim the access name {ep!r}: only one of them can be looked up")
        if isinstance(r, tuple) and len(r) == 2:
            check(ctx, r[0] <= r[1], rule, c.qual, "the range of identifiers is empty")
            for a, b, q in ranges:
                check(ctx, r[1] < a or b < r[0], rule, c.qual, f"its range of identifiers overlaps that of {q}")
            ranges.append((*r, c.qual))
    # access names must not hide the endpoint's own attributes
    e = ctx.p.cls("zigpy.endpoint.Endpoint")
    for n in eps:
        check(ctx, n not in e.methods, rule, e.qual, f"the access name {n!r} is hidden by a method of the endpoint")


def attributes(ctx):
    rule = "attributes"
    types = {cls: name for name, (_, cls, _, _) in datatypes(ctx).items()}
    ids = {name: tid for name, (tid, _, _, _) in datatypes(ctx).items()}
    back = {tid: (name, wire_class(ctx, datatypes(ctx)[name][1])) for name, tid in ids.items()}
    for c, i, ep, r in clusters(ctx):
        redefined(ctx, rule, c, "AttributeDefs", "the attribute")
        seen, names = {}, Counter()
        for n, a, mod, owner in definitions(ctx, c, "AttributeDefs"):
            where = f"{c.qual}.AttributeDefs.{n}"
            v = const(ctx, mod, a["id"]) if "id" in a else None
            check(ctx, number(v, 16), rule, where, "the attribute has no 16-bit identifier")
            check(ctx, v not in seen, rule, where, f"its identifier is also that of {seen.get(v)}: reports and reads of one update the other")
            seen[v] = n
            name = const(ctx, mod, a["name"]) if "name" in a else n
            names[name] += 1
            check(ctx, names[name] == 1, rule, where, f"two attributes are named {name}")
            check(ctx, "type" in a, rule, where, "the attribute has no type")
            if "type" not in a:
                continue
            w = wire(ctx, mod, owner, a["type"])
            check(ctx, w is not None, rule, where, f"its type {ast.unparse(a['type'])} has no encoding known to the stack")
            if w is None:
                continue
            t = resolve(ctx, mod, owner, a["type"]) if not isinstance(a["type"], (ast.Subscript, ast.Call)) else None
            kinds = [types[k.qual] for k in ctx.p.mro(ctx.p.classes[t]) if k.qual in types] if t in ctx.p.classes else []
            if "zcl_type" in a:
                z = resolve(ctx, mod, owner, a["zcl_type"])
                got = back.get(z)
                if got is not None:
                    check(ctx, brief(got[1]) == brief(w), rule, where, f"it is declared as {got[0]} ({brief(got[1])}) on the wire but encoded as {brief(w)}")
            elif kinds:
                want = wire_class(ctx, datatypes(ctx)[kinds[0]][1])
                check(ctx, brief(want) == brief(w), rule, where, f"its data type {kinds[0]} says {brief(want)} but it is encoded as {brief(w)}")


def responds(name):
    return bool(re.search(r"_(response|rsp|resp)$", name))


def direction(ctx, mod, e):
    if e is None:
        return None
    v = const(ctx, mod, e)
    if v is None:
        r = resolve(ctx, mod, None, e) or ""
        m, _, n = r.rpartition(".")
        if m == F + "Direction" and n in ctx.p.classes[m].attrs:
            v = const(ctx, ctx.p.classes[m].module, ctx.p.classes[m].attrs[n])
    return None if v is None else int(v) if isinstance(v, (int, bool)) else None


def commands(ctx):
    rule = "commands"
    for c, i, ep, r in clusters(ctx):
        names = Counter()
        for kind, side in KINDS:
            redefined(ctx, rule, c, kind, "the command")
            seen = {}
            for n, a, mod, owner in definitions(ctx, c, kind):
                where = f"{c.qual}.{kind}.{n}"
                v = const(ctx, mod, a["id"]) if "id" in a else None
                check(ctx, number(v, 8), rule, where, "the command has no one-byte identifier")
                check(ctx, v not in seen, rule, where, f"its identifier is also that of {seen.get(v)}: one of them is always decoded as the other")
                seen[v] = n
                name = const(ctx, mod, a["name"]) if "name" in a else n
                names[name] += 1
                check(ctx, names[name] == 1, rule, where, f"two commands of the cluster are named {name}")
                args = arguments(ctx, mod, owner, a["schema"]) if "schema" in a else None
                check(ctx, args is not None, rule, where, "its arguments are not declared")
                if args and isinstance(a["schema"], ast.Dict):
                    well_formed(ctx, rule, where, args)
                d = direction(ctx, mod, a.get("direction"))
                if responds(n):
                    check(ctx, d in (None, 1) and a.get("direction") is not None, rule, where, "a response is declared to travel as a request")
                elif side == "server":
                    check(ctx, d in (None, 0) and a.get("direction") is not None, rule, where, "a request is declared to travel as a response")


def core_clusters(ctx):
    rule = "core-clusters"
    have = {ep: (c, i) for c, i, ep, _ in clusters(ctx)}
    for ep, want in SPEC["clusters"].items():
        check(ctx, ep in have, rule, "zigpy.zcl.clusters", f"no cluster is accessible as {ep}")
        if ep not in have:
            continue
        c, i = have[ep]
        check(ctx, i == want["id"], rule, c.qual, f"{ep} has identifier {i!r} instead of {want['id']:#06x}")
        for kind, side in (("AttributeDefs", "attributes"), *KINDS):
            got = {n: (a, mod, o) for n, a, mod, o in definitions(ctx, c, kind)}
            for n, (num, sig) in want[side].items():
                where = f"{c.qual}.{kind}.{n}"
                check(ctx, n in got, rule, f"{c.qual}.{kind}", f"{n} is not defined")
                if n not in got:
                    continue
                a, mod, o = got[n]
                v = const(ctx, mod, a["id"]) if "id" in a else None
                check(ctx, v == num, rule, where, f"its identifier is {v!r} instead of {num:#x}")
                if side == "attributes":
                    w = brief(wire(ctx, mod, o, a["type"])) if "type" in a else "?"
                    check(ctx, w == sig, rule, where, f"it is encoded as {w} instead of {sig}")
                elif "schema" in a:
                    args = arguments(ctx, mod, o, a["schema"])
                    if args is None:
                        continue
                    exp = sig if isinstance(sig, list) else [w for _, w in next((v for q, v in SPEC["structs"].items() if q.split(".")[-1] == sig), [])]
                    if not isinstance(sig, list) and not exp:
                        continue
                    have_ = [bare(brief(w)) for _, w, _ in args]
                    check(ctx, have_[:len(exp)] == [bare(x) for x in exp] and all(o for _, _, o in args[len(exp):]), rule, where, f"its arguments are encoded as {' '.join(have_)} instead of {' '.join(exp)}")


def general_commands(ctx):
    rule = "general-commands"
    f = ctx.p.modules["zigpy.zcl.foundation"]
    enum = ctx.p.cls(F + "GeneralCommand")
    ids = {n: const(ctx, f, v) for n, v in enum.attrs.items()}
    for n, (num, _) in SPEC["general"].items():
        check(ctx, ids.get(n) == num, rule, enum.qual, f"{n} has identifier {ids.get(n)!r} instead of {num:#04x}")
    check(ctx, len(set(ids.values())) == len(ids), rule, enum.qual, "two general commands share an identifier")
    table = f.assigns.get("GENERAL_COMMANDS")
    if not isinstance(table, ast.Dict):
        return
    rows = {}
    for k, v in zip(table.keys, table.values):
        num = const(ctx, f, k) if k is not None else None
        name = next((n for n, i in ids.items() if i == num), None)
        if name is None:
            continue
        check(ctx, name not in rows, rule, GENERAL, f"{name} is defined twice")
        rows[name] = v
    for n in ids:
        check(ctx, n in rows, rule, GENERAL, f"{n} has an identifier but no definition: frames carrying it cannot be decoded")
    for n, v in rows.items():
        if not isinstance(v, ast.Call):
            continue
        kw = {x.arg: x.value for x in v.keywords}
        kw.update(dict(zip(("id", "schema", "direction"), v.args)))
        where = f"{GENERAL}[{n}]"
        args = arguments(ctx, f, None, kw["schema"]) if "schema" in kw else None
        if args is None:
            continue
        well_formed(ctx, rule, where, args)
        if n in SPEC["general"]:
            exp = SPEC["general"][n][1]
            got = [brief(w) for _, w, _ in args]
            check(ctx, [bare(x) for x in got] == [bare(x) for x in exp], rule, where, f"its arguments are encoded as {' '.join(got)} instead of {' '.join(exp)}")
        d = direction(ctx, f, kw.get("direction"))
        if responds(n) or n == "Default_Response":
            check(ctx, d in (None, 1), rule, where, "a response is declared to travel as a request")
        else:
            check(ctx, d in (None, 0), rule, where, "a request is declared to travel as a response")
        if n.endswith("_rsp"):
            check(ctx, n[:-4] in rows, rule, where, "the response has no request")


def data_types(ctx):
    rule = "data-types"
    f = ctx.p.modules["zigpy.zcl.foundation"]
    enum = ctx.p.cls(F + "DataTypeId")
    ids = {n: const(ctx, f, v) for n, v in enum.attrs.items()}
    table = datatypes(ctx)
    rows = {tid.split(".")[-1]: (name, cls, dc, nv) for name, (tid, cls, dc, nv) in table.items()}
    check(ctx, len(rows) == len(table), rule, F + "DataType", "a type identifier appears twice in the table: the first entry can never be looked up")
    by = Counter(cls for _, cls, _, _ in rows.values())
    for cls, k in by.items():
        check(ctx, k == 1, rule, F + "DataType", f"{cls} stands for {k} data types: values of it are sent under only one of them")
    check(ctx, len(set(ids.values())) == len(ids), rule, enum.qual, "two data types share an identifier")
    for n, (num, sig, klass) in SPEC["datatypes"].items():
        check(ctx, ids.get(n) == num, rule, enum.qual, f"{n} has identifier {ids.get(n)!r} instead of {num:#04x}")
        check(ctx, n in rows, rule, F + "DataType", f"{n} is not in the data-type table: values of that type cannot be decoded")
        if n not in rows:
            continue
        name, cls, dc, nv = rows[n]
        where = f"{F}DataType.{name}"
        w = wire_class(ctx, cls)
        check(ctx, brief(w) == sig, rule, where, f"its values are encoded as {brief(w)} instead of {sig}")
        check(ctx, dc.split(".")[-1] == klass, rule, where, f"it is classified as {dc.split('.')[-1]} instead of {klass}: reporting thresholds are decoded differently")
        nonvalue(ctx, rule, where, f, cls, w, nv)


def allones(ctx, mod, e, w, cls):
    """Does the expression build the type's non-value?  None: not understood."""
    if isinstance(e, ast.Constant) and e.value is None:
        return "none"
    if not isinstance(e, ast.Call):
        return None
    args = [*e.args, *(k.value for k in e.keywords)]
    if isinstance(e.func, ast.Attribute) and e.func.attr == "convert" and len(args) == 1:
        s = const(ctx, mod, args[0])
        return isinstance(s, str) and w[0] == "fixed" and s.upper().replace(":", "") == "FF" * w[2]
    f = resolve(ctx, mod, None, e.func)
    if f not in ctx.p.classes:
        return None
    vals = [const(ctx, mod, x) for x in args]
    if None in vals:
        return None
    i = int_info(ctx, f)
    if i is not None and len(vals) == 1:
        bits, signed = i[0], i[1]
        return f == cls and vals[0] == (-(1 << (bits - 1)) if signed else (1 << bits) - 1)
    if w[0] == "struct":
        fl = struct_fields(ctx, ctx.p.classes[f])
        return f == cls and len(vals) == len(fl) and all(v == (1 << x[1][1]) - 1 for v, x in zip(vals, fl) if x[1][0] == "int")
    return None


NONVALUE = ("uint", "int", "enum", "bool_", "ToD", "date", "UTC", "clusterId", "attribId", "bacOID", "EUI64", "key128")


def nonvalue(ctx, rule, where, mod, cls, w, nv):
    r = allones(ctx, mod, nv, w, cls)
    if r is None:
        return
    n = where.rsplit(".", 1)[1]
    if n.startswith(NONVALUE):
        check(ctx, r is True, rule, where, "its non-value is not the one the standard reserves (all ones, or the lowest value of a signed type)")
    else:
        check(ctx, r == "none", rule, where, "the standard reserves no non-value for this type")


def index(ctx):
    """Lookups in the data-type table go by identifier and by the most specific Python type."""
    rule = "data-type-lookup"
    for meth, field, arg in (("_data_type_index", "type_id", None), ("_python_type_index", "python_type", None)):
        q = f"{F}DataType.{meth}"
        if q not in ctx.p.funcs:
            continue
        for n in ast.walk(ctx.p.funcs[q].node):
            if isinstance(n, ast.DictComp):
                k = n.key
                check(ctx, isinstance(k, ast.Attribute) and k.attr == field or not isinstance(k, ast.Attribute), rule, q, f"the table is indexed by {ast.unparse(k)} instead of {field}")
                g = n.generators[0]
                v = n.value
                check(ctx, not isinstance(v, ast.Attribute) and not g.ifs, rule, q, "the index does not hold every entry of the table")


def zdo_table(ctx):
    rule = "zdo-commands"
    m = ctx.p.modules[ZT]
    enum = ctx.p.cls(ZT + ".ZDOCmd")
    ids = {n: const(ctx, m, v) for n, v in enum.attrs.items()}
    inv = Counter(ids.values())
    for n, i in ids.items():
        check(ctx, inv[i] == 1, rule, enum.qual, f"{n} shares its identifier with another command")
        check(ctx, number(i, 16), rule, enum.qual, f"{n} is not a 16-bit number")
        if isinstance(i, int) and re.search(r"_(rsp|conf)$", n):
            check(ctx, i & 0x8000, rule, enum.qual, f"{n} is a response, but its identifier has the request form")
        elif isinstance(i, int):
            check(ctx, not i & 0x8000, rule, enum.qual, f"{n} is a request, but its identifier has the response form")
        r = {x.lower(): x for x in ids}.get(n.lower()[:-4] + "_rsp") if n.endswith("_req") else None
        if r is not None and isinstance(i, int):
            check(ctx, ids[r] == i | 0x8000, rule, enum.qual, f"{n} and {r} do not pair up")
        if n.endswith("_rsp"):
            low = {x.lower() for x in ids}
            b = n.lower()[:-4]
            check(ctx, {b, b + "_req"} & low or b == "power_desc_store", rule, enum.qual, f"{n} has no request")
    rows = zdo_rows(ctx)
    if rows is None:
        return
    for n, (num, exp) in SPEC["zdo"].items():
        check(ctx, ids.get(n) == num, rule, enum.qual, f"{n} has identifier {ids.get(n)!r} instead of {num:#06x}")
        check(ctx, n in rows, rule, ZT + ".CLUSTERS", f"{n} has no definition: it can neither be sent nor decoded")
        if n not in rows or rows[n] is None:
            continue
        where = f"{ZT}.CLUSTERS[{n}]"
        well_formed(ctx, rule, where, [(f, w, False) for f, w in rows[n]])
        got = [brief(w) for _, w in rows[n]]
        check(ctx, [bare(x) for x in got] == [bare(x) for x in exp] and all(g.endswith("?") for g, x in zip(got, exp) if x.endswith("?")), rule, where, f"its fields are encoded as {' '.join(got)} instead of {' '.join(exp)}")


def zdo_rows(ctx):
    """{command: [(field, wire)]}"""
    m = ctx.p.modules[ZT]
    d = m.assigns.get("CLUSTERS")
    if not isinstance(d, ast.Dict):
        return None
    enum = ctx.p.cls(ZT + ".ZDOCmd")
    ids = {const(ctx, m, v): n for n, v in enum.attrs.items()}
    rows = {}
    for k, v in zip(d.keys, d.values):
        name = ids.get(const(ctx, m, k)) if k is not None else None
        if name is None:
            continue
        row = []
        for e in v.elts if isinstance(v, (ast.Tuple, ast.List)) else ():
            if isinstance(e, ast.Name) and e.id in m.assigns:
                e = m.assigns[e.id]
            if not isinstance(e, (ast.Tuple, ast.List)) or len(e.elts) != 2:
                row = None
                break
            row.append((const(ctx, m, e.elts[0]) or "?", wire(ctx, m, None, e.elts[1])))
        rows[name] = row
    return rows


OPTS = {"timeout", "expect_reply", "use_ieee", "ask_for_ack", "priority", "tsn"}


def zdo_calls(ctx):
    """What is sent and what is unpacked has the number of fields the definition has."""
    rule = "zdo-call-sites"
    rows = zdo_rows(ctx)
    if not rows:
        return
    names = {n.lower(): n for n in rows}
    for q, fn in ctx.p.funcs.items():
        if fn.module.name == ZT or fn.module.name.startswith("zigpy.zcl"):
            continue
        awaited = {}
        for n in ast.walk(fn.node):
            if not isinstance(n, ast.Call):
                continue
            cmd, args = None, n.args
            if isinstance(n.func, ast.Attribute) and n.func.attr in rows:
                cmd = n.func.attr
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("request", "reply") or isinstance(n.func, (ast.Attribute, ast.Name)) and (ctx.p.resolve_expr(fn.module, n.func, fn.cls) or "").endswith("zdo.broadcast"):
                at = 1 if not (isinstance(n.func, ast.Attribute) and n.func.attr in ("request", "reply")) else 0
                if len(n.args) > at:
                    r = ctx.p.resolve_expr(fn.module, n.args[at], fn.cls) or ""
                    if r.startswith(ZT + ".ZDOCmd."):
                        cmd = r.split(".")[-1]
                        # broadcast(app, command, group, radius, *args)
                        args = n.args[at + (3 if at else 1):]
            if cmd is None or rows.get(cmd) is None or any(isinstance(a, ast.Starred) for a in args):
                continue
            must = sum(1 for _, w in rows[cmd] if w and w[0] != "optional")
            named = isinstance(n.func, ast.Attribute) and n.func.attr in rows
            check(ctx, must <= len(args) <= len(rows[cmd]), rule, q, f"{cmd} is sent with {len(args)} fields but is defined with {must}..{len(rows[cmd])}", n.lineno)
            if named:
                for k in n.keywords:
                    check(ctx, k.arg is None or k.arg in OPTS, rule, q, f"{cmd} is sent with the keyword {k.arg}, which the serializer refuses", n.lineno)
            awaited[id(n)] = cmd
        rsp = lambda cmd: names.get(cmd.lower()[:-4] + "_rsp") if cmd.endswith("_req") else None  # noqa: E731
        holds = {}
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Await):
                c = next((awaited[id(x)] for x in ast.walk(n.value) if id(x) in awaited), None)
                if c and rsp(c) and rows.get(rsp(c)) is not None and id(n.value.value) in awaited:
                    k = len(rows[rsp(c)])
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            holds[t.id] = None if t.id in holds else (c, k)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            star = any(isinstance(e, ast.Starred) for e in t.elts)
                            check(ctx, len(t.elts) == k if not star else len(t.elts) - 1 <= k, rule, q, f"the answer to {c} has {k} fields but {len(t.elts)} are unpacked", n.lineno)
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and holds.get(n.value.id):
                c, k = holds[n.value.id]
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
                        check(ctx, len(t.elts) == k, rule, q, f"the answer to {c} has {k} fields but {len(t.elts)} are unpacked", n.lineno)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and holds.get(n.value.id) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                c, k = holds[n.value.id]
                check(ctx, -k <= n.slice.value < k, rule, q, f"the answer to {c} has {k} fields but index {n.slice.value} is used", n.lineno)


def zdo_handlers(ctx):
    rule = "zdo-handlers"
    rows = zdo_rows(ctx)
    z = ctx.p.cls("zigpy.zdo.ZDO")
    if not rows:
        return
    names = {n.lower(): n for n in rows}
    for m, fn in z.methods.items():
        if not m.startswith("handle_") or m == "handle_message":
            continue
        n = names.get(m[7:])
        check(ctx, n is not None, rule, fn.qual, "no management command is dispatched to this handler")
        if n is None or rows[n] is None:
            continue
        a = fn.node.args
        pos = [*a.posonlyargs, *a.args][2:]
        named = [x.arg for x in pos]
        if "dst_addressing" in named:
            pos = [x for x in pos if x.arg != "dst_addressing"]
            nd = max(0, len(a.defaults) - 1)
        else:
            nd = len(a.defaults)
        ok = any(x.arg == "dst_addressing" for x in [*a.args, *a.kwonlyargs]) or a.kwarg is not None
        check(ctx, ok, rule, fn.qual, "the handler does not accept the addressing mode every message is dispatched with")
        must = sum(1 for _, w in rows[n] if w and w[0] != "optional")
        check(ctx, len(pos) - nd <= must and (a.vararg is not None or len(pos) >= len(rows[n])), rule, fn.qual, f"{n} has {len(rows[n])} fields but the handler takes {len(pos)}")


IDS = (
    (r"(^|_)(?<!power_)profile_?id$", ("u16",)),
    (r"(^|_)cluster_?id$", ("u16",)),
    (r"(^|_)cluster_?list$", ("u8*[u16]", "[u16]")),
    (r"(^|_)(nwk|network|short)_?addr(ess)?(of_interest)?$", ("u16",)),
    (r"(^|_)ieee(_?addr(ess)?)?$", ("8*u8",)),
    (r"(^|_)(?<!total_)group_?id$", ("u16",)),
    (r"(^|_)endpoint(_?id)?$", ("u8",)),
    (r"(^|_)attr(ibute)?_?id$", ("u16",)),
    (r"(^|_)manufacturer_?code$", ("u16",)),
    (r"(^|_)device_id$", ("u16",)),
)


def identifiers(ctx):
    """Identifiers have the width the standard gives them wherever they appear."""
    rule = "identifier-widths"

    def width(where, n, w):
        s = re.sub(r"(?<=[a-z])(?=[A-Z])", "_", n).lower()
        s = s.replace("nwkaddr", "nwk_addr")
        for pat, sigs in IDS:
            if w is not None and re.search(pat, s):
                check(ctx, bare(brief(w)) in sigs, rule, where, f"{n} is {brief(w)} on the wire, not {sigs[0]}: what follows it is decoded from the wrong offset")

    for c in subclasses(ctx, STRUCT):
        for n, w, *_ in struct_fields(ctx, c):
            width(c.qual, n, w)
    for c, *_ in clusters(ctx):
        for kind, _ in KINDS:
            for n, a, mod, o in definitions(ctx, c, kind):
                for x, w, _ in (arguments(ctx, mod, o, a["schema"]) or ()) if "schema" in a else ():
                    width(f"{c.qual}.{kind}.{n}", x, w)
    for n, row in (zdo_rows(ctx) or {}).items():
        for x, w in row or ():
            width(f"{ZT}.CLUSTERS[{n}]", x, w)


def bits(ctx, w):
    return w[1] if w is not None and w[0] == "int" and w[1] % 8 else None


def structs(ctx):
    """Structs can be decoded in one pass and have the standard's layout."""
    rule = "structs"
    for c in subclasses(ctx, STRUCT):
        fields = struct_fields(ctx, c)
        run = 0
        names = [f[0] for f in fields]
        for i, (n, w, req, opt, k) in enumerate(fields):
            b = bits(ctx, w)
            if b:
                run += b
                check(ctx, req is None and opt is None, rule, c.qual, f"the bit field {n} may be missing, which would shift its neighbours")
            else:
                check(ctx, run % 8 == 0, rule, c.qual, f"the bit fields before {n} do not fill whole bytes")
                run = 0
            if i + 1 < len(fields):
                check(ctx, not swallows(ctx, w), rule, c.qual, f"{n} consumes everything that follows, but {fields[i + 1][0]} follows it")
            if isinstance(req, ast.Lambda) and req.args.args:
                v = req.args.args[0].arg
                for x in ast.walk(req.body):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == v and x.attr in names:
                        check(ctx, names.index(x.attr) < i, rule, c.qual, f"whether {n} is present depends on {x.attr}, which is decoded later")
        check(ctx, run % 8 == 0, rule, c.qual, "the trailing bit fields do not fill whole bytes")
        want = SPEC["structs"].get(c.qual)
        if want is None:
            continue
        got = [(n, brief(w)) for n, w, *_ in fields]
        check(ctx, [g[0] for g in got] == [w[0] for w in want], rule, c.qual, f"its fields are {', '.join(g[0] for g in got)} instead of {', '.join(w[0] for w in want)}")
        for (n, g), (m, x) in zip(got, want):
            check(ctx, n != m or bare(g) == bare(x), rule, c.qual, f"{n} is encoded as {g} instead of {x}")
    for q in SPEC["structs"]:
        check(ctx, q in ctx.p.classes, rule, q, "the structure is not defined")


Z, G, FO = "zigpy.zdo.types.", "zigpy.zcl.clusters.general.", F
PRESENT = (
    (Z + "MultiAddress", "nwk", [({"addrmode": 1}, True), ({"addrmode": 3}, False)]),
    (Z + "MultiAddress", "ieee", [({"addrmode": 1}, False), ({"addrmode": 3}, True)]),
    (Z + "MultiAddress", "endpoint", [({"addrmode": 1}, False), ({"addrmode": 3}, True)]),
    (Z + "NwkUpdate", "ScanCount", [({"ScanDuration": d}, d <= 5) for d in (0, 1, 4, 5, 6, 0x80, 0xFD, 0xFE, 0xFF)]),
    (Z + "NwkUpdate", "nwkUpdateId", [({"ScanDuration": d}, d >= 0xFE) for d in (0, 5, 6, 0xFD, 0xFE, 0xFF)]),
    (Z + "NwkUpdate", "nwkManagerAddr", [({"ScanDuration": d}, d == 0xFF) for d in (0, 5, 6, 0xFD, 0xFE, 0xFF)]),
    (G + "ImageNotifyCommand", "manufacturer_code", [({"payload_type": v}, v >= 1) for v in range(4)]),
    (G + "ImageNotifyCommand", "image_type", [({"payload_type": v}, v >= 2) for v in range(4)]),
    (G + "ImageNotifyCommand", "new_file_version", [({"payload_type": v}, v >= 3) for v in range(4)]),
    (G + "QueryNextImageCommand", "hardware_version", [({"field_control": v}, bool(v & 1)) for v in range(4)]),
    (G + "ImageBlockCommand", "request_node_addr", [({"field_control": v}, bool(v & 1)) for v in range(4)]),
    (G + "ImageBlockCommand", "minimum_block_period", [({"field_control": v}, bool(v & 2)) for v in range(4)]),
    (G + "ImagePageCommand", "request_node_addr", [({"field_control": v}, bool(v & 1)) for v in range(4)]),
    *((G + "ImageBlockResponseCommand", f, [({"status": s}, s == 0) for s in (0, 0x95, 0x97, 1)]) for f in ("manufacturer_code", "image_type", "file_version", "file_offset", "image_data")),
    *((G + "ImageBlockResponseCommand", f, [({"status": s}, s == 0x97) for s in (0, 0x95, 0x97, 1)]) for f in ("current_time", "request_time", "minimum_block_period")),
    (FO + "WriteAttributesStatusRecord", "attrid", [({"status": s}, s != 0) for s in (0, 1, 0x86, 0x8D)]),
    ("zigpy.ota.image.OTAImageHeader", "security_credential_version", [({"field_control": v}, bool(v & 1)) for v in range(8)]),
    ("zigpy.ota.image.OTAImageHeader", "upgrade_file_destination", [({"field_control": v}, bool(v & 2)) for v in range(8)]),
    ("zigpy.ota.image.OTAImageHeader", "minimum_hardware_version", [({"field_control": v}, bool(v & 4)) for v in range(8)]),
    ("zigpy.ota.image.OTAImageHeader", "maximum_hardware_version", [({"field_control": v}, bool(v & 4)) for v in range(8)]),
)


class Unreadable(Exception):
    pass


def evaluate(ctx, e, env, cls, mod, var, depth=0):
    """Abstract value of a presence condition when the fields it reads have the given values."""
    ev = lambda x: evaluate(ctx, x, env, cls, mod, var, depth)  # noqa: E731
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == var:
        if e.attr in env:
            return env[e.attr]
        k, v = ctx.p.find_attr(cls, e.attr)
        m = ctx.p.find_method(cls, e.attr)
        if m is not None and depth < 3:
            body = [s for s in m.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if len(body) == 1 and isinstance(body[0], ast.Return):
                return evaluate(ctx, body[0].value, env, m.cls, m.module, m.node.args.args[0].arg, depth + 1)
        if v is not None:
            c = const(ctx, k.module, v)
            if c is not None:
                return c
        raise Unreadable
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("bool", "int") and len(e.args) == 1:
        return {"bool": bool, "int": int}[e.func.id](ev(e.args[0]))
    if isinstance(e, ast.BoolOp):
        r = None
        for x in e.values:
            r = ev(x)
            if bool(r) is (isinstance(e.op, ast.Or)):
                return r
        return r
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not ev(e.operand)
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return [ev(x) for x in e.elts]
    if isinstance(e, ast.BinOp):
        ops = {ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.RShift: lambda a, b: a >> b, ast.LShift: lambda a, b: a << b, ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b}
        if type(e.op) in ops:
            return ops[type(e.op)](ev(e.left), ev(e.right))
    if isinstance(e, ast.Compare):
        ops = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b, ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b, ast.Is: lambda a, b: a == b, ast.IsNot: lambda a, b: a != b}
        left = ev(e.left)
        for o, r in zip(e.ops, e.comparators):
            right = ev(r)
            if type(o) not in ops:
                raise Unreadable
            if not ops[type(o)](left, right):
                return False
            left = right
        return True
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Attribute) and isinstance(e.value.value, ast.Name) and e.value.value.id == var:
        # an enumeration nested in the class
        r = resolve(ctx, cls.module, cls, ast.Name(e.value.attr, ast.Load()))
        c = cls.inner.get(e.value.attr) or ctx.p.classes.get(r)
        if c is not None and e.attr in c.attrs:
            v = const(ctx, c.module, c.attrs[e.attr])
            if v is not None:
                return v
    v = const(ctx, mod, e)
    if v is None:
        r = resolve(ctx, mod, cls, e) or ""
        m, _, n = r.rpartition(".")
        if m in ctx.p.classes and n in ctx.p.classes[m].attrs:
            v = const(ctx, ctx.p.classes[m].module, ctx.p.classes[m].attrs[n])
    if v is None:
        raise Unreadable
    return v


def presence(ctx):
    """Conditional fields are present exactly when the standard says so."""
    rule = "conditional-fields"
    for q, field, cases in PRESENT:
        if q not in ctx.p.classes:
            continue
        c = ctx.p.classes[q]
        row = next((f for f in struct_fields(ctx, c) if f[0] == field), None)
        if row is None:
            continue
        _, _, req, _, k = row
        check(ctx, req is not None, rule, q, f"{field} is always present")
        if req is None:
            continue
        if isinstance(req, ast.Lambda) and len(req.args.args) == 1:
            body, var, mod = req.body, req.args.args[0].arg, k.module
        else:
            r = resolve(ctx, k.module, k, req)
            f = ctx.p.funcs.get(r)
            ret = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] if f else []
            if len(ret) != 1 or not isinstance(ret[0], ast.Return):
                continue
            body, var, mod = ret[0].value, f.node.args.args[0].arg, f.module
        for env, want in cases:
            try:
                got = evaluate(ctx, body, env, c, mod, var)
            except (Unreadable, TypeError):
                continue
            check(ctx, bool(got) is want, rule, q, f"{field} is {'present' if got else 'missing'} when {', '.join(f'{a} is {b:#x}' for a, b in env.items())}")


def enumerations(ctx):
    """Enumeration members are distinct, fit their type and have the value the standard gives them."""
    rule = "enumerations"
    for q, c in ctx.p.classes.items():
        i = int_info(ctx, q)
        if i is None:
            continue
        vals = {m: const(ctx, c.module, e) for m, e in c.attrs.items() if not m.startswith("_")}
        vals = {m: v for m, v in vals.items() if isinstance(v, int)}
        names = ctx.p.base_names(c)
        enum = any(b.startswith(B) and re.search(r"(enum|bitmap)\d", b) for b in names) or any("Enum" in b.split(".")[-1] or b.split(".")[-1] in ("Flag", "IntFlag") for b in names)
        if enum:
            by = {}
            for m, v in vals.items():
                check(ctx, v not in by, rule, q, f"{m} has the same value as {by.get(v)}: it is decoded as the other")
                by.setdefault(v, m)
                lo, hi = (-(1 << (i[0] - 1)), 1 << (i[0] - 1)) if i[1] else (0, 1 << i[0])
                check(ctx, lo <= v < hi, rule, q, f"{m} does not fit into {i[0]} bits")
        if q in SPEC["enums"]:
            sig, want = SPEC["enums"][q]
            check(ctx, brief(wire_class(ctx, q)) == sig, rule, q, f"its values take {brief(wire_class(ctx, q))} on the wire instead of {sig}")
            for m, v in want.items():
                check(ctx, vals.get(m) == v, rule, q, f"{m} is {vals.get(m)!r} instead of {v:#x}")
    for q, c in ctx.p.classes.items():
        if not any(b.split(".")[-1] in ("Flag", "IntFlag") for b in ctx.p.base_names(c)) or int_info(ctx, q) is not None:
            continue
        seen = 0
        for m, e in c.attrs.items():
            v = const(ctx, c.module, e)
            if m.startswith("_") or not isinstance(v, int) or not v:
                continue
            check(ctx, not v & seen, rule, q, f"the flag {m} overlaps another flag")
            seen |= v
    for c in subclasses(ctx, STRUCT):
        i = int_info(ctx, c.qual)
        w = [f[1] for f in struct_fields(ctx, c)]
        if i is not None and w and all(x is not None and x[0] == "int" for x in w):
            check(ctx, sum(x[1] for x in w) == i[0], rule, c.qual, f"its fields take {sum(x[1] for x in w)} bits but it is an integer of {i[0]} bits")


ZCLOPTS = {"manufacturer", "expect_reply", "timeout", "tries", "tsn", "disable_default_response", "ask_for_ack", "priority", "direction", "use_ieee"}


def zcl_calls(ctx):
    """Commands the library sends itself carry the arguments their definitions declare."""
    rule = "zcl-call-sites"
    defs = {}
    for c, i, ep, r in clusters(ctx):
        for kind, side in KINDS:
            for n, a, mod, o in definitions(ctx, c, kind):
                args = arguments(ctx, mod, o, a["schema"]) if "schema" in a else None
                if args is not None:
                    defs.setdefault((c.qual, n), args)
                    if isinstance(ep, str):
                        defs.setdefault((ep, n), args)
    methods = {m for c in ctx.p.classes.values() for m in c.methods}
    count = Counter(n for (q, n) in defs if "." in q)
    only = {n: a for (q, n), a in defs.items() if count[n] == 1 and n not in methods and "_" in n and "." in q}
    for q, fn in ctx.p.funcs.items():
        for n in ast.walk(fn.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                continue
            name, b = n.func.attr, n.func.value
            args = only.get(name)
            if args is None and isinstance(b, ast.Attribute):
                args = defs.get((b.attr, name))
            if args is None and isinstance(b, ast.Name) and b.id == "self" and fn.cls is not None and name not in {m for k in ctx.p.mro(fn.cls) for m in k.methods}:
                args = next((defs[k.qual, name] for k in ctx.p.mro(fn.cls) if (k.qual, name) in defs), None)
            if args is None or any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
                continue
            names = [x[0] for x in args]
            given = names[:len(n.args)] + [k.arg for k in n.keywords if k.arg in names]
            check(ctx, len(n.args) <= len(names), rule, q, f"{name} is sent with {len(n.args)} arguments but takes {len(names)}", n.lineno)
            for k in n.keywords:
                check(ctx, k.arg in names or k.arg in ZCLOPTS, rule, q, f"{name} has no argument {k.arg}", n.lineno)
            for x, w, opt in args:
                check(ctx, opt or x in given, rule, q, f"{name} is sent without its argument {x}", n.lineno)


RULES = [unique_clusters, attributes, commands, core_clusters, general_commands, data_types, index, zdo_table, zdo_calls, zdo_handlers, identifiers, structs, presence, enumerations, zcl_calls]
