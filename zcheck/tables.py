"""Protocol definition tables read off the class bodies of the tree."""
import ast

from .codec import int_info
from .core import UNK

B = "zigpy.types.basic."
F = "zigpy.zcl.foundation."
CLUSTER = "zigpy.zcl.Cluster"


def resolve(ctx, mod, cls, e):
    p = ctx.p
    r = p.resolve_expr(mod, e, cls)
    seen = set()
    while r is not None and r not in p.classes and r not in seen:
        seen.add(r)
        m, _, n = r.rpartition(".")
        if m in p.modules and n in p.modules[m].assigns and isinstance(p.modules[m].assigns[n], (ast.Name, ast.Attribute)):
            r = p.resolve_expr(p.modules[m], p.modules[m].assigns[n], None)
        elif m in p.classes:
            k, v = p.find_attr(p.classes[m], n)
            if v is not None and isinstance(v, (ast.Name, ast.Attribute)):
                r = p.resolve_expr(k.module, v, k)
            else:
                break
        else:
            break
    return r


def wire(ctx, mod, cls, e):
    """Signature of a wire type expression: ("int", bits, signed, order), ("list", item), ("lvlist", item, length), ("fixed", item, n),
    ("optional", type), ("struct", class), ("class", name); None when it cannot be read."""
    p = ctx.p
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        try:
            e = ast.parse(e.value, mode="eval").body
        except SyntaxError:
            return None
    if isinstance(e, ast.Subscript):
        base = resolve(ctx, mod, cls, e.value)
        args = list(e.slice.elts) if isinstance(e.slice, ast.Tuple) else [e.slice]
        ws = [wire(ctx, mod, cls, a) for a in args]
        if base == B + "LVList":
            return ("lvlist", ws[0], ws[1] if len(ws) > 1 else ("int", 8, False, "little"))
        if base == B + "List":
            return ("list", ws[0])
        if base == B + "FixedList":
            n = ctx.kit.consteval(mod, args[1]) if len(args) > 1 else UNK
            return ("fixed", ws[0], n if isinstance(n, int) else None)
        return None
    if isinstance(e, ast.Call):
        f = resolve(ctx, mod, cls, e.func)
        if f == B + "Optional" and len(e.args) == 1:
            return ("optional", wire(ctx, mod, cls, e.args[0]))
        if f == B + "LimitedLVBytes":
            return ("class", B + "LVBytes")
        if f == B + "LimitedCharString":
            return ("class", B + "CharacterString")
        return None
    r = resolve(ctx, mod, cls, e)
    return wire_class(ctx, r)


def wire_class(ctx, r):
    p = ctx.p
    if r not in p.classes:
        return None
    i = int_info(ctx, r)
    c = p.classes[r]
    names = p.base_names(c)
    if i is not None and "zigpy.types.struct.Struct" not in names:
        return ("int", *i)
    for k in p.mro(c):
        kw = {x.arg: x.value for x in k.node.keywords}
        if "item_type" in kw or "length" in kw:
            n = ctx.kit.consteval(k.module, kw["length"]) if "length" in kw else None
            item = wire(ctx, k.module, k, kw["item_type"]) if "item_type" in kw else None
            if B + "FixedList" in names:
                return ("fixed", item, n)
            if B + "LVList" in names:
                return ("lvlist", item, wire(ctx, k.module, k, kw["length_type"]) if "length_type" in kw else ("int", 8, False, "little"))
            if B + "List" in names:
                return ("list", item)
        for b in k.node.bases:
            if isinstance(b, ast.Subscript):
                return wire(ctx, k.module, k, b)
    if "zigpy.types.struct.Struct" in names:
        return ("struct", r)
    known = {B + n for n in ("LVBytes", "LongOctetString", "CharacterString", "LongCharacterString", "Half", "Single", "Double")}
    for k in p.mro(c):
        if k.qual in known:
            return ("class", k.qual)
    if p.find_method(c, "deserialize") is not None:
        return ("class", r)
    return None


def brief(w):
    if w is None:
        return "?"
    if w[0] == "int":
        return f"{'s' if w[2] else 'u'}{w[1]}" + ("" if w[3] == "little" else "be")
    if w[0] == "list":
        return f"[{brief(w[1])}]"
    if w[0] == "lvlist":
        return f"{brief(w[2])}*[{brief(w[1])}]"
    if w[0] == "fixed":
        return f"{w[2]}*{brief(w[1])}"
    if w[0] == "optional":
        return brief(w[1]) + "?"
    return w[1].split(".")[-1]


def subclasses(ctx, base):
    return [c for q, c in ctx.p.classes.items() if q != base and base in ctx.p.base_names(c)]


def struct_fields(ctx, c):
    """[(name, wire, requires AST, optional AST, module, class)] of a struct in wire order; None when it cannot be read."""
    out = []
    seen = {}
    for k in reversed(ctx.p.mro(c)):
        if k.qual == "zigpy.types.struct.Struct" or "zigpy.types.struct.Struct" not in ctx.p.base_names(k):
            continue
        for n in k.order:
            if n not in k.annots:
                continue
            v = k.attrs.get(n)
            req = opt = typ = None
            if v is not None:
                if not (isinstance(v, ast.Call) and (resolve(ctx, k.module, k, v.func) or "").endswith(".StructField")):
                    continue  # a plain class attribute
                kw = {x.arg: x.value for x in v.keywords}
                req, opt, typ = kw.get("requires"), kw.get("optional"), kw.get("type") or kw.get("dynamic_type")
            a = k.annots[n]
            if isinstance(a, ast.Subscript) and (resolve(ctx, k.module, k, a.value) or "").endswith("ClassVar"):
                continue
            if isinstance(a, ast.Constant) and a.value is None and typ is not None:
                a = typ
            seen[n] = (n, wire(ctx, k.module, k, a), req, opt, k)
            if n not in out:
                out.append(n)
    return [seen[n] for n in out]


def clusters(ctx):
    """Cluster classes of the standard library: [(class, id, ep_attribute, id range)]."""
    out = []
    p = ctx.p
    for c in subclasses(ctx, CLUSTER):
        if not c.module.name.startswith("zigpy.zcl.clusters"):
            continue
        k, v = p.find_attr(c, "_skip_registry")
        if v is not None and ctx.kit.consteval(k.module, v) is True:
            continue

        def const(n):
            k, v = p.find_attr(c, n)
            return None if v is None or k.qual == CLUSTER else ctx.kit.consteval(k.module, v)
        out.append((c, const("cluster_id"), const("ep_attribute"), const("cluster_id_range")))
    return out


def definitions(ctx, c, kind):
    """[(name, {argument: AST}, module and class the arguments are written in)] of AttributeDefs / ServerCommandDefs / ClientCommandDefs."""
    p = ctx.p
    d = None
    for k in p.mro(c):
        if kind in k.inner:
            d = k.inner[kind]
            break
    if d is None:
        return []
    out, seen = [], set()
    for k in p.mro(d):
        for n in k.order:
            v = k.attrs.get(n)
            if n.startswith("_") or n in seen or v is None:
                continue
            seen.add(n)
            owner, mod = k, k.module
            hops = 0
            while isinstance(v, (ast.Name, ast.Attribute)) and hops < 5:
                # an alias of another definition
                r = p.resolve_expr(mod, v, owner)
                m, _, x = (r or "").rpartition(".")
                if m in p.modules and x in p.modules[m].assigns:
                    v, owner, mod = p.modules[m].assigns[x], None, p.modules[m]
                elif m in p.classes:
                    owner, v = p.find_attr(p.classes[m], x)
                    mod = owner.module if owner else mod
                else:
                    break
                hops += 1
            if not isinstance(v, ast.Call):
                continue
            f = p.resolve_expr(mod, v.func, owner) or ""
            params = ("id", "type", "zcl_type", "access", "mandatory", "is_manufacturer_specific", "name") if f.endswith("ZCLAttributeDef") else ("id", "schema", "direction", "is_manufacturer_specific", "name") if f.endswith("ZCLCommandDef") else None
            if params is None:
                continue
            args = dict(zip(params, v.args))
            args.update({x.arg: x.value for x in v.keywords})
            out.append((n, args, mod, owner))
    return out
