"""Configuration is validated completely before use."""
import ast

from ..core import UNK, Obj, calls, describe, norm, show
from ..lib import is_const
from ..model import walk_own
from ..walk import contains, subterms

C = "zigpy.config."
V = C + "validators."
APP = "zigpy.application.ControllerApplication"
VOL = "voluptuous."
INF = float("inf")
ACK = ("I understand I can *destroy* my devices by enabling OTA updates from files."
       " Some OTA updates can be mistakenly applied to the wrong device, breaking it."
       " I am consciously using this at my own risk.")


# --- schemas as abstract sets of accepted values -------------------------------------------------------------

def name_of(ctx, m, e):
    return ctx.p.resolve_expr(m, e)


def follow(ctx, m, e, depth=0):
    """The expression a name stands for."""
    while isinstance(e, (ast.Name, ast.Attribute)) and depth < 8:
        r = name_of(ctx, m, e)
        if not r:
            return m, e
        b, _, n = r.rpartition(".")
        if b in ctx.p.modules and n in ctx.p.modules[b].assigns:
            m, e = ctx.p.modules[b], ctx.p.modules[b].assigns[n]
            depth += 1
        else:
            return m, e
    return m, e


def alt(kind, lo=None, hi=None, **more):
    return dict(kind=kind, lo=lo, hi=hi, **more)


TYPES = {"str": "str", "int": "int", "float": "float", "bool": "bool", "list": "list", "dict": "dict"}


def fn_dom(ctx, f):
    """What a validator function can return."""
    ps = ctx.paths(f, noinline=("cv_ota_provider_name",))
    prm = ("param", f.params[-1]) if f.params else None
    out = []
    for p in ps:
        if not p.normal or p.ret is None:
            continue
        r = norm(p.ret)
        if r == prm or r[0] == "param" and r[:2] == prm:
            ks = [at for _, at, v in p.trail if v and norm(at)[0] == "isinstance" and norm(at)[1] == prm]
            k = kind_of(norm(ks[-1])[2]) if ks else None
            if k is None:
                return UNK
            out.append(alt(k))
        elif r[0] == "const":
            out.append(alt("none") if r[1] is None else alt(type(r[1]).__name__))
        elif r[0] == "call" and r[1][0] == "glob":
            g = r[1][1]
            g = g.removeprefix("builtins.")
            if g in TYPES:
                out.append(alt(TYPES[g]))
            elif g in ctx.p.classes or g.startswith("pathlib."):
                out.append(alt("cls", cls=g))
            else:
                return UNK
        elif r[0] == "call" and r[1][0] == "attr" and r[1][1][0] == "glob" and r[1][1][1] in ctx.p.classes:
            out.append(alt("cls", cls=r[1][1][1]))
        else:
            return UNK
    return out or UNK


def kind_of(t):
    """Kind named by the second argument of isinstance."""
    for x in subterms(t) if isinstance(t, tuple) else ():
        if x[0] == "glob":
            g = x[1].removeprefix("builtins.")
            if g in TYPES:
                return TYPES[g]
    return None


def dom(ctx, m, e, inp=None):
    """Values an expression of the schema language lets through (after conversion), as a list of alternatives."""
    m, e = follow(ctx, m, e)
    if isinstance(e, ast.Constant):
        return [alt("none")] if e.value is None else [alt("const", value=e.value)]
    if isinstance(e, ast.List):
        if len(e.elts) == 1:
            return [alt("list", item=dom(ctx, m, e.elts[0]))]
        return [alt("list", item=UNK)]
    if isinstance(e, ast.Dict):
        return [alt("dict", schema=(m, e))]
    if isinstance(e, (ast.Name, ast.Attribute)):
        r = name_of(ctx, m, e)
        if r is None:
            return UNK
        r = r.removeprefix("builtins.")
        if r in TYPES:
            return [alt(TYPES[r])]
        if r in ctx.p.classes:
            return [alt("cls", cls=r)]
        f = ctx.p.funcs.get(r)
        if f is None and r.rpartition(".")[0] in ctx.p.classes:
            f = ctx.p.find_method(ctx.p.classes[r.rpartition(".")[0]], r.rpartition(".")[2])
            if f is not None and f.node.decorator_list:
                return [alt("cls", cls=r.rpartition(".")[0])]
        return fn_dom(ctx, f) if f is not None else UNK
    if isinstance(e, ast.Call):
        r = name_of(ctx, m, e.func) or ""
        kw = {k.arg: k.value for k in e.keywords}
        if r == VOL + "Any":
            out = []
            for x in e.args:
                d = dom(ctx, m, x, inp)
                if d is UNK:
                    return UNK
                out += d
            return out
        if r == VOL + "All":
            cur = inp
            for x in e.args:
                d = dom(ctx, m, x, cur)
                cur = cur if d == "same" else d
                if cur is UNK:
                    return UNK
            return cur
        if r == VOL + "Range":
            lo = ctx.kit.consteval(m, kw["min"]) if "min" in kw else ctx.kit.consteval(m, e.args[0]) if e.args else -INF
            hi = ctx.kit.consteval(m, kw["max"]) if "max" in kw else ctx.kit.consteval(m, e.args[1]) if len(e.args) > 1 else INF
            lx = ctx.kit.consteval(m, kw["min_included"]) if "min_included" in kw else True
            hx = ctx.kit.consteval(m, kw["max_included"]) if "max_included" in kw else True
            if UNK in (lo, hi, lx, hx):
                return UNK
            lo, hi = -INF if lo is None else lo, INF if hi is None else hi
            src = inp if inp is not None else [alt("any")]
            out = []
            for a in src:
                if a["kind"] in ("int", "float", "any", "number"):
                    l, h = (lo if lx else lo + 1), (hi if hx else hi - 1)
                    if a["kind"] != "int" and not (lx and hx):
                        return UNK
                    out.append(dict(a, lo=max(l, a["lo"] if a["lo"] is not None else -INF), hi=min(h, a["hi"] if a["hi"] is not None else INF)))
            return out
        if r == VOL + "Coerce":
            t = name_of(ctx, m, e.args[0]) if e.args else None
            t = (t or "").removeprefix("builtins.")
            return [alt(TYPES[t])] if t in TYPES else [alt("cls", cls=t)] if t in ctx.p.classes else UNK
        if r == VOL + "In":
            v = ctx.kit.consteval(m, e.args[0])
            return UNK if v is UNK else [alt("none") if x is None else alt("const", value=x) for x in v]
        if r == VOL + "Equal":
            v = ctx.kit.consteval(m, e.args[0])
            return UNK if v is UNK else [alt("const", value=v)]
        if r == VOL + "Url":
            return [alt("url")]
        if r == VOL + "Schema":
            return dom(ctx, m, e.args[0])
        if r == V + "cv_deprecated":
            return "same"
        if isinstance(e.func, ast.Attribute) and e.func.attr == "extend":
            return [alt("dict", schema=(m, e))]
    return UNK


def inputs(ctx, m, e):
    """Kinds of raw values an expression of the schema language accepts (None: not known)."""
    m, e = follow(ctx, m, e)
    if isinstance(e, ast.Call):
        r = name_of(ctx, m, e.func) or ""
        n = r.rpartition(".")[2]
        if r.startswith(VOL) and n == "Any":
            out = set()
            for x in e.args:
                i = inputs(ctx, m, x)
                if i is None:
                    return None
                out |= i
            return out
        if r.startswith(VOL) and n == "All" and e.args:
            rest = list(e.args)
            while rest and isinstance(rest[0], ast.Call) and (name_of(ctx, m, rest[0].func) or "").endswith("cv_deprecated"):
                rest = rest[1:]
            return inputs(ctx, m, rest[0]) if rest else None
        if r.startswith(VOL) and n == "Coerce":
            return {"int", "float", "str"}
        return None
    if isinstance(e, ast.Constant):
        return {"none"} if e.value is None else {type(e.value).__name__}
    if isinstance(e, (ast.Name, ast.Attribute)):
        r = (name_of(ctx, m, e) or "").removeprefix("builtins.")
        if r in TYPES:
            return {TYPES[r]} | ({"bool"} if r == "int" else set())
        if r in ctx.p.classes:
            return {"cls"}
        f = ctx.p.funcs.get(r)
        if f is None or not f.params:
            return None
        out = set()
        for p in ctx.paths(f):
            if p.normal:
                out |= {kind_of(norm(at)[2]) for _, at, v in p.trail if v and norm(at)[0] == "isinstance" and norm(at)[1] == ("param", f.params[-1])}
        return out or None
    return None


HEX = ("channel", "key_sequence_number", "pan_id", "update_id", "backup_period")


def keys(ctx, m, e, out=None):
    """Key -> (marker, default expression or None, validator) of a schema, extended schemas included."""
    out = {} if out is None else out
    m, e = follow(ctx, m, e)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr == "extend":
            keys(ctx, m, e.func.value, out)
            if e.args:
                keys(ctx, m, e.args[0], out)
            return out
        if e.args:
            return keys(ctx, m, e.args[0], out)
        return out
    if isinstance(e, ast.Dict):
        for k, v in zip(e.keys, e.values):
            if k is None:
                keys(ctx, m, v, out)
                continue
            mark, d, n = "Optional", None, k
            if isinstance(k, ast.Call):
                mark = (name_of(ctx, m, k.func) or "").rpartition(".")[2]
                n = k.args[0]
                d = next((x.value for x in k.keywords if x.arg == "default"), None)
            name = ctx.kit.consteval(m, n)
            if isinstance(name, str):
                out[name] = (mark, d, v, m)
    return out


def schema(ctx, name):
    mod = ctx.p.module("zigpy.config")
    return keys(ctx, mod, mod.assigns[name]), mod


def wanted(s):
    """Reads 'none|int[11,26]|cls:X' as alternatives."""
    out = []
    for x in s.split("|"):
        if "[" in x and not x.startswith("list"):
            k, _, r = x.partition("[")
            lo, hi = r.rstrip("]").split(",")
            out.append((k, float(lo) if lo else -INF, float(hi) if hi else INF))
        else:
            out.append((x, None, None))
    return set(out)


def describe_dom(d):
    out = set()
    for a in d:
        k = a["kind"]
        if k == "cls":
            k = "cls:" + a["cls"].rpartition(".")[2]
        if k == "const":
            k = "=" + str(a["value"])
        if k == "list":
            it = a.get("item", UNK)
            k = "list" if it is UNK or it is None else "list(" + "|".join(sorted(x[0] for x in describe_dom(it))) + ")"
        lo, hi = a["lo"], a["hi"]
        if a["kind"] in ("int", "float", "any") and (lo is not None or hi is not None):
            out.add((k, float(lo), float(hi)))
        else:
            out.add((k, None, None))
    return out


def text(d):
    return " or ".join(sorted(k + (f" from {lo:g} to {hi:g}" if lo is not None else "") for k, lo, hi in d))


NETWORK = {
    "channel": ("none|int[11,26]", None),
    "channels": ("cls:Channels", [11, 15, 20, 25]),
    "extended_pan_id": ("none|cls:ExtendedPanId", None),
    "key": ("none|cls:KeyData", None),
    "key_sequence_number": ("int[0,255]", 0),
    "pan_id": ("none|cls:PanId", None),
    "tc_address": ("none|cls:EUI64", None),
    "tc_link_key": ("cls:KeyData", UNK),
    "update_id": ("int[0,255]", 0),
}
DEVICE = {"path": ("str", "required"), "baudrate": ("int", 115200), "flow_control": ("none|=hardware|=software", None)}
TOP = {
    "database_path": ("none|str", None),
    "network": ("dict", "empty"),
    "ota": ("dict", "empty"),
    "topology_scan_period": ("int[20,]", 240),
    "topology_scan_enabled": ("bool", True),
    "topology_scan_skip_coordinator": ("bool", False),
    "backup_enabled": ("bool", True),
    "backup_period": ("int[1,]", 1440),
    "validate_network_settings": ("bool", False),
    "additional_endpoints": ("list(cls:SimpleDescriptor)", []),
    "max_concurrent_requests": ("int[0,]", 8),
    "source_routing": ("bool", False),
    "startup_energy_scan": ("bool", True),
    "watchdog_enabled": ("bool", True),
}
OTA = {
    "enabled": ("bool", True),
    "broadcast_enabled": ("bool", True),
    "broadcast_initial_delay": ("float[0,]", 3.9 * 60 * 60),
    "broadcast_interval": ("float[0,]", 3.9 * 60 * 60),
    "providers": ("list", UNK),
    "disable_default_providers": ("list", []),
    "extra_providers": ("list", []),
}
LEVELS = (("SCHEMA_NETWORK", NETWORK), ("SCHEMA_DEVICE", DEVICE), ("CONFIG_SCHEMA", TOP), ("SCHEMA_OTA", OTA))


def ranges(ctx):
    """The set of values every option lets through, and the value used when it is missing."""
    for sch, table in LEVELS:
        ks, mod = schema(ctx, sch)
        for k, (want, default) in table.items():
            if k not in ks:
                ctx.ob("option-validated", False, (mod, mod.assigns[sch]), f"option {k} is not validated", f"{sch}{k}")
                continue
            mark, d, v, m = ks[k]
            got = dom(ctx, m, v)
            W = (m, v)
            if got is not UNK and got != "same":
                g, w = describe_dom(got), wanted(want)
                if w == {("list", None, None)}:
                    g = {(x.partition("(")[0], a, b) for x, a, b in g}
                ctx.ob("option-range", g == w, W, f"option {k} accepts {text(g)}; {text(w)} expected", f"{sch}{k}")
            need = {"bool", "int", "str"} if want == "bool" else {"int", "str"} if k in HEX else set()
            have = inputs(ctx, m, v)
            ctx.ob("option-spelling", have is None or need <= have, W, f"option {k} can no longer be written as {' or '.join(sorted(need - (have or set())))}", f"{sch}{k}i")
            if default == "required":
                ctx.ob("option-required", mark == "Required", W, f"option {k} may be missing", f"{sch}{k}r")
                continue
            ctx.ob("option-default", mark == "Optional" and d is not None, W, f"option {k} has no default: reading it fails when it is missing", f"{sch}{k}d")
            if d is None:
                continue
            dv = ctx.kit.consteval(m, d)
            if default == "empty":
                ok = isinstance(d, ast.Dict) and not d.keys or dv is UNK and not isinstance(d, ast.Dict)
                ctx.ob("option-default", ok, W, f"a missing section {k} is not filled with the defaults of its options", f"{sch}{k}e")
                continue
            if k == "tc_link_key":
                m2, d2 = follow(ctx, m, d)
                if isinstance(d2, ast.Call) and d2.args:
                    kv = ctx.kit.consteval(m2, d2.args[0])
                    ctx.ob("option-default", kv is UNK or kv == b"ZigBeeAlliance09", W, f"the default link key is {kv!r}", "tclk")
            if default is not UNK and dv is not UNK:
                ctx.ob("option-default", dv == default and type(dv) is type(default), W, f"a missing {k} is taken as {dv!r}, {default!r} documented", f"{sch}{k}v")
            if dv is not UNK and got is not UNK and got != "same":
                ctx.ob("default-satisfies-check", member(dv, got, k), W, f"the default {dv!r} of {k} is not accepted by its own check", f"{sch}{k}m")


REQUIRED = (("CONFIG_SCHEMA", ("device",)), ("SCHEMA_OTA_PROVIDER_BASE", ("type",)), ("SCHEMA_OTA_PROVIDER_URL_REQUIRED", ("type", "url")),
            ("SCHEMA_OTA_PROVIDER_JSON_INDEX", ("type", "index_file")), ("SCHEMA_OTA_PROVIDER_FOLDER", ("type", "path", "warning")), ("SCHEMA_OTA_PROVIDER_REMOTE", ("url",)))


def required(ctx):
    """Options without which nothing can work are demanded."""
    mod = ctx.p.module("zigpy.config")
    for sch, names in REQUIRED:
        if sch not in mod.assigns:
            continue
        ks = keys(ctx, mod, mod.assigns[sch])
        for n in names:
            ctx.ob("option-required", n in ks and ks[n][0] == "Required", (mod, mod.assigns[sch]), f"{n} may be missing", f"{sch}{n}")
    # every provider type demands what it needs
    for c in ctx.p.classes.values():
        if c.module.name != "zigpy.ota.providers" or "NAME" not in c.attrs:
            continue
        k, v = ctx.p.find_attr(c, "VOL_SCHEMA")
        f = ctx.p.find_method(c, "__init__")
        if v is None or f is None:
            continue
        ks = keys(ctx, k.module, v)
        take = [x for x in f.params[1:] + list(f.kwonly) if not x.startswith("*")]
        d = f.defaults()
        inherited = any(x.startswith("**") for x in f.params)
        for n in take:
            if n not in d and n in ks:
                ctx.ob("option-required", ks[n][0] == "Required" or ks[n][1] is not None, (c, v), f"provider {c.node.name} needs {n}, which its configuration does not have to give", f"{c.qual}{n}")
            if n not in d:
                ctx.ob("option-required", n in ks, (c, v), f"provider {c.node.name} needs {n}, which its configuration cannot give", f"{c.qual}{n}k")


def member(v, d, k):
    for a in d:
        kind = a["kind"]
        if kind == "none" and v is None:
            return True
        if kind == "const" and v == a["value"]:
            return True
        if kind == "bool" and isinstance(v, bool):
            return True
        if kind in ("int", "float") and isinstance(v, (int, float)) and not isinstance(v, bool) and (kind == "float" or isinstance(v, int)):
            if (a["lo"] is None or v >= a["lo"]) and (a["hi"] is None or v <= a["hi"]):
                return True
        if kind == "str" and isinstance(v, str):
            return True
        if kind == "list" and isinstance(v, list):
            return True
        if kind == "dict" and isinstance(v, dict):
            return True
        if kind == "cls" and isinstance(v, (list, tuple)) and all(isinstance(x, int) for x in v):
            n = a["cls"].rpartition(".")[2]
            return all(11 <= x <= 26 for x in v) if n == "Channels" else len(v) == {"KeyData": 16, "EUI64": 8, "ExtendedPanId": 8}.get(n, len(v)) and all(0 <= x <= 255 for x in v)
        if kind == "cls" and isinstance(v, int) and a["cls"].endswith("PanId") and 0 <= v <= 0xFFFF:
            return True
        if kind in ("url", "any"):
            return True
    return False


# --- validators ------------------------------------------------------------------------------------------------

BAD = ("voluptuous.Invalid", "voluptuous.error.Invalid", "builtins.ValueError", "Invalid", "ValueError")


def used_validators(ctx):
    """Functions the schemas call with raw configuration values: (function, whether an earlier stage has fixed the type)."""
    mod = ctx.p.module("zigpy.config")
    seen = {}

    def visit(m, e, first=True):
        m2, e2 = follow(ctx, m, e)
        if isinstance(e2, (ast.Name, ast.Attribute)):
            r = name_of(ctx, m2, e2) or ""
            f = ctx.p.funcs.get(r)
            if f is None and r.rpartition(".")[0] in ctx.p.classes:
                f = ctx.p.find_method(ctx.p.classes[r.rpartition(".")[0]], r.rpartition(".")[2])
            if f is not None:
                seen.setdefault(f.qual, (f, e2, m2, []))[3].append(first)
            return
        if isinstance(e2, ast.Call):
            n = (name_of(ctx, m2, e2.func) or "").rpartition(".")[2]
            if n == "All":
                for i, x in enumerate(e2.args):
                    visit(m2, x, first and (i == 0 or all(isinstance(y, ast.Call) and (name_of(ctx, m2, y.func) or "").endswith("cv_deprecated") for y in e2.args[:i])))
            elif n in ("Any", "Maybe", "Schema", "Exclusive"):
                for x in e2.args:
                    visit(m2, x, first)
        elif isinstance(e2, ast.List):
            for x in e2.elts:
                visit(m2, x, True)
    for sch in [n for n in mod.assigns if "SCHEMA" in n]:
        for k, (mark, d, v, m) in keys(ctx, mod, mod.assigns[sch]).items():
            visit(m, v)
    for q, f in list(ctx.p.funcs.items()):
        if q.startswith(V + "cv_") and q.count(".") == V.count(".") and q != V + "cv_deprecated":
            seen.setdefault(q, (f, f.node, f.module, []))[3].append(True)
    return seen


def risky(ps, p, prm):
    """(description) of the first use of an unchecked value which can fail with something else than Invalid."""
    T = ("param", prm)
    checked = lambda upto=None: any(v and norm(at)[0] == "isinstance" and norm(at)[1] == T for _, at, v in (p.trail if upto is None else p.trail[:upto]))
    for i, (_, at, v) in enumerate(p.trail):
        a = norm(at)
        if a[0] in ("in", "lt", "le") and a[1] == T and not checked(i):
            return f"{show(a)} is decided for a value of any type"
        if a[0] in ("lt", "le") and T in a[1:] and not checked(i):
            return f"{show(a)} is decided for a value of any type"
    for e in p.events:
        if e.kind == "call":
            if e.base is not None and norm(e.base) == T and not checked():
                return f"{prm}.{e.name}() is called on a value of any type"
            if e.name in ("Path", "PurePath", "len", "open", "fromhex", "iter", "sorted", "convert") and any(norm(x) == T for x in e.args) and not checked():
                return f"{e.name}({prm}) is called with a value of any type"
            if any(k is None and norm(v) == T for k, v in e.kwargs) and not checked():
                return f"**{prm} is unpacked from a value of any type"
        if e.kind in ("loopiter", "loopend") and e.base is not None and norm(e.base) == T and not checked():
            return f"a value of any type is iterated"
    return None


def validators(ctx):
    """A validator rejects what it does not accept with the configuration error, whatever the value is."""
    R = "invalid-values-rejected"
    seen = used_validators(ctx)
    ctx.need(R, len(seen), 5, "functions called by the schemas")
    for q, (f, e, m, firsts) in seen.items():
        raw = any(firsts)
        ps = ctx.paths(f)
        prm = f.params[-1] if f.params else None
        if q.startswith(V + "cv_"):
            ok = [p for p in ps if p.normal]
            ctx.ob("validator", bool(ok), ps, "every value is rejected", q + "n")
            for p in ok:
                ctx.ob("validator", p.ret is not None and not is_const(p.ret, None), ps, "an accepted value is dropped", q + "ret")
        for p in ps:
            if p.outcome.kind == "raise":
                names = [x.name for x in p.events if x.kind == "raise"]
                if names:
                    ctx.ob(R, names[-1] in BAD or names[-1].rpartition(".")[2] in ("Invalid", "ValueError"), ps, f"a bad value is reported as {names[-1].rpartition('.')[2]} instead of the configuration error", q + "exc")
            if raw and prm:
                r = risky(ps, p, prm)
                ctx.ob(R, r is None, ps, f"{r}: what it raises is not the configuration error" if r else "", q + "type")
        asserts = [n for n in walk_own(f.node) if isinstance(n, ast.Assert)]
        ctx.ob(R, not asserts, (m, e), f"{q.rpartition('.')[2]} rejects values with an assertion, which is not the configuration error", q + "assert")
        # calls which are known to fail on bad values are contained
        for node in walk_own(f.node):
            if not isinstance(node, ast.Call):
                continue
            r = ctx.p.resolve_expr(f.module, node.func)
            need = ()
            b, _, n = (r or "").rpartition(".")
            if r in ctx.p.classes and any(k.arg is None for k in node.keywords):
                need = ("TypeError", "ValueError")
            elif b in ctx.p.classes:
                g = ctx.p.find_method(ctx.p.classes[b], n)
                if g is not None and any(isinstance(x, ast.Assert) for x in walk_own(g.node)):
                    need = ("AssertionError",)
            if need:
                caught = set()
                for tr in walk_own(f.node):
                    if isinstance(tr, ast.Try) and any(node is y for st in tr.body for y in ast.walk(st)):
                        for h in tr.handlers:
                            ts = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                            caught |= {"Exception" if t is None else ast.unparse(t).rpartition(".")[2] for t in ts}
                        # with contextlib.suppress: the value would be swallowed
                ctx.ob(R, caught & {"Exception", "BaseException"} or set(need) <= caught, (f, node), f"{ast.unparse(node)[:60]} can fail with {' or '.join(need)}, which is not the configuration error", q + "calls")


def comparisons(p, what):
    """(operator, left, right, holds) of the comparisons known on a path about elements of `what`."""
    E = ("elem", what)

    def strip(t, pol):
        if t[0] == "not":
            yield from strip(t[1], not pol)
        elif t[0] == "boolop" and (t[1] == "and") == pol:
            for x in t[2:]:
                for y in (x if x and isinstance(x[0], tuple) else (x,)):
                    yield from strip(y, pol)
        elif t[0] == "cmp" and t[1] in ("<", "<=", ">", ">="):
            yield t[1], t[2], t[3], pol
    for _, at, v in p.trail:
        a = norm(at)
        if a[0] in ("lt", "le") and len(a) == 3 and E in a[1:]:
            yield {"lt": "<", "le": "<="}[a[0]], a[1], a[2], v
        if a[0] == "truthy" and a[1][0] == "call" and a[1][1] in (("glob", "builtins.all"), ("glob", "builtins.any")) and a[1][2]:
            c = a[1][2][0]
            if c[0] == "comp" and (a[1][1][1] == "builtins.all") == v:
                yield from strip(c[2], v)


def interval(p, what):
    """Bounds every element of `what` is known to keep on a path."""
    E = ("elem", what)
    lo = hi = None
    for op, x, y, v in comparisons(p, what):
        if not v:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
        if x[0] == "const" and y == E:
            x, y, op = y, x, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
        if x != E or y[0] != "const" or not isinstance(y[1], int):
            continue
        n = y[1]
        if op in (">", ">="):
            n += op == ">"
            lo = n if lo is None else max(lo, n)
        else:
            n -= op == "<"
            hi = n if hi is None else min(hi, n)
    return lo, hi


TRUE, FALSE = ("1", "true", "yes", "on", "enable"), ("0", "false", "no", "off", "disable")


def conversions(ctx):
    """What each validator demands before it lets a value through."""
    R = "validator"
    # booleans
    ps = ctx.paths(V + "cv_boolean")
    low = [ps.T("value.lower().strip()"), ps.T("value.strip().lower()")]
    got = {True: set(), False: set()}
    for p in ps:
        if not p.normal or p.ret is None:
            continue
        facts = [(norm(at), v) for _, at, v in p.trail]
        isstr = any(a[0] == "isinstance" and a[1] == ("param", "value") and kind_of(a[2]) == "str" and v for a, v in facts)
        r = norm(p.ret)
        if isstr:
            eqs = [x for a, v in facts if v and a[0] == "eq" and any(x[0] == "const" and isinstance(x[1], str) for x in a[1:]) for x in a[1:] if x[0] == "const"]
            ok = r[0] == "const" and isinstance(r[1], bool)
            ctx.ob(R, not ok or eqs or any(a[0] == "in" and v for a, v in facts), ps, f"any text is taken as {r[1] if ok else r}", "bool any")
            if ok:
                for x in eqs:
                    got[r[1]].add(x[1])
        else:
            ctx.ob(R, any(a[0] == "isinstance" and v for a, v in facts), ps, "a value of any type is taken as a boolean", "bool type")
    raw = {kind_of(norm(at)[2]) for p in ps if p.normal for _, at, v in p.trail if v and norm(at)[0] == "isinstance" and norm(at)[1] == ("param", "value")}
    ctx.ob(R, raw >= {"bool", "int", "str"}, ps, f"booleans are accepted as {', '.join(sorted(x for x in raw if x))} only", "bool kinds")
    for p in ps:
        if p.normal and p.ret is not None and norm(p.ret) == ("param", "value"):
            ctx.ob(R, any(v and norm(at)[0] == "isinstance" and kind_of(norm(at)[2]) == "bool" for _, at, v in p.trail), ps, "a value which is no boolean is taken as one", "bool raw")
    if got[True] or got[False]:
        for v, want in ((True, TRUE), (False, FALSE)):
            ctx.ob(R, got[v] == set(want), ps, f"texts taken as {v}: {', '.join(sorted(got[v]))}", f"bool{v}")
    # numbers
    ps = ctx.paths(V + "cv_hex")
    seen = set()
    for p in ps:
        if p.normal and p.ret is not None:
            r = norm(p.ret)
            types = [(kind_of(norm(at)[2]), v) for _, at, v in p.trail if norm(at)[0] == "isinstance" and norm(at)[1] == ("param", "value")]
            if r == ("param", "value"):
                ctx.ob(R, ("int", True) in types, ps, "a value which is no number is taken as one", "hex raw")
                seen.add("int")
            elif ("str", True) in types:
                seen.add("str")
            pre = [(norm(at), v) for _, at, v in p.trail if norm(at)[0] == "truthy" and norm(at)[1][0] == "call" and norm(at)[1][1][0] == "attr" and norm(at)[1][1][2] == "startswith"]
            if r[0] == "call" and r[1] == ("glob", "builtins.int") or r[0] == "call" and r[1] == ("glob", "int"):
                base = dict(r[3]).get("base", r[2][1] if len(r[2]) > 1 else ("const", 10))
                if pre:
                    want = 16 if pre[-1][1] else 10
                    ctx.ob(R, base in (("const", want), ("const", 0)), ps, f"a number {'with' if pre[-1][1] else 'without'} the prefix 0x is read with base {show(base)}", f"hex{want}")
                ctx.ob(R, r[2][:1] == (("param", "value"),), ps, f"the number is read off {show(r[2][0])}", "hex val")
    ctx.ob(R, seen == {"int", "str"}, ps, f"numbers are accepted as {' and '.join(sorted(seen)) or 'nothing'}, not as numbers and text", "hex kinds")
    # keys
    ps = ctx.paths(V + "cv_key")
    k = 0
    for p in ps:
        if not p.normal or any(e.kind == "loopend" and e.base is not None and norm(e.base) == ("param", "key") for e in p.events) and not any(e.kind == "loopiter" and norm(e.base) == ("param", "key") for e in p.events):
            continue  # no bytes at all
        k += 1
        facts = [(norm(at), v) for _, at, v in p.trail]
        size = ps.T("len(key)")
        ctx.ob(R, any(a[0] == "eq" and size in a[1:] and ("const", 16) in a[1:] and v for a, v in facts), ps, "a key of any length is accepted", "key len")
        ctx.ob(R, any(a[0] == "isinstance" and a[1] == ("param", "key") and v for a, v in facts), ps, "a key of any type is accepted", "key type")
        lo, hi = interval(p, ("param", "key"))
        conv = any(e.name in ("uint8_t", "bytes", "bytearray") for e in calls(p))
        ctx.ob(R, (lo, hi) == (0, 255) or conv and lo is None and hi is None, ps, f"bytes of a key may range from {lo} to {hi}", "key range")
        typed = any(v and x[0] == "call" and x[1] == ("glob", "builtins.isinstance") and x[2][:1] == (("elem", ("param", "key")),) for a, v in facts for x in subterms(a)) or any(a[0] == "isinstance" and a[1] == ("elem", ("param", "key")) and v for a, v in facts)
        ctx.ob(R, typed or conv, ps, "bytes of a key are compared whatever they are", "key items")
        ctx.ob(R, p.ret is not None and contains(norm(p.ret), ("param", "key")), ps, "another key is used", "key val")
    ctx.ob(R, k >= 1, ps, "no key is accepted", "key n")
    # every element is checked, not just one
    f = ctx.p.func(V + "cv_key")
    for node in walk_own(f.node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "any" and not neg_any(f.node, node):
            ctx.ob(R, False, (f, node), "one good byte makes the whole key acceptable", "key any")
    # descriptors
    ps = ctx.paths(V + "cv_simple_descriptor")
    for p in ps:
        if p.normal:
            ok = any(norm(at)[0] == "truthy" and norm(at)[1][0] == "attr" and norm(at)[1][2] == "is_valid" and v for _, at, v in p.trail)
            ctx.ob(R, ok, ps, "an incomplete descriptor is accepted", "sd valid")
            ctx.ob(R, p.ret is not None and contains(norm(p.ret), ("param", "obj")), ps, "another descriptor is used", "sd ret")
    for fn, test in (("cv_json_file", ("is_file",)), ("cv_folder", ("is_dir",))):
        ps = ctx.paths(V + fn)
        for p in ps:
            if p.normal:
                ok = any(norm(at)[0] == "truthy" and norm(at)[1][0] == "call" and norm(at)[1][1][0] == "attr" and norm(at)[1][1][2] in test and v for _, at, v in p.trail)
                ctx.ob(R, ok, ps, f"{fn} accepts a path without {test[0]}()", fn)
                ctx.ob(R, p.ret is not None and contains(norm(p.ret), ("param", "value")), ps, "another path is used", fn + "ret")
    # channel lists
    ps = ctx.paths("zigpy.types.named.Channels.from_channel_list")
    k = 0
    for p in ps:
        if not p.normal or not any(True for _ in comparisons(p, ("param", "channels"))):
            continue
        k += 1
        ctx.ob(R, interval(p, ("param", "channels")) == (11, 26), ps, "channels from {} to {} are accepted".format(*interval(p, ("param", "channels"))), "chan")
        ctx.ob(R, p.ret is not None and contains(norm(p.ret), ("param", "channels")), ps, "channels which were asked for are left out", "chan ret")
    ctx.ob(R, k >= 1 or not any(p.normal for p in ps), ps, "any channel number is accepted", "chan n")
    # what the list holds is known before its elements are compared
    ks, mod = schema(ctx, "SCHEMA_NETWORK")
    if "channels" in ks:
        m, v = ks["channels"][3], ks["channels"][2]
        for node in ast.walk(v):
            if isinstance(node, ast.Call) and (name_of(ctx, m, node.func) or "") == VOL + "All":
                for i, x in enumerate(node.args[1:], 1):
                    if (name_of(ctx, m, x) or "").endswith(".from_channel_list"):
                        d = dom(ctx, m, node.args[i - 1])
                        ok = d is UNK or all(a["kind"] != "list" or a.get("item", UNK) is not UNK and a.get("item") for a in d)
                        ctx.ob("invalid-values-rejected", ok, (m, x), "the elements of the channel list are compared whatever they are: what that raises is not the configuration error", "chan items")
    # provider names
    ps = ctx.paths(V + "cv_ota_provider_name")
    k = 0
    for p in ps:
        if p.normal:
            k += 1
            r = norm(p.ret) if p.ret is not None else ("const", None)
            reg = ("glob", "zigpy.ota.providers.OTA_PROVIDER_TYPES")
            ctx.ob(R, contains(r, reg) and contains(r, ("param", "name")), ps, f"a provider name stands for {show(r)}", "prov")
            ok = any(norm(at) == ("in", ("param", "name"), reg) and v or norm(at)[0] == "is" and contains(norm(at), reg) and not v for _, at, v in p.trail)
            ctx.ob(R, ok or r[0] == "idx" and any(x.kind == "handler" for q2 in ps for x in q2.events), ps, "an unknown provider name is accepted", "prov unk")
    ctx.ob(R, k >= 1, ps, "no provider name is accepted", "prov n")
    # providers: the class's own schema is applied to the whole entry, and the result is what the provider gets
    ps = ctx.paths(V + "cv_ota_provider", noinline=(V + "cv_ota_provider_name",))
    for p in ps:
        if not p.normal:
            continue
        sch = [e for e in calls(p, "VOL_SCHEMA")]
        ctx.ob(R, len(sch) == 1 and [norm(a) for a in sch[0].args] == [("param", "obj")], ps, "a provider's own schema is not applied to its configuration", "prov schema")
        r = norm(p.ret) if p.ret is not None else ("const", None)
        if sch:
            t = norm(sch[0].term if sch[0].term is not None else sch[0].value)
            ctx.ob(R, r[0] == "call" and any(contains(v, t) for _, v in r[3]) and not any(v == ("param", "obj") for _, v in r[3]), ps, "a provider is built from options which were not checked", "prov args")


def neg_any(fn, call):
    return any(isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and n.operand is call for n in ast.walk(fn)) is False and any(isinstance(n, ast.If) and any(call is y for y in ast.walk(n.test)) for n in ast.walk(fn))


# --- use ----------------------------------------------------------------------------------------------------------

def applied(ctx):
    """The application only ever sees the validated configuration."""
    R = "validated-before-use"
    f = ctx.p.func(f"{APP}.__init__")
    for node in walk_own(f.node):
        if isinstance(node, ast.Name) and node.id == "config" and isinstance(node.ctx, ast.Load):
            par = [n for n in walk_own(f.node) if isinstance(n, ast.Call) and any(node is a for a in list(n.args) + [k.value for k in n.keywords])]
            ok = any("SCHEMA" in ast.unparse(n.func) for n in par)
            if not ok:
                # rebound to the validated one first?
                ok = any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "config" for t in n.targets) and "SCHEMA" in ast.unparse(n.value) and n.lineno < node.lineno for n in walk_own(f.node))
            ctx.ob(R, ok, (f, node), "the configuration is used as it was given, unchecked", "raw")
    ps = ctx.paths(f, handler_inject=False)
    for p in ps:
        if p.normal:
            st = [e for e in p.events if e.kind == "setattr" and e.name in ("_config", "config")]
            ok = bool(st) and norm(st[-1].value) in (ps.T("self.SCHEMA(config)"), ("call", ps.T("zigpy.config.CONFIG_SCHEMA"), (("param", "config"),), ()))
            ctx.ob(R, ok, ps, f"the application keeps {show(norm(st[-1].value)) if st else 'no configuration'}", "kept")
            break
    k, v = ctx.p.find_attr(ctx.p.cls(APP), "SCHEMA")
    r = ctx.p.resolve_expr(k.module, v) if v is not None else None
    ctx.ob(R, r == "zigpy.config.CONFIG_SCHEMA", (k, v) if v is not None else f, f"the schema of the application is {r}", "schema")
    ps = ctx.paths(f"{APP}.config")
    for p in ps:
        if p.normal:
            ctx.ob(R, p.ret is not None and norm(p.ret) in (ps.T("self._config"), ps.T("self.config")), ps, "another configuration is shown", "prop")
    # probing
    ps = ctx.paths(f"{APP}.probe", handler_inject=False)
    raw = ("param", "device_config")
    for p in ps:
        if p.normal and p.ret is not None:
            r = norm(p.ret)
            if contains(r, raw):
                ok = all(x[0] != "param" for x in [r]) and any(x[0] == "call" and contains(x[1], ("glob", "zigpy.config.SCHEMA_DEVICE")) for x in subterms(r))
                ctx.ob(R, ok or r[0] == "elem", ps, f"probing returns {show(r)[:100]}, which is not the validated configuration", "probe")
    # every option which is read directly has a default
    top, mod = schema(ctx, "CONFIG_SCHEMA")
    nets, otas, devs = schema(ctx, "SCHEMA_NETWORK")[0], schema(ctx, "SCHEMA_OTA")[0], schema(ctx, "SCHEMA_DEVICE")[0]
    have = {n for s in (top, nets, otas, devs) for n, (mark, d, v, m) in s.items() if mark == "Required" or d is not None}
    for m in ctx.p.modules.values():
        if not m.name.startswith("zigpy.") or m.name.startswith("zigpy.config"):
            continue
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Load):
                src = ast.unparse(node.value)
                if "config" not in src:
                    continue
                n = ctx.p.resolve_expr(m, node.slice) if isinstance(node.slice, (ast.Name, ast.Attribute)) else None
                if n is None or "CONF_" not in n:
                    continue
                key = ctx.kit.consteval(m, node.slice)
                if "provider" in src or not isinstance(key, str):
                    continue
                ctx.ob("option-default", key in have, (m, node), f"option {key} is read although it may be missing", f"read{m.name}{key}")


def dangerous(ctx):
    """Firmware from local files needs the exact acknowledgement."""
    R = "dangerous-source-acknowledged"
    mod = ctx.p.module("zigpy.config")
    got = ctx.kit.consteval(mod, mod.assigns["CONF_OTA_ALLOW_ADVANCED_DIR_STRING"])
    ctx.ob(R, got == ACK, (mod, mod.assigns["CONF_OTA_ALLOW_ADVANCED_DIR_STRING"]), f"the text which has to be given is {str(got)[:60]!r}", "text")
    P = ctx.p.cls("zigpy.ota.providers.AdvancedFileProvider")
    k, v = ctx.p.find_attr(P, "VOL_SCHEMA")
    sch = keys(ctx, k.module, v)
    e = sch.get("warning")
    ok = e is not None and e[0] == "Required" and dom(ctx, e[3], e[2]) == [alt("const", value=ACK)]
    ctx.ob(R, ok, (P, v), "firmware from a folder is enabled without the acknowledgement", "schema")
    leg = schema(ctx, "SCHEMA_OTA")[0].get("allow_advanced_ota_dir")
    if leg is not None:
        d = dom(ctx, leg[3], leg[2])
        # deprecation wrapper first, then the text
        ctx.ob(R, d == [alt("const", value=ACK)] or d is UNK, (leg[3], leg[2]), "the old option is accepted with any text", "legacy")
        ctx.ob(R, leg[1] is None, (leg[3], leg[2]), "the old option has a default", "legacy default")
    # who else can register it
    names = ("AdvancedFileProvider",)
    for m in ctx.p.modules.values():
        if not m.name.startswith("zigpy."):
            continue
        for node in ast.walk(m.tree):
            if isinstance(node, (ast.Name, ast.Attribute)) and isinstance(getattr(node, "ctx", None), ast.Load) and ctx.p.resolve_expr(m, node) == P.qual:
                call = next((c for c in ast.walk(m.tree) if isinstance(c, ast.Call) and any(node is x for x in list(c.args) + [y.value for y in c.keywords])), None)
                scope = [call] if call is not None else [g for g in ast.walk(m.tree) if isinstance(g, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(x is node for x in ast.walk(g))]
                if call is not None:
                    used = {x.id for x in ast.walk(call) if isinstance(x, ast.Name)}
                    scope += [a.value for a in ast.walk(m.tree) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id in used for t in a.targets)]
                ok = any("CONF_OTA_ALLOW_ADVANCED_DIR" in ast.unparse(x) for x in scope)
                tests = m.name == "zigpy.ota.providers"
                ctx.ob(R, ok or tests, (m, node), "the folder provider is registered without its acknowledgement", "registered")
    # never among the defaults
    dm = ctx.p.module("zigpy.config.defaults")
    for n in ("CONF_OTA_PROVIDERS_DEFAULT", "CONF_OTA_EXTRA_PROVIDERS_DEFAULT"):
        v = dm.assigns.get(n)
        if v is None:
            continue
        reg = provider_names(ctx)
        for x in ast.walk(v):
            if isinstance(x, ast.Dict):
                for kk, vv in zip(x.keys, x.values):
                    if kk is not None and ctx.kit.consteval(dm, kk) == "type":
                        name = ctx.kit.consteval(dm, vv)
                        ctx.ob(R, name != "advanced", (dm, x), "the folder provider is enabled by default", "default")
                        ctx.ob("default-satisfies-check", name in reg, (dm, x), f"the default provider {name!r} does not exist", f"default{name}")


def provider_names(ctx):
    out = set()
    for c in ctx.p.classes.values():
        if c.module.name == "zigpy.ota.providers":
            for st in c.node.body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)):
                    t = st.targets[0] if isinstance(st, ast.Assign) else st.target
                    if isinstance(t, ast.Name) and t.id == "NAME" and st.value is not None:
                        out.add(ctx.kit.consteval(c.module, st.value))
    return out


RULES = [ranges, required, validators, conversions, applied, dangerous]
