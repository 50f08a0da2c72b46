"""Only firmware meant for the device is offered, newest first."""
from ..core import Obj, calls, describe, index, norm, sets, show
from ..lib import ELEM, allfacts, applied, assumed, conditions, deref, field_of, implied, is_const, subst, truths
from ..walk import contains, subterms
from . import c21

I = "zigpy.ota.OtaImageWithMetadata"
O = "zigpy.ota.OTA"
P = "zigpy.ota.providers"
C = lambda v: ("const", v)  # noqa: E731
META = ("manufacturer_id", "image_type", "min_hardware_version", "max_hardware_version", "min_current_file_version", "max_current_file_version", "specificity")
HEAD = {"manufacturer_id": "manufacturer_id", "image_type": "image_type", "min_hardware_version": "minimum_hardware_version", "max_hardware_version": "maximum_hardware_version"}


def base(ps, meta=(), head=None, **query):
    """Assignment: an image with these constraints (others absent), its file's header (None: not downloaded), a query."""
    meta = dict(meta)
    a = {}
    for k in META:
        a[ps.T(f"self.metadata.{k}")] = meta.get(k)
    for k in ("model_names", "manufacturer_names"):
        a[ps.T(f"self.metadata.{k}")] = meta.get(k, ())
    a[ps.T("self.version")] = a[ps.T("self.metadata.file_version")] = meta.get("file_version", 10)
    if head is None:
        a[ps.T("self.firmware")] = None
    else:
        a[ps.T("self.firmware")] = Obj("firmware")
        for k, h in HEAD.items():
            a[ps.T(f"self.firmware.header.{h}")] = head.get(k)
    for k, v in query.items():
        a[("attr", ("param", "query_cmd"), k)] = v
    return a


def outcomes(ps, a):
    return truths(ps, a)


def compat(ctx):
    ps = ctx.paths(f"{I}.check_compatibility", handler_inject=False)
    Q = dict(manufacturer_code=1, image_type=2, hardware_version=5)

    def case(want, rule, key, meta=(), head=None, model="m", manuf="n", **q):
        a = base(ps, meta, head, **{**Q, **q})
        a[ps.T("device.model")], a[ps.T("device.manufacturer")] = model, manuf
        got = outcomes(ps, a)
        text = f"an image declaring {dict(meta)}" + (f", its file {head}" if head is not None else "") + f" against model {model!r}, manufacturer {manuf!r}, query { {**Q, **q} }"
        ctx.ob(rule, got == {want}, ps, f"{text}: compatible is {sorted(map(str, got))}", key)

    case(True, "unconstrained-image-fits", "none")
    case(True, "unconstrained-image-fits", "none-nohw", hardware_version=None)
    case(True, "unconstrained-image-fits", "empty-header", head={"manufacturer_id": 1, "image_type": 2})
    for name, q, v in (("manufacturer_id", "manufacturer_code", 1), ("image_type", "image_type", 2)):
        for other in (0, v + 1, 0xFFFF):
            case(False, "constraint-respected", name, {name: other})
            case(False, "constraint-respected", name + "h", {}, {name: other})
            case(False, "index-overrides-file", name, {name: other}, {name: v})
        case(True, "matching-image-fits", name, {name: v})
        case(True, "matching-image-fits", name + "h", {}, {name: v})
        case(True, "index-overrides-file", name + "ok", {name: v}, {name: v + 1})
    zero = dict(manufacturer_code=0, image_type=0)
    case(True, "matching-image-fits", "zero", {"manufacturer_id": 0, "image_type": 0}, **zero)
    for name, lo in (("min_hardware_version", True), ("max_hardware_version", False)):
        for hw in (None, 0, 4, 5, 6):
            for m, h in (({name: 5}, None), ({}, {name: 5}), ({name: 5}, {name: 0 if lo else 99})):
                want = hw is not None and (hw >= 5 if lo else hw <= 5)
                case(want, "constraint-respected" if not want else "matching-image-fits", f"{name}{hw}{bool(m)}{bool(h)}", m, h, hardware_version=hw)
    case(False, "constraint-respected", "hw0", {"max_hardware_version": 0}, hardware_version=1)
    for name in ("min_hardware_version", "max_hardware_version"):
        for m, h in (({name: 0}, None), ({}, {name: 0})):
            case(False, "constraint-respected", f"hw0none{name}{bool(m)}", m, h, hardware_version=None)
            case(True, "matching-image-fits", f"hw0zero{name}{bool(m)}", m, h, hardware_version=0)
    for name, kw in (("model_names", "model"), ("manufacturer_names", "manuf")):
        case(True, "matching-image-fits", name, {name: ("a", "b")}, **{kw: "b"})
        case(False, "constraint-respected", name, {name: ("a", "b")}, **{kw: "c"})
        case(False, "constraint-respected", name + "none", {name: ("a", "b")}, **{kw: None})
    full = {"manufacturer_id": 1, "image_type": 2, "min_hardware_version": 4, "max_hardware_version": 6, "model_names": ("m",), "manufacturer_names": ("n",)}
    case(True, "matching-image-fits", "full", full)
    for k, bad in (("manufacturer_id", 9), ("image_type", 9), ("min_hardware_version", 6), ("max_hardware_version", 4), ("model_names", ("x",)), ("manufacturer_names", ("x",))):
        case(False, "constraint-respected", "full" + k, {**full, k: bad})


def version(ctx):
    ps = ctx.paths(f"{I}.check_version", handler_inject=False)
    cur = ("param", "current_file_version")

    def case(want, rule, key, c, **meta):
        a = {**base(ps, meta), cur: c}
        got = outcomes(ps, a)
        ctx.ob(rule, got == {want}, ps, f"an image {meta} for a device with version {c}: upgrade is {sorted(map(str, got))}", key)

    for c, want in ((0, True), (9, True), (10, False), (11, False)):
        case(want, "newer-only", f"{c}", c)
    for lo in (0, 4, 5, 6):
        case(lo <= 5, "version-window", f"lo{lo}", 5, min_current_file_version=lo)
    for hi in (0, 4, 5, 6):
        case(hi >= 5, "version-window", f"hi{hi}", 5, max_current_file_version=hi)
    case(True, "version-window", "both", 5, min_current_file_version=5, max_current_file_version=5)
    case(False, "newer-only", "window", 12, min_current_file_version=1, max_current_file_version=20)
    for q in ("version",):
        pv = ctx.paths(f"{I}.{q}")
        for p in pv:
            ctx.ob("newer-only", p.normal and norm(p.ret) == pv.T("self.metadata.file_version"), pv, f"an image's version is {show(p.ret)[:60]}", "prop")


def specificity(ctx):
    ps = ctx.paths(f"{I}.specificity", handler_inject=False)
    val = {k: 3 for k in META if k != "specificity"}
    val.update(model_names=("m",), manufacturer_names=("n",))
    full = dict(val)

    def score(meta, head=None):
        a = base(ps, meta, head)
        out = set()
        for p in ps:
            if p.normal and ps.consistent(p, a, trail=True):
                out.add(ps.kit.teval(norm(p.ret), a))
        return out.pop() if len(out) == 1 else None

    none = score({})
    allv = score(full)
    ctx.ob("more-specific-first", isinstance(none, int) and isinstance(allv, int), ps, f"the specificity of an image is {none} / {allv}", "base")
    if not isinstance(none, int) or not isinstance(allv, int):
        return
    for k, v in val.items():
        one, rest = score({k: v}), score({x: y for x, y in full.items() if x != k})
        ctx.ob("more-specific-first", isinstance(one, int) and one > none and isinstance(rest, int) and rest < allv, ps, f"declaring {k} changes the specificity from {none} to {one} and from {rest} to {allv}", k)
        if k in HEAD:
            h = score({}, {k: v})
            ctx.ob("more-specific-first", h == one, ps, f"{k} declared by the file itself counts {h}, by the index {one}", "h" + k)
    b = score({"specificity": 7})
    ctx.ob("more-specific-first", isinstance(b, int) and b == none + 7, ps, f"a specificity boost of 7 changes {none} to {b}", "boost")


def order_ok(ctx, ps, p, coll):
    """sorted(X, key=(version, specificity), reverse=True) (or an equivalent) -> X, else None."""
    t = coll
    while t[0] == "call" and t[1][0] == "glob" and t[1][1].split(".")[-1] in ("tuple", "list") and t[2]:
        t = t[2][0]
    flip = False
    if t[0] == "call" and t[1][0] == "glob" and t[1][1].split(".")[-1] == "reversed" and t[2]:
        t, flip = t[2][0], True
    if t[0] == "idx" and norm(t[2]) == ("slice", C(None), C(None), C(-1)):
        t, flip = t[1], True
    if not (t[0] == "call" and t[1][0] == "glob" and t[1][1].split(".")[-1] == "sorted" and t[2]):
        return None, "not sorted"
    kw = dict(t[3])
    key = kw.get("key")
    if key is None:
        return t[2][0], "sorted without a key"
    rev = is_const(norm(kw["reverse"]), True) if "reverse" in kw else False
    ks = applied(ps, key, ELEM)
    want = (("attr", ELEM, "version"), ("attr", ELEM, "specificity"))
    neg = tuple(("un", "-", x) for x in want)
    good = len(ks) == 1 and ks[0][0] in ("tuple", "list") and (tuple(ks[0][1]) == want and rev != flip or all(x in ks[0][1] for x in neg) and ks[0][1][0] == neg[0] and rev == flip)
    return t[2][0], None if good else f"sorted by {[show(k) for k in ks]}{' reversed' if rev != flip else ''}"


def offered(ctx):
    ps = ctx.paths(f"{O}.get_ota_images", loop=1, private=False, noinline=("zigpy.ota.*",), inject=("Exception",), inject_at=lambda t, n, a: n == "_load_provider_index" or n == "_fetch_image" and a)
    fits = ("call", ("attr", ELEM, "check_compatibility"), (("param", "device"), ("param", "query_cmd")), ())
    newer = ("call", ("attr", ELEM, "check_version"), (("attr", ("param", "query_cmd"), "current_file_version"),), ())
    cache = ps.T("self._image_cache")
    n = set()
    for p in ps:
        ctx.ob("failure-isolated", p.outcome.kind != "raise", ps, f"a failing provider or download fails the whole query [{describe(p)}]", "raise")
        for e in calls(p, "_load_provider_index", ok=None):
            n.add(("load", e.ok))
            cs, _ = conditions(ps, p, ("list", (norm(e.args[0]),))) if e.args else ([], None)
            ctx.ob("provider-for-device", implied(cs, ("call", ("attr", ELEM, "compatible_with_device"), (("param", "device"),), ())), (ps.func, e.node), "providers not meant for the device are consulted", "compat")
            if e.ok:
                idx = norm(e.value)
                isn = [v for a, v in allfacts(p) if norm(a) == ("is", idx, C(None))]
                used = [x for x in p.events if x.kind in ("loopiter", "loopend") and x.base is not None and norm(x.base) == idx]
                if used:
                    ctx.ob("failure-isolated", isn == [False], (ps.func, e.node), "a provider with no new index fails the query", "none")
                    n.add("used")
                elif p.normal:
                    ctx.ob("provider-for-device", bool(isn) and isn[0], (ps.func, e.node), f"a provider's index is not used [{describe(p)}]", "used")
            else:
                nxt = [x for x in p.events[index(p, e):] if x.kind in ("loopiter", "loopend")]
                ctx.ob("failure-isolated", bool(nxt) and contains(norm(e.args[0]), norm(nxt[0].base)), ps, f"a failing provider's index is used [{describe(p)}]", "stale")
                ctx.ob("failure-isolated", any(x.kind == "loopend" and x.base is not None and contains(norm(e.args[0]), norm(x.base)) for x in p.events[index(p, e):]), ps, f"a failing provider prevents others from being consulted [{describe(p)}]", "next")
        for e in p.events:
            if e.kind == "setidx" and e.base is not None and norm(e.base) == cache:
                k, v = norm(e.args[0]), norm(e.value)
                if v[0] == "call" and show(v[1]).endswith("OtaImageWithMetadata"):
                    n.add("cache")
                    f = lambda x: norm(deref(ctx, p, field_of(ctx, p, e.value, x)))  # noqa: E731, B023
                    ctx.ob("cache-consistent", f("metadata") == k and is_const(f("firmware"), None), (ps.func, e.node), f"cached under {show(k)[:60]}: {show(v)[:100]}", "new")
                    ctx.ob("cache-consistent", any(not t and norm(a) == ("in", k, cache) for a, t in allfacts(p)), (ps.func, e.node), "an image that was already downloaded is forgotten", "keep")
                else:
                    ctx.ob("cache-consistent", k == ("attr", v, "metadata"), (ps.func, e.node), f"cached under {show(k)[:80]}: {show(v)[:80]}", "down")
        if p.outcome.kind == "raise":
            continue
        r = p.ret
        ok = r is not None and r[0] == "call" and show(r[1]).endswith("OtaImagesResult")
        ctx.ob("newest-first", ok, ps, f"the result is {show(r or C(None))[:80]}", "result")
        if not ok:
            continue
        kw = dict(r[3]) | dict(zip(("upgrades", "downgrades"), r[2]))
        for x in subterms(norm(r)):
            if x[0] == "call" and x[1] == ("glob", "builtins.sorted") and contains(x, cache):
                ctx.ob("newest-first", "key" in dict(x[3]), ps, "images are compared with each other", "key")
        ups = None
        for k in ("upgrades", "downgrades"):
            coll, why = order_ok(ctx, ps, p, kw[k]) if k in kw else (None, "missing")
            ctx.ob("newest-first", why is None, ps, f"the {k} are {why}", k)
            if coll is None:
                continue
            cs, src = conditions(ps, p, coll)
            ctx.ob("constraint-respected", contains(src, cache), ps, f"the {k} are {show(src)[:80]}", k + "src")
            ctx.ob("constraint-respected", implied(cs, fits), ps, f"the {k} are not limited to images compatible with the device", k)
            if k == "upgrades":
                ups = norm(coll)
                ctx.ob("newer-only", implied(cs, newer), ps, "the upgrades are not limited to newer images", k)
            else:
                other = norm(ups[1][1]) if ups is not None and ups[0] == "call" and ups[1][0] == "attr" else ups
                excl = implied(cs, newer, False) or other is not None and any(implied(cs, ("in", x, y), False) for x in (("attr", ELEM, "metadata"), ELEM) for y in variants(other))
                ctx.ob("newer-only", excl, ps, "an image is both an upgrade and a downgrade", k)
        if ups is None:
            continue
        D = norm(ups[1][1]) if ups[0] == "call" and ups[1][0] == "attr" and ups[1][2] == "values" else ups
        downloads(ctx, ps, p, D, n)
        collide(ctx, ps, p, D, n)
    need = {"used", "grouped", ("load", True), ("load", False), "cache", "fetched", "failed-dl", "unfit", ("dup", True), ("dup", False)}
    ctx.ob("failure-isolated", n >= need, ps, f"undecided: {sorted(map(str, need - n))}", "all")


def variants(t):
    """A collection of elements, as it reads when its elements are called ELEM."""
    return [t] + [subst(t, x, ELEM) for x in set(subterms(t)) if x[0] == "elem"]


def mutates(p, D):
    """(event, key, value|None) of the writes to and removals from the mapping D."""
    out = []
    for e in p.events:
        if e.base is None or norm(e.base) != D:
            continue
        if e.kind == "setidx":
            out.append((e, norm(e.args[0]), norm(e.value)))
        elif e.kind == "delidx":
            out.append((e, norm(e.args[0]), None))
        elif e.kind == "call" and e.name == "pop" and e.args:
            out.append((e, norm(e.args[0]), None))
    return out


def downloads(ctx, ps, p, D, n):
    mut = mutates(p, D)
    for e in calls(p, "_fetch_image", ok=None):
        a = norm(e.args[0]) if e.args else C(None)
        cs, src = conditions(ps, p, ("list", (a,)))
        nodl = ("is", ("attr", ELEM, "firmware"), C(None))
        ctx.ob("file-checked", any(v and norm(c) in (nodl, ("cmp", "is", *nodl[1:])) for c, v in cs) or implied(cs, nodl), (ps.func, e.node), "images are fetched again, or never", "which")
    for g in calls(p, "gather", ok=None):
        kw = dict(g.kwargs)
        ctx.ob("failure-isolated", "return_exceptions" in kw and is_const(norm(kw["return_exceptions"]), True), (ps.func, g.node), "one failing download fails the query", "gather")
    its = [e for e in p.events if e.kind == "loopiter" and e.base is not None and any(x[0] == "call" and x[1] == ("attr", ps.T("self"), "_fetch_image") for x in subterms(norm(e.base)))]
    ctx.ob("file-checked", not calls(p, "_fetch_image") or bool(loops(p, its, ps)), ps, f"downloaded images are not looked at [{describe(p)}]", "loop")
    for it in its:
        el = ("elem", norm(it.base))
        end = [x for x in p.events[index(p, it):] if x.kind == "loopend" and x.node is it.node]
        stop = end[0] if end else None
        fs = assumed(p, it, stop)
        z = norm(it.base)
        pos = [k for k, x in enumerate(z[2]) if "_fetch_image" in show(x) or contains(x, lambda y: y[0] == "attr" and y[2] == "_fetch_image")] if z[0] == "call" and z[1] == ("glob", "builtins.zip") else []
        res = ("idx", el, C(pos[0])) if len(pos) == 1 else None
        bad = [v for a, v in fs if a[0] == "isinstance" and (a[1] == res if res else contains(a[1], el)) and a[2] in (("glob", "builtins.BaseException"), ("glob", "builtins.Exception"))]
        mine = [(e, k, v) for e, k, v in mut if contains(k, el)]
        drops = [x for x in mine if x[2] is None]
        puts = [x for x in mine if x[2] is not None]
        if not bad:
            ctx.ob("failure-isolated", False, ps, "the outcome of a download is not looked at", "outcome")
            continue
        if bad[0]:
            n.add("failed-dl")
            ctx.ob("failure-isolated", bool(drops) and not puts, ps, f"an image that could not be downloaded is offered [{describe(p)}]", "drop")
            continue
        n.add("fetched")
        unfit = [(a, v) for a, v in fs if a[0] == "truthy" and a[1][0] == "call" and a[1][1][0] == "attr" and a[1][1][2] == "check_compatibility" and contains(a[1][1][1], el) and tuple(a[1][2]) == (("param", "device"), ("param", "query_cmd"))]
        ctx.ob("file-checked", bool(unfit), ps, "the constraints declared by a downloaded file are not checked", "recheck")
        if unfit and not unfit[-1][1]:
            n.add("unfit")
            ctx.ob("file-checked", bool(drops) and not puts, ps, f"an image whose file is not meant for the device is offered [{describe(p)}]", "unfit")
        elif unfit:
            ctx.ob("file-checked", len(puts) == 1 and not drops, ps, f"a downloaded image is not offered [{describe(p)}]", "offer")
            for e, k, v in puts:
                ctx.ob("file-checked", res is None or v == res, (ps.func, e.node), f"offered: {show(v)[:80]}: not what was downloaded", "downloaded")
                ctx.ob("file-checked", k == ("attr", v, "metadata") and v == unfit[-1][0][1][1][1], (ps.func, e.node), f"offered: {show(v)[:80]}", "same")


def loops(p, its, ps):
    return its or [e for e in p.events if e.kind == "loopend" and e.base is not None and "_fetch_image" in show(norm(e.base))] or [e for e in p.events if e.kind == "loopend"]


def collide(ctx, ps, p, D, n):
    """Images of one version and specificity but different contents are all withheld."""
    for e in p.events:
        if e.kind == "loopiter" and e.base is not None and norm(e.base)[0] == "call" and norm(e.base)[1][0] == "attr" and norm(e.base)[1][2] == "items" and "defaultdict" in show(norm(e.base)) or e.kind == "loopiter" and e.base is not None and norm(e.base)[0] == "call" and norm(e.base)[1][0] == "attr" and norm(e.base)[1][2] == "values" and norm(e.base)[1][1][0] == "call" and "defaultdict" in show(norm(e.base)):
            el = ("elem", norm(e.base))
            if norm(e.base)[1][2] == "values" and contains(norm(e.base)[1][1], ("idx",)):
                continue
            groups = norm(e.base)[1][1]
            if groups[0] != "call":
                continue
            end = [x for x in p.events[index(p, e):] if x.kind == "loopend" and x.node is e.node]
            fs = assumed(p, e, end[0] if end else None)
            lens = {x for a, v in fs for x in subterms(a) if x[0] == "call" and x[1] == ("glob", "builtins.len") and contains(x, el)}
            pops = [x for x in mutates(p, D) if x[2] is None and contains(x[1], el)]
            skipped = any(x.kind == "loopend" and x.base is not None and contains(norm(x.base), el) and not [y for y in p.events if y.kind == "loopiter" and y.node is x.node] for x in p.events)
            for k, dup in ((1, False), (2, True), (5, True)):
                if lens and not all(ps.kit.teval(a, {x: k for x in lens}) in (v,) or ps.kit.teval(a, {x: k for x in lens}).__class__.__name__ == "UNK" for a, v in fs if any(contains(a, x) for x in lens)):
                    continue
                if dup and skipped:
                    continue
                n.add(("dup", dup))
                if dup:
                    ctx.ob("collisions-withheld", bool(pops), ps, f"{k} different images that cannot be told apart are offered [{describe(p)}]", "dup")
                else:
                    ctx.ob("collisions-withheld", not pops, ps, "an unambiguous image is withheld", "one")
    for e in calls(p, "append") + calls(p, "add") + calls(p, "setdefault"):
        b = norm(e.base) if e.base is not None else C(None)
        if b[0] == "idx" and b[1][0] == "idx" and "defaultdict" in show(b):
            v = norm(e.args[0])
            k1, k2 = b[1][2], b[2]
            ctx.ob("collisions-withheld", k1 == ("tuple", (("attr", v, "version"), ("attr", v, "specificity"))) or k1 == ("tuple", (("attr", v, "specificity"), ("attr", v, "version"))), (ps.func, e.node), f"images are told apart by {show(k1)[:100]}", "group")
            ctx.ob("collisions-withheld", k2[0] == "call" and k2[1] == ("attr", ("attr", v, "firmware"), "serialize"), (ps.func, e.node), f"contents are compared by {show(k2)[:100]}", "contents")
            ctx.ob("collisions-withheld", v == ("elem", norm(("call", ("attr", D, "values"), (), ()))) or contains(v, D), (ps.func, e.node), f"compared: {show(v)[:80]}", "which")
            n.add("grouped")


def plumbing(ctx):
    ps = ctx.paths(f"{I}.fetch")
    for p in ps:
        if p.outcome.kind == "raise":
            continue
        r = p.ret if p.ret is not None else C(None)
        f = lambda x: norm(field_of(ctx, p, r, x))  # noqa: E731, B023
        ctx.ob("file-checked", f("metadata") == ps.T("self.metadata") and contains(f("firmware"), ps.T("self.metadata.fetch()")), ps, f"a fetched image is {show(r)[:100]}", "fetch")
    for name, want in (("_load_provider_index", "provider.load_index()"), ("_fetch_image", "image.fetch()")):
        ps = ctx.paths(f"{O}.{name}", noinline=("zigpy.ota.*",), handler_inject=False)
        for p in ps:
            ctx.ob("provider-for-device", p.outcome.kind == "raise" or p.ret is not None and contains(norm(p.ret), ps.T(want)), ps, f"{name} gives {show(p.ret or C(None))[:60]}", name)
            en = [e for e in p.events if e.kind == "enter" and "timeout" in (e.name or "")]
            cl = calls(p, want.split(".")[1][:-2], ok=None)
            ctx.ob("failure-isolated", bool(en) and bool(cl) and index(p, en[0]) < index(p, cl[0]) or any("wait_for" in (e.name or "") for e in p.events), ps, "a provider that never answers blocks the query", name)
    ps = ctx.paths(f"{P}.BaseOtaProvider.compatible_with_device", handler_inject=False)
    mid = ps.T("device.manufacturer_id")
    for ids, m, want in (((), 5, True), ((), None, True), ((5,), 5, True), ((5,), 6, False), ((5, 6), 6, True), ((5,), None, False)):
        got = truths(ps, {ps.T("self.manufacturer_ids"): ids, mid: m})
        ctx.ob("provider-for-device", got == {want}, ps, f"a provider for {ids} is consulted for manufacturer {m}: {sorted(map(str, got))}", f"{ids}{m}")
    Z = "zigpy.zcl.clusters.general.Ota"
    ps = ctx.paths(f"{Z}._handle_query_next_image", noinline=("zigpy.ota.*", "zigpy.zcl.*", "zigpy.util.*"), handler_inject=False)
    n = 0
    for p in ps:
        if p.outcome.kind == "raise":
            continue
        rs = calls(p, "query_next_image_response")
        st = ps.bound(rs[0], ("status",)).get("status") if rs else None
        ctx.ob("query-answered", len(rs) == 1 and st is not None and norm(st) == ps.T("foundation.Status.NO_IMAGE_AVAILABLE") and norm(dict(rs[0].kwargs).get("tsn", C(None))) == ps.T("hdr.tsn"), ps, "the device's query is not answered (it would keep asking)", "answer")
        for e in calls(p, "get_ota_images"):
            n += 1
            b = ps.bound(e, ("device", "query_cmd"))
            ctx.ob("constraint-respected", norm(b.get("device", C(None))) == ps.T("self.endpoint.device") and norm(b.get("query_cmd", C(None))) == ("param", "cmd"), (ps.func, e.node), f"images are looked up by {show(e.value)[:100]}", "lookup")
            ev = [x for x in calls(p, "listener_event") if any(contains(norm(a), norm(e.value)) for a in x.args)]
            for x in ev:
                a = [norm(y) for y in x.args]
                ctx.ob("constraint-respected", a == [C("device_ota_image_query_result"), norm(e.value), ("param", "cmd")], (ps.func, x.node), f"reported: {[show(y)[:40] for y in a]}", "report")
            ctx.ob("constraint-respected", len(ev) == 1 and norm(ev[0].base) == ps.T("self.endpoint.device"), ps, "the result is reported to nobody or somebody else", "event")
    ctx.ob("constraint-respected", n >= 1, ps, "a device's query finds no images", "n")


# index keys that hold one name, and those that hold a list of names
ONE_NAME = {"productName", "model", "model_id", "modelId"}
MANY_NAMES = {"manufacturerName", "manufacturer_names", "model_names"}


def described(ctx):
    """Each provider carries every constraint of an index entry over to the image's description."""
    for prov, want in c21.INDEX.items():
        ps, got = c21.entries(ctx, prov, f"{P}.{prov}.{c21.LOADER.get(prov, '_load_index')}")
        ctx.need("index entries", len(got), 1, f"entries offered by {prov}")
        for p, e, cls, kw in got:
            which = {f for fs in want.values() for f in fs} - set(c21.INTEGRITY)
            c21.fields(ctx, ps, p, prov, cls, kw, which, "constraint-carried-over")
            extra = {f for f in kw if (f.startswith(("min_", "max_")) or f in ("manufacturer_id", "image_type", "manufacturer_names", "model_names")) and f not in want.get(cls, ())}
            ctx.ob("constraint-carried-over", not extra, ps, f"{prov}: {sorted(extra)} of an image comes from nowhere in the index", f"{cls}.extra")
            for f in ("manufacturer_names", "model_names"):
                t = kw.get(f)
                if t is not None and f in want.get(cls, ()):
                    listed = t[0] == "tuple" or t[0] == "call" and t[1] in (("glob", "builtins.tuple"),)
                    ks = c21.INDEX[prov][cls][f]
                    inner = t[1] if t[0] == "tuple" else t[2] if t[0] == "call" else ()
                    one = len(inner) == 1 and inner[0][0] == "idx"
                    ctx.ob("constraint-carried-over", not (one and t[0] == "call" and ks & ONE_NAME), ps, f"{prov}: {f} is {show(t)[-60:]}, the letters of one name", f"{cls}.{f}.letters")
                    ctx.ob("constraint-carried-over", not (one and t[0] == "tuple" and ks & MANY_NAMES), ps, f"{prov}: {f} is {show(t)[-60:]}, a list of lists", f"{cls}.{f}.nested")
                    ctx.ob("constraint-carried-over", listed, ps, f"{prov}: {f} is {show(t)[:60]}, not a list of names", f"{cls}.{f}.list")
            v = kw.get("file_version", C(None))
            ix = {x[2][1]: x for x in subterms(v) if x[0] == "idx" and x[2][0] == "const" and isinstance(x[2][1], str)}
            if "fw_file_version_MSB" in ix and "fw_file_version_LSB" in ix:
                val = ctx.kit.teval(v, {ix["fw_file_version_MSB"]: 0x1234, ix["fw_file_version_LSB"]: 0x5678})
                ctx.ob("version-read", val == 0x12345678, ps, f"{prov}: halves 0x1234 and 0x5678 make version {val!r}", "halves")
            if prov == "Salus" and "version" in ix:
                ctx.ob("version-read", ctx.kit.teval(v, {ix["version"]: "1A"}) == 26, ps, f"{prov}: version '1A' is read as {ctx.kit.teval(v, {ix['version']: '1A'})!r}", "hex")
            if prov == "Inovelli" and "version" in ix:
                for text, num in (("0B", 11), ("12", 12), ("99", 99)):
                    if ps.consistent(p, {ix["version"]: text}, upto=e, trail=True):
                        ctx.ob("version-read", ctx.kit.teval(v, {ix["version"]: text}) == num, ps, f"{prov}: version {text!r} is read as {ctx.kit.teval(v, {ix['version']: text})!r}", text)
            if prov == "Ledvance":
                ctx.ob("version-read", C(16) in set(subterms(v)), ps, f"{prov}: the version is read as {show(v)[:80]}", "base")
            if prov == "Tradfri":
                types = {x for x in subterms(kw.get("image_type", C(None))) if x[0] == "idx" and x[2] == C("fw_image_type")}
                read = {x for _, a, _v in p.trail for x in subterms(norm(a)) if x[0] == "attr" and x[2] == "image_type"}
                for t in types:
                    for bad in (8704, 8710):
                        ctx.ob("bricking-image-withheld", not ps.consistent(p, {t: bad, **{x: bad for x in read}}, trail=True), ps, f"{prov} offers an image of type {bad}, known to brick devices", f"{bad}")
                    ctx.ob("other-images-offered", cls != "IkeaRemoteOtaImageMetadata" or ps.consistent(p, {t: 4353, **{x: 4353 for x in read}}, trail=True), ps, f"{prov} withholds ordinary images", "ok")
                if cls == "SignedIkeaRemoteOtaImageMetadata":
                    kinds = {x for _, a, _v in p.trail for x in subterms(norm(a)) if x[0] == "idx" and x[2] == C("fw_type")}
                    ctx.ob("other-images-offered", any(ps.consistent(p, {t: 2}, trail=True) and not ps.consistent(p, {t: 3}, trail=True) for t in kinds), ps, f"{prov} offers entries that are no device firmware", "type")
    ps, got = c21.entries(ctx, "AdvancedFileProvider", f"{P}.AdvancedFileProvider._load_index")
    want = {"file_version": "file_version", "manufacturer_id": "manufacturer_id", "image_type": "image_type", "min_hardware_version": "minimum_hardware_version", "max_hardware_version": "maximum_hardware_version"}
    for p, e, cls, kw in got:
        for f, h in want.items():
            t = kw.get(f, C(None))
            ctx.ob("constraint-carried-over", t[0] == "attr" and t[2] == h and t[1][0] == "attr" and t[1][2] == "header", ps, f"folder: {f} of an image is {show(t)[:60]}", f)


RULES = [compat, version, specificity, offered, plumbing, described]
