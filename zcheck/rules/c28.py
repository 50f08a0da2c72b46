"""Quirk replacement is exact, deterministic and preserves device state."""
import ast

from ..core import UNK, calls, index, norm, sets, show
from ..lib import is_const, loops_over, subst
from ..walk import State, contains, subterms

Q = "zigpy.quirks."
REG = Q + "registry.DeviceRegistry"
BASE = Q + "BaseCustomDevice"
EP = "zigpy.endpoint.Endpoint"
V2 = Q + "v2."
CONST = "zigpy.const."
SERVER, CLIENT = "server", "client"


def key(ctx, name):
    m = ctx.p.module("zigpy.const")
    return ctx.kit.consteval(m, m.assigns[name])


def size(t):
    """Number of elements of a list display, None when it is not one."""
    if t[0] == "call" and t[1] == ("glob", "builtins.len") and t[2] and t[2][0][0] in ("list", "tuple", "set"):
        return len(t[2][0][1])
    return t[1] if t[0] == "const" and isinstance(t[1], int) and not isinstance(t[1], bool) else None


def possible(p):
    """Not contradicted by the length of a list which was filled on the path itself."""
    for _, at, v in p.trail:
        a = norm(at)
        if a[0] in ("eq", "lt", "le") and len(a) == 3:
            x, y = size(a[1]), size(a[2])
            if x is not None and y is not None:
                if {"eq": x == y, "lt": x < y, "le": x <= y}[a[0]] != v:
                    return False
        if a[0] == "truthy" and a[1][0] == "list" and bool(a[1][1]) != v:
            return False
    return True


def facts(p):
    return [(norm(at), v) for _, at, v in p.trail]


# --- who matches ----------------------------------------------------------------------------------------------


def equalities(fs):
    """Pairs of terms known to be equal, including element-wise ones established by all()/any()."""
    def of(t, pol):
        while t[0] in ("not", "truthy"):
            pol = pol != (t[0] == "not")
            t = t[1]
        if t[0] == "cmp" and (t[1] in ("==", "is")) == pol and t[1] in ("==", "is", "!=", "is not"):
            yield t[2], t[3]
        elif t[0] == "eq" and pol:
            yield t[1], t[2]
        elif t[0] == "boolop" and (t[1] == "and") == pol:
            for x in t[2]:
                yield from of(x, pol)
        elif t[0] == "call" and t[1] in (("glob", "builtins.all"), ("glob", "builtins.any")) and t[2] and t[2][0][0] == "comp" and (t[1][1] == "builtins.all") == pol and not any(cs for _, cs in t[2][0][3]):
            yield from of(t[2][0][2], pol)
    for a, v in fs:
        yield from of(a, v)


def unwrap(t):
    while t[0] == "call" and (t[1][0] == "glob" and t[1][1].rpartition(".")[2] in ("set", "frozenset") and len(t[2]) == 1 or t[1][0] == "attr" and t[1][2] == "keys" and not t[2]):
        t = t[2][0] if t[1][0] == "glob" else t[1][1]
    return t


def setlike(t):
    return t[0] == "call" and (t[1][0] == "glob" and t[1][1].rpartition(".")[2] in ("set", "frozenset") or t[1][0] == "attr" and t[1][2] == "keys") or t[0] == "bin" and t[1] in ("-", "|", "&") or t[0] == "comp" and t[1] == "set"


def matching(ctx):
    """A signature matches only when every criterion it declares is equal to the device's."""
    R = "match-exact"
    ps = ctx.paths(Q + "signature_matches")
    lam = next((p.ret for p in ps if p.normal and p.ret is not None and p.ret[0] == "lam" and p.ret[1] in ps.w.closures), None)
    if lam is None:
        return
    w, c = ps.w, ps.w.closures[lam[1]]
    name = c.node.args.args[0].arg if hasattr(c.node, "args") and c.node.args.args else "device"
    dev, sig = ("param", name), ("param", "signature")
    w.frames.append((c.frame, None))
    try:
        runs = [(norm(v) if isinstance(v, tuple) else None, [(norm(a), x) for a, x in s.facts.items()], s.event_list()) for s, v in w._call_closure(lam, (dev + (None,),), (), State(), c.node)]
    finally:
        w.frames.pop()
    ctx.note("signature matcher paths", len(runs)) if hasattr(ctx, "note") else None
    ok = [r for r in runs if r[0] is not None and is_const(r[0], True)]
    other = [r for r in runs if r[0] is None or r[0][0] != "const"]
    # the last criterion may be returned directly
    for r, fs, ev in other:
        if r is not None:
            ok.append((r, fs + [(("truthy", r), True)], ev))
    ctx.ob(R, bool(ok), ps, "no device matches any signature", "none")
    epk = key(ctx, "SIG_ENDPOINTS")

    def mentions(t, k):
        return any((x[0] == "call" and x[1][0] == "attr" and x[1][2] == "get" and x[2][:1] == (("const", k),) or x[0] == "idx" and x[2] == ("const", k)) and contains(x, sig) for x in subterms(t))

    def fallback(t, k):
        """What an undeclared criterion stands for: a term, or None when nothing was given."""
        for x in subterms(t):
            if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "get" and x[2][:1] == (("const", k),):
                return x[2][1] if len(x[2]) > 1 else ("const", None)
        return None

    def own(t, attr):
        t = unwrap(t)
        return t[0] == "attr" and t[2] == attr and contains(t[1], dev)

    def declared(fs, k):
        return any(a[0] == "in" and a[1] == ("const", k) and not v for a, v in fs)

    def criterion(fs, attr, k, sets_):
        for x, y in equalities(fs):
            for d, s in ((x, y), (y, x)):
                if own(d, attr) and mentions(s, k) and (attr in ("model", "manufacturer") or unwrap(d)[1] != dev):
                    if sets_ and not (setlike(d) or setlike(s)):
                        continue
                    fb = fallback(s, k)
                    if sets_ and contains(s, dev):
                        return f"a signature without {k} takes whatever the device has"
                    if sets_ and fb is not None and (fb[0] == "const" or fb[0] in ("list", "tuple", "set", "dict") and fb[1]):
                        return f"a signature without {k} cannot be compared"
                    if not sets_ and fb is not None and fb != d:
                        return f"a signature without {k} matches only devices whose {attr} is {show(fb)[:40]}"
                    return True
        return declared(fs, k)

    crit = [("model", "SIG_MODEL", False), ("manufacturer", "SIG_MANUFACTURER", False), ("profile_id", "SIG_EP_PROFILE", False), ("device_type", "SIG_EP_TYPE", False), ("in_clusters", "SIG_EP_INPUT", True), ("out_clusters", "SIG_EP_OUTPUT", True)]
    for attr, k, s in crit:
        k = key(ctx, k)
        seen = False
        for r, fs, ev in ok:
            got = criterion(fs, attr, k, s)
            seen = seen or bool(got)
            empty = any(e.kind == "loopend" for e in ev) and not any(e.kind == "loopiter" for e in ev)
            ctx.ob(R, got is True or not got and empty, ps, got if isinstance(got, str) else f"a device with another {attr} matches the signature", attr)
        ctx.ob(R, seen, ps, f"{attr} of the device is never compared", attr + "n")
    for r, fs, ev in ok:
        good = False
        for x, y in equalities(fs):
            for d, s in ((x, y), (y, x)):
                if mentions(s, epk) and any(z == ("attr", dev, "endpoints") or z == ("attr", dev, "non_zdo_endpoints") for z in subterms(d)) and unwrap(s)[0] != "elem" and not any(z[0] == "elem" for z in subterms(s)):
                    good = True
                    zdo = any(z[0] == "const" and z[1] == 0 for z in subterms(d)) or contains(d, ("attr", dev, "non_zdo_endpoints")) or any(z[0] == "cmp" for z in subterms(d)) or contains(s, ("const", 0))
                    ctx.ob(R, zdo, ps, "the device's own management endpoint is compared with the declared ones: nothing matches", "zdo")
        ctx.ob(R, good, ps, "a device with other endpoints than the declared ones matches", "endpoints")
        for x in {y for a, v in fs for y in subterms(a) if y[0] == "call" and y[1] == ("attr", sig, "get") and y[2][:1] == (("const", epk),) and len(y[2]) == 1}:
            known = any(a == ("is", x, ("const", None)) and not v or a == ("truthy", x) and v for a, v in fs)
            ctx.ob(R, known, ps, "a signature without endpoints cannot be compared", "undeclared use")
    for r, fs, ev in runs:
        if r is not None and is_const(r, True):
            ctx.ob(R, not any(a[0] == "is" and a[2] == ("const", None) and v and mentions(a[1], epk) for a, v in fs), ps, "a signature without endpoints matches every device", "undeclared")
    # all filters of a declarative quirk
    ps = ctx.paths(V2 + "QuirksV2RegistryEntry.matches_device")
    filters = ps.T("self.filters")
    for p in ps:
        if not p.normal or p.ret is None:
            continue
        r = norm(p.ret)
        if r[0] == "call" and r[1][0] == "glob" and r[1][1] in ("builtins.all", "builtins.any") and r[2] and r[2][0][0] == "comp":
            co = r[2][0]
            ctx.ob(R, r[1][1] == "builtins.all" and not any(cs for _, cs in co[3]) and norm(co[3][0][0]) == filters, ps, "not every filter has to agree", "filters")
            ctx.ob(R, co[2][0] == "call" and co[2][1] == ("elem", filters) and co[2][2] == (("param", "device"),), ps, f"a filter is asked about {show(co[2])}", "filter arg")
        elif is_const(r, True):
            asked = [(a, v) for a, v in facts(p) if contains(a, ("elem", filters))]
            n = len(loops_over(p, filters, "loopiter"))
            ctx.ob(R, all(v for _, v in asked) and (len(loops_over(p, filters)) >= 1) and (not n or asked), ps, "not every filter has to agree", "filters")


# --- which one is chosen --------------------------------------------------------------------------------------


def choice(ctx):
    """Replaced devices stay; declarative quirks must be unambiguous; then by specificity, newest first."""
    R = "choice"
    ps = ctx.paths(REG + ".get_device", noinline=(V2 + "QuirksV2RegistryEntry.*", Q + "signature_matches"))
    dev = ("param", "device")
    raised = False
    reg2 = ps.T("self._registry_v2")
    kreg = ("tuple", (("attr", dev, "manufacturer"), ("attr", dev, "model")))
    tested = 0
    for p in ps:
        fs = facts(p)
        custom = [v for a, v in fs if a[0] == "isinstance" and a[1] == dev and contains(a[2], ("glob", BASE))]
        r = norm(p.ret) if p.ret is not None else None
        if custom and custom[0]:
            ctx.ob(R, p.normal and r == dev and not calls(p), ps, "a replaced device is replaced again", "again")
            tested += 1
            continue
        ctx.ob(R, bool(custom), ps, "a device is not asked whether it was replaced already", "asked")
        if not possible(p):
            continue
        asked = calls(p, "matches_device")
        yes = []
        for e in asked:
            ctx.ob(R, [norm(a) for a in e.args] == [dev], ps, "a quirk is matched against something else than the device", "match arg")
            src = norm(e.base)
            ctx.ob(R, contains(src, ("idx", reg2, kreg)) or contains(src, reg2) and contains(src, kreg), ps, f"declarative quirks of {show(src)[:60]} are tried", "v2 key")
        hits = [a for a, v in fs if v and a[0] == "truthy" and a[1][0] == "call" and a[1][1][0] == "attr" and a[1][1][2] == "matches_device"]
        comps = [x for a, v in fs for x in subterms(a) if x[0] == "comp" and any("matches_device" in show(c) for _, cs in x[3] for c in cs)]
        if p.outcome.kind == "raise":
            if any(x.kind == "raise" and x.name.endswith("MultipleQuirksMatchException") for x in p.events):
                raised = True
            continue
        made = [e for e in calls(p, "create_device")]
        n_hits = sum(1 for e in asked if ("truthy", norm(e.term if getattr(e, "term", None) is not None else e.value)) in [a for a, v in fs if v]) if False else len(hits)
        # the same element of a loop may match in both of its iterations
        its = [e for e in p.events if e.kind == "loopiter" and contains(norm(e.base), reg2)]
        if made:
            e = made[0]
            ctx.ob(R, len(made) == 1 and r == norm(e.term) if getattr(e, "term", None) is not None else True, ps, "the replacement made by a declarative quirk is not what is returned", "v2 ret")
            ctx.ob(R, [norm(a) for a in e.args] == [dev], ps, "a declarative quirk replaces another device", "v2 dev")
            ctx.ob(R, bool(hits) or bool(comps), ps, "a declarative quirk which does not match is applied", "v2 hit")
        elif hits and not comps:
            ctx.ob(R, False, ps, "a declarative quirk which matches is not applied", "v2 skipped")
    ctx.ob(R, raised, ps, "several matching declarative quirks are not reported: one of them is taken arbitrarily", "ambiguous")
    ctx.need(R, tested, 1, "paths for a replaced device")
    # with two entries both matching, nothing is returned
    for p in ps:
        if not possible(p) or not p.normal:
            continue
        lists = {x for a, v in facts(p) for x in subterms(a) if x[0] == "list" and len(x[1]) >= 2 and all(contains(y, reg2) for y in x[1])}
        made = calls(p, "create_device")
        ctx.ob(R, not (lists and made), ps, "with two matching declarative quirks one of them is applied", "two")
    # classic quirks: order of candidates
    R2 = "specific-first"
    reg = [ps.T("self.registry"), ps.T("self._registry")]
    m, mo, no = ("attr", dev, "manufacturer"), ("attr", dev, "model"), ("const", None)
    want = [(m, mo), (m, no), (no, mo), (no, no)]

    def source(t):
        if t[0] == "idx" and t[1][0] == "idx" and t[1][1] in reg:
            return (t[1][2], t[2])
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and t[2]:
            x = t[1][1]
            if x[0] == "idx" and x[1] in reg:
                return (x[2], t[2][0])
        return None

    def sources(t):
        """Order in which a term reaches the candidate lists, None when it is not understood."""
        if source(t):
            return [source(t)]
        if t[0] == "call" and t[1][0] == "glob" and t[1][1] in ("itertools.chain",):
            out = []
            for x in t[2]:
                if x[0] == "starred":
                    return None
                s = sources(x)
                if s is None:
                    return None
                out += s
            return out
        if t[0] in ("list", "tuple"):
            out = []
            for x in t[1]:
                s = sources(x[1] if x[0] == "starred" else x)
                if s is None:
                    return None
                out += s
            return out
        if t[0] == "bin" and t[1] == "+":
            a, b = sources(t[2]), sources(t[3])
            return a + b if a is not None and b is not None else None
        if t[0] == "call" and t[1][0] == "glob" and t[1][1] == "builtins.list" and t[2]:
            return sources(t[2][0])
        return None
    found = False
    for p in ps:
        its = [e for e in p.events if e.kind in ("loopiter", "loopend") and any(contains(norm(e.base), x) for x in reg)]
        if its:
            s = sources(norm(its[0].base))
            if s is not None:
                found = True
                ctx.ob(R2, s == want, ps, "candidates are tried in the order " + ", ".join(f"{show(a)}/{show(b)}" for a, b in s), "order")
        cons = [e for e in calls(p) if len(e.args) == 4 and norm(e.args[-1]) == dev and (fn(e) or ("?",))[0] == "elem"]
        r = norm(p.ret) if p.ret is not None else None
        mt = [(a, v) for a, v in facts(p) if a[0] == "truthy" and a[1][0] == "call" and a[1][1][0] == "call" and a[1][1][1] == ("glob", Q + "signature_matches")]
        for a, v in mt:
            ctx.ob(R2, a[1][2] == (dev,) and contains(a[1][1], ("param", "device")), ps, "a quirk is matched against something else than the device", "v1 arg")
        if p.normal and cons:
            e = cons[0]
            ctx.ob(R2, len(cons) == 1, ps, "a device is replaced twice", "v1 once")
            ctx.ob(R2, bool(mt) and mt[-1][1], ps, "a quirk which does not match is applied", "v1 hit")
            if mt:
                sg = mt[-1][0][1][1][2]
                ctx.ob(R2, len(sg) == 1 and sg[0] == ("attr", fn(e), "signature"), ps, "a quirk is applied on another quirk's signature", "v1 sig")
            args = [norm(x) for x in e.args]
            ctx.ob(R2, args[0] in (("attr", dev, "_application"), ("attr", dev, "application")) and args[1] == ("attr", dev, "ieee") and args[2] == ("attr", dev, "nwk"), ps, f"the replacement is made from {', '.join(show(x) for x in args)}", "v1 ids")
            ctx.ob(R2, r is not None and r[0] == "call" and r[1] == fn(e), ps, "the replacement is not what is returned", "v1 ret")
        elif p.normal and mt and mt[-1][1] and not cons:
            ctx.ob(R2, False, ps, "a quirk which matches is not applied", "v1 skipped")
        elif p.normal and r is not None and not calls(p, "create_device") and possible(p) and not mt:
            ctx.ob(R2, r == dev, ps, f"without a quirk the device becomes {show(r)[:60]}", "v1 none")
        if p.normal and mt:
            # the first match ends the search
            hit = next((i for i, (a, v) in enumerate(mt) if v), None)
            ctx.ob(R2, hit is None or hit == len(mt) - 1, ps, "a later candidate wins over an earlier one", "v1 first")
    # newest first
    R3 = "newest-first"
    ps = ctx.paths(REG + ".add_to_registry")
    cd = ("param", "custom_device")
    put = 0
    for p in ps:
        ins = [e for e in calls(p, ("insert", "append", "appendleft", "add")) if any(norm(a) == cd for a in e.args)]
        for e in ins:
            put += 1
            ctx.ob(R3, e.name == "insert" and is_const(norm(e.args[0]), 0) or e.name == "appendleft", ps, "a newly registered quirk is tried after the older ones", "front")
            where(ctx, R3, ps, e, cd, key)
        for e in p.events:
            if e.kind == "setidx" and e.value is not None and contains(norm(e.value), cd):
                put += 1
                v = norm(e.value)
                if v[0] == "bin" and v[1] == "+":
                    ctx.ob(R3, contains(v[2], cd), ps, "a newly registered quirk is tried after the older ones", "front")
        if p.normal and not ins:
            known = any(a[0] == "in" and a[1] == cd and v for a, v in facts(p))
            info = [a for a, v in facts(p) if a[0] == "truthy" and v and contains(a, ("const", key(ctx, "SIG_MODELS_INFO")))]
            done = any(e.kind == "setidx" for e in p.events)
            ctx.ob(R3, known or bool(info) or done, ps, "a quirk is not registered", "registered")
    ctx.need(R3, put, 2, "registrations of a quirk")
    ps = ctx.paths(REG + ".remove")
    gone = 0
    for p in ps:
        v2 = [v for a, v in facts(p) if ("const", "quirk_metadata") in a or contains(a, ("const", "quirk_metadata")) or a[0] == "isinstance" and a[1] == cd]
        rm = [e for e in calls(p, ("remove", "discard")) if e.base is not None and e.args]
        if p.normal and v2:
            ctx.ob("removable", (len(rm) == 1 and norm(rm[0].args[0]) == ("attr", cd, "quirk_metadata")) if v2[-1] else all(norm(e.args[0]) == cd for e in rm), ps, "a declarative quirk is not removed", "v2 rm")
            if not v2[-1]:
                its = [e for e in p.events if e.kind in ("loopiter", "loopend")]
                ctx.ob("removable", bool(rm) or bool(its), ps, "a quirk is not removed", "v1 rm")
        else:
            ctx.ob("removable", not p.normal, ps, "removing does not tell declarative quirks from others", "v2 which")
        for e in calls(p, "remove"):
            if e.base is None or not e.args:
                continue
            gone += 1
            if norm(e.args[0]) == cd:
                where(ctx, "removable", ps, e, cd, key)
            else:
                ctx.ob("removable", norm(e.args[0]) == ("attr", cd, "quirk_metadata") and contains(norm(e.base), ("tuple", (("attr", cd, "manufacturer"), ("attr", cd, "model")))), ps, f"{show(norm(e.args[0]))} is removed from {show(norm(e.base))[:70]}", "v2")
    ctx.need("removable", gone, 3, "removals of a quirk")
    ps = ctx.paths(REG + ".add_to_registry_v2")
    for p in ps:
        if p.normal:
            ok = [e for e in calls(p, ("add", "append")) if [norm(a) for a in e.args] == [("param", "entry")]]
            ctx.ob(R3, len(ok) == 1, ps, "a declarative quirk is not registered", "v2")
            for e in ok:
                b = norm(e.base)
                ctx.ob(R3, b == ("idx", ps.T("self._registry_v2"), ("tuple", (("param", "manufacturer"), ("param", "model")))) or b[0] != "idx", ps, f"a declarative quirk is registered under {show(b)}", "v2 key")


def fn(e):
    t = norm(e.term) if getattr(e, "term", None) is not None else None
    return t[1] if t is not None and t[0] == "call" else None


def where(ctx, R, ps, e, cd, key):
    """A classic quirk lives under its own manufacturer and model."""
    b = norm(e.base)
    sig = ("attr", cd, "signature")
    if b[0] == "idx" and b[1][0] == "idx":
        man, mod = b[1][2], b[2]
        info = [x for x in subterms(man) if x[0] == "elem"]
        if info:
            ctx.ob(R, contains(info[0], sig) and man == ("idx", info[0], ("const", 0)) and mod == ("idx", info[0], ("const", 1)), ps, f"the quirk is filed under {show(man)[:50]} / {show(mod)[:50]}", "where")
        else:
            ctx.ob(R, contains(man, sig) and contains(man, ("const", key(ctx, "SIG_MANUFACTURER"))) and contains(mod, sig) and contains(mod, ("const", key(ctx, "SIG_MODEL"))), ps, f"the quirk is filed under {show(man)[:50]} / {show(mod)[:50]}", "where")


# --- what the replacement looks like --------------------------------------------------------------------------


def state(ctx):
    """Identity, addresses, measurements and descriptors come from the device, unless overridden."""
    R = "state-kept"
    ps = ctx.paths(BASE + ".__init__", noinline=("zigpy.device.*", BASE + ".add_endpoint"))
    old = ("param", "replaces")
    rep = ps.T("self.replacement")
    always = ("lqi", "rssi", "last_seen", "relays")
    maybe = ("status", "SIG_NODE_DESC", "SIG_MANUFACTURER", "SIG_MODEL", "SIG_SKIP_CONFIG")
    for a in maybe:
        a = a if a == "status" else key(ctx, a)
        vals = [norm(e.value) for p in ps if p.normal for e in sets(p) if e.name in (a, "_" + a)]
        ctx.ob(R, any(contains(v, rep) for v in vals), ps, f"{a} declared by the quirk is ignored", a + "over")
        ctx.ob(R, any(contains(v, old) for v in vals), ps, f"{a} of the device is lost", a + "keep")
    for p in ps:
        if not p.normal:
            continue
        sup = calls(p, "__init__")
        ctx.ob(R, len(sup) == 1 and [norm(a) for a in sup[0].args] + [norm(v) for _, v in sup[0].kwargs] == [("param", x) for x in ("application", "ieee", "nwk")], ps, "the replacement has another identity or address", "ids")
        for a in always:
            got = [norm(e.value) for e in sets(p) if e.name in (a, "_" + a)]
            ctx.ob(R, bool(got) and got[-1] in (("attr", old, a), ("attr", old, "_" + a)), ps, f"{a} of the device is lost" if not got else f"{a} becomes {show(got[-1])}", a)
        for a in maybe:
            a = a if a == "status" else key(ctx, a)
            got = [norm(e.value) for e in sets(p) if e.name in (a, "_" + a)]
            over = [v for at, v in facts(p) if at == ("in", ("const", a), rep)]
            if not got:
                ctx.ob(R, False, ps, f"{a} of the device is lost", a)
                continue
            kept = got[-1] in (("attr", old, a), ("attr", old, "_" + a))
            repl = got[-1] == ("idx", rep, ("const", a))
            dflt = got[-1][0] == "call" and got[-1][1] == ("attr", rep, "get") and got[-1][2] == (("const", a), ("attr", old, a))
            ctx.ob(R, dflt or kept and not (over and over[-1]) or repl and over and over[-1], ps, f"{a} becomes {show(got[-1])} whether it is overridden or not" if repl or kept else f"{a} becomes {show(got[-1])[:70]}", a)
        eps = [e for e in p.events if e.kind in ("loopiter", "loopend") and e.base is not None and contains(norm(e.base), ("const", key(ctx, "SIG_ENDPOINTS")))]
        ctx.ob("endpoints-declared", bool(eps), ps, "declared endpoints are not created", "eps")
        for e in eps:
            if e.kind == "loopiter":
                i = index(p, e)
                mk = [x for x in p.events[i + 1:] if x.kind == "call" and x.name == "add_endpoint"]
                ok = bool(mk) and norm(mk[0].args[0])[0] in ("elem", "idx") and dict((k, norm(v)) for k, v in mk[0].kwargs).get("replace_device", norm(mk[0].args[1]) if len(mk[0].args) > 1 else None) == old
                ctx.ob("endpoints-declared", ok, ps, "a declared endpoint is not created", "ep")
    # one endpoint
    ps = ctx.paths(BASE + ".add_endpoint", noinline=("zigpy.device.*", Q + "CustomEndpoint.*"))
    made = 0
    for p in ps:
        if not p.normal:
            continue
        for a, v in facts(p):
            for x in subterms(a):
                if x[0] == "call" and x[1] == ("attr", ps.T("self.replacement"), "get") and len(x[2]) == 1 and a[0] == "in":
                    ctx.ob("endpoints-declared", any(b == ("truthy", x) and w or b == ("is", x, ("const", None)) and not w for b, w in facts(p)), ps, "a quirk which declares no endpoints cannot add one", "none")
        own = [v for a, v in facts(p) if a[0] == "in" and a[1] == ("param", "endpoint_id") and contains(a[2], ("const", key(ctx, "SIG_ENDPOINTS")))]
        sup = calls(p, "add_endpoint")
        if own and not own[-1]:
            ctx.ob("endpoints-declared", len(sup) == 1 and [norm(a) for a in sup[0].args] == [("param", "endpoint_id")], ps, "an endpoint which is not declared is not added", "plain")
            continue
        mk = [e for e in calls(p) if [norm(a) for a in e.args[:2]] == [("self", None), ("param", "endpoint_id")] or len(e.args) == 4 and norm(e.args[0])[0] == "self"]
        if not mk:
            continue
        e = mk[0]
        made += 1
        args = [norm(a) for a in e.args]
        tup = [v for a, v in facts(p) if a[0] == "isinstance" and contains(a[2], ("glob", "builtins.tuple"))]
        data = args[2] if len(args) > 2 else None
        entry = [x for x in subterms(data or ("const", None)) if x[0] == "idx" and x[2] == ("param", "endpoint_id")]
        if tup and data is not None and entry:
            if tup[-1]:
                ctx.ob("endpoints-declared", data == ("idx", entry[-1], ("const", 1)) and fn(e) == ("idx", entry[-1], ("const", 0)), ps, f"a declared endpoint class is not used: {show(fn(e))[:60]}", "custom ep")
            else:
                ctx.ob("endpoints-declared", data == entry[0] and fn(e) == ("glob", Q + "CustomEndpoint"), ps, "the endpoint is made from something else than its declaration", "ep data")
        ctx.ob("endpoints-declared", args[-1] == ("param", "replace_device") and args[1] == ("param", "endpoint_id"), ps, "the endpoint is made for another number or device", "ep args")
        st = [x for x in p.events if x.kind == "setidx" and norm(x.base) == ps.T("self.endpoints")]
        ctx.ob("endpoints-declared", len(st) == 1 and norm(st[0].args[0]) == ("param", "endpoint_id") and norm(st[0].value) == norm(e.term), ps, "the created endpoint is not the one found on the device", "ep stored")
        ctx.ob("endpoints-declared", p.ret is not None and norm(p.ret) == norm(e.term), ps, "the created endpoint is not returned", "ep ret")
    ctx.need("endpoints-declared", made, 2, "paths creating an endpoint")


def clusters(ctx):
    """Each endpoint gets the declared clusters in their role, its declared or inherited profile and type, and copied caches."""
    R = "clusters-declared"
    ps = ctx.paths(Q + "CustomEndpoint.__init__", noinline=("zigpy.endpoint.*", "zigpy.zcl.*"))
    data, oldp = ("param", "replacement_data"), ("param", "replace_device")
    roles = {"add_input_cluster": (key(ctx, "SIG_EP_INPUT"), True, "in_clusters"), "add_output_cluster": (key(ctx, "SIG_EP_OUTPUT"), False, "out_clusters")}
    n = 0
    copied = {"in_clusters": set(), "out_clusters": set()}
    classes = {True: 0, False: 0}
    for p in ps:
        if not p.normal:
            continue
        sup = calls(p, "__init__")
        st = sets(p, "status")
        ctx.ob("endpoints-declared", bool(st) and not show(norm(st[-1].value)).endswith("NEW"), ps, "a replaced endpoint counts as not initialized", "status")
        for e in p.events:
            if e.kind in ("loopiter", "loopend") and e.base is not None and (b := norm(e.base))[0] == "call" and b[1] == ("attr", data, "get") and len(b[2]) == 1:
                ctx.ob(R, any(a in (("truthy", b), ("in", b[2][0], data)) and v or a == ("is", b, ("const", None)) and not v for a, v in facts(p)), ps, f"an endpoint which declares no {show(b[2][0])} cannot be created", "none declared")
        ctx.ob(R, len(sup) == 1 and [norm(a) for a in sup[0].args] == [("param", "device"), ("param", "endpoint_id")], ps, "the endpoint belongs to another device or number", "ids")
        for a in ("SIG_EP_PROFILE", "SIG_EP_TYPE"):
            a = key(ctx, a)
            got = [norm(e.value) for e in sets(p, a)]
            over = [v for at, v in facts(p) if at == ("in", ("const", a), data)]
            if not got:
                ctx.ob(R, False, ps, f"{a} of the endpoint is lost", a)
                continue
            g = got[-1]
            kept = g[0] == "attr" and g[2] == a and contains(g[1], oldp) and contains(g[1], ("param", "endpoint_id"))
            repl = g == ("idx", data, ("const", a))
            dflt = g[0] == "call" and g[1] == ("attr", data, "get")
            ctx.ob(R, dflt or kept and not (over and over[-1]) or repl and bool(over) and over[-1], ps, f"{a} becomes {show(g)[:60]}", a)
        for adder, (k, server, role) in roles.items():
            loops = [e for e in p.events if e.kind == "loopend" and e.base is not None and contains(norm(e.base), ("const", k)) and contains(norm(e.base), data)]
            ctx.ob(R, bool(loops), ps, f"declared {k} are not created", adder)
            its = [e for e in p.events if e.kind == "loopiter" and e.base is not None and contains(norm(e.base), ("const", k)) and contains(norm(e.base), data)]
            adds = [e for e in calls(p, adder)]
            ctx.ob(R, len(adds) == len(its), ps, f"{len(adds)} clusters are added for {len(its)} declared {k}", adder + "n")
            for e in adds:
                if not e.args:
                    continue
                n += 1
                el = [x for x in subterms(norm(e.args[0])) if x[0] == "elem"] + [x for a in list(e.args[1:]) + [v for _, v in e.kwargs] for x in subterms(norm(a)) if x[0] == "elem"]
                ctx.ob(R, bool(el) and contains(el[0], ("const", k)), ps, f"{adder} is given a cluster which is declared for the other role", adder + "role")
                cl = norm(e.args[1]) if len(e.args) > 1 else next((norm(v) for kk, v in e.kwargs if kk == "cluster"), ("const", None))
                if cl[0] == "call" and cl[1][0] == "elem":
                    role_ok(ctx, R, ps, cl, server, f"a cluster declared under {k}")
                    ctx.ob(R, norm(e.args[0]) == ("attr", cl, "cluster_id") or norm(e.args[0]) == ("attr", cl[1], "cluster_id"), ps, "a cluster is filed under another number", adder + "id")
                    isint = [v for at, v in facts(p) if at[0] == "isinstance" and at[1] == cl[1]]
                    ctx.ob(R, bool(isint) and not all(isint), ps, "a cluster number is used as a class", adder + "int")
                    classes[server] += 1
                elif cl == ("const", None):
                    ctx.ob(R, norm(e.args[0])[0] == "elem", ps, f"the cluster number {show(norm(e.args[0]))[:50]} is added", adder + "num")
            # caches: same endpoint, same cluster, same role
            for e in p.events:
                if e.kind == "setattr" and e.name in ("_attr_cache", "_attr_last_updated") and contains(norm(e.base), norm(adds[0].term) if adds else ("const", "-")) and adds:
                    v = norm(e.value)
                    src = [x for x in subterms(v) if x[0] == "attr" and x[2] == e.name]
                    ctx.ob("cache-copied", bool(src) and contains(v, oldp) and contains(v, ("param", "endpoint_id")), ps, f"{e.name} comes from {show(v)[:60]}", adder + "cache")
                    other = {"in_clusters": "out_clusters", "out_clusters": "in_clusters"}[role]
                    ctx.ob("cache-copied", any(x[0] == "attr" and x[2] == role for x in subterms(v)) and not any(x[0] == "attr" and x[2] == other for x in subterms(v)), ps, f"{e.name} comes from a cluster of the other role", adder + "cache role")
                    copied[role].add(e.name)
                    flag = [w for at, w in facts(p) if at == ("truthy", ps.T("self.device._copy_cluster_attr_cache"))]
                    ctx.ob("cache-copied", not flag or any(flag), ps, "caches are copied for classic quirks, and not for declarative ones", adder + "flag")
                    fs = facts(p)
                    known = [a for a, w in fs if a[0] == "in" and w and contains(a[2], oldp)]
                    ctx.ob("cache-copied", any(a[2][0] == "attr" and a[2][2] == role for a in known) or any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "get" and contains(x, oldp) for x in subterms(v)), ps, f"{e.name} is copied from a cluster which the device may not have", adder + "cache has")
                    ctx.ob("cache-copied", any(a[1] == ("param", "endpoint_id") for a in known) or any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "get" and contains(x, oldp) for x in subterms(v)), ps, f"{e.name} is copied from an endpoint which the device may not have", adder + "cache ep")
                    ctx.ob("cache-copied", v[0] == "call" and (v[1][0] == "attr" and v[1][2] == "copy" or v[1][0] == "glob"), ps, f"{e.name} is shared with the device that was replaced", adder + "copy")
            cp = [v for at, v in facts(p) if at == ("truthy", ps.T("self.device._copy_cluster_attr_cache"))]
            if its and cp and all(cp):
                there = [v for at, v in facts(p) if at[0] == "in" and any(x[0] == "attr" and x[2] == role and contains(x, oldp) for x in subterms(at[2])) and contains(at[2], oldp)]
                if there and there[-1]:
                    names = {e.name for e in p.events if e.kind == "setattr" and e.name in ("_attr_cache", "_attr_last_updated") and any(x[0] == "attr" and x[2] == role for x in subterms(norm(e.value)))}
                    ctx.ob("cache-copied", names == {"_attr_cache", "_attr_last_updated"}, ps, f"cached attributes of {role} are lost", adder + "lost")
    ctx.need(R, n, 4, "clusters added to a replaced endpoint")
    for role, names in copied.items():
        ctx.ob("cache-copied", names == {"_attr_cache", "_attr_last_updated"}, ps, f"cached attributes of {role} are lost", role + "some")
    v2 = ctx.p.find_attr(ctx.p.cls(V2 + "CustomDeviceV2"), "_copy_cluster_attr_cache")
    if v2 is not None:
        ctx.ob("cache-copied", ctx.kit.consteval(v2[0].module, v2[1]) is not False, (v2[0].module, v2[1]), "a declarative quirk loses the cached attributes", "v2 flag")
    for server, k in classes.items():
        ctx.ob(R, k >= 1, ps, f"declared {'input' if server else 'output'} cluster classes are not used", f"cls{server}")
    # what adding means
    for adder, (k, server, role) in roles.items():
        ps = ctx.paths(f"{EP}.{adder}", noinline=("zigpy.zcl.*",))
        for p in ps:
            if not p.normal:
                continue
            st = [e for e in p.events if e.kind == "setidx" and norm(e.base) in (ps.T("self.in_clusters"), ps.T("self.out_clusters"))]
            given = [v for a, v in facts(p) if a == ("is", ("param", "cluster"), ("const", None))]
            r = norm(p.ret) if p.ret is not None else ("const", None)
            if not st:
                ctx.ob(R, bool(given) and given[-1] and r == ("idx", ps.T(f"self.{role}"), ("param", "cluster_id")), ps, "a cluster is not added", adder + "st")
                continue
            ctx.ob(R, all(norm(e.base) == ps.T(f"self.{role}") and norm(e.args[0]) == ("param", "cluster_id") for e in st), ps, f"a cluster is added in another role or under another number", adder + "st")
            v = norm(st[-1].value)
            ctx.ob(R, r == v, ps, "another cluster than the added one is returned", adder + "ret")
            if given and given[-1]:
                fr = calls(p, "from_id")
                if fr:
                    role_ok(ctx, R, ps, norm(fr[0].term), server, f"a cluster added by {adder}", pos=2)
                    ctx.ob(R, len(fr[0].args) > 1 and norm(fr[0].args[1]) == ("param", "cluster_id"), ps, "a cluster with another number is added", adder + "from")
            elif given:
                ctx.ob(R, v == ("param", "cluster"), ps, "the given cluster is not used", adder + "given")


def role_ok(ctx, R, ps, t, server, what, pos=1):
    """A cluster object is constructed for the role it is added in."""
    kw = dict(t[3])
    v = kw.get("is_server", t[2][pos] if len(t[2]) > pos else ("const", True))
    if v[0] == "const":
        ctx.ob(R, v[1] is server, ps, f"{what} is constructed as a {'server' if v[1] else 'client'}", "role" + what)


# --- declarative quirks ---------------------------------------------------------------------------------------

STEPS = ("adds_metadata", "removes_metadata", "replaces_metadata", "replaces_cluster_occurrences_metadata", "entity_metadata")


def declarative(ctx):
    """A declarative quirk starts from the device's own layout and applies each declaration once, in order."""
    R = "declarations-applied"
    dev = V2 + "CustomDeviceV2"
    ps = ctx.paths(dev + ".__init__", noinline=(dev + "._replacement_from_replaces", BASE + ".*", V2 + "*Metadata.*"))
    meta = [("param", "quirk_metadata"), ps.T("self.quirk_metadata")]
    seen = set()
    for p in ps:
        if not p.normal:
            continue
        last = -1
        sup = calls(p, "__init__")
        ctx.ob(R, len(sup) == 1 and [norm(a) for a in sup[0].args] == [("param", x) for x in ("application", "ieee", "nwk", "replaces")], ps, "the replacement is made for another device", "ids")
        pre = calls(p, "_replacement_from_replaces")
        if sup and pre:
            ctx.ob(R, index(p, pre[0]) < index(p, sup[0]), ps, "the device's own layout is read after the replacement was built", "layout")
        for s in STEPS:
            ends = [e for e in p.events if e.kind == "loopend" and e.base is not None and any(contains(norm(e.base), ("attr", m, s)) for m in meta)]
            ctx.ob(R, len(ends) >= 1, ps, f"{s} of a quirk is not applied", s)
            its = [e for e in p.events if e.kind == "loopiter" and e.base is not None and any(contains(norm(e.base), ("attr", m, s)) for m in meta)]
            runs = [e for e in calls(p) if (fn(e) or ("?",))[0] == "elem" and any(contains(fn(e), ("attr", m, s)) for m in meta)]
            ctx.ob(R, len(runs) == len(its), ps, f"an entry of {s} is applied {len(runs)} times", s + "n")
            for e in runs:
                seen.add(s)
                ctx.ob(R, [norm(a)[0] for a in e.args] == ["self"], ps, f"an entry of {s} is applied to something else", s + "arg")
            if ends and s != "entity_metadata":
                i = index(p, ends[-1])
                ctx.ob("declared-order", i > last, ps, f"{s} is applied before the declarations that precede it", s)
                last = i
            if sup and ends:
                ctx.ob(R, index(p, ends[0]) > index(p, sup[0]), ps, f"{s} is applied before there are endpoints", s + "late")
        trig = [(a, v) for a, v in facts(p) if a[0] == "truthy" and contains(a, ("const", 0)) is False and "device_automation_triggers" in show(a)]
        got = [norm(e.value) for e in sets(p, "device_automation_triggers")]
        if got and any(got[-1] == ("attr", m, "device_automation_triggers_metadata") for m in meta):
            ctx.ob(R, bool(trig) and trig[-1][1], ps, "automation triggers of a device class are lost", "triggers none")
        book = sets(p, "_exposes_metadata") + sets(p, "exposes_metadata")
        ctx.ob(R, bool(book) and not any(index(p, e) < index(p, book[0]) for e in calls(p) if (fn(e) or ("?",))[0] == "elem"), ps, "entities are declared before there is a place for them", "exposes")
        if trig and trig[-1][1]:
            ctx.ob(R, bool(got) and any(got[-1] == ("attr", m, "device_automation_triggers_metadata") for m in meta), ps, "automation triggers of a quirk are lost", "triggers")
    ctx.need(R, len(seen), 5, "kinds of declarations applied")
    ctx.ob(R, any(sets(p, "device_automation_triggers") for p in ps), ps, "automation triggers of a quirk are lost", "triggers some")
    pe = ctx.paths(V2 + "EntityMetadata.__call__")
    place = ("tuple", tuple(pe.T(f"self.{x}") for x in ("endpoint_id", "cluster_id", "cluster_type")))
    for p in pe:
        if p.normal:
            put = [e for e in calls(p, "append") if [norm(a)[0] for a in e.args] == ["self"]]
            ctx.ob(R, len(put) == 1, pe, "a declared entity is not exposed", "entity")
            for e in put:
                b = norm(e.base)
                ctx.ob(R, b[0] != "idx" or b[2] == place, pe, f"an entity is exposed under {show(b)[:60]}", "entity key")
    # the layout
    ps = ctx.paths(dev + "._replacement_from_replaces")
    old = ("param", "replaces")
    ek = key(ctx, "SIG_ENDPOINTS")
    ctx.ob("layout", any(x == ("const", key(ctx, "SIG_NODE_DESC")) for p in ps if p.normal for e in p.events if e.kind in ("setidx", "setattr") for a in list(e.args) + [e.value] if a is not None for x in subterms(norm(a))), ps, "a declared descriptor is not used", "desc some")
    for p in ps:
        if not p.normal:
            continue
        whole = None
        for e in p.events:
            if e.kind == "setattr" and e.name == "replacement":
                whole = norm(e.value)
        if whole is None:
            continue
        got = {k[1]: v for k, v in whole[1] if k[0] == "const"} if whole[0] == "dict" else {}
        for e in p.events:
            if e.kind == "setidx" and norm(e.args[0])[0] == "const" and (norm(e.base)[0] == "dict" or norm(e.base) == ps.T("self.replacement")):
                got[norm(e.args[0])[1]] = norm(e.value)
        eps = got.get(ek)
        ctx.ob("layout", eps is not None, ps, "the endpoints of the device are not taken over", "eps")
        if eps is not None and eps[0] == "comp":
            k, v = eps[2] if len(eps[2]) == 2 else (None, None)
            it, cs = eps[3][0]
            item = ("elem", it)
            ep = ("idx", item, ("const", 1))
            ctx.ob("layout", contains(it, ("attr", old, "endpoints")) or contains(it, ("attr", old, "non_zdo_endpoints")), ps, f"endpoints come from {show(it)[:60]}", "from")
            ctx.ob("layout", all("ZDO" in show(c) for c in cs), ps, f"endpoints are left out: {', '.join(show(c) for c in cs)[:80]}", "filter")
            if it[0] == "call" and it[1][0] == "attr" and it[1][2] == "items":
                ctx.ob("layout", k == ("idx", item, ("const", 0)), ps, "an endpoint gets another number", "num")
                if v is not None and v[0] == "dict":
                    d = {x[1]: y for x, y in v[1] if x[0] == "const"}
                    for name, attr in (("SIG_EP_PROFILE", "profile_id"), ("SIG_EP_TYPE", "device_type")):
                        g = d.get(key(ctx, name))
                        ctx.ob("layout", g == ("attr", ep, attr), ps, f"{attr} of an endpoint becomes {show(g) if g else 'nothing'}", attr)
                    for name, attr in (("SIG_EP_INPUT", "in_clusters"), ("SIG_EP_OUTPUT", "out_clusters")):
                        g = d.get(key(ctx, name))
                        ok = g is not None and contains(g, ("attr", ep, attr))
                        ctx.ob("layout", ok and not (g[0] == "comp" and any(cs2 for _, cs2 in g[3])), ps, f"{attr} of an endpoint are not taken over", attr)
        sk = got.get(key(ctx, "SIG_SKIP_CONFIG"))
        ctx.ob("layout", sk == ps.T("self.quirk_metadata.skip_device_configuration"), ps, f"the configuration is skipped by {show(sk) if sk else 'nothing'}", "skip")
        nd = got.get(key(ctx, "SIG_NODE_DESC"))
        decl = [v for a, v in facts(p) if a[0] in ("truthy", "is") and contains(a, ps.T("self.quirk_metadata.device_node_descriptor"))]
        want = [v if a[0] == "truthy" else not v for a, v in facts(p) if a[0] in ("truthy", "is") and contains(a, ps.T("self.quirk_metadata.device_node_descriptor"))]
        if nd == ps.T("self.quirk_metadata.device_node_descriptor"):
            ctx.ob("layout", bool(want), ps, "a descriptor is dropped although the quirk declares none", "desc none")
        if want:
            ctx.ob("layout", (nd == ps.T("self.quirk_metadata.device_node_descriptor")) if want[-1] else nd is None, ps, "a declared descriptor is not used" if want[-1] else "a descriptor is dropped although the quirk declares none", "desc")
    # which class
    ps = ctx.paths(V2 + "QuirksV2RegistryEntry.create_device", noinline=(dev + ".*",))
    d = ("param", "device")
    classes = set()
    for p in ps:
        if not p.normal:
            continue
        r = norm(p.ret) if p.ret is not None else ("const", None)
        ctx.ob(R, not is_const(r, None), ps, "a matching quirk makes no device", "made none")
        own = [v if a[0] == "truthy" else not v for a, v in facts(p) if a[0] in ("truthy", "is") and contains(a, ps.T("self.custom_device_class"))]
        if r[0] == "call":
            args = list(r[2]) + [v for _, v in r[3]]
            classes.add(r[1])
            ctx.ob(R, len(args) == 5 and args[0] in (("attr", d, "application"), ("attr", d, "_application")) and args[1:4] == [("attr", d, "ieee"), ("attr", d, "nwk"), d] and args[4][0] == "self", ps, "the replacement is made for another device", "made")
            if own:
                ctx.ob(R, (r[1] == ps.T("self.custom_device_class")) == own[-1], ps, "the declared device class is not used" if own[-1] else "no device class is declared, and it is used", "class")
    own = ps.T("self.custom_device_class")
    ctx.ob(R, any(contains(x, own) for x in classes), ps, "the declared device class is not used", "class some")
    ctx.ob(R, any(x != own for x in classes), ps, "without a declared device class nothing is made", "class plain")
    # single declarations
    adds(ctx, R)
    removes(ctx, R)


def server_of(p, ps):
    """True/False when the path knows the declared role, None otherwise."""
    ct = ps.T("self.cluster_type")
    for a, v in facts(p):
        if a[0] in ("eq", "is") and ct in a[1:]:
            o = [x for x in a[1:] if x != ct]
            if o and o[0][-1] in ("Server", "Client") or o and o[0][0] == "attr":
                nm = o[0][2] if o[0][0] == "attr" else o[0][1].rpartition(".")[2] if isinstance(o[0][1], str) else None
                if nm in ("Server", "Client"):
                    return (nm == "Server") == v
        if a[0] in ("eq", "is") and ct in a[1:]:
            o = [x for x in a[1:] if x != ct]
            if o:
                s = show(o[0])
                if s.endswith("Server") or s.endswith("Client"):
                    return s.endswith("Server") == v
    return None


def adds(ctx, R):
    ps = ctx.paths(V2 + "AddsMetadata.__call__", noinline=("zigpy.endpoint.*", "zigpy.zcl.*"))
    ep = ps.T("device.endpoints[self.endpoint_id]")
    ep2 = ps.T("device[self.endpoint_id]")
    n = 0
    kinds = set()
    for p in ps:
        if not p.normal:
            continue
        srv = server_of(p, ps)
        ad = calls(p, ("add_input_cluster", "add_output_cluster"))
        ctx.ob(R, len(ad) == 1, ps, "a declared cluster is not added" if not ad else "a declared cluster is added in both roles", "add")
        if len(ad) != 1 or srv is None:
            continue
        n += 1
        e = ad[0]
        ctx.ob(R, (e.name == "add_input_cluster") == srv, ps, f"a cluster declared as {'server' if srv else 'client'} is added in the other role", "add role")
        ctx.ob(R, norm(e.base) in (ep, ep2), ps, f"a cluster is added to {show(norm(e.base))}", "add ep")
        cl = norm(e.args[1]) if len(e.args) > 1 else next((norm(v) for k, v in e.kwargs if k == "cluster"), ("const", None))
        isint = [v for a, v in facts(p) if a[0] == "isinstance" and a[1] == ps.T("self.cluster")]
        if cl[0] in ("call", "const"):
            kinds.add(cl[0])
            if isint:
                ctx.ob(R, (cl[0] == "const") == isint[-1], ps, "a cluster number is used as a class" if isint[-1] else "a declared cluster class is not used", "add kind")
        if cl[0] == "call":
            kw = dict(cl[3])
            v = kw.get("is_server", cl[2][1] if len(cl[2]) > 1 else ("const", True))
            val = v[1] if v[0] == "const" else None
            if v[0] == "cmp" and ps.T("self.cluster_type") in v[2:]:
                o = [x for x in v[2:] if x != ps.T("self.cluster_type")]
                s = show(o[0]) if o else ""
                val = srv == s.endswith("Server") if s.endswith(("Server", "Client")) else None
                val = val == (v[1] in ("==", "is")) if val is not None else None
            if v[0] in ("attr", "const", "cmp"):
                ctx.ob(R, val is None or val is srv, ps, f"a cluster declared as {'server' if srv else 'client'} is constructed as the other role", "add obj")
            ctx.ob(R, norm(e.args[0]) in (("attr", cl, "cluster_id"), ps.T("self.cluster.cluster_id")), ps, "a cluster is added under another number", "add id")
            ctx.ob(R, cl[1] == ps.T("self.cluster") and norm(cl[2][0]) in (ep, ep2), ps, "another cluster than the declared one is added", "add cls")
        elif cl == ("const", None):
            ctx.ob(R, norm(e.args[0]) == ps.T("self.cluster"), ps, "a cluster is added under another number", "add num")
        cst = [v for a, v in facts(p) if a == ("truthy", ps.T("self.constant_attributes"))]
        st = sets(p, "_CONSTANT_ATTRIBUTES")
        if cst and cst[-1]:
            ctx.ob("constants", bool(st) and norm(st[-1].base) == norm(e.term), ps, "constant attributes of an added cluster are lost", "const")
        if st:
            ctx.ob("constants", contains(norm(st[-1].value), ps.T("self.constant_attributes")), ps, "an added cluster gets other constant attributes", "const val")
            v = norm(st[-1].value)
            if v[0] == "comp" and v[1] == "dict" and len(v[2]) == 2:
                k = v[2][0]
                ctx.ob("constants", k[0] == "attr" and (k[2] == "id" or k[2] == "name" and by_name(ctx)), ps, "constant attributes are filed by name, but looked up by number: they are never used", "const key")
    ctx.need(R, n, 4, "paths adding a declared cluster")
    ctx.ob(R, not kinds or kinds == {"call", "const"}, ps, "clusters declared by " + ("class" if kinds == {"const"} else "number") + " are not added", "add kinds")
    ctx.ob("constants", any(sets(p, "_CONSTANT_ATTRIBUTES") for p in ps), ps, "constant attributes of an added cluster are lost", "const some")


def by_name(ctx):
    """Do the readers of constant attributes turn names into numbers?"""
    cc = ctx.p.cls(Q + "CustomCluster")
    for m in cc.methods.values():
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and x.attr == "_CONSTANT_ATTRIBUTES":
                if any(isinstance(y, (ast.Attribute, ast.Name)) and (getattr(y, "attr", None) or getattr(y, "id", None)) in ("attributes_by_name", "find_attribute") for y in ast.walk(m.node)) and m.name not in ("get",):
                    return True
    return False


def removes(ctx, R):
    ps = ctx.paths(V2 + "RemovesMetadata.__call__")
    n = 0
    for p in ps:
        if not p.normal:
            continue
        srv = server_of(p, ps)
        gone = [e for e in p.events if e.kind == "call" and e.name == "pop" or e.kind == "delidx"]
        if srv is None:
            continue
        n += 1
        ok = len(gone) == 1 and norm(gone[0].args[0]) == ps.T("self.cluster_id")
        if not gone and any(a[0] == "in" and a[1] == ps.T("self.cluster_id") and not v for a, v in facts(p)):
            continue
        ctx.ob(R, ok, ps, "a cluster which was declared removed stays", "rm")
        if ok:
            b = norm(gone[0].base) if gone[0].base is not None else ("const", None)
            ctx.ob(R, b[0] == "attr" and b[2] == ("in_clusters" if srv else "out_clusters"), ps, f"a cluster declared removed as {'server' if srv else 'client'} is removed from the other role", "rm role")
            ctx.ob(R, contains(b, ps.T("device.endpoints[self.endpoint_id]")) or contains(b, ps.T("device[self.endpoint_id]")), ps, f"a cluster is removed from {show(b)}", "rm ep")
            safe = gone[0].kind == "call" and len(gone[0].args) > 1 or any(a[0] == "in" and a[1] == ps.T("self.cluster_id") and v for a, v in facts(p)) or any(e.kind == "handler" for e in p.events)
            ctx.ob(R, safe, ps, "a device without the removed cluster cannot be replaced", "rm none")
    ctx.need(R, n, 2, "paths removing a declared cluster")
    ps = ctx.paths(V2 + "ReplacesMetadata.__call__", noinline=(V2 + "*Metadata.*",))
    d = ("param", "device")
    for p in ps:
        if not p.normal:
            continue
        order = [fn(e) for e in calls(p) if [norm(a) for a in e.args] == [d]]
        want = [ps.T("self.remove"), ps.T("self.add")]
        names = [{w: i for i, w in enumerate(want)}.get(x if x[:1] != ("attr",) or x in want else x[1] if x[-1] == "__call__" else x) for x in order if x]
        ctx.ob(R, names == [0, 1] or None in names, ps, "replacing does not remove the old cluster and then add the new one", "replace")
    # every occurrence
    ps = ctx.paths(V2 + "ReplaceClusterOccurrencesMetadata.__call__", noinline=("zigpy.endpoint.*", "zigpy.zcl.*"))
    cid = ps.T("self.cluster.cluster_id")
    both = {True: 0, False: 0}
    for p in ps:
        if not p.normal:
            continue
        loops = [e for e in p.events if e.kind == "loopend" and contains(norm(e.base), ("attr", d, "endpoints")) or e.kind == "loopend" and contains(norm(e.base), ("attr", d, "non_zdo_endpoints"))]
        ctx.ob(R, bool(loops), ps, "replacing all occurrences does not look at every endpoint", "occ all")
        fs = facts(p)
        for role, adder, other, srv in (("in_clusters", "add_input_cluster", "out_clusters", True), ("out_clusters", "add_output_cluster", "in_clusters", False)):
            ad = calls(p, adder)
            for e in ad:
                both[srv] += 1
                el = norm(e.base)
                has = any(a == ("in", cid, ("attr", el, role)) and v for a, v in fs)
                ctx.ob(R, has, ps, f"a cluster is added to an endpoint which has none in {role}", "occ has" + role)
                zdo = [v for a, v in fs if a[0] == "isinstance" and a[1] == el]
                ctx.ob(R, contains(el, ("attr", d, "non_zdo_endpoints")) or bool(zdo) and not all(zdo), ps, "clusters are looked for on the management endpoint", "occ zdo" + role)
                asked = any(a[0] == "in" and a[2] == ps.T("self.cluster_types") and v and show(a[1]).endswith("Server" if srv else "Client") for a, v in fs)
                ctx.ob(R, asked, ps, f"{role} are replaced although this was not asked for", "occ asked" + role)
                pops = [x for x in p.events if (x.kind == "call" and x.name == "pop" or x.kind == "delidx") and norm(x.base) == ("attr", el, role)]
                ctx.ob(R, not pops or norm(pops[0].args[0]) == cid, ps, "another cluster is dropped", "occ pop" + role)
                cl = norm(e.args[1]) if len(e.args) > 1 else ("const", None)
                ctx.ob(R, norm(e.args[0]) == cid or norm(e.args[0])[0] == "attr" and norm(e.args[0])[2] == "cluster_id", ps, "a cluster is added under another number", "occ id" + role)
                if cl[0] == "call":
                    role_ok(ctx, R, ps, cl, srv, f"a cluster replaced in {role}")
                    ctx.ob(R, cl[1] == ps.T("self.cluster") and cl[2][:1] == (el,), ps, "a cluster is replaced by another one than declared", "occ cls" + role)
                elif cl == ("const", None):
                    ctx.ob(R, False, ps, "an occurrence is replaced by the standard cluster", "occ none" + role)
            pops = [x for x in p.events if (x.kind == "call" and x.name == "pop" or x.kind == "delidx") and norm(x.base)[0] == "attr" and norm(x.base)[2] == role]
            ctx.ob(R, len(pops) <= len(ad), ps, f"a cluster of {role} is dropped and not replaced", "occ drop" + role)
    for srv, k in both.items():
        ctx.ob(R, k >= 1, ps, f"{'server' if srv else 'client'} occurrences are never replaced", f"occ{srv}")


# --- what the builder declares is what is applied -------------------------------------------------------------

ALIAS = {"min_value": "min", "max_value": "max", "enum_class": "enum", "command_args": "args", "command_kwargs": "kwargs", "replacement_cluster_class": "cluster"}


DECLARES = ("applies_to", "filter", "device_class", "node_descriptor", "skip_configuration", "adds", "removes", "replaces", "replace_cluster_occurrences", "enum", "sensor", "switch", "number", "binary_sensor", "write_attr_button", "command_button", "device_automation_triggers", "friendly_name")


def builder(ctx):
    """Each declaration of the builder reaches the entry, unchanged."""
    R = "declared-as-written"
    B = ctx.p.cls(V2 + "QuirkBuilder")
    n = 0
    for name, f in B.methods.items():
        if name.startswith("_") or name in ("clone", "add_to_registry") or name not in DECLARES and "QuirkBuilder" not in ast.unparse(f.node.returns or ast.Constant(None)):
            continue
        ps = ctx.paths(f)
        prm = [x for x in f.params if x != "self"] + list(f.kwonly)
        for p in ps:
            if not p.normal:
                continue
            made = []
            for e in p.events:
                if e.kind == "call" and e.name in ("append", "add", "update") and e.base is not None and norm(e.base)[0] == "attr" and norm(e.base)[1][0] == "self":
                    made += [norm(a) for a in e.args]
                if e.kind == "setattr" and norm(e.base)[0] == "self":
                    made.append(norm(e.value))
            n += 1
            ctx.ob(R, bool(made), ps, f"{name}() declares nothing", name)
            for x in prm:
                ctx.ob(R, any(contains(t, ("param", x)) for t in made) or any(("param", x) in a for a, v in facts(p) if isinstance(a, tuple)) or any(contains(a, ("param", x)) for a, v in facts(p)), ps, f"{x} given to {name}() is ignored", name + x)
            for t in made:
                for c in subterms(t):
                    if c[0] == "call" and c[1][0] == "glob" and c[1][1].endswith("Metadata") and c[1][1] in ctx.p.classes:
                        kw = dict(c[3])
                        for k, v in kw.items():
                            src = [x for x in prm if contains(v, ("param", x))]
                            same = {k} | {x for x in prm if ALIAS.get(x) == k}
                            for x in src:
                                twin = any(kk == x or ALIAS.get(x) == kk for kk in kw)
                                ctx.ob(R, x in same or not twin, ps, f"{name}() declares {x} as {k}", name + k)
                        lost = [x for x in required_fields(ctx, c[1][1]) if x not in kw and not c[2] and not any(k in (None, "**") for k in kw)]
                        ctx.ob(R, not lost, ps, f"{name}() cannot be used: {', '.join(lost)} is missing", name + "req" + c[1][1])
                        for x in prm:
                            k = ALIAS.get(x, x)
                            fld = fields_of(ctx, c[1][1])
                            if k in fld and c[1][1].rpartition(".")[2] not in ("ReplacesMetadata",):
                                v = kw.get(k)
                                fallback = v is not None and not contains(v, ("param", x)) and any(a == ("is", ("param", x), ("const", None)) and w or a == ("truthy", ("param", x)) and not w for a, w in facts(p))
                                if v == ("param", x) and x in f.defaults() and isinstance(f.defaults()[x], ast.Constant) and f.defaults()[x].value is None and converted(ctx, c[1][1], k):
                                    absent = [w if a[0] == "is" else not w for a, w in facts(p) if a in (("is", v, ("const", None)), ("truthy", v))]
                                    ctx.ob(R, bool(absent) and not absent[-1], ps, f"{name}() cannot be used without {x}", name + "none" + x)
                                ctx.ob(R, v is None or not any(y[0] == "boolop" and y[1] == "and" and contains(y, ("param", x)) for y in subterms(v)), ps, f"{x} given to {name}() is replaced by its default", name + "and" + x)
                                ctx.ob(R, v is not None and (contains(v, ("param", x)) or fallback), ps, f"{x} given to {name}() is ignored", name + "lost" + x)
            ctx.ob(R, p.ret is not None and norm(p.ret)[0] == "self", ps, f"{name}() cannot be chained", name + "self")
    ctx.need(R, n, 15, "builder methods")
    # roles to be replaced
    ps = ctx.paths(V2 + "QuirkBuilder.replace_cluster_occurrences")
    for p in ps:
        if not p.normal:
            continue
        t = [norm(a) for e in calls(p, "append") for a in e.args if norm(e.base) == ps.T("self.replaces_cluster_occurrences_metadata")]
        for flag, nm in (("replace_server_instances", "Server"), ("replace_client_instances", "Client")):
            want = [v for a, v in facts(p) if a == ("truthy", ("param", flag))]
            if want and t:
                listed = [x for x in subterms(t[0]) if x[0] in ("attr", "glob", "enum") and show(x).endswith("." + nm) or x[0] == "attr" and x[2] == nm]
                ctx.ob(R, bool(listed) == want[-1], ps, f"{flag} does not decide whether {nm.lower()} clusters are replaced", flag)
    # the entry
    ps = ctx.paths(V2 + "QuirkBuilder.add_to_registry", noinline=(REG + ".*",))
    entry = V2 + "QuirksV2RegistryEntry"
    k = 0
    for p in ps:
        if not p.normal:
            continue
        mk = [t for e in calls(p) if (t := norm(e.term) if getattr(e, "term", None) is not None else None) is not None and t[0] == "call" and t[1] == ("glob", entry)]
        if not mk:
            continue
        k += 1
        kw = dict(mk[0][3])
        for x in fields_of(ctx, entry):
            want = [ps.T(f"self.{x}"), ps.T(f"self.{x}_metadata")]
            v = kw.get(x)
            ctx.ob(R, v is not None and any(contains(v, y) for y in want), ps, f"{x} of the builder is not part of the entry", "entry" + x)
        ctx.ob(R, p.ret is not None and norm(p.ret) == mk[0], ps, "another entry is returned", "entry ret")
        its = [e for e in p.events if e.kind == "loopiter" and contains(norm(e.base), ps.T("self.manufacturer_model_metadata"))]
        ends = [e for e in p.events if e.kind == "loopend" and contains(norm(e.base), ps.T("self.manufacturer_model_metadata"))]
        ctx.ob(R, bool(ends), ps, "the quirk is not registered for every model it applies to", "models")
        regs = calls(p, "add_to_registry_v2")
        ctx.ob(R, len(regs) == len(its), ps, "the quirk is not registered for every model it applies to", "models n")
        for e in regs:
            el = ("elem", ps.T("self.manufacturer_model_metadata"))
            ctx.ob(R, [norm(a) for a in e.args] + [norm(v) for _, v in e.kwargs] == [("attr", el, "manufacturer"), ("attr", el, "model"), mk[0]] and norm(e.base) == ps.T("self.registry"), ps, "the quirk is registered for another model or in another registry", "models arg")
    ctx.need(R, k, 1, "entries built")
    # two quirks only differ by what they declare
    m = ctx.p.cls(entry)
    for st in m.node.body:
        if isinstance(st, ast.AnnAssign) and isinstance(st.value, ast.Call):
            off = any(x.arg in ("eq", "hash") and isinstance(x.value, ast.Constant) and x.value.value is False for x in st.value.keywords)
            ctx.ob("ambiguity-reported", not off or st.target.id in ("quirk_file", "quirk_file_line"), (m, st), f"quirks which differ in {st.target.id} only are taken for the same one: the later is dropped silently", st.target.id)


def required_fields(ctx, q):
    """Fields without a default."""
    out = []
    c = ctx.p.classes.get(q)
    for k in ctx.p.mro(c):
        k = ctx.p.classes.get(k) if isinstance(k, str) else k
        for st in k.node.body if k is not None else ():
            if isinstance(st, ast.AnnAssign):
                free = st.value is None or isinstance(st.value, ast.Call) and not any(x.arg in ("default", "factory") for x in st.value.keywords) and not st.value.args
                if free:
                    out.append(st.target.id)
    return out


def converted(ctx, q, name):
    """Is None not a value of the field: it has a converter, or an empty default of another kind."""
    for k in ctx.p.mro(ctx.p.classes.get(q)):
        k = ctx.p.classes.get(k) if isinstance(k, str) else k
        for st in k.node.body if k is not None else ():
            if isinstance(st, ast.AnnAssign) and st.target.id == name and isinstance(st.value, ast.Call):
                conv = next((x.value for x in st.value.keywords if x.arg == "converter"), None)
                return conv is not None and getattr(conv, "id", getattr(conv, "attr", "")) in ("frozendict", "tuple", "list", "dict") or "tuple" == ast.unparse(st.annotation)
    return False


def field_default(ctx, q, name):
    c = ctx.p.classes.get(q)
    for k in ctx.p.mro(c):
        k = ctx.p.classes.get(k) if isinstance(k, str) else k
        for st in k.node.body if k is not None else ():
            if isinstance(st, ast.AnnAssign) and st.target.id == name and isinstance(st.value, ast.Call):
                v = next((x.value for x in st.value.keywords if x.arg == "default"), None)
                return (k.module, v) if v is not None else None
    return None


# what an omitted option of the builder means
DEFAULTS = {"endpoint_id": 1, "initially_disabled": False, "attribute_initialized_from_cache": True, "divisor": 1, "multiplier": (1, None), "off_value": 0, "on_value": 1, "force_inverted": False, "replace_server_instances": True, "replace_client_instances": True, "skip_configuration": True, "omit_man_model_data": True, "cluster_type": "Server"}


def omitted(ctx):
    """An option which is left out means the same in the builder as documented, and as in the declaration it creates."""
    R = "declared-as-written"
    B = ctx.p.cls(V2 + "QuirkBuilder")
    n = 0

    def same(v, want):
        v = getattr(v, "name", v) if not isinstance(v, (bool, int, float, str)) and v is not None else v
        want = want if isinstance(want, tuple) else (want,)
        return any(type(v) is type(w) and v == w for w in want) or isinstance(v, str) and v.rpartition(".")[2] in want
    for name, f in B.methods.items():
        if name == "add_to_registry":
            continue
        for x, d in f.defaults().items():
            if x not in DEFAULTS or d is None:
                continue
            v = d.attr if isinstance(d, ast.Attribute) else ctx.kit.consteval(f.module, d)
            if v is UNK:
                continue
            n += 1
            ctx.ob(R, same(v, DEFAULTS[x]), (f, d), f"without {x}, {name}() takes {v!r}", name + x)
    ctx.need(R, n, 20, "defaults of the builder")
    for c in ctx.p.classes.values():
        if c.qual.startswith(V2) and c.name.endswith("Metadata"):
            for x in ("endpoint_id", "initially_disabled", "attribute_initialized_from_cache", "off_value", "on_value", "force_inverted", "cluster_type"):
                d = field_default(ctx, c.qual, x)
                if d is not None:
                    v = d[1].attr if isinstance(d[1], ast.Attribute) else ctx.kit.consteval(d[0], d[1])
                    ctx.ob(R, v is UNK or same(v, DEFAULTS[x]), (d[0], d[1]), f"{c.name} without {x} means {v!r}", c.name + x)
    # replacing a cluster removes the old one
    ps = ctx.paths(V2 + "QuirkBuilder.replaces")
    rc = ("param", "replacement_cluster_class")
    dropped = {kw for p in ps if p.normal for e in calls(p, "append") for c in subterms(norm(e.args[0])) if c[0] == "call" and c[1] == ("glob", V2 + "RemovesMetadata") for k, kw in c[3] if k == "cluster_id"}
    for want in (("param", "cluster_id"), ("attr", rc, "cluster_id")):
        ctx.ob(R, not dropped or any(contains(x, want) for x in dropped), ps, f"the cluster which is replaced is never {show(want)}", "replaced some")
    for p in ps:
        if not p.normal:
            continue
        for e in calls(p, "append"):
            for c in subterms(norm(e.args[0])):
                if c[0] == "call" and c[1] == ("glob", V2 + "RemovesMetadata"):
                    kw = dict(c[3])
                    given = [not v if a[0] == "is" else v for a, v in facts(p) if a in (("is", ("param", "cluster_id"), ("const", None)), ("truthy", ("param", "cluster_id")))]
                    if given:
                        want = ("param", "cluster_id") if given[-1] else ("attr", ("param", "replacement_cluster_class"), "cluster_id")
                        ctx.ob(R, kw.get("cluster_id") == want, ps, f"the cluster which is replaced is {show(kw.get('cluster_id', ('const', None)))}", "replaced")
    # constructing a builder for one model
    ps = ctx.paths(V2 + "QuirkBuilder.__init__", noinline=(V2 + "QuirkBuilder.applies_to",))
    man, mod = ("param", "manufacturer"), ("param", "model")
    made = 0

    def given(p, x):
        v = [v if a[0] == "truthy" else not v for a, v in facts(p) if a in (("truthy", x), ("is", x, ("const", None)))]
        return v[-1] if v else None
    for p in ps:
        if not p.normal:
            continue
        a, b = given(p, man), given(p, mod)
        app = calls(p, "applies_to")
        if any(contains(f, man) and contains(f, mod) for f, _ in facts(p)):
            continue
        for e in app:
            made += 1
            ctx.ob(R, a is True and b is True, ps, "the quirk applies to a model nobody named", "applies not")
            ctx.ob(R, len(app) == 1 and [norm(x) for x in e.args] + [norm(v) for _, v in e.kwargs] == [man, mod], ps, "the quirk does not apply to the model it was made for", "applies")
        if not app:
            ctx.ob(R, a is False or b is False, ps, "the quirk does not apply to the model it was made for", "applies none")
            ctx.ob(R, a is False and b is False, ps, "a quirk for a manufacturer without a model (or the other way round) is accepted", "half")
    ctx.ob(R, any(p.normal and not calls(p, "applies_to") for p in ps), ps, "a quirk cannot be started without naming its first model", "later")
    for p in ps:
        if p.normal:
            for e in sets(p, "skip_device_configuration"):
                ctx.ob(R, not is_const(norm(e.value), True), ps, "a quirk skips the configuration unless told otherwise", "skip")
    ctx.ob(R, made >= 1 or any(contains(f, man) and contains(f, mod) for p in ps for f, _ in facts(p)), ps, "the quirk does not apply to the model it was made for", "applies some")
    # a quirk which applies to nothing is refused
    ps = ctx.paths(V2 + "QuirkBuilder.add_to_registry", noinline=(REG + ".*",))
    ctx.ob(R, any(p.outcome.kind == "raise" and any(contains(a, ps.T("self.manufacturer_model_metadata")) for a, _ in facts(p)) for p in ps), ps, "a quirk which applies to no model is registered", "nothing some")
    for p in ps:
        none = [v for a, v in facts(p) if a == ("truthy", ps.T("self.manufacturer_model_metadata"))]
        if none and not none[-1]:
            ctx.ob(R, p.outcome.kind == "raise", ps, "a quirk which applies to no model is registered", "nothing")
    # a clone is independent of its origin
    ps = ctx.paths(V2 + "QuirkBuilder.clone")
    kept = [bool(sets(p, "manufacturer_model_metadata")) for p in ps if p.normal]
    ctx.ob(R, any(kept) and not all(kept), ps, "a clone always applies to the models of the original" if not any(kept) else "a clone always loses the models it applies to", "clone some")
    for p in ps:
        if not p.normal:
            continue
        r = norm(p.ret) if p.ret is not None else ("const", None)
        ctx.ob(R, r[0] == "call" and r[1][0] == "glob" and r[1][1].endswith("deepcopy") and r[2][:1] and r[2][0][0] == "self", ps, "a clone shares its declarations with the original", "clone")
        omit = [v for a, v in facts(p) if a == ("truthy", ("param", "omit_man_model_data"))]
        st = [e for e in sets(p, "manufacturer_model_metadata") if norm(e.base) == r]
        if omit:
            ctx.ob(R, bool(st) == omit[-1], ps, "a clone applies to the models of the original" if omit[-1] else "a clone loses the models it applies to", "clone models")
        rg = [e for e in sets(p, "registry") if norm(e.base) == r]
        ctx.ob(R, bool(rg) and norm(rg[-1].value) == ps.T("self.registry"), ps, "a clone is registered in another registry", "clone reg")


def fields_of(ctx, q):
    out = []
    c = ctx.p.classes.get(q)
    for k in reversed(ctx.p.mro(c)):
        if isinstance(k, str):
            k = ctx.p.classes.get(k)
        if k is None:
            continue
        for st in k.node.body:
            if isinstance(st, ast.AnnAssign) and st.target.id not in out:
                out.append(st.target.id)
    return out


# --- constants and registration of the replacement ------------------------------------------------------------


def constant(t):
    return any(x[0] == "attr" and "CONSTANT" in x[2].upper() for x in subterms(t))


def constants(ctx):
    """A constant attribute is answered from the quirk and never asked of the device; every other one is."""
    R = "constants"
    ps = ctx.paths(Q + "CustomCluster.read_attributes_raw")
    asked = 0
    kinds = set()
    answered = 0
    for p in ps:
        if not p.normal:
            continue
        sup = calls(p, "read_attributes_raw")
        none = [v for a, v in facts(p) if a[0] == "truthy" and constant(a) and not contains(a, ("param", "attributes"))]
        none += [not v for a, v in facts(p) if a[0] == "is" and a[1][0] == "attr" and constant(a) and a[2] == ("const", None) and v]
        kinds.add(bool(none and none[-1]))
        if none and not none[-1]:
            ctx.ob(R, len(sup) == 1 and norm(sup[0].args[0]) == ("param", "attributes"), ps, "a cluster without constant attributes does not ask the device", "plain")
            ctx.ob(R, p.ret is not None and norm(p.ret) == norm(sup[0].term) if sup else False, ps, "the device's answer is dropped", "plain ret")
        for e in sup:
            asked += 1
            kw = dict((k, norm(v)) for k, v in e.kwargs)
            man = kw.get("manufacturer", norm(e.args[1]) if len(e.args) > 1 else None)
            ctx.ob(R, man == ("param", "manufacturer"), ps, "the manufacturer code is dropped", "manuf")
            ctx.ob(R, any("kwargs" in show(v) for v in kw.values()) or not any(v.startswith("**") or v == "kwargs" for v in [ctx.p.func(Q + "CustomCluster.read_attributes_raw").node.args.kwarg.arg] if v), ps, "options of the request are dropped", "kw")
            if none and none[-1]:
                a = norm(e.args[0])
                if a[0] == "comp":
                    ctx.ob(R, contains(a, ("param", "attributes")) and any("not in" in show(c) or "not" == c[0] for _, cs in a[3] for c in cs), ps, f"the device is asked for {show(a)[:70]}", "asked")
                elif a == ("param", "attributes"):
                    ctx.ob(R, False, ps, "the device is asked for constant attributes", "asked")
        if none and none[-1]:
            r = norm(p.ret) if p.ret is not None else ("const", None)
            recs = [x for x in subterms(r) if x[0] == "comp" and x[2][0] == "call" and x[2][1][0] == "glob" and x[2][1][1].endswith("ReadAttributeRecord")]
            own = [x for x in recs if constant(x[2])]
            answered += bool(own)
            ctx.ob(R, constant(r), ps, "constant attributes are not answered", "answer")
            for x in own:
                if True:
                    kw = dict(x[2][3])
                    el = ("elem", x[3][0][0])
                    ctx.ob(R, kw.get("attrid") in (el, None), ps, "a constant is reported for another attribute", "rec id")
                    tv = kw.get("value")
                    if tv is not None:
                        ctx.ob(R, any(y[0] == "idx" and y[2] == el or y[0] == "call" and y[2][:1] == (el,) for y in subterms(tv)), ps, "another value than the constant is reported", "rec val")
                    st = kw.get("status", x[2][2][1] if len(x[2][2]) > 1 else ("const", None))
                    if st is not None and not any(k in (None, "**") for k in kw):
                        ctx.ob(R, show(st).endswith("SUCCESS") or st == ("const", 0), ps, "a constant is reported as a failure", "rec st")
                    ctx.ob(R, any(contains(c, el) and "not" not in show(c).split("(")[0] for _, cs in x[3] for c in cs) or not x[3][0][1], ps, "a constant is reported for attributes which have none", "rec cond")
            if sup:
                ext = [e for e in calls(p, ("extend", "append")) ]
                empty = any(e.kind == "loopend" for e in p.events) and not any(e.kind == "loopiter" for e in p.events)
                ctx.ob(R, bool(ext) or empty or contains(r, norm(sup[0].term)), ps, "what the device answers is dropped", "rest")
    ctx.ob(R, True in kinds or not kinds, ps, "constant attributes are not answered", "answer n")
    ctx.need(R, asked, 2, "reads forwarded to the device")
    ps = ctx.paths(Q + "CustomCluster.get", inject=("builtins.KeyError",), inject_at=lambda t, name, aw: name == "find_attribute", noinline=("zigpy.zcl.*",))
    bad = [p for p in ps if p.outcome.kind == "raise" and any(e.name == "find_attribute" for e in calls(p))]
    ctx.ob(R, not bad, ps, "a key which is no attribute cannot be looked up", "get key")
    hit = 0
    for p in ps:
        if not p.normal or p.ret is None:
            continue
        r = norm(p.ret)
        there = [(a, v) for a, v in facts(p) if a[0] == "in" and "CONSTANT" in show(a[2]).upper()]
        if there and there[-1][1]:
            hit += 1
            ctx.ob(R, "CONSTANT" in show(r).upper() and contains(r, there[-1][0][1]), ps, f"a constant attribute reads as {show(r)[:60]}", "get")
        else:
            ctx.ob(R, not ("CONSTANT" in show(r).upper() and r[0] == "idx"), ps, "a constant is given for another attribute", "get other")
            sup = calls(p, "get")
            sup = [e for e in sup if [norm(a) for a in e.args][:1] == [("param", "key")]]
            ctx.ob(R, bool(sup), ps, "the cached value of another attribute is not looked up", "get cached")
            if sup:
                ctx.ob(R, r == norm(sup[-1].term) and ([norm(a) for a in sup[-1].args] + [norm(v) for _, v in sup[-1].kwargs])[1:] == [("param", "default")], ps, "the default is dropped", "get default")
    ctx.ob(R, hit >= 1 or not list(ps), ps, "constant attributes are not answered from the quirk", "get n")


def registered(ctx):
    """The replacement takes the device's place, and is what is announced."""
    R = "takes-its-place"
    ps = ctx.paths("zigpy.application.ControllerApplication.device_initialized", noinline=(Q + "*",))
    dev = ("param", "device")
    k = 0
    for p in ps:
        if not p.normal:
            continue
        got = calls(p, "get_device")
        ctx.ob(R, len(got) == 1 and [norm(a) for a in got[0].args] == [dev], ps, "quirks are not looked up for the device", "lookup")
        if len(got) != 1:
            continue
        t = norm(got[0].term)
        k += 1
        st = [e for e in p.events if e.kind == "setidx" and norm(e.base) == ps.T("self.devices")]
        ctx.ob(R, len(st) == 1 and norm(st[0].value) == t and norm(st[0].args[0]) in (("attr", t, "ieee"), ("attr", dev, "ieee")), ps, "the replacement does not take the device's place", "stored")
        for e in calls(p, "listener_event"):
            n = norm(e.args[0]) if e.args else None
            if n == ("const", "device_initialized"):
                ctx.ob(R, norm(e.args[1]) == t, ps, "the device which was replaced is announced", "announced")
                ctx.ob(R, not st or index(p, st[0]) < index(p, e), ps, "the replacement is announced before it took the device's place", "order")
            if n == ("const", "raw_device_initialized"):
                ctx.ob(R, norm(e.args[1]) == dev and index(p, e) < index(p, got[0]), ps, "the raw device is announced after it was replaced", "raw")
        for e in calls(p, "add_context_listener"):
            ctx.ob(R, norm(e.base) == t, ps, "changes of the replacement are not persisted", "listener")
    ctx.need(R, k, 1, "lookups of a quirk for a new device")
    # while loading: between the basic attributes and everything else
    ps = ctx.paths("zigpy.appdb.PersistingListener.load", private=False) if False else None
    f = ctx.p.func("zigpy.appdb.PersistingListener.load")
    loads, pos = [], None
    for i, x in enumerate(n for n in ast.walk(f.node) if isinstance(n, ast.Call)):
        nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")
        loads.append((x.lineno, nm, bool(x.args or x.keywords)))
    loads.sort()
    q = [ln for ln, nm, _ in loads if nm == "get_device"]
    if q:
        first = [ln for ln, nm, a in loads if nm == "_load_attributes" and a]
        rest = [ln for ln, nm, a in loads if nm in ("_load_groups", "_load_group_members", "_load_relays", "_load_unsupported_attributes", "_register_device_listeners") or nm == "_load_attributes" and not a]
        before = [ln for ln, nm, a in loads if nm in ("_load_devices", "_load_endpoints", "_load_clusters", "_load_node_descriptors")]
        ctx.ob(R, bool(first) and max(first) < q[0], f, "quirks are looked up before manufacturer and model are known", "load names")
        ctx.ob(R, all(x < q[0] for x in before), f, "quirks are looked up before the device's layout is known", "load layout")
        ctx.ob(R, all(x > q[0] for x in rest), f, "state is loaded into devices which are then replaced", "load rest")


RULES = [matching, choice, state, clusters, declarative, builder, omitted, constants, registered]
