"""What is saved can be loaded back: SQL agrees with the schema both ways."""
import ast
import re

from .. import db, dbspec, sql
from ..core import UNK, Obj, PathSet, calls, describe, ev_callee, index, norm, show
from ..lib import allfacts, calls_in, emits, is_const, reach_self
from ..model import AnalysisBroken, walk_own
from ..walk import const, contains, subterms
from . import c01

C = db.CLS
APP = ("attr", ("self", C), "_application")


class Loader:
    """One function that reads a table row by row, with row cells written as ("col", name)."""

    def __init__(self, ctx, func, table, schema, ps):
        self.ctx, self.func, self.table, self.schema, self.ps = ctx, func, table, schema, ps
        self.cols = schema.cols(table)

    def cell(self, t):
        """Rewrite row accesses to cells."""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "const":
            return t
        if t[0] == "idx" and self.isrow(t[1]) and t[2][0] == "const" and isinstance(t[2][1], int):
            k = t[2][1]
            return ("col", self.cols[k] if 0 <= k < len(self.cols) else f"#{k}")
        if t[0] == "rest" and self.isrow(t[1]):
            return ("cols", t[2] if isinstance(t[2], int) else self.ctx.kit.teval(t[2], {}))
        if t[0] == "call" and len(t) >= 4 and t[1][0] == "attr" and t[1][2] == "get" and len(t[2]) >= 1:
            b = self.cell(t[1][1])
            if b[0] == "attr" and b[2] in ("endpoints", "in_clusters", "out_clusters"):
                return ("idx", b, self.cell(t[2][0]))
        return tuple(self.cell(x) if isinstance(x, tuple) else x for x in t)

    def isrow(self, t):
        if t[0] != "elem":
            return False
        for x in subterms(t):
            if x[0] == "const" and isinstance(x[1], str) and re.match(r"\s*SELECT\b", x[1], re.I) and re.search(rf"\b{self.table}\b", x[1]):
                return True
        return False

    def rows(self, path):
        return [e for e in path.events if e.kind == "loopiter" and self.isrow(("elem", norm(e.base)))]

    def n(self, t):
        return self.cell(norm(t))


def loaders(ctx):
    S = db.schemas(ctx)[db.db_version(ctx)]
    c = ctx.p.cls(C)
    out = {}
    for f in reach_self(ctx, ctx.p.func(f"{C}.load"), c).values():
        if f.name == "load" or ctx.kit.owners(f.qual) - {f.qual, f"{C}.load"}:
            continue
        code = [n for c_ in ctx.kit.whole(f.qual) for n in ast.walk(c_)]
        if not any("SELECT" in ast.unparse(n).upper() for n in code if isinstance(n, (ast.Constant, ast.JoinedStr))):
            continue
        ps = ctx.paths(f, selfcls=C, loop=1, handler_inject=False, idx_raises=True)
        tabs = set()
        for p in ps:
            for e in p.events:
                if e.kind == "call" and e.args and db.sql_text(e.args[0]):
                    m = re.search(r"FROM\s+(\w+)", db.sql_text(e.args[0])[0], re.I)
                    if m:
                        tabs.add(m.group(1))
        for t in tabs:
            if t not in S.tables:
                ctx.ob("load-names-current-table", False, f, f"reads table {t}, which the current schema does not have", t)
                continue
            out.setdefault(db.base_name(t), []).append(Loader(ctx, f, t, S, ps))
    return out


def dev(c="ieee"):
    return ("call", ("attr", APP, "get_device"), (("col", c),), ())


def ep():
    return ("idx", ("attr", dev(), "endpoints"), ("col", "endpoint_id"))


def clusters(side):
    return ("idx", ("attr", ep(), side), ("col", "cluster_id"))


def effects_of(L, path):
    """State-changing effects of a path: calls, attribute and item writes over cells."""
    out = []
    for e in path.events:
        if e.kind == "setattr":
            out.append(("set", L.n(e.base), e.name, L.n(e.value), e))
        elif e.kind == "setidx":
            out.append(("item", L.n(e.base), L.n(e.args[0]), L.n(e.value if e.value is not None else e.args[-1]), e))
        elif e.kind == "call" and e.ok:
            out.append(("call", L.n(e.base) if e.base is not None else None, e.name, (tuple(L.n(a) for a in e.args), {k: L.n(v) for k, v in e.kwargs}), e))
    return out


def has_set(effs, base, name):
    """Value stored to base.name (attribute store or property setter)."""
    for k, b, n, v, e in effs:
        if k == "set" and b == base and n == name:
            return v
        if k == "call" and b == base and n == name and v[0]:
            return v[0][0]
    return None


def derived(v, cell):
    return v is not None and contains(v, cell)


def follow(ctx, L, scen):
    """Normal paths with at least one row that the scenario (cell -> value) can follow."""
    asg = {}
    res = []
    for p in L.ps:
        if p.outcome.kind not in ("return", "next") or not L.rows(p) or any(e.kind == "idxerr" for e in p.events):
            continue
        ok = True
        for a, v in allfacts(p):
            n = L.n(a)
            r = ctx.kit._teval(n, scen)
            r = ctx.kit._truth(r) if r is not UNK else UNK
            if r is not UNK and r != v:
                ok = False
                break
        if ok:
            res.append(p)
    return res


SERVER, CLIENT = 0, 1


def local_time(t):
    """A time stamp converted without a time zone."""
    return any(x[0] == "call" and (x[1][0] == "attr" and x[1][2] == "fromtimestamp" or x[1][0] == "glob" and x[1][1].endswith(".fromtimestamp")) and len(x[2]) < 2 and not any(k == "tz" for k, _ in x[3]) for x in subterms(t))


def kinds(ctx):
    s = ctx.kit.enum_value("zigpy.zcl.ClusterType", "Server")
    c = ctx.kit.enum_value("zigpy.zcl.ClusterType", "Client")
    return s, c


def present(ctx, L, yes=True):
    out = {}
    for a, _ in {x for p in L.ps for x in allfacts(p)}:
        n = L.n(a)
        if n[0] == "in" and n[1][0] == "col":
            out[n] = yes
        if n[0] == "is" and n[2] == const(None) and n[1][0] == "idx":
            out[n] = not yes
        if n[0] == "truthy" and n[1][0] == "idx":
            out[n] = yes
    return out


def loading(ctx):
    Ls = loaders(ctx)
    S = db.schemas(ctx)[db.db_version(ctx)]
    R = "loaded-where-it-came-from"
    load = ctx.p.func(f"{C}.load")
    for t in S.tables:
        ctx.ob("every-table-is-loaded", db.base_name(t) in Ls, load, f"nothing reads {t} back", t)
    sv, cl = kinds(ctx)
    ct = ("col", "cluster_type")

    def each(table, scen, what, pred, optional=False):
        for L in Ls.get(table, ()):
            sc = dict(present(ctx, L))
            sc.update(scen)
            for a in list({x[0] for p in L.ps for x in allfacts(p)}):
                pass
            ps = follow(ctx, L, sc)
            ctx.ob(R, bool(ps), L.func, f"{table}: no path loads a row ({what})", what)
            for p in ps:
                r = pred(L, effects_of(L, p), p)
                ctx.ob(R, r is True, L.func, f"{table}: {what}: {r} [{describe(p)}]", f"{table}.{what}")

    def p_dev(L, ef, p):
        add = [x for x in ef if x[0] == "call" and x[2] == "add_device" and x[1] == APP]
        if len(add) != 1:
            return "the device is not added"
        if cargs(ctx, add[0])[:2] != [("col", "ieee"), ("col", "nwk")]:
            return "the device is added with other addresses"
        d = L.n(add[0][4].term)
        if not derived(has_set(ef, d, "status"), ("col", "status")):
            return "the status is not restored"
        if not derived(has_set(ef, d, "last_seen"), ("col", "last_seen")):
            return "last_seen is not restored"
        return True
    each("devices", {("col", "last_seen"): 1000.5}, "seen device", p_dev)

    def p_dev0(L, ef, p):
        add = [x for x in ef if x[0] == "call" and x[2] == "add_device"]
        d = L.n(add[0][4].term) if add else None
        if add and not derived(has_set(ef, d, "status"), ("col", "status")):
            return "the status is not restored"
        return True if add and has_set(ef, d, "last_seen") is None else "a device that was never seen gets a last-seen time"
    each("devices", {("col", "last_seen"): 0}, "never seen device", p_dev0)

    def p_nd(L, ef, p):
        v = has_set(ef, dev(), "node_desc")
        if v is None or v[0] != "call":
            return "the node descriptor is not restored"
        f = v[1]
        fields = dbspec.struct_fields(ctx, "zigpy.zdo.types.NodeDescriptor")
        if f != ("glob", "zigpy.zdo.types.NodeDescriptor"):
            return f"the descriptor is a {show(f)}"
        return struct_args(L, v, fields, 1)
    each("node_descriptors", {}, "descriptor", p_nd)

    prof = {"zha": ctx.kit.consteval(ctx.p.module("zigpy.profiles.zha"), ctx.p.module("zigpy.profiles.zha").assigns["PROFILE_ID"]),
            "zll": ctx.kit.consteval(ctx.p.module("zigpy.profiles.zll"), ctx.p.module("zigpy.profiles.zll").assigns["PROFILE_ID"]), "other": 0xC2DF}
    for name, pid in prof.items():
        def p_ep(L, ef, p, name=name):
            add = [x for x in ef if x[0] == "call" and x[2] == "add_endpoint" and x[1] == dev()]
            if len(add) != 1 or cargs(ctx, add[0])[:1] != [("col", "endpoint_id")]:
                return "the endpoint is not added to its device"
            e = L.n(add[0][4].term)
            for a, c in (("profile_id", "profile_id"), ("status", "status"), ("device_type", "device_type")):
                v = has_set(ef, e, a)
                if not derived(v, ("col", c)):
                    return f"{a} is not restored from its column"
                if a == "device_type":
                    want = {"zha": "zigpy.profiles.zha.DeviceType", "zll": "zigpy.profiles.zll.DeviceType"}.get(name)
                    got = v[1][1] if v[0] == "call" and v[1][0] == "glob" else None
                    if want is None and got in ("zigpy.profiles.zha.DeviceType", "zigpy.profiles.zll.DeviceType") or want is not None and got != want:
                        return f"device type of a {name} endpoint is read as {show(v)}"
                if a == "status" and "Status" not in show(v):
                    return "status is not restored as a Status"
            return True
        each("endpoints", {("col", "profile_id"): pid}, f"{name} endpoint", p_ep)

    for k, side, meth in ((sv, "in_clusters", "add_input_cluster"), (cl, "out_clusters", "add_output_cluster")):
        def p_cl(L, ef, p, meth=meth):
            cs = [x for x in ef if x[0] == "call" and x[2] in ("add_input_cluster", "add_output_cluster")]
            if len(cs) != 1 or cs[0][2] != meth:
                return f"{[x[2] for x in cs]} instead of {meth}"
            return True if cs[0][1] == ep() and cargs(ctx, cs[0])[:1] == [("col", "cluster_id")] else "the cluster is added to the wrong endpoint or under the wrong id"
        each("clusters", {ct: k, ("call", ("glob", "zigpy.zcl.ClusterType"), (ct,), ()): k}, f"{side} row", p_cl)

        def p_at(L, ef, p, side=side):
            cl_ = clusters(side)
            key = ("col", "attr_id")
            v = [x[3] for x in ef if x[0] == "item" and x[1] == ("attr", cl_, "_attr_cache") and x[2] == key]
            u = [x[3] for x in ef if x[0] == "item" and x[1] == ("attr", cl_, "_attr_last_updated") and x[2] == key]
            if v != [("col", "value")]:
                return f"the cached value of the {side} cluster is not restored"
            if len(u) != 1 or not derived(u[0], ("col", "last_updated")):
                return "the update time is not restored"
            if local_time(u[0]):
                return f"the update time is read in the local time zone: {show(u[0])}"
            if [x for x in ef if x[0] == "call" and x[2] in ("update_attribute", "_update_attribute", "listener_event")]:
                return "loading announces the attribute"
            return True
        each("attributes_cache", {ct: k, ("call", ("glob", "zigpy.zcl.ClusterType"), (ct,), ()): k}, f"{side} row", p_at)

        def p_un(L, ef, p, side=side):
            cs = [x for x in ef if x[0] == "call" and x[2] == "add_unsupported_attribute"]
            if len(cs) != 1 or cs[0][1] != clusters(side):
                return f"the attribute is not marked on the {side} cluster"
            a = bound(ctx, cs[0])
            if a.get("attr") != ("col", "attr_id"):
                return "another attribute is marked"
            return True if a.get("inhibit_events") == const(True) else "the mark is announced while loading"
        each("unsupported_attributes", {ct: k, ("call", ("glob", "zigpy.zcl.ClusterType"), (ct,), ()): k}, f"{side} row", p_un)

    def p_names(attr, prop):
        def f(L, ef, p):
            v = has_set(ef, dev(), prop)
            return True if derived(v, ("col", "value")) else f"{prop} is not taken from the cached attribute"
        return f
    basic = ctx.p.module("zigpy.zcl.clusters.general")
    for attr, prop, i in (("manufacturer", "manufacturer", 4), ("model", "model", 5)):
        sc = {ct: sv, ("col", "cluster_id"): 0, ("col", "attr_id"): i}
        for b in ("manufacturer", "model"):
            sc[("attr", ("attr", ("glob", "zigpy.zcl.clusters.general.Basic.AttributeDefs"), b), "id")] = {"manufacturer": 4, "model": 5}[b]
        sc[("attr", ("glob", "zigpy.zcl.clusters.general.Basic"), "cluster_id")] = 0
        for L in Ls.get("attributes_cache", ()):
            for x in {y for p in L.ps for a, _ in allfacts(p) for y in subterms(L.n(a))}:
                if x[0] == "attr" and x[2] == "id" and x[1][0] in ("attr", "glob"):
                    nm = x[1][2] if x[1][0] == "attr" else x[1][1].split(".")[-1]
                    if nm in ("manufacturer", "model"):
                        sc[x] = {"manufacturer": 4, "model": 5}[nm]
        each("attributes_cache", sc, prop, p_names(attr, prop))

    def p_grp(L, ef, p):
        cs = [x for x in ef if x[0] == "call" and x[2] == "add_group" and x[1] == ("attr", APP, "groups")]
        if len(cs) != 1:
            return "the group is not added"
        a = bound(ctx, cs[0])
        if a.get("group_id") != ("col", "group_id") or a.get("name") != ("col", "name"):
            return "the group is added under another id or name"
        return True if a.get("suppress_event") == const(True) else "the group is announced while loading"
    each("groups", {}, "group", p_grp)

    def p_mem(L, ef, p):
        cs = [x for x in ef if x[0] == "call" and x[2] == "add_member"]
        if len(cs) != 1 or cs[0][1] != ("idx", ("attr", APP, "groups"), ("col", "group_id")):
            return "the member is not added to its group"
        a = bound(ctx, cs[0])
        if a.get("ep") != ep():
            return "another endpoint is added"
        return True if a.get("suppress_event") == const(True) else "the membership is announced while loading"
    each("group_members", {}, "member", p_mem)

    def p_rel(L, ef, p):
        v = has_set(ef, dev(), "relays")
        return True if derived(v, ("col", "relays")) and "deserialize" in show_all(v) else "the relays are not restored"
    each("relays", {}, "relays", p_rel)

    for table, cls in (("neighbors", "Neighbor"), ("routes", "Route")):
        def p_top(L, ef, p, table=table, cls=cls):
            tgt = ("idx", ("attr", ("attr", APP, "topology"), table), ("col", "device_ieee"))
            cs = [x for x in ef if x[0] == "call" and x[2] == "append" and x[1] == tgt]
            if len(cs) != 1:
                return f"the row is not added to the {table} of its device"
            v = cs[0][3][0][0]
            if v[0] != "call" or v[1] != ("glob", f"zigpy.zdo.types.{cls}"):
                return f"the row is read as {show(v)}"
            return struct_args(L, v, dbspec.struct_fields(ctx, f"zigpy.zdo.types.{cls}"), 1)
        each(table, {}, table, p_top)

    # backups: order matters, and nothing is announced
    for L in Ls.get("network_backups", ()):
        n = 0
        for p in L.ps:
            if p.outcome.kind not in ("return", "next"):
                continue
            cs = [e for e in calls(p, "add_backup")]
            for e in cs:
                n += 1
                b = ctx.bound(L.ps.w, e)
                ctx.ob(R, b.get("suppress_event") == const(True), (L.func, e.node), "network_backups: a restored backup is announced (and saved again)", "backup")
                ctx.ob(R, "from_dict" in show_all(b.get("backup")) or b.get("backup", ("",))[0] == "elem", (L.func, e.node), "network_backups: the backup added is not the one read", "backup2")
            clr = calls(p, "clear")
            for e in clr:
                ctx.ob(R, not cs or index(p, e) < index(p, cs[0]), (L.func, e.node), "network_backups: restored backups are cleared", "clear")
        ctx.ob(R, n > 0, L.func, "network_backups: no backup is restored", "none")
        src = "\n".join(ast.unparse(x) for x in ctx.kit.whole(L.func.qual))
        ctx.ob("backups-in-order", "sort" in src and "backup_time" in src or re.search(r"ORDER BY\s+id", src, re.I) is not None, L.func,
               "backups are not restored in the order they were made", "order")


def show_all(t):
    return repr(t)


def bound(ctx, eff):
    e = eff[4]
    if e.callee is not None:
        ps = list(e.callee.params)
        if e.callee.cls is not None and not e.callee.is_staticmethod:
            ps = ps[1:]
    else:
        sig = {"add_unsupported_attribute": ["attr", "inhibit_events"], "add_group": ["group_id", "name", "suppress_event"],
               "add_member": ["ep", "suppress_event"]}.get(eff[2], [])
        ps = sig
    out = dict(zip(ps, eff[3][0]))
    out.update(eff[3][1])
    return out


def cargs(ctx, eff):
    """Positional-or-keyword arguments in order."""
    e = eff[4]
    a = list(eff[3][0])
    if eff[3][1] and e.callee is not None:
        ps = list(e.callee.params)[1:]
        for p in ps[len(a):]:
            if p in eff[3][1]:
                a.append(eff[3][1][p])
    elif eff[3][1]:
        a += list(eff[3][1].values())
    return a


def struct_args(L, v, fields, skip):
    """`Struct(*row[skip:])` or the same spelled out, fields in column order."""
    args, kw = v[2], dict(v[3])
    cols = L.cols[skip:]
    plain = lambda x: x.replace("_", "").lower()
    if [plain(c) for c in cols] != [plain(f) for f in fields]:
        return f"columns {cols} are not the fields {fields}"
    if len(args) == 1 and args[0][0] == "star":
        return True if args[0][1] == ("cols", skip) else f"fields are taken from {show(args[0][1])}"
    got = dict(zip(fields, args))
    got.update(kw)
    for f, c in zip(fields, cols):
        if got.get(f) != ("col", c):
            return f"field {f} is not read from column {c}"
    return True


def goes_on(L, p, e=None):
    """Does the path ask for the next row (after event `e`)?"""
    i = index(p, e if e is not None else L.rows(p)[-1])
    return any(x.kind in ("loopend", "loopiter") and L.isrow(("elem", norm(x.base))) for x in p.events[i + 1:])


def skipping(ctx):
    """Rows whose endpoint or cluster is gone are skipped, not fatal."""
    Ls = loaders(ctx)
    n = 0
    for table in ("attributes_cache", "unsupported_attributes", "group_members"):
        for L in Ls.get(table, ()):
            for p in L.ps:
                bad = [e for e in p.events if e.kind == "idxerr"]
                for e in bad:
                    b = L.n(e.base)
                    if b[0] == "attr" and b[2] in ("endpoints", "in_clusters", "out_clusters"):
                        n += 1
                        ctx.ob("stale-rows-skipped", p.outcome.kind != "raise", (L.func, e.node), f"{table}: a row for a missing {b[2]} entry aborts loading", b[2])
                        ctx.ob("stale-rows-skipped", p.outcome.kind == "raise" or goes_on(L, p, e), (L.func, e.node), f"{table}: rows after one for a missing {b[2]} entry are not loaded", b[2] + "rest")
                # after an absence test fails, nothing is stored for the row
                for a, v in allfacts(p):
                    m = L.n(a)
                    if m[0] == "in" and m[1][0] == "col" and v is False and p.outcome.kind in ("return", "next"):
                        n += 1
                        ef = [x for x in effects_of(L, p) if x[0] in ("set", "item") or x[0] == "call" and x[2] in ("add_member", "add_unsupported_attribute", "add_endpoint", "add_input_cluster", "add_output_cluster")]
                        ctx.ob("stale-rows-skipped", not ef, L.func, f"{table}: a row whose {m[1][1]} is gone is stored anyway", m[1][1])
                        ctx.ob("stale-rows-skipped", goes_on(L, p), L.func, f"{table}: rows after one whose {m[1][1]} is gone are not loaded", m[1][1] + "rest")
    for table, ls in Ls.items():
        for L in ls:
            for p in L.ps:
                if p.outcome.kind in ("return", "next") and L.rows(p):
                    ctx.ob("every-row-loaded", goes_on(L, p), L.func, f"{table}: loading stops before the last row [{describe(p)}]", table)
    ctx.need("stale-rows-skipped", n, 4, "stale-row branches")


def order(ctx):
    """Everything a row refers to is loaded before it; own events come last."""
    c = ctx.p.cls(C)
    load = ctx.p.func(f"{C}.load")
    Ls = loaders(ctx)
    byfunc = {}
    for t, ls in Ls.items():
        for L in ls:
            byfunc[L.func.qual] = t
    ps = ctx.paths(load, private=False, loop=1, handler_inject=False, noinline=set(byfunc))
    regs = {f.qual for f in reach_self(ctx, load, c).values() if f.name != "load" and calls_in(f, "add_context_listener")}
    n = 0
    for p in ps:
        if not p.normal:
            continue
        seq = []
        for e in p.events:
            if e.kind == "call" and e.callee is not None and e.callee.qual in byfunc:
                t = byfunc[e.callee.qual]
                a = [*e.args, *[v for _, v in e.kwargs]]
                part = t == "attributes_cache" and bool(a) and a[0] != const(None)
                seq.append((t + ("*" if part else ""), e))
                ctx.ob("load-awaited", db.awaited(p, e), (load, e.node), f"loading {t} is not awaited", t)
            elif e.kind == "call" and e.callee is not None and e.callee.qual in regs:
                seq.append(("listeners", e))
                ctx.ob("load-awaited", not e.callee.is_async or db.awaited(p, e), (load, e.node), "registering listeners is not awaited", "reg")
            elif e.kind == "call" and e.name == "add_context_listener":
                seq.append(("listeners", e))
            elif e.kind == "call" and ev_callee(e) and e.name == "get_device" and "quirks" in ev_callee(e):
                seq.append(("quirks", e))
        names = [x[0] for x in seq]
        for t in Ls:
            n += 1
            ctx.ob("every-table-is-loaded", t in names, load, f"{t} is not loaded", t)
        hasq = "quirks" in names
        pairs = [("devices", "node_descriptors"), ("devices", "endpoints"), ("endpoints", "clusters"), ("clusters", "attributes_cache*"), ("clusters", "attributes_cache"),
                 ("groups", "group_members"), ("clusters", "unsupported_attributes"), ("devices", "relays")]
        if hasq:
            pairs += [("attributes_cache*", "quirks"), ("clusters", "quirks"), ("node_descriptors", "quirks"), ("quirks", "attributes_cache"), ("quirks", "unsupported_attributes"), ("quirks", "group_members"), ("quirks", "relays")]
        pairs += [(t, "listeners") for t in names if t != "listeners"]
        for a, b in pairs:
            if a in names and b in names:
                ctx.ob("load-order", max(i for i, x in enumerate(names) if x == a) < min(i for i, x in enumerate(names) if x == b), load, f"{b} is loaded before {a}", f"{a}<{b}")
            elif a.endswith("*") and hasq and b == "quirks":
                ctx.ob("load-order", False, load, "model and manufacturer are not loaded before devices are replaced", "names")
    ctx.need("load-order", n, 12, "tables on a load path")
    # the replacement is stored under its address
    seen = 0
    for p in ps:
        if p.normal:
            for e in calls(p, "get_device"):
                if ev_callee(e) and "quirks" in ev_callee(e):
                    seen += 1
                    st = [x for x in p.events[index(p, e):] if x.kind == "setidx" and norm(x.base) == ("attr", APP, "devices")]
                    ctx.ob("replacement-kept", len(st) >= 1 and norm(st[0].value if st[0].value is not None else st[0].args[-1]) == norm(e.term), (load, e.node), "the replaced device is not put in the device table")
    ctx.need("replacement-kept", seen, 1, "device replacements on load")


def statements(ctx):
    """Every statement of the database class parses and matches a schema."""
    S = db.schemas(ctx)
    cur = S[db.db_version(ctx)]
    every = {}
    for s in S.values():
        for t in s.tables:
            every.setdefault(t, s)
    c = ctx.p.cls(C)
    n = 0
    for m in c.methods.values():
        if not m.is_async or m.qual not in ctx.kit.owners(m.qual) or m.name in ("_run_migrations", "load", "_migrate_tables", "initialize_tables", "shutdown", "_worker", "new", "executescript"):
            continue
        ps = ctx.paths(m, selfcls=C, loop=1, handler_inject=False, inline=("zigpy.endpoint.Endpoint.unique_id",))
        for p in ps:
            for s in db.stmts(ps, p):
                if s.op not in ("insert", "update", "delete", "select"):
                    continue
                t = s.table
                if not t or t == "sqlite_master" or t.startswith(":") or "__t" in t:
                    continue
                n += 1
                mig = m.name.startswith("_migrate")
                sch = every.get(t) if mig else (cur if t in cur.tables else None)
                ctx.ob("statement-matches-schema", sch is not None, (m, s.e.node), f"{s.op} on {t}: no such table", t)
                if sch is None:
                    continue
                cols = sch.cols(t)
                used = set()
                for x in subterms2(s.d):
                    if isinstance(x, tuple) and len(x) == 2 and x[0] == "col":
                        used.add(x[1].split(".")[-1])
                for x in (s.d.get("cols") or []):
                    if isinstance(x, str):
                        used.add(x)
                for x in s.d.get("conflict") or []:
                    used.add(x)
                for x, _ in (s.d.get("set") or []):
                    used.add(x)
                src = s.d.get("select")
                if isinstance(src, dict) and src.get("table") in every:
                    cols = cols + every[src["table"]].cols(src["table"])
                bad = [u for u in used if u not in cols and u.upper() not in ("NULL", "*", "ROWID")]
                ctx.ob("statement-matches-schema", not bad, (m, s.e.node), f"{s.op} on {t}: unknown columns {bad}", t + str(bad))
                if s.op == "insert" and s.d["values"] is not None:
                    want = len(s.d["cols"] or sch.cols(t))
                    ctx.ob("statement-matches-schema", len(s.d["values"]) == want, (m, s.e.node), f"insert into {t}: {len(s.d['values'])} values for {want} columns", t + "#")
                    for x in {x for a in s.e.args[1:] for x in subterms(norm(a)) if x[0] == "comp"}:
                        for c1 in [c2 for _, cs in x[3] for c2 in cs]:
                            ctx.ob("saved-completely", any(y[0] == "isinstance" or y == ("glob", "builtins.isinstance") for y in subterms(c1)) and c1[0] != "boolop", (m, s.e.node), f"{t}: only entries with {show(c1)[-80:]} are saved", t)
                    for row in s.term_rows():
                        k = s.nparams(row, lambda x: starlen(ctx, x))
                        qs = [x for x in s.d["values"] if x[0] == "param" and isinstance(x[1], int)]
                        if k is not None and row[0] in ("tuple", "list") and qs and len(qs) == len(s.d["values"]):
                            ctx.ob("statement-matches-schema", k == len(qs), (m, s.e.node), f"insert into {t}: {k} arguments for {len(qs)} placeholders", t + "?")
                # named parameters are all supplied
                for row in s.term_rows():
                    if row[0] == "dict":
                        keys = {k[1] for k, _ in row[1] if k[0] == "const"}
                        need = {x[1] for x in subterms2(s.d) if isinstance(x, tuple) and len(x) == 2 and x[0] == "param" and isinstance(x[1], str)}
                        ctx.ob("statement-matches-schema", need <= keys | set(s.holes), (m, s.e.node), f"{s.op} on {t}: parameters {sorted(need - keys)} are not supplied", t + ":")
    ctx.need("statement-matches-schema", n, 35, "statements")


def subterms2(d):
    if isinstance(d, dict):
        for v in d.values():
            yield from subterms2(v)
    elif isinstance(d, (tuple, list)):
        if isinstance(d, tuple):
            yield d
        for x in d:
            yield from subterms2(x)


def starlen(ctx, t):
    s = repr(t)
    if "as_tuple" in s:
        for cls, key in (("Neighbor", "neighbor"), ("Route", "route"), ("NodeDescriptor", "node_desc")):
            if key in s.lower():
                return len(dbspec.struct_fields(ctx, f"zigpy.zdo.types.{cls}"))
    if t[0] in ("tuple", "list"):
        return len(t[1])
    return None


def adapters(ctx):
    """Addresses are stored as text and converted back by the declared column type."""
    m = ctx.p.module(db.MOD)
    f = ctx.p.func(f"{db.MOD}._register_sqlite_adapters")
    ps = ctx.paths(f, private=False)
    for p in ps:
        if not p.normal:
            continue
        ad = {show(e.args[0]).split(".")[-1] for e in calls(p, "register_adapter") if e.args}
        ctx.ob("addresses-adapted", {"EUI64", "ExtendedPanId"} <= ad, f, f"adapters are registered for {sorted(ad)}")
        cv = [e for e in calls(p, "register_converter") if e.args and is_const(e.args[0], "ieee")]
        ctx.ob("addresses-adapted", len(cv) == 1, f, "no converter for ieee columns")
    new = ctx.paths(f"{C}.new", private=False)
    for p in new:
        if p.normal:
            cs = calls(p, "aiosqlite_connect") or calls(p, "connect") or calls(p, "Connection")
            kw = {k: show(v) for e in cs for k, v in e.kwargs}
            ctx.ob("addresses-adapted", "PARSE_DECLTYPES" in kw.get("detect_types", ""), new, f"column types are not parsed: {kw}")


def quiet(ctx):
    """The flags used while loading really silence the announcements."""
    for q, flag in (("zigpy.group.Groups.add_group", "suppress_event"), ("zigpy.group.Group.add_member", "suppress_event"),
                    ("zigpy.backups.BackupManager.add_backup", "suppress_event"), ("zigpy.zcl.Cluster.add_unsupported_attribute", "inhibit_events")):
        ps = ctx.paths(q, handler_inject=False, loop=1)
        n = 0
        for p in ps:
            if not p.normal or not ps.consistent(p, ps.asg({flag: True})):
                continue
            n += 1
            ctx.ob("loading-is-quiet", not emits(p), ps, f"{q} announces although {flag} is set", q)
        ctx.need("loading-is-quiet", n, 1, "silent paths")


RULES = [c01.effects, statements, loading, skipping, order, adapters, quiet, c01.refresh]
