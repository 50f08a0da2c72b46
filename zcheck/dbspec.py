"""What each persisted event has to do to the tables (the oracle of C01/C03/C04)."""
from __future__ import annotations

from . import db
from .core import UNK, Obj, calls, norm, show
from .walk import const, contains, subterms
from .model import AnalysisBroken

EP = ("elem", ("attr", ("param", "device"), "non_zdo_endpoints"))
CL = ("elem", ("attr", EP, "clusters"))
CA = ("elem", ("call", ("attr", ("attr", CL, "_attr_cache"), "items"), (), ()))
UN = ("elem", ("attr", CL, "unsupported_attributes"))
ENV = {"ep_": EP, "cl_": CL, "ca_": CA, "un_": UN,
       "nb_": ("elem", ("param", "neighbors")), "rt_": ("elem", ("param", "routes"))}
CKEY = {"ieee": "cluster.endpoint.device.ieee", "endpoint_id": "cluster.endpoint.endpoint_id",
        "cluster_type": "cluster.cluster_type", "cluster_id": "cluster.cluster_id", "attr_id": "attrid"}
SKEY = {"ieee": "device.ieee", "endpoint_id": "ep_.endpoint_id", "cluster_type": "cl_.cluster_type", "cluster_id": "cl_.cluster_id"}
STRUCTS = {"neighbors": ("zigpy.zdo.types.Neighbor", "nb_"), "routes": ("zigpy.zdo.types.Route", "rt_"),
           "node_descriptors": ("zigpy.zdo.types.NodeDescriptor", "device.node_desc")}

# event -> [(scenario, [(kind, table, {column: expression})])]; an upsert is an insert
SPEC = {
    "device_joined": [({}, [("update", "devices", {"set:nwk": "device.nwk", "where:ieee": "device.ieee"})])],
    "device_last_seen_updated": [({}, [("update", "devices", {"set:last_seen": "last_seen.timestamp()", "where:ieee": "device.ieee"})])],
    "device_relays_updated": [
        ({"relays": None}, [("delete", "relays", {"where:ieee": "device.ieee"})]),
        ({"relays": Obj("relays")}, [("insert", "relays", {"ieee": "device.ieee", "relays": "relays.serialize()"})]),
        ({"relays": Obj("empty relays", False)}, [("insert", "relays", {"ieee": "device.ieee", "relays": "relays.serialize()"})])],
    "attribute_updated": [({}, [("insert", "attributes_cache", {**CKEY, "value": "value", "last_updated": "timestamp.timestamp()"})])],
    "attribute_cleared": [({}, [("delete", "attributes_cache", {f"where:{k}": v for k, v in CKEY.items()})])],
    "unsupported_attribute_added": [({}, [("insert", "unsupported_attributes", CKEY)])],
    "unsupported_attribute_removed": [({}, [("delete", "unsupported_attributes", {f"where:{k}": v for k, v in CKEY.items()})])],
    "neighbors_updated": [({}, [("delete", "neighbors", {"where:device_ieee": "ieee"}), ("insert", "neighbors", {"device_ieee": "ieee"})])],
    "routes_updated": [({}, [("delete", "routes", {"where:device_ieee": "ieee"}), ("insert", "routes", {"device_ieee": "ieee"})])],
    "group_added": [({}, [("insert", "groups", {"group_id": "group.group_id", "name": "group.name"})])],
    "group_member_added": [({}, [("insert", "group_members", {"group_id": "group.group_id", "ieee": "ep.device.ieee", "endpoint_id": "ep.endpoint_id"})])],
    "group_member_removed": [({}, [("delete", "group_members", {"where:group_id": "group.group_id", "where:ieee": "ep.device.ieee", "where:endpoint_id": "ep.endpoint_id"})])],
    "group_removed": [({}, [("delete", "groups", {"where:group_id": "group.group_id"})])],
    "device_removed": [({}, [("delete", "devices", {"where:ieee": "device.ieee"})])],
    "raw_device_initialized": [
        ({"device.node_desc": None, "isinstance(device, zigpy.quirks.BaseCustomDevice)": True},
         [("insert", "devices", "DEV")]),
        ({"device.node_desc": Obj("node_desc"), "isinstance(device, zigpy.quirks.BaseCustomDevice)": True},
         [("insert", "devices", "DEV"), ("insert", "node_descriptors", {"ieee": "device.ieee"})]),
        ({"device.node_desc": Obj("node_desc"), "isinstance(device, zigpy.quirks.BaseCustomDevice)": False, "*ep": True},
         [("insert", "devices", "DEV"), ("insert", "node_descriptors", {"ieee": "device.ieee"}),
          ("insert", "endpoints", {"ieee": "device.ieee", "endpoint_id": "ep_.endpoint_id", "profile_id": "ep_.profile_id",
                                   "device_type": "ep_.device_type", "status": "ep_.status"}),
          ("insert", "clusters", SKEY),
          ("insert", "attributes_cache", {**SKEY, "attr_id": "ca_[0]", "value": "ca_[1]", "last_updated": "~_attr_last_updated"}),
          ("insert", "unsupported_attributes", {**SKEY, "attr_id": "un_"})]),
        ({"device.node_desc": None, "isinstance(device, zigpy.quirks.BaseCustomDevice)": False, "*ep": True},
         [("insert", "devices", "DEV"),
          ("insert", "endpoints", {"ieee": "device.ieee", "endpoint_id": "ep_.endpoint_id"}),
          ("insert", "clusters", SKEY), ("insert", "attributes_cache", SKEY), ("insert", "unsupported_attributes", SKEY)]),
    ],
    "network_backup_created": [({}, [("insert", "network_backups", {"id": "None", "backup_json": "~backup.as_dict()"})])],
    "network_backup_removed": [({}, [("delete", "network_backups", {"backup_time": "backup.backup_time.isoformat()"})])],
}
DEV = {"ieee": "device.ieee", "nwk": "device.nwk", "status": "device.status", "last_seen": "~device._last_seen"}


def canon(t):
    """Object identities that hold by construction: an endpoint of a device belongs to it, and so on."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "attr" and len(t) == 3:
        b = canon(t[1])
        if b[0] == "elem":
            src = b[1]
            if t[2] in ("device", "_device") and src[0] == "attr" and src[2] == "non_zdo_endpoints":
                return src[1]
            if t[2] in ("endpoint", "_endpoint") and src[0] == "attr" and src[2] == "clusters":
                return src[1]
        return ("attr", b, t[2])
    if t[0] == "const":
        return t
    return tuple(canon(x) if isinstance(x, tuple) else x for x in t)


def same(ps, got, want, env=None):
    """Does value term `got` denote the expression `want` (a `~` prefix asks only for derivation)?"""
    if got is None:
        return False
    got = canon(norm(got))
    if isinstance(want, str):
        loose = want.startswith("~")
        if loose and want[1:].isidentifier():
            return any(x[0] == "attr" and x[2] == want[1:] for x in subterms(got))
        w = canon(ps.T(want[1:] if loose else want, env or ENV))
        return contains(got, w) if loose else got == w
    return want(got)


def struct_values(ps, table, w, env=None, cols=None):
    """Do the non-key columns of `w` come from the matching struct fields, in order?"""
    cls, src = STRUCTS[table]
    key = "ieee" if table == "node_descriptors" else "device_ieee"
    base = canon(ps.T(src, env or ENV))
    bad = []
    fields = struct_fields(ps.ctx, cls)
    rest = [c for c in w.cols if c != key]
    plain = lambda x: x.replace('_', '').lower()
    if [plain(x) for x in rest] != [plain(x) for x in fields]:
        bad.append(f"table {w.full} columns {rest} are not the fields of {cls}: {fields}")
    for k, c in enumerate(rest):
        v = w.values.get(c)
        if v is None:
            bad.append(f"no value for {c}")
            continue
        v = canon(v)
        ok = k < len(fields) and v == ("attr", base, fields[k])
        if v[0] == "staritem":
            b = v[1]
            ok = v[2] == k and b[0] == "call" and b[1] == ("attr", base, "as_tuple")
        if v[0] == "idx" and v[1][0] == "call":
            ok = v[1][1] == ("attr", base, "as_tuple") and v[2] == const(k)
        if not ok:
            bad.append(f"{c} <- {show(v)}")
    return bad


def struct_fields(ctx, cls):
    import ast
    c = ctx.p.cls(cls)
    out = []
    for st in c.node.body:
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            if "ClassVar" not in ast.unparse(st.annotation):
                out.append(st.target.id)
        elif isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and "StructField" in ast.unparse(st.value.func):
            out.append(st.targets[0].id)
    return out


def conflict_ok(schema, w):
    """An insert that can meet an existing row must resolve it and refresh every non-key column."""
    keys = [tuple(k) for k in schema.keys(w.full)]
    d = w.st.d
    if not keys:
        return None
    nonkey = [c for c in w.cols if not any(c in k for k in keys)]
    mode = d.get("mode")
    if mode == "REPLACE":
        ref = [t for t, x in schema.tables.items() for fk in x["fks"] if fk["ref"] == w.full]
        if ref:
            return f"INSERT OR REPLACE deletes the row and everything in {sorted(set(ref))} that refers to it"
        return None if set(w.values) >= set(w.cols) else "INSERT OR REPLACE drops the columns it does not name"
    if mode == "IGNORE":
        return f"INSERT OR IGNORE keeps stale {nonkey}" if nonkey else None
    auto = [k for k in keys if len(k) == 1 and w.values.get(k[0]) == const(None)]
    need = [k for k in keys if k not in auto]
    con = d.get("conflict")
    if con is None:
        return f"no ON CONFLICT clause although {need} is unique" if need else None
    if con and not any(sorted(con) == sorted(k) for k in keys):
        return f"conflict target {tuple(con)} is not a unique key {keys}"
    if d.get("do") == "nothing":
        return f"DO NOTHING keeps stale {nonkey}" if nonkey and need else None
    k = next((k for k in keys if con and sorted(con) == sorted(k)), keys[0])
    for c in w.cols:
        if c in k:
            continue
        if w.set.get(c) != w.values.get(c):
            return f"column {c} of an existing row is not set to the new value"
    return None


def check(ps, ws, spec, schema):
    """Problems of the writes `ws` against [(kind, table, {col: expr})]."""
    bad = []
    left = list(ws)
    for kind, table, cols in spec:
        if cols == "DEV":
            cols = DEV
        cand = [w for w in left if w.kind == kind and w.table == table]
        if not cand:
            bad.append(f"nothing does {kind} {table}")
            continue
        w = cand[0]
        for x in cand:
            left.remove(x)
        for w in cand:
            bad += check_write(ps, w, kind, table, cols, schema)
    for w in left:
        if w.kind == "delete" and w.table == "routes" and any(k == "delete" and t == "devices" for k, t, _ in spec):
            if not all(same(ps, v, "device.ieee") for v in w.where.values()) or not w.where:
                bad.append(f"unexpected {w.show()}")
            continue
        bad.append(f"unexpected {w.show()}")
    return bad


def check_write(ps, w, kind, table, cols, schema):
    bad = []
    if w.full != f"{table}_v{schema.user_version}":
        bad.append(f"writes {w.full}, current table is {table}_v{schema.user_version}")
        return bad
    if "#" in w.values:
        bad.append(f"{w.values['#'][1]} values for {w.values['#'][2]} columns of {w.full}")
    seen = set()
    for c, want in cols.items():
        if c.startswith("set:"):
            got, name = w.set.get(c[4:]), c[4:]
        elif c.startswith("where:"):
            got, name = w.where.get(c[6:]), c[6:]
        elif c == "backup_time":
            got = next((v for k, v in w.where.items() if isinstance(k, tuple) and "backup_time" in str(k)), None)
        else:
            got = w.values.get(c)
        if not same(ps, got, want):
            bad.append(f"{kind} {table}: {c} is {show(got) if got else 'missing'}, expected {want}")
    if kind in ("update", "delete"):
        want = {c[6:] for c in cols if c.startswith("where:")}
        for k in w.where:
            if isinstance(k, str) and k not in want:
                bad.append(f"{kind} {table}: extra condition on {k}")
    if kind == "delete" and w.extra:
        bad.append(f"delete {table}: extra condition {w.extra}")
    if kind == "update":
        for k in w.set:
            if f"set:{k}" not in cols:
                bad.append(f"update {table}: also overwrites {k}")
    if kind == "insert":
        if table in STRUCTS:
            bad += [f"insert {table}: {b}" for b in struct_values(ps, table, w)]
        r = conflict_ok(schema, w)
        if r:
            bad.append(f"insert {table}: {r}")
    return bad


ITER = ("attr", ("param", "device"), "non_zdo_endpoints")


def allowed_filters(w):
    """Row filters of a comprehension: only non-integer unsupported attributes may be left out."""
    p = w.st.params
    if p is None:
        return []
    p = norm(p)
    if p[0] != "comp":
        return []
    bad = []
    for it, ifs in p[3]:
        for c in ifs:
            c = norm(c)
            if w.table == "unsupported_attributes" and "isinstance" in str(c) and "builtins.int" in str(c):
                continue
            bad.append(f"rows are left out unless {show(c)}")
    return bad


def order_ok(ps, path, ws, schema):
    """Deletes precede inserts of one table; parents are inserted before rows that refer to them."""
    bad = []
    first, lastdel = {}, {}
    for i, w in enumerate(ws):
        if w.kind == "insert":
            first.setdefault(w.full, i)
        if w.kind == "delete":
            lastdel[w.full] = i
    for t, i in first.items():
        if t in lastdel and lastdel[t] > i:
            bad.append(f"{t}: rows are deleted after they were inserted")
        for fk in schema.tables[t]["fks"] if t in schema.tables else ():
            j = first.get(fk["ref"])
            if j is not None and j > i and fk["ref"] != t:
                bad.append(f"{t}: inserted before its parent {fk['table']}")
    return bad


def event_effects(ctx, schema):
    """For each spec'd event: yields (event, scenario, spec, ps_public, ps_internal, path, writes)."""
    hs = db.handlers(ctx)
    for ev, rows in SPEC.items():
        f = hs.get(ev)
        if f is None:
            yield ev, None, None, None, None, None, f"PersistingListener has no handler for {ev}"
            continue
        for scen, spec in rows:
            star = "*ep" in scen
            sc = {k: v for k, v in scen.items() if not k.startswith("*")}
            n = 0
            for p, es, ps in db.enqueued(ctx, f):
                if not ps.consistent(p, ps.asg(sc)):
                    continue
                if len(es) != 1:
                    yield ev, sc, spec, ps, None, p, f"{len(es)} changes queued instead of one"
                    continue
                e = es[0]
                if not e.args or e.args[0][0] != "const":
                    yield ev, sc, spec, ps, None, p, "queued handler name is not a constant"
                    continue
                ips = db.internal(ctx, e.args[0][1], e.args[1:])
                if ips is None or not ips.arity_ok:
                    yield ev, sc, spec, ps, None, p, f"queued handler {e.args[0][1]} does not exist or takes other arguments"
                    continue
                # internal paths speak in the terms of the public handler
                asg = ps.asg(sc)
                for q in ips:
                    if q.outcome.kind not in ("return", "next") or not ips.consistent(q, asg):
                        continue
                    its = [x for x in q.events if x.kind == "loopiter" and norm(x.base) == ITER]
                    if star and not its:
                        continue
                    n += 1
                    yield ev, sc, spec, ps, ips, q, db.writes(ips, q, schema)
            if n == 0:
                yield ev, sc, spec, None, None, None, f"{ev}: no path applies the change" + (" to every endpoint" if star else "")
