"""The attribute cache mirrors device-confirmed state and always notifies."""
import ast

from ..core import Sym, calls, describe, index, norm, sets, show
from ..lib import allfacts, assumed, emits, emit_args, is_const, root
from ..model import walk_own
from ..walk import contains, subterms

CL = "zigpy.zcl.Cluster"
NI = (f"{CL}._update_attribute", f"{CL}.update_attribute", f"{CL}.add_unsupported_attribute", f"{CL}.remove_unsupported_attribute", f"{CL}.read_attributes_raw")
ST = "zigpy.zcl.foundation.Status"
UPD = ("_update_attribute", "update_attribute")
VALUES = {"SUCCESS": 0x00, "FAILURE": 0x01, "UNSUPPORTED_ATTRIBUTE": 0x86, "UNAUTHORIZED": 0x7E, "TIMEOUT": 0x94}


def status(name):
    return Sym(ST, name, VALUES[name])


def val(e):
    return norm(e.term if e.term is not None else e.value)


def store(ctx):
    """_update_attribute: value, timestamp and announcement together."""
    q = f"{CL}._update_attribute"
    ps = ctx.paths(q, handler_inject=False)
    cache, times = ps.T("self._attr_cache"), ps.T("self._attr_last_updated")
    kind = {}
    for value, incache, want in ((None, False, "nothing"), (None, True, "clear"), (5, False, "set"), (5, True, "set"), (0, True, "set")):
        a = ps.asg({"value": value, "attrid in self._attr_cache": incache})
        for p in ps:
            if not p.normal or not ps.consistent(p, a):
                continue
            kind[want] = kind.get(want, 0) + 1
            w = [(e, norm(e.base)) for e in p.events if e.kind in ("setidx", "delidx") or e.kind == "call" and e.name in ("pop", "clear", "update", "setdefault", "popitem")]
            ev = emits(p)
            lab = f"value {value!r}, {'already' if incache else 'not'} cached"
            if want == "nothing":
                ctx.ob("store-and-notify", not w and not ev, ps, f"{lab}: clearing an attribute that is not cached changes something [{describe(p)}]", lab)
            elif want == "clear":
                gone = [b for e, b in w if (e.kind == "delidx" or e.name == "pop") and norm(e.args[0]) == ("param", "attrid")]
                ctx.ob("store-and-notify", sorted(map(show, gone)) == sorted(map(show, (cache, times))), ps, f"{lab}: clears {[show(g) for g in gone]} [{describe(p)}]", lab)
                ctx.ob("store-and-notify", [norm(e.args[0]) for e in ev] == [("const", "attribute_cleared")] and emit_args(ev[0]) == (("param", "attrid"),), ps, f"{lab}: the removal is announced as {[show(e.args[0]) for e in ev]}", lab + "ev")
            else:
                s = {show(b): e for e, b in w if e.kind == "setidx" and norm(e.args[0]) == ("param", "attrid")}
                ctx.ob("store-and-notify", set(s) == {show(cache), show(times)} and len(w) == 2, ps, f"{lab}: stores into {sorted(s)} [{describe(p)}]", lab)
                if set(s) != {show(cache), show(times)}:
                    continue
                v, ts = norm(s[show(cache)].value), norm(s[show(times)].value)
                ctx.ob("store-and-notify", v == ("param", "value"), ps, f"{lab}: stores {show(v)}", lab + "v")
                ctx.ob("store-and-notify", "now" in show(ts) and "utc" in show(ts), ps, f"{lab}: the timestamp is {show(ts)}", lab + "t")
                ctx.ob("store-and-notify", [norm(e.args[0]) for e in ev] == [("const", "attribute_updated")] and emit_args(ev[0]) == (("param", "attrid"), ("param", "value"), ts), ps,
                       f"{lab}: announced as {[tuple(show(x) for x in emit_args(e)) for e in ev]}", lab + "ev")
                if ev:
                    ctx.ob("store-and-notify", all(index(p, ev[0]) > index(p, x) for x, _ in w), ps, "the change is announced before it is stored", lab + "order")
    ctx.ob("store-and-notify", {"nothing", "clear", "set"} <= set(kind), ps, f"undecided: {sorted(kind)}", "n")
    ps = ctx.paths(f"{CL}.update_attribute", noinline=NI)
    for p in ps:
        es = calls(p, "_update_attribute")
        ctx.ob("explicit-update", not p.normal or len(es) == 1 and [norm(x) for x in es[0].args] == [("param", "attrid"), ("param", "value")], ps, "an explicit update does not update the attribute")


# functions that may write the stores directly
WRITERS = {"_attr_cache": {f"{CL}._update_attribute", f"{CL}.__init__", "zigpy.quirks.CustomEndpoint.__init__", "zigpy.appdb.PersistingListener._load_attributes"},
           "unsupported_attributes": {f"{CL}.add_unsupported_attribute", f"{CL}.remove_unsupported_attribute", f"{CL}.__init__"}}
WRITERS["_attr_last_updated"] = WRITERS["_attr_cache"]
MUT = {"pop", "popitem", "clear", "update", "setdefault", "add", "remove", "discard", "append", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__"}


def writers(ctx):
    """Only the update functions touch the stores; copies take values and timestamps together."""
    def attr_of(x):
        while isinstance(x, ast.Subscript):
            x = x.value
        return x.attr if isinstance(x, ast.Attribute) and x.attr in WRITERS else None
    n = 0
    for f in ctx.p.funcs.values():
        if not f.module.name.startswith("zigpy."):
            continue
        hit = {}
        for x in walk_own(f.node):
            tg = []
            if isinstance(x, ast.Assign):
                tg = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                tg = [x.target]
            elif isinstance(x, ast.Delete):
                tg = x.targets
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
                tg = [x.func.value]
            for y in tg:
                a = attr_of(y)
                if a is not None:
                    hit.setdefault(a, []).append(x)
        for a, xs in hit.items():
            n += 1
            ok = f.qual in WRITERS[a] or _helper_of(ctx, f, WRITERS[a])
            ctx.ob("only-confirmed-writers", ok, (f, xs[0]), f"{f.qual} changes {a} directly", f.qual + a)
        k = [len(hit.get(a, ())) for a in ("_attr_cache", "_attr_last_updated")]
        ctx.ob("value-with-timestamp", k[0] == k[1], (f, (hit.get("_attr_cache") or hit.get("_attr_last_updated") or [f.node])[0]), f"{f.qual} changes {k[0]} values and {k[1]} timestamps", f.qual)
    allowed = {f"{CL}.read_attributes", f"{CL}.configure_reporting_multiple", f"{CL}.add_unsupported_attribute", f"{CL}.remove_unsupported_attribute", "zigpy.appdb.PersistingListener._load_unsupported_attributes"}
    for f in ctx.p.funcs.values():
        if not f.module.name.startswith("zigpy."):
            continue
        for x in walk_own(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("add_unsupported_attribute", "remove_unsupported_attribute"):
                add = x.func.attr.startswith("add")
                ok = f.qual in allowed or any(f.qual.startswith(a + ".") for a in allowed) or _helper_of(ctx, f, allowed)
                ctx.ob("unsupported-only-when-told" if add else "mark-cleared", ok, (f, x), f"{f.qual} {'sets' if add else 'clears'} an unsupported mark without an answer of the device", f.qual)
    ctx.ob("only-confirmed-writers", n >= 6, CL, "the attribute stores are not written", "n")


def _helper_of(ctx, f, allowed):
    """A helper called by the allowed functions only."""
    users = {g.qual for g in ctx.p.funcs.values() if g is not f and any(isinstance(x, ast.Attribute) and x.attr == f.name or isinstance(x, ast.Name) and x.id == f.name for x in walk_own(g.node))}
    return bool(users) and users <= allowed | {f.qual}


def record_value(t, rec):
    """Is `t` the value of record `rec`, possibly converted to the attribute's type?"""
    t = norm(t)
    raw = ("attr", ("attr", rec, "value"), "value")
    if t == raw:
        return True
    return t[0] == "call" and len(t[2]) == 1 and norm(t[2][0]) == raw and t[1][0] == "attr" and t[1][2] == "type" and contains(t[1][1], ("attr", rec, "attrid"))


def reads(ctx):
    sc = {"allow_cache": False, "only_cache": False}
    ps = ctx.paths(f"{CL}.read_attributes", loop=1, noinline=NI, handler_inject=False, scenario=sc, inject=("TypeError", "ValueError"), inject_at=lambda t, n, a: n == "type")
    seen = {}
    for p in ps:
        rd = calls(p, "read_attributes_raw")
        its = [e for e in p.events if e.kind == "loopiter" and rd and contains(norm(e.base), val(rd[0]))]
        ups, adds, rems = calls(p, UPD), calls(p, "add_unsupported_attribute"), calls(p, "remove_unsupported_attribute")
        if not its:
            ctx.ob("failed-record-ignored", not ups and not adds and not rems, ps, f"attributes change although no record was received [{describe(p)}]", "none")
            continue
        if not p.normal:
            continue
        rec = ("elem", norm(its[0].base))
        out = [e for e in p.events if e.kind == "setidx" and e.value is not None and contains(norm(e.args[0]), ("attr", rec, "attrid"))]
        for name in VALUES:
            a = dict(ps.asg(sc))
            a[("attr", rec, "status")] = status(name)
            if not ps.consistent(p, a):
                continue
            seen[name] = seen.get(name, 0) + 1
            good = name == "SUCCESS"
            ctx.ob("failed-record-ignored", len(ups) == (1 if good else 0), ps, f"a record with status {name} updates the attribute {len(ups)} times [{describe(p)}]", name)
            ctx.ob("unsupported-only-when-told", len(adds) == (1 if name == "UNSUPPORTED_ATTRIBUTE" else 0), ps, f"a record with status {name} marks {len(adds)} attributes as unsupported [{describe(p)}]", name)
            ctx.ob("mark-cleared", len(rems) == (1 if good else 0), ps, f"a record with status {name} clears {len(rems)} unsupported marks [{describe(p)}]", name)
            ctx.ob("read-result", len(out) == 1, ps, f"a record with status {name} gives {len(out)} results", name)
            for e in out:
                if good:
                    ok = ups and norm(e.value) == norm(ups[0].args[1]) and record_value(e.value, rec)
                else:
                    ok = norm(e.value) == ("attr", rec, "status") or getattr(ctx.kit.teval(norm(e.value), a), "name", None) == name
                ctx.ob("read-result", bool(ok), (ps.func, e.node), f"a record with status {name} is reported as {show(e.value)[:80]}", name + "v")
                # success and failure are reported separately: which dict (success is returned first)
            for e in ups:
                ctx.ob("value-of-record", norm(e.args[0]) == ("attr", rec, "attrid") and record_value(e.args[1], rec), (ps.func, e.node), f"attribute {show(e.args[0])[-40:]} is set to {show(e.args[1])[-60:]}", "read")
            for e in adds + rems:
                ctx.ob("value-of-record", norm(e.args[0]) == ("attr", rec, "attrid"), (ps.func, e.node), f"the mark of attribute {show(e.args[0])[-40:]} changes", e.name)
        isl = [v for x, v in allfacts(p) if norm(x)[0] == "isinstance" and rd and norm(norm(x)[1]) == ("idx", val(rd[0]), ("const", 0))]
    for name in VALUES:
        ctx.ob("failed-record-ignored", seen.get(name, 0) >= 1, ps, f"undecided for records with status {name}", name + "n")
    # default response instead of records
    for p in ps:
        rd = calls(p, "read_attributes_raw")
        for v in ([v for x, v in allfacts(p) if norm(x)[0] == "isinstance" and norm(norm(x)[1]) == ("idx", val(rd[0]), ("const", 0))] if rd else []):
            if v is False:
                ctx.ob("failed-record-ignored", not any(calls(p, n) for n in (*UPD, "add_unsupported_attribute", "remove_unsupported_attribute")), ps, f"a default response changes attributes [{describe(p)}]", "default")
    # cached reads
    for allow, only in ((True, False), (False, True), (True, True)):
        sc = {"allow_cache": allow, "only_cache": only}
        q = ctx.paths(f"{CL}.read_attributes", loop=1, noinline=NI, handler_inject=False, scenario=sc)
        k = 0
        for p in q:
            if not p.normal:
                continue
            rd = calls(p, "read_attributes_raw")
            k += 1
            if only:
                ctx.ob("cache-only-read", not rd and not any(calls(p, n) for n in (*UPD, "add_unsupported_attribute", "remove_unsupported_attribute")), q, f"a cache-only read asks the device [{describe(p)}]", str(allow))
            for e in [e for e in p.events if e.kind == "setidx" and e.value is not None]:
                v = norm(e.value)
                if v[0] == "idx" and v[1] == q.T("self._attr_cache"):
                    key = v[2]
                    ok = any(norm(x) == ("in", key, q.T("self._attr_cache")) and w is True for x, w in allfacts(p))
                    ctx.ob("cache-only-read", ok, (q.func, e.node), "a cached value is used without looking whether there is one", "in")
        ctx.ob("cache-only-read", k >= 2, q, "undecided", f"n{allow}{only}")
    q = ctx.paths(f"{CL}.get")
    for p in q:
        if p.normal:
            ctx.ob("cache-lookup", norm(p.ret) == q.T("self._attr_cache.get(self.find_attribute(key).id, default)") or norm(p.ret)[0] in ("idx", "param"), q, f"get returns {show(p.ret)}")
    q = ctx.paths(f"{CL}.__getitem__")
    for p in q:
        if p.normal:
            ctx.ob("cache-lookup", norm(p.ret) == q.T("self._attr_cache[self.find_attribute(key).id]"), q, f"item access returns {show(p.ret)}", "item")


def writes(ctx):
    q = f"{CL}.write_attributes_raw"
    ps = ctx.paths(q, loop=1, noinline=NI, handler_inject=False)
    k = {}
    for p in ps:
        w = calls(p, "_write_attributes")
        ups = calls(p, UPD)
        ctx.ob("write-confirmed", not p.normal or len(w) == 1 and w[0].args and norm(w[0].args[0]) == ("param", "attrs"), ps, f"the attributes are written {len(w)} times [{describe(p)}]", "w")
        if len(w) != 1:
            continue
        r0 = ("idx", val(w[0]), ("const", 0))
        fs = [(norm(a), v) for a, v in allfacts(p)]
        isl = [v for a, v in fs if a[0] == "isinstance" and norm(a[1]) == r0]
        first = ("attr", ("idx", r0, ("const", 0)), "status")
        its = [e for e in p.events if e.kind == "loopiter" and norm(e.base) == ("param", "attrs")]
        att = ("attr", ("elem", ("param", "attrs")), "attrid")
        inf = [(a, v) for a, v in fs if a[0] == "in" and norm(a[1]) == att]
        if False in isl:
            k["default"] = 1
            ctx.ob("write-confirmed", not ups, ps, f"a default response updates attributes [{describe(p)}]", "default")
            continue
        for e in ups:
            ctx.ob("write-confirmed", True in isl, (ps.func, e.node), "attributes are updated without looking at the response", "islist")
            ctx.ob("write-confirmed", norm(e.args[0]) == att and norm(e.args[1]) == ("attr", ("attr", ("elem", ("param", "attrs")), "value"), "value"), (ps.func, e.node),
                   f"attribute {show(e.args[0])} is set to {show(e.args[1])}", "value")
        # everything confirmed / some failed
        for n, st in ((1, "SUCCESS"), (1, "FAILURE"), (2, "FAILURE"), (2, "SUCCESS")):
            a = {first: status(st), ("call", ("glob", "builtins.len"), (r0,), ()): n, ("call", ("glob", "len"), (r0,), ()): n}
            if not ps.consistent(p, a):
                continue
            if n == 1 and st == "SUCCESS":
                if its:
                    k["all"] = 1
                    ctx.ob("write-confirmed", len(ups) == 1, ps, f"a confirmed attribute is updated {len(ups)} times [{describe(p)}]", "all")
            elif its:
                k["some"] = 1
                ctx.ob("write-confirmed", len(inf) == 1, ps, f"after a response with failures, an attribute is handled without looking whether it failed [{describe(p)}]", "in")
                for a2, v in inf:
                    fl = norm(a2[2])
                    ok = fl[0] == "comp" and norm(fl[2]) == ("attr", ("elem", r0), "attrid") and contains(fl, r0)
                    # a filter may only leave out successes
                    conds = [c for g in fl[3] for c in g[1]] if ok else []
                    ok = ok and all("SUCCESS" in show(c) for c in conds)
                    ctx.ob("write-confirmed", ok, ps, f"the failed attributes are {show(fl)[:160]}", "failed")
                    ctx.ob("write-confirmed", len(ups) == (0 if v else 1), ps, f"an attribute that {'failed' if v else 'was written'} is updated {len(ups)} times [{describe(p)}]", f"some{v}")
    for x in ("default", "all", "some"):
        ctx.ob("write-confirmed", x in k, ps, f"undecided: {x}", "n" + x)
    ps = ctx.paths(f"{CL}.write_attributes", loop=1, noinline=(*NI, f"{CL}._write_attr_records"), handler_inject=False)
    for p in ps:
        if p.normal:
            w = calls(p, "write_attributes_raw")
            ctx.ob("write-confirmed", len(w) == 1 and norm(w[0].args[0]) == ps.T("self._write_attr_records(attributes)"), ps, "attributes to write are not converted by _write_attr_records", "wa")
    ps = ctx.paths(f"{CL}._write_attr_records", loop=1, handler_inject=False, inject=("KeyError", "ValueError"), inject_at=lambda t, n, a: n in ("find_attribute", "type"))
    k = 0
    for p in ps:
        conv = [e for e in calls(p, "type") if not e.ok]
        if conv and not (p.outcome.kind == "raise" and "KeyError" in show(p.outcome.value)):
            k += 1
            ctx.ob("write-record", not p.normal and "ValueError" in show(p.outcome.value), ps, f"a value that cannot be converted is written anyway [{describe(p)}]", "conv")
        bad = [e for e in calls(p, "find_attribute") if not e.ok]
        if bad:
            ctx.ob("write-record", not calls(p, "append") and (p.ret is None or not contains(norm(p.ret), ("elem", ("x",)))), ps, "an unknown attribute is written", "unknown")
        for e in [e for e in p.events if e.kind == "setattr" and e.name == "value"]:
            v = norm(e.value)
            ok = v[0] == "call" and v[1][0] == "attr" and v[1][2] == "type" and len(v[2]) == 1
            ctx.ob("write-record", ok, (ps.func, e.node), f"the value written is {show(v)[:80]}", "value")
    ctx.ob("write-record", k >= 1, ps, "values are not converted to the attribute's type", "n")


def reports(ctx):
    ps = ctx.paths(f"{CL}.handle_cluster_general_request", loop=1, noinline=NI, idx_raises=True, handler_inject=False, inject=("TypeError", "ValueError"), inject_at=lambda t, n, a: n == "type",
                   scenario={"hdr.command_id == foundation.GeneralCommand.Report_Attributes": True, "hdr.command_id == foundation.GeneralCommand.Read_Attributes": False})
    k = 0
    for p in ps:
        ups = calls(p, UPD)
        its = [e for e in p.events if e.kind == "loopiter" and norm(e.base) == ps.T("args.attribute_reports")]
        ends = [e for e in p.events if e.kind == "loopend" and norm(e.base) == ps.T("args.attribute_reports")]
        if not p.normal or not ends:
            continue
        its = [e for e in its if e.node is ends[-1].node]
        # the last iteration over the reports is the storing one (an earlier one only describes them)
        if its:
            k += 1
            rec = ("elem", norm(its[-1].base))
            ctx.ob("report-stored", len(ups) == 1, ps, f"a reported attribute is updated {len(ups)} times [{describe(p)}]")
            for e in ups:
                ctx.ob("value-of-record", norm(e.args[0]) == ("attr", rec, "attrid") and record_value(e.args[1], rec), (ps.func, e.node), f"attribute {show(e.args[0])[-40:]} is set to {show(e.args[1])[-60:]}", "report")
        else:
            ctx.ob("report-stored", not ups, ps, "attributes change without a report", "none")
    ctx.ob("report-stored", k >= 3, ps, "reports are not stored", "n")
    ps = ctx.paths(f"{CL}.handle_cluster_general_request", loop=1, noinline=NI, handler_inject=False, inject=("KeyError",), inject_at=lambda t, n, a: n == "find_attribute", scenario={"hdr.command_id == foundation.GeneralCommand.Report_Attributes": False})
    for p in ps:
        ctx.ob("report-stored", not any(calls(p, n) for n in (*UPD, "add_unsupported_attribute", "remove_unsupported_attribute")), ps, f"a command that reports nothing changes attributes [{describe(p)}]", "other")


def reporting(ctx):
    q = f"{CL}.configure_reporting_multiple"
    ps = ctx.paths(q, loop=1, noinline=(*NI, f"{CL}._attr_reporting_rec"), handler_inject=False)
    n = {"add": 0, "rem": 0, "all": 0}
    for p in ps:
        cr = calls(p, "_configure_reporting")
        ctx.ob("reporting-status", not calls(p, UPD), ps, "configuring reports changes a value", "upd")
        if len(cr) != 1:
            continue
        r0 = ("idx", val(cr[0]), ("const", 0))
        first = ("attr", ("idx", r0, ("const", 0)), "status")
        fs = [(norm(a), v) for a, v in allfacts(p)]
        isl = [v for a, v in fs if a[0] == "isinstance" and norm(a[1]) == r0]
        adds, rems = calls(p, "add_unsupported_attribute"), calls(p, "remove_unsupported_attribute")
        if isl and False in isl:
            ctx.ob("reporting-status", not adds and not rems, ps, f"a default response changes unsupported marks [{describe(p)}]", "default")
            continue
        ln = ("call", ("glob", "builtins.len"), (r0,), ())
        ends = [norm(e.base) for e in p.events if e.kind == "loopend"]
        if p.normal and ps.consistent(p, {first: status("SUCCESS"), ln: 1}):
            ctx.ob("mark-cleared", any(contains(b, ("param", "attributes")) and not contains(b, r0) for b in ends), ps, f"a single success does not clear the marks of the configured attributes [{describe(p)[-150:]}]", "single")
        if p.normal and any(ps.consistent(p, {first: status(x), ln: k}) for x, k in (("FAILURE", 2), ("SUCCESS", 2), ("FAILURE", 1))):
            ctx.ob("reporting-status", any(contains(b, r0) for b in ends), ps, f"mixed records are not evaluated one by one [{describe(p)[-150:]}]", "mixed")
        for e in adds + rems:
            t = norm(e.args[0])
            want = "UNSUPPORTED_ATTRIBUTE" if e.name.startswith("add") else "SUCCESS"
            it = t[1] if t[0] == "elem" else ("none",)
            if it[0] == "comp":
                conds = [norm(c) for g in it[3] for c in g[1]]
                st = ("attr", ("elem", r0), "status")
                ok = norm(it[2]) == ("attr", ("elem", r0), "attrid") and _selects(ctx, conds, st, want)
                n["add" if want != "SUCCESS" else "rem"] += 1
            elif it == ("attr", ("elem", r0), "attrid") or t == ("attr", ("elem", r0), "attrid"):
                a = {("attr", ("elem", r0), "status"): status(want)}
                others = [{("attr", ("elem", r0), "status"): status(x)} for x in VALUES if x != want]
                ok = ps.consistent(p, a) and not any(ps.consistent(p, o) for o in others)
                n["add" if want != "SUCCESS" else "rem"] += 1
            else:
                ok = want == "SUCCESS" and contains(t, ("param", "attributes")) and not ps.consistent(p, {first: status("FAILURE")}) and not ps.consistent(p, {("call", ("glob", "builtins.len"), (r0,), ()): 2})
                n["all"] += 1
            ctx.ob("unsupported-only-when-told" if e.name.startswith("add") else "mark-cleared", ok, (ps.func, e.node), f"{e.name} for {show(t)[:140]} [{describe(p)[-120:]}]", e.name)
    for x, c in n.items():
        ctx.ob("reporting-status", c >= 1, ps, f"responses are not evaluated ({x})", "n" + x)


def _selects(ctx, conds, st, want):
    """Do the comprehension's conditions hold for status `want` only?"""
    def hold(name):
        vs = [ctx.kit.teval(c, {st: status(name)}) for c in conds]
        return None if any(not isinstance(v, bool) for v in vs) else all(vs)
    return hold(want) is True and all(hold(x) is False for x in VALUES if x != want)


def marks(ctx):
    for name, op, present, event in (("add_unsupported_attribute", "add", True, "unsupported_attribute_added"), ("remove_unsupported_attribute", "remove", False, "unsupported_attribute_removed")):
        q = f"{CL}.{name}"
        ps = ctx.paths(q, handler_inject=False, noinline=NI, inject=("KeyError",), inject_at=lambda t, n, a: n == "find_attribute")
        store = ps.T("self.unsupported_attributes")
        k = {}
        for has in (True, False):
            for isint in (True, False):
                for inh in (True, False):
                    a = ps.asg({"attr in self.unsupported_attributes": has, "isinstance(attr, int)": isint, "inhibit_events": inh})
                    for p in ps:
                        if not ps.consistent(p, a):
                            continue
                        k[has] = k.get(has, 0) + 1
                        m = [e for e in p.events if e.kind == "call" and e.base is not None and norm(e.base) == store]
                        ev = emits(p)
                        rec = calls(p, name)
                        ctx.ob("mark-set", p.normal, ps, f"marking an unknown attribute raises [{describe(p)}]", "norm")
                        if has is present:
                            ctx.ob("mark-set", not m and not ev and not rec, ps, f"{name} of an attribute that is {'already' if has else 'not'} marked does something [{describe(p)}]", f"{name}noop")
                            continue
                        ops = ("add",) if op == "add" else ("remove", "discard")
                        ctx.ob("mark-set", len(m) == 1 and m[0].name in ops and norm(m[0].args[0]) == ("param", "attr"), ps, f"{name} does {[e.name for e in m]} [{describe(p)}]", name)
                        want = isint and not inh
                        ctx.ob("mark-announced", len(ev) == (1 if want else 0), ps, f"{name} ({'number' if isint else 'name'}, events {'inhibited' if inh else 'wanted'}) announces {len(ev)} events", name)
                        for e in ev:
                            ctx.ob("mark-announced", norm(e.args[0]) == ("const", event) and emit_args(e) == (("param", "attr"),), (ps.func, e.node), f"announces {show(e.args[0])}", name + "ev")
                        found = [e for e in calls(p, "find_attribute") if e.ok]
                        ctx.ob("mark-set", len(rec) == len(found), ps, f"the attribute's other spelling is changed {len(rec)} times [{describe(p)}]", name + "both")
                        for e in rec:
                            other = ps.T("self.find_attribute(attr).name" if isint else "self.find_attribute(attr).id")
                            b = ps.bound(e)
                            ctx.ob("mark-set", b.get("attr") == other and b.get("inhibit_events") == ("param", "inhibit_events"), (ps.func, e.node), f"the other spelling of the {'number' if isint else 'name'} is {show(b.get('attr', ('none',)))}", name + "other")
        ctx.ob("mark-set", k.get(True) and k.get(False), ps, "undecided", name + "n")


RULES = [store, writers, reads, writes, reports, reporting, marks]
