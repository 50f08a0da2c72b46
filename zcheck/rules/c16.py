"""A topology scan isolates failures and always terminates."""
from ..core import Obj, calls, describe, index, norm, show
from ..lib import derived, emits, emit_args, is_const, keeps, lin_eq
from ..walk import contains, subterms

T = "zigpy.topology.Topology"
OPQ = tuple(f"{T}.{x}" for x in ("_scan_neighbors", "_scan_routes", "_find_unknown_devices"))


def total(terms):
    out = ("const", 0)
    for x in terms:
        out = ("bin", "+", out, x)
    return out


def table(ctx):
    ps = ctx.paths(f"{T}._scan_table", loop=3, handler_inject=False)
    ok = ctx.kit.enum_value("zigpy.zdo.types.Status", "SUCCESS")
    bad = ctx.kit.enum_value("zigpy.zdo.types.Status", "NOT_SUPPORTED")
    seen = set()
    for p in ps:
        rq = [e for e in p.events if e.kind == "call" and e.awaited and e.ok and e.value is not None and contains(norm(e.value), ("param", "scan_request")) and e.name != "sleep"]
        if not rq:
            ctx.ob("scan-progresses", False, ps, f"a table is read without a request [{describe(p)}]", "none")
            continue
        ents, rsps, sts = [], [], []
        for e in rq:
            v = norm(e.value)
            rsps.append(("idx", v, ("const", 1)))
            sts.append(("idx", v, ("const", 0)))
            ents.append(("call", ("glob", "builtins.getattr"), (("idx", v, ("const", 1)), ("param", "entries_attr")), ()))
        lens = [("call", ("glob", "builtins.len"), (x,), ()) for x in ents]
        for k, e in enumerate(rq):
            a = norm(e.args[0]) if e.args else ("none",)
            alt = [x for x in subterms(a) if x[0] == "call" and x[1] == ("glob", "builtins.len")]
            want = total(lens[:k])
            good = lin_eq(a, want)
            if not good and len(alt) == 1 and lin_eq(a, alt[0]):  # index kept as len(table)
                good = alt[0][2][0][0] == "list" and [x[1] if x[0] == "star" else x for x in map(norm, alt[0][2][0][1])] == ents[:k]
            ctx.ob("scan-progresses", good, (ps.func, e.node), f"request {k + 1} starts at {show(a)[:120]}", f"start{k}")
        # what makes it go on
        for k in range(len(rq) - 1):
            for n, tot in ((0, 100), (3, 3 * (k + 1)), (3, 3 * (k + 1) - 1)):
                a = {}
                for i in range(k + 1):
                    a[lens[i]] = 3 if i < k else n
                    a[ents[i]] = (1, 2, 3)[:3 if i < k else n]
                    a[("attr", rsps[i], "Entries")] = 1000 if i < k else tot
                    a[sts[i]] = ok
                ctx.ob("scan-progresses", not ps.consistent(p, a, trail=True), ps, f"after {'an empty page' if not n else 'the reported total'} another page is requested", f"stop{k}{n}{tot % 3}")
                seen.add("more")
            a = {sts[k]: bad}
            ctx.ob("scan-error-stops", not ps.consistent(p, a), ps, "an error status does not stop the scan", f"{k}")
        if p.outcome.kind in ("return", "next"):
            r = norm(p.ret) if p.ret is not None else ("none",)
            parts = [norm(x) for x in r[1]] if r[0] == "list" else []
            ctx.ob("every-page-returned", [x[1] if x[0] == "star" else x for x in parts] == ents, ps, f"{len(rq)} pages read, {show(r)[:120]} returned", f"{len(rq)}")
            a = {sts[-1]: bad}
            ctx.ob("scan-error-stops", not ps.consistent(p, a), ps, "an error status counts as a complete table", "ret")
            # not before the end
            for k in range(len(rq)):
                a = {lens[i]: 3 for i in range(len(rq))}
                a.update({ents[i]: (1, 2, 3) for i in range(len(rq))})
                a.update({("attr", rsps[i], "Entries"): 1000 for i in range(len(rq))})
                a.update({sts[i]: ok for i in range(len(rq))})
                ctx.ob("scan-complete", not ps.consistent(p, a, trail=True), ps, f"the scan ends after {len(rq)} of many pages", f"{k}")
            seen.add("done")
        if p.outcome.kind == "raise":
            seen.add("raise")
            ctx.ob("scan-error-stops", "ScanNotSupported" in str(p.outcome.value), ps, f"an error status is reported as {p.outcome.value}", "type")
            a = {sts[-1]: ok}
            ctx.ob("scan-error-stops", not ps.consistent(p, a), ps, "a successful page is an error", "ok")
    ctx.ob("scan-progresses", seen == {"more", "done", "raise"}, ps, f"undecided: {sorted(seen)}", "n")


def one_table(ctx):
    for fn, req, attr, skip, bare in (("_scan_neighbors", "Mgmt_Lqi_req", "NeighborTableList", "_neighbors_unsupported", "neighbors"), ("_scan_routes", "Mgmt_Rtg_req", "RoutingTableList", "_routes_unsupported", "routes")):
        ps = ctx.paths(f"{T}.{fn}", noinline=(f"{T}._scan_table",), inject=("zigpy.topology.ScanNotSupported", "Exception"), inject_at=lambda t, n, a: n == "_scan_table", handler_inject=False)
        n, junk = {}, set()
        for p in ps:
            rq = calls(p, "_scan_table")
            add = [e for e in calls(p, "add") if norm(e.base) == ps.T(f"self.{skip}")]
            for known in (True, False):
                if not ps.consistent(p, ps.asg({f"device.ieee in self.{skip}": known})):
                    continue
                n[known] = 1
                ctx.ob("unsupported-remembered", len(rq) == (0 if known else 1), ps, f"a device {'' if known else 'not '}known as unsupported is asked {len(rq)} times for its {bare}", f"{fn}{known}")
                if known:
                    ctx.ob("unsupported-remembered", p.normal and norm(p.ret) == ("list", ()), ps, f"an unsupported device has {bare} {show(p.ret)}", fn + "empty")
            for e in rq:
                a = [norm(x) for x in e.args]
                ctx.ob("unsupported-remembered", a[:1] == [ps.T(f"device.zdo.{req}")] and is_const((a + [dict(e.kwargs).get("entries_attr")])[1], attr), (ps.func, e.node), f"the {bare} are read by {show(e.value)}", fn + "req")
                if e.ok:
                    n["ok"] = 1
                    ctx.ob("unsupported-remembered", not add, ps, f"a device that answered is remembered as unsupported for {bare}", fn + "ok")
                    ctx.ob("unsupported-remembered", p.normal and derived(p, p.ret, norm(e.value)), ps, f"the {bare} read are {show(p.ret)[:80]}", fn + "val")
                    r = norm(p.ret)
                    if fn == "_scan_neighbors" and p.normal:
                        for bad in (True, False):
                            k = keeps(ps, p, r, norm(e.value), lambda el, bad=bad: {("in", ("attr", el, "ieee"), ps.T("INVALID_NEIGHBOR_IEEES")): bad})
                            if k is not None:
                                junk.add(bad)
                                ctx.ob("junk-left-out", k is (not bad), ps, f"neighbors with {'an invalid' if bad else 'a valid'} address are {'kept' if k else 'dropped'}: {show(r)[:120]}", f"inv{bad}")
                else:
                    uns = any(x.kind == "handler" and "ScanNotSupported" in x.name for x in p.events)
                    if p.normal:
                        n["uns"] = 1
                        ctx.ob("unsupported-remembered", uns and len(add) == 1 and norm(add[0].args[0]) == ps.T("device.ieee"), ps, f"a failed scan of {bare} counts as an empty table [{describe(p)}]", fn + "uns")
                    else:
                        n["fail"] = 1
                        ctx.ob("unsupported-remembered", not add, ps, f"a device whose {bare} could not be read is remembered as unsupported", fn + "fail")
        ctx.ob("junk-left-out", fn != "_scan_neighbors" or len(junk) == 2, ps, "undecided which neighbors are kept", "invn")
        ctx.ob("unsupported-remembered", len(n) == 5, ps, f"undecided: {n}", fn + "n")


def scan_all(ctx):
    ps = ctx.paths(f"{T}._scan", loop=1, noinline=OPQ, inject=("Exception", "asyncio.TimeoutError", "zigpy.exceptions.ZigbeeException"), inject_at=lambda t, n, a: n in ("_scan_neighbors", "_scan_routes"), max_inject=2, handler_inject=False)
    devs = {norm(e.args[0]) for p in ps for e in p.events if e.kind == "call" and e.name in ("_scan_neighbors", "_scan_routes") and e.args}
    ctx.ob("only-routers-scanned", bool(devs), ps, "no device is ever scanned", "devs")
    st = set()
    for p in ps:
        ctx.ob("failure-isolated", p.outcome.kind != "raise", ps, f"a failing device ends the scan [{describe(p)}]", "raise")
        outer = lambda e: any(contains(norm(e.base), x) for x in (("param", "devices"), ps.T("self._app.devices"))) and not any(contains(norm(e.base), norm(z.value)) for z in p.events if z.kind == "call" and z.name in ("_scan_neighbors", "_scan_routes") and z.value is not None)  # noqa: E731
        its = [e for e in p.events if e.kind == "loopiter" and outer(e)]
        ends = [e for e in p.events if e.kind == "loopend" and outer(e)]
        for given in (True, False):
            if p.normal and ps.consistent(p, ps.asg({"devices": Obj("list") if given else None})):
                for e in ends:
                    ctx.ob("only-routers-scanned", contains(norm(e.base), ("param", "devices") if given else ps.T("self._app.devices")), (ps.func, e.node), f"{'given' if given else 'no'} devices: scans {show(norm(e.base))}", f"src{given}")
        fin = calls(p, "_find_unknown_devices")
        if p.normal:
            ctx.ob("failure-isolated", len(ends) == 1 and ends[0].node is (its or ends)[0].node, ps, f"the scan stops before the last device [{describe(p)}]", "end")
            ctx.ob("unknown-devices-looked-up", len(fin) == 1, ps, "devices found in the tables are not looked up", "find")
            for e in fin:
                kw = {k: norm(v) for k, v in e.kwargs}
                ctx.ob("unknown-devices-looked-up", kw.get("neighbors") == ps.T("self.neighbors") and kw.get("routes") == ps.T("self.routes"), (ps.func, e.node), f"looks up {show(e.value)}", "args")
        for e in its:
            b = norm(e.base)
            live = [x for x in subterms(b) if x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("values", "items", "keys") and x[1][1] == ps.T("self._app.devices")]
            live += [x for x in subterms(b) if x == ps.T("self._app.devices")] if not live else []
            wrapped = any(x[0] == "call" and x[1][0] == "glob" and x[1][1].split(".")[-1] in ("list", "tuple", "sorted", "set") and contains(x, ps.T("self._app.devices")) or x[0] in ("list", "tuple", "comp") and contains(x, ps.T("self._app.devices")) for x in subterms(b))
            ctx.ob("failure-isolated", not live or wrapped, (ps.func, e.node), "the live device table is iterated while devices can join", "live")
        for d in devs:
            base = d
            while base[0] == "idx":
                base = base[1]
            if not its or base[0] != "elem" or base[1] != norm(its[0].base):
                continue
            ie = ("attr", d, "ieee")
            nd = ("attr", d, "node_desc")
            for has, router, coord, nu, ru, skip, own in [(h, r, c, a, b, s, o) for h in (1, 0) for r in (1, 0) for c in (1, 0) for a in (1, 0) for b in (1, 0) for s in (1, 0) for o in (1, 0)]:
                a = {nd: Obj("nd") if has else None, ("attr", nd, "is_router"): bool(router), ("attr", nd, "is_coordinator"): bool(coord),
                     ("in", ie, ps.T("self._neighbors_unsupported")): bool(nu), ("in", ie, ps.T("self._routes_unsupported")): bool(ru)}
                a.update(ps.asg({"self._app.config[zigpy.config.CONF_TOPO_SKIP_COORDINATOR]": bool(skip)}))
                a[("is", ps.T("self._app._device"), d)] = bool(own)
                a[("is", d, ps.T("self._app._device"))] = bool(own)
                if not p.normal or not ps.consistent(p, a):
                    continue
                want = bool(has and (router or coord) and not (nu and ru) and not (skip and own))
                st.add(want)
                lab = f"descriptor {has}, router {router}, coordinator {coord}, unsupported {nu}/{ru}, skip {skip}, own {own}"
                for what, fn in (("neighbors", "_scan_neighbors"), ("routes", "_scan_routes")):
                    tab = ps.T(f"self.{what}")
                    sc = [e for e in calls(p, fn)]
                    ev = emits(p, f"{what}_updated")
                    wr = [e for e in p.events if e.kind in ("setidx", "delidx") and norm(e.base) == tab or e.kind == "call" and e.base is not None and norm(e.base) == tab and e.name in ("pop", "clear", "update", "setdefault")]
                    ctx.ob("only-routers-scanned", len(sc) == (1 if want else 0) and all(norm(e.args[0]) == d for e in sc), ps, f"{lab}: {what} scanned {len(sc)} times", f"{what}{has}{router}{coord}{nu}{ru}{skip}{own}")
                    ctx.ob("scan-announced", len(ev) == (1 if want else 0), ps, f"{lab}: {what}_updated announced {len(ev)} times [{describe(p)}]", what + str(want))
                    for e in sc:
                        val = norm(e.value) if e.value is not None else None
                        for x in ev:
                            i = index(p, x)
                            ctx.ob("scan-announced", index(p, e) < i and all(index(p, w) < i for w in wr), ps, f"{what}_updated is announced before the result is stored", what + "order")
                            ar = emit_args(x)
                            exp = [norm(w.value) for w in wr] if wr else [("idx", tab, ie)]
                            ctx.ob("scan-announced", len(ar) == 2 and ar[0] == ie and ar[1] in (exp[-1], ("idx", tab, ie)), (ps.func, x.node), f"{what}_updated carries {[show(z)[:60] for z in ar]}", what + "args")
                        if not e.ok:
                            st.add(fn)
                            ctx.ob("failure-keeps-results", not wr, ps, f"a failed scan changes the stored {what} [{describe(p)}]", what)
                        else:
                            ok = len(wr) == 1 and wr[0].kind == "setidx" and norm(wr[0].args[0]) == ie and derived(p, wr[0].value, norm(e.value))
                            ctx.ob("scan-announced", ok, ps, f"the scanned {what} are not stored under their device", what + "store")
                            if ok and what == "routes":
                                for s in ("Active", "Inactive", "Discovery_Underway"):
                                    k = keeps(ps, p, wr[0].value, norm(e.value), lambda el, s=s: {("attr", el, "RouteStatus"): ctx.kit.enum_value("zigpy.zdo.types.RouteStatus", s)})
                                    if k is not None:
                                        st.add(s)
                                        ctx.ob("junk-left-out", k is (s != "Inactive"), (ps.func, wr[0].node), f"{s} routes are {'kept' if k else 'dropped'}", s)
    ctx.ob("failure-isolated", st >= {True, False, "_scan_neighbors", "_scan_routes", "Active", "Inactive"}, ps, f"undecided: {st}", "n")


def unknown(ctx):
    ps = ctx.paths(f"{T}._find_unknown_devices", loop=1, handler_inject=False, inject=("KeyError",), inject_at=lambda t, n, a: n == "get_device", max_inject=3)
    n = {}
    F = ps.func
    for p in ps:
        bad = [e for e in calls(p, "get_device") if not e.ok]
        req = calls(p, "_discover_unknown_device")
        if not p.normal:
            ctx.ob("unknown-devices-looked-up", p.outcome.kind != "raise", ps, f"an unknown device ends the lookup [{describe(p)}]", "raise")
            continue
        its = [e for e in p.events if e.kind == "loopiter"]
        last = [e for e in p.events if e.kind == "loopend"][-1:]
        lk = [dict(e.kwargs).get("nwk") for e in calls(p, "get_device")]
        for e in calls(p, "get_device"):
            w = dict(e.kwargs).get("nwk")
            ctx.ob("unknown-devices-looked-up", w is not None and norm(w)[0] == "attr" and norm(w)[2] in ("nwk", "DstNWK", "NextHop") and contains(norm(w), ("param", "neighbors" if norm(w)[2] == "nwk" else "routes")), (F, e.node), f"looks up {show(e.value) if e.value else '?'}", "look")
        for e in its:
            b = norm(e.base)
            r = [x for x in subterms(b) if x == ("param", "routes")]
            m = [x for x in subterms(b) if x == ("param", "neighbors")]
            if not r and not m or b[0] in ("list", "tuple", "set"):
                continue
            el = ("elem", b)
            names = {norm(w)[2] for w in lk if w is not None and contains(norm(w), ("param", "routes" if r else "neighbors"))}
            for s in ("Active", "Inactive"):
                a = {("attr", el, "RouteStatus"): ctx.kit.enum_value("zigpy.zdo.types.RouteStatus", s)}
                if ps.consistent(p, a):
                    want = {"nwk"} if m else {"DstNWK", "NextHop"} if s == "Active" else set()
                    n[bool(m), s] = 1
                    ctx.ob("unknown-devices-looked-up", names == want, ps, f"of {'a neighbor' if m else s + ' route'} {sorted(names)} are looked up", f"{bool(m)}{s}")
        for e in last:
            b = norm(e.base)
            ctx.ob("unknown-devices-looked-up", len(req) == sum(x.node is e.node for x in its), (F, e.node), "an unknown device is not looked up", "all")
            fails = [norm(x) for x in ([dict(e2.kwargs).get("nwk") for e2 in bad])]
            elts = [norm(x) for x in b[1]] if b[0] in ("set", "list", "tuple") else None
            if elts is not None:
                n["last"] = 1
                ctx.ob("unknown-devices-looked-up", all(any(x == f or contains(x, f) for x in elts) for f in fails) and len(elts) <= len(fails), (F, e.node), f"unknown {[show(x) for x in fails]}, looked up {show(b)[:100]}", "each")
                ctx.ob("unknown-devices-looked-up", b[0] == "set", (F, e.node), "an unknown device can be looked up twice", "once")
        for e in req:
            n["req"] = 1
            ctx.ob("unknown-devices-looked-up", e.awaited and norm(e.args[0])[0] == "elem", (F, e.node), f"looks up {show(e.value)}", "req")
    ctx.ob("unknown-devices-looked-up", len(n) >= 5, ps, f"undecided: {sorted(map(str, n))}", "n")


def restart(ctx):
    ps = ctx.paths(f"{T}.scan", noinline=(f"{T}._scan",), handler_inject=False)
    live = ps.asg({"self._scan_task": Obj("task"), "self._scan_task.done()": False})
    k = 0
    for p in ps:
        if not p.normal:
            continue
        run = calls(p, "_scan")
        w = [e for e in p.events if e.kind == "setattr" and e.name == "_scan_task"]
        ctx.ob("one-scan-at-a-time", len(run) == 1 and len(w) == 1 and contains(norm(w[0].value), norm(run[0].value)) and "create_task" in show(norm(w[0].value)), ps, f"a scan is not kept as the running one [{describe(p)}]", "task")
        for e in run:
            a = [norm(x) for x in e.args] + [norm(v) for _, v in e.kwargs]
            ctx.ob("one-scan-at-a-time", a == [("param", "devices")], (ps.func, e.node), f"scans {show(e.value)}", "devs")
        aw = [e for e in p.events if e.kind == "await"]
        ctx.ob("one-scan-at-a-time", bool(aw) and w and index(p, aw[-1]) > index(p, w[0]), ps, "the scan is not waited for", "await")
        if ps.consistent(p, live):
            k += 1
            can = [e for e in calls(p, "cancel") if norm(e.base) == ps.T("self._scan_task")]
            ctx.ob("one-scan-at-a-time", len(can) == 1 and w and index(p, can[0]) < index(p, w[0]), ps, f"a running scan goes on next to the new one [{describe(p)}]", "cancel")
    ctx.ob("one-scan-at-a-time", k >= 1, ps, "undecided", "n")


RULES = [table, one_table, scan_all, unknown, restart]
