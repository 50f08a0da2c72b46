"""Start-up failure, shutdown and probing always release the radio."""
from ..core import calls, describe, index, norm, sets, show
from ..walk import contains, subterms

APP = "zigpy.application.ControllerApplication"
C = lambda v: ("const", v)  # noqa: E731


def startup(ctx):
    ps = ctx.paths(f"{APP}.startup", handler_inject=False, inject=("Exception", "ConnectionError", "OSError"), inject_at=lambda t, n, a: a and n in ("connect", "initialize"))
    kinds = set()
    for p in ps:
        con, ini, sh = calls(p, "connect"), calls(p, "initialize"), calls(p, "shutdown")
        ctx.ob("startup-order", len(con) == 1 and con[0].awaited and (not con[0].ok or len(ini) == 1 and ini[0].awaited and index(p, ini[0]) > index(p, con[0])), ps, f"start-up does not connect and then initialize [{describe(p)}]", "order")
        for e in ini:
            ctx.ob("startup-order", norm(ps.bound(e).get("auto_form", C(None))) == ("param", "auto_form"), ps, "auto_form is not passed on", "auto_form")
        bad = [e for e in con + ini if not e.ok]
        if not bad:
            ctx.ob("failure-releases-radio", not sh and p.normal, ps, f"a successful start-up is undone [{describe(p)}]", "ok")
            continue
        fail = bad[0]
        done = [e for e in sh if e.awaited and index(p, e) > index(p, fail)]
        ctx.ob("failure-releases-radio", len(done) == 1, ps, f"after {fail.name} failed shutdown is run {len(done)} times [{describe(p)}]", f"{fail.name}")
        for e in done:
            ctx.ob("failure-keeps-database", norm(ps.bound(e).get("db", C(True))) == C(False), ps, "a failed start-up closes the database its owner still uses", "db")
        ctx.ob("failure-reported", p.outcome.kind == "raise", ps, f"a failing {fail.name} is not reported [{describe(p)}]", f"{fail.name}")
        h = [e for e in p.events if e.kind == "handler"]
        exc = norm(h[0].value) if h else None
        conn = any(norm(a) == ("isinstance", exc, ("glob", "builtins.ConnectionError")) and v for _, a, v in p.trail)
        os_ = any(norm(a) == ("isinstance", exc, ("glob", "builtins.OSError")) and v for _, a, v in p.trail) and any(norm(a)[0] == "in" and norm(a)[1] == ("attr", exc, "errno") and v for _, a, v in p.trail)
        name = show(exc) if exc else ""
        trans = any(e.kind == "raise" and "TransientConnectionError" in e.name for e in p.events)
        raised = [e for e in p.events if e.kind == "raise"]
        if "ConnectionError" in name:
            kinds.add("conn")
            ctx.ob("transient-error-derived", trans, ps, f"a connection error is reported as {raised[-1].name if raised else 'itself'}", "conn")
        else:
            kinds.add("os" if "OSError" in name else "exc")
            ctx.ob("transient-error-derived", trans == (conn or os_), ps, f"{name} ({'transient errno' if os_ else 'other'}) is reported as {raised[-1].name if raised else 'itself'} [{describe(p)}]", "other")
            if "OSError" in name:
                kinds.add(("os", os_))
        if not trans:
            ctx.ob("original-error-kept", not raised or raised[-1].value is not None and norm(raised[-1].value) == exc, ps, f"the original error is replaced by {raised[-1].name if raised else None}", "reraise")
    ctx.ob("transient-error-derived", {"conn", "exc", ("os", True), ("os", False)} <= kinds, ps, f"start-up failures distinguished: {sorted(map(str, kinds))}", "kinds")
    import ast
    mod = ctx.kit.p.modules["zigpy.application"]
    for st in mod.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "TRANSIENT_CONNECTION_ERRORS" for t in st.targets):
            ctx.ob("transient-error-derived", any(isinstance(n, ast.Attribute) and n.attr == "ENETUNREACH" for n in ast.walk(st.value)), ps, "an unreachable network is not a transient error", "errno")
    ps = ctx.paths(f"{APP}.new", handler_inject=False, noinline=("_load_db",))
    n = 0
    for p in ps:
        if not p.normal:
            continue
        st, db = calls(p, "startup"), calls(p, "_load_db")
        want = [v for _, a, v in p.trail if norm(a) == ("truthy", ("param", "start_radio"))]
        n += 1
        app = norm(db[0].base) if db and db[0].base is not None else C(None)
        ctx.ob("startup-order", app[0] == "call" and app[2] == (("param", "config"),) and p.ret is not None and norm(p.ret) == app, ps, f"the new application is {show(app)[:40]}, returned: {show(norm(p.ret))[:40] if p.ret is not None else None}", "app")
        ctx.ob("startup-order", all(e.base is not None and norm(e.base) == app for e in st), ps, "another application is started", "same")
        ctx.ob("startup-order", len(db) == 1 and db[0].awaited, ps, "an application is created without loading its database", "db")
        ctx.ob("startup-order", len(st) == (1 if want and want[-1] else 0) and all(e.awaited and index(p, e) > index(p, db[0]) for e in st if db), ps, f"start_radio={want}: started {len(st)} times", "radio")
        for e in st:
            ctx.ob("startup-order", norm(ps.bound(e).get("auto_form", C(None))) == ("param", "auto_form"), ps, "auto_form is not passed on", "new")
    ctx.need("new", n, 2, "paths of ControllerApplication.new")


def shutdown(ctx):
    ps = ctx.paths(f"{APP}.shutdown", handler_inject=False, noinline=("_remove_db_listeners",), inject=("Exception",), inject_at=lambda t, n, a: a)
    kinds = set()
    L = ps.T("self._dblistener")
    for p in ps:
        dis = [e for e in calls(p, "disconnect") if e.awaited]
        dbs = [e for e in calls(p, "shutdown") if e.awaited and norm(e.base) == L]
        rem = calls(p, "_remove_db_listeners")
        ctx.ob("shutdown-disconnects", len(dis) == 1, ps, f"shutdown disconnects {len(dis)} times [{describe(p)}]", "dis")
        ctx.ob("shutdown-survives-failure", p.outcome.kind != "raise", ps, f"shutdown fails [{describe(p)}]", "raise")
        db = [v for _, a, v in p.trail if norm(a) == ("truthy", ("param", "db"))]
        have = [v for _, a, v in p.trail if norm(a) == ("truthy", L)] + [not v for _, a, v in p.trail if norm(a) == ("is", L, C(None))]
        want = db and db[-1] and (not have or have[-1])
        if db and db[-1]:
            ctx.ob("shutdown-closes-database", have != [], ps, "shutdown fails without a database", "have")
        kinds.add((bool(want), bool(dis) and dis[0].ok))
        ctx.ob("shutdown-closes-database", len(dbs) == (1 if want else 0), ps, f"db={db}, database open={have}, disconnect {'worked' if dis and dis[0].ok else 'failed'}: the database is closed {len(dbs)} times [{describe(p)}]", "close")
        for e in dbs:
            ctx.ob("shutdown-closes-database", bool(rem) and index(p, rem[0]) < index(p, e), ps, "the database is closed while still receiving events", "listeners")
        ctx.ob("shutdown-closes-database", not rem or bool(dbs), ps, "the database is disconnected from events but not closed", "kept")
        if dis:
            for stop in ("stop_periodic_backups", "stop_periodic_scans", "stop_periodic_broadcasts"):
                got = calls(p, stop)
                ctx.ob("work-stops-before-disconnect", bool(got) and index(p, got[0]) < index(p, dis[0]), ps, f"{stop} does not happen before the radio is disconnected", stop)
    ctx.ob("shutdown-closes-database", kinds >= {(True, True), (True, False), (False, True), (False, False)}, ps, f"combinations of database and disconnect outcome: {sorted(kinds)}", "kinds")


def probe(ctx):
    q = f"{APP}.probe"
    for inj in (("Exception",), ("asyncio.CancelledError",)):
        ps = ctx.paths(q, handler_inject=False, inject=inj, inject_at=lambda t, n, a: n == "connect", loop=2)
        seen = set()
        for p in ps:
            con = calls(p, "connect")
            for i, e in enumerate(con):
                nxt = index(p, con[i + 1]) if i + 1 < len(con) else len(p.events)
                rel = [d for d in calls(p, "disconnect") if d.awaited and d.base is not None and d.base == e.base and index(p, e) < index(p, d) < nxt]
                ctx.ob("probe-disconnects", len(rel) == 1, ps, f"after an attempt that {'connected' if e.ok else 'failed'} the radio is disconnected {len(rel)} times [{describe(p)}]", f"{inj[0]}")
                app = norm(e.base)
                conf = None
                if app[0] == "call" and len(app[2]) == 1:
                    for x in subterms(app[2][0]):
                        if x[0] == "dict" and x[1] and x[1][0][0] in (C("device"), ("glob", "zigpy.config.CONF_DEVICE")):
                            conf = x[1][0][1]
                seen.add(e.ok)
                ctx.ob("probe-uses-schema", conf is not None and any(x[0] == "glob" and x[1].endswith("SCHEMA_DEVICE") for x in subterms(conf)), ps, f"an attempt is made with an unchecked configuration {show(app)[:80]}", "schema")
                if e.ok:
                    ctx.ob("probe-result", p.outcome.kind == "return" and norm(p.ret) == conf, ps, f"the configuration that connected is {show(conf)[:50] if conf else None}, reported: {show(norm(p.ret))[:50] if p.ret is not None else p.outcome.kind}", "found")
                    ctx.ob("probe-result", i + 1 == len(con), ps, "probing goes on after a configuration connected", "stop")
            if con and not any(e.ok for e in con) and inj[0] == "Exception":
                ctx.ob("probe-result", p.outcome.kind == "return" and norm(p.ret) == C(False), ps, f"nothing connected, reported: {show(norm(p.ret))[:50] if p.ret is not None else p.outcome.kind} [{describe(p)}]", "none")
            if con:
                first = norm(con[0].base)
                sch = [x for x in subterms(first) if x[0] == "call" and x[1][0] == "glob" and x[1][1].endswith("SCHEMA_DEVICE")]
                ctx.ob("probe-tries-all", any(x[2] == (("param", "device_config"),) for x in sch), ps, f"the first configuration tried is {show(first)[:80]}", "given")
        ctx.ob("probe-disconnects", seen == {True, False}, ps, "undecided", "n")
    ps = ctx.paths(q, handler_inject=False, inject=("Exception",), inject_at=lambda t, n, a: n == "connect", loop=2)
    n = 0
    for p in ps:
        over = [e for e in calls(p, "SCHEMA_DEVICE")]
        tried = [norm(e.base) for e in calls(p, "connect")]
        stopped = any(e.ok for e in calls(p, "connect"))
        for e in over[1:]:
            t = norm(e.args[0]) if e.args else C(None)
            stars = [k for k in t[1]] if t[0] == "dict" else []
            ok = len(stars) == 2 and stars[0][1] == ("param", "device_config") and stars[1][1][0] == "elem"
            n += 1
            ctx.ob("probe-tries-all", ok or t[0] != "dict", ps, f"an alternative configuration is {show(t)[:100]}", "merge")
            if not stopped:
                dup = any(norm(a)[0] in ("eq", "in") and contains(norm(a), norm(e.value)) and v for _, a, v in p.trail)
                ctx.ob("probe-tries-all", dup or any(contains(x, norm(e.value)) for x in tried), ps, f"an alternative configuration is never tried [{describe(p)}]", "tried")
    ctx.need("probe", n, 1, "alternative configurations")


def initialize(ctx):
    q = f"{APP}.initialize"
    NOIN = ("_watchdog_loop", "_persist_coordinator_model_strings_in_db")
    ps = ctx.paths(q, handler_inject=False, noinline=NOIN, inject=("zigpy.exceptions.NetworkNotFormed", "Exception"), inject_at=lambda t, n, a: a and n == "load_network_info")

    def cfg(name):
        return [ps.T(f"self.{b}[conf.{name}]") for b in ("config", "_config")]

    def val(p, name):
        v = [v for _, a, v in p.trail if norm(a) in [("truthy", k) for k in cfg(name)]]
        return v[-1] if v else None

    seen = set()
    for p in ps:
        load = [e for e in calls(p, "load_network_info") if e.awaited]
        feed = [e for e in calls(p, "watchdog_feed") if e.awaited]
        net = [e for e in calls(p, "start_network") if e.awaited]
        form = [e for e in calls(p, "form_network") if e.awaited]
        rest = [e for e in calls(p, "restore_backup") if e.awaited]
        wd = val(p, "CONF_WATCHDOG_ENABLED")
        ctx.ob("watchdog-fed-first", wd is not None and len(feed) == (1 if wd else 0) and all(index(p, feed[0]) < index(p, e) for e in load + net if feed), ps, f"watchdog enabled={wd}: fed {len(feed)} times before the radio is used [{describe(p)}]", "feed")
        ctx.ob("network-loaded", len(load) == 1, ps, f"the network settings are loaded {len(load)} times [{describe(p)}]", "load")
        if not load:
            continue
        for e in net:
            ctx.ob("network-loaded", index(p, e) > index(p, load[0]), ps, "the network is started before its settings are loaded", "order")
        last = [norm(e.value) for e in calls(p, "most_recent_backup")]
        nobk = [v for _, a, v in p.trail for b in last if norm(a) == ("is", b, C(None))] + [not v for _, a, v in p.trail for b in last if norm(a) == ("truthy", b)]
        if not load[0].ok:
            exc = [e for e in p.events if e.kind == "handler"]
            if not exc:
                seen.add("other")
                ctx.ob("failure-reported", p.outcome.kind == "raise" and not net, ps, f"a failure to load the settings is ignored [{describe(p)}]", "load")
                continue
            af = [v for _, a, v in p.trail if norm(a) == ("truthy", ("param", "auto_form"))]
            ctx.ob("formed-only-if-asked", af != [], ps, "an unformed network is handled whatever was asked", "ask")
            if af and not af[-1]:
                seen.add("refused")
                ctx.ob("formed-only-if-asked", p.outcome.kind == "raise" and not net and not form and not rest, ps, f"an unformed network is {'formed' if form or rest else 'started'} although not asked to [{describe(p)}]", "no")
                continue
            if af and (net or p.normal):
                seen.add(("formed", bool(nobk and nobk[0])))
                ok = nobk != [] and (len(form) == 1 and not rest if nobk[0] else len(rest) == 1 and not form)
                ctx.ob("formed-only-if-asked", ok, ps, f"an unformed network, {'no' if nobk and nobk[0] else 'a'} backup: formed {len(form)} times, restored {len(rest)} times [{describe(p)}]", "how")
                for e in rest:
                    b = ps.bound(e)
                    ctx.ob("formed-only-if-asked", norm(b.get("backup", norm(e.args[0]) if e.args else C(None))) in last, ps, "another backup than the most recent one is restored", "which")
                for e in form + rest:
                    ctx.ob("network-loaded", not net or index(p, e) < index(p, net[0]), ps, "the network is started before it was formed", "form")
        else:
            ctx.ob("formed-only-if-asked", not form and not rest, ps, "a formed network is formed again", "again")
        vs = val(p, "CONF_NWK_VALIDATE_SETTINGS")
        comp = [(norm(a), v) for _, a, v in p.trail if norm(a)[0] == "truthy" and "is_compatible_with" in show(norm(a))]
        raised = [e for e in p.events if e.kind == "raise" and "NetworkSettingsInconsistent" in e.name]
        if raised:
            seen.add("inconsistent")
            ctx.ob("inconsistent-network-not-started", not net, ps, "the network is started before its settings are checked", "started")
            ctx.ob("consistent-network-started", vs is True and comp and not comp[-1][1], ps, f"settings are refused although validation={vs}, compatible={comp and comp[-1][1]}", "refused")
            cons = [e for e in calls(p, "NetworkSettingsInconsistent")]
            for e in cons:
                kw = dict(norm(e.value)[3])
                ctx.ob("inconsistent-network-not-started", kw.get("old_state") in last and "from_network_state" in show(kw.get("new_state", C(None))), ps, "the error does not carry the two states", "states")
        if net:
            refused = vs is True and comp and not comp[-1][1]
            ctx.ob("inconsistent-network-not-started", not refused, ps, f"a network that contradicts the newest backup is started [{describe(p)}]", "contradiction")
            if vs is not False and nobk and not nobk[-1]:
                ctx.ob("inconsistent-network-not-started", bool(comp) and comp[-1][1], ps, f"with a backup and validation={vs} the settings are not compared [{describe(p)}]", "compared")
            ctx.ob("inconsistent-network-not-started", vs is not None or bool(comp), ps, "the settings are never validated", "never")
        for a, v in comp:
            c = a[1]
            cur = [norm(e.value) for e in calls(p, "from_network_state") if index(p, e) > index(p, load[0])]
            sides = [c[1][1]] + list(c[2])
            ctx.ob("inconsistent-network-not-started", len(sides) == 2 and sides[0] in cur and sides[1] in last or len(sides) == 2 and sides[1] in cur and sides[0] in last, ps, f"compared: {show(c)[:100]}", "sides")
        if p.normal:
            ctx.ob("network-started", len(net) == 1, ps, f"initialization starts the network {len(net)} times [{describe(p)}]", "net")
            per = [e for e in calls(p, "permit") if e.awaited and net and index(p, e) > index(p, net[0])]
            ctx.ob("joining-closed", len(per) == 1 and per[0].args and norm(per[0].args[0]) == C(0) or len(per) == 1 and norm(ps.bound(per[0]).get("time_s", C(None))) == C(0), ps, f"joining is not closed after start-up [{describe(p)}]", "permit")
    ctx.ob("formed-only-if-asked", {"other", "refused", ("formed", True), ("formed", False), "inconsistent"} <= seen, ps, f"cases distinguished: {sorted(map(str, seen))}", "cases")
    # a start-up broadcast lost to interference is tolerated, any other failure is not
    ps = ctx.paths(q, handler_inject=False, noinline=NOIN, inject=("zigpy.exceptions.DeliveryError", "Exception"), inject_at=lambda t, n, a: a and n in ("permit", "start_network"))
    kinds = set()
    for p in ps:
        for e in [e for e in p.events if e.kind == "call" and not e.ok]:
            if e.name == "start_network":
                kinds.add("net")
                ctx.ob("failure-reported", p.outcome.kind == "raise", ps, "a network that fails to start is ignored", "net")
                continue
            st = [v for _, a, v in p.trail if norm(a)[0] == "eq" and "MAC_CHANNEL_ACCESS_FAILURE" in show(norm(a)) and norm(a)[1][0] == "attr" and norm(a)[1][2] == "status"]
            kinds.add(("permit", bool(st and st[-1])))
            ctx.ob("failure-reported", (p.outcome.kind != "raise") == bool(st and st[-1]), ps, f"a start-up broadcast that failed {'through interference' if st and st[-1] else 'otherwise'} {'is ignored' if p.outcome.kind != 'raise' else 'aborts start-up'} [{describe(p)}]", "permit")
    ctx.ob("failure-reported", kinds == {"net", ("permit", True), ("permit", False)}, ps, f"cases distinguished: {sorted(map(str, kinds))}", "cases")


def defaults(ctx):
    from ..sendspec import defaults as check
    check(ctx, "formed-only-if-asked", f"{APP}.startup", auto_form=False)
    check(ctx, "formed-only-if-asked", f"{APP}.initialize", auto_form=False)
    check(ctx, "formed-only-if-asked", f"{APP}.new", auto_form=False, start_radio=True)
    check(ctx, "shutdown-closes-database", f"{APP}.shutdown", db=True)


def feeding(ctx):
    ps = ctx.paths(f"{APP}.watchdog_feed", handler_inject=False, noinline=("_watchdog_feed",))
    for p in ps:
        f = [e for e in calls(p, "_watchdog_feed") if e.awaited]
        ctx.ob("watchdog-fed-first", len(f) == 1, ps, f"feeding the watchdog feeds the radio {len(f)} times", "radio")
    ps = ctx.paths(f"{APP}.connection_lost", handler_inject=False)
    for p in ps:
        ev = [e for e in calls(p, "listener_event") if e.args and norm(e.args[0]) == C("connection_lost")]
        ctx.ob("lost-connection-announced", len(ev) == 1 and len(ev[0].args) == 2 and norm(ev[0].args[1]) == ("param", "exc"), ps, f"a lost connection is announced {len(ev)} times", "lost")


RULES = [startup, shutdown, probe, initialize, defaults, feeding]
