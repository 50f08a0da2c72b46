"""Joining and initialization follow one lifecycle."""
import ast

from ..core import Obj, calls, describe, ev_callee, index, norm, show
from ..lib import allfacts, emits, emit_args, is_const
from ..model import Func, walk_own
from ..walk import contains, subterms

APP, DEV, EP = "zigpy.application.ControllerApplication", "zigpy.device.Device", "zigpy.endpoint.Endpoint"
FAILS = ("zigpy.exceptions.ZigbeeException", "asyncio.TimeoutError", "Exception")
SCHED = ("schedule_initialize",)


def arg(e, i, *names):
    kw = dict(e.kwargs)
    for n in names:
        if n in kw:
            return norm(kw[n])
    return norm(e.args[i]) if len(e.args) > i else ("none",)


def join(ctx):
    LOOK = dict(inject=("KeyError",), inject_at=lambda t, n, a: n == "get_device", handler_inject=False)
    ps = ctx.paths(f"{APP}.handle_join", **LOOK)
    seen = {}
    for p in ps:
        if not p.normal:
            ctx.ob("join-announced", p.outcome.kind != "raise", ps, f"a join raises [{describe(p)}]", "raise")
            continue
        add = [e for e in calls(p, "add_device") if e.ok]
        get = [e for e in calls(p, "get_device") if e.ok]
        d = norm((add or get or [None])[-1].value) if add or get else None
        if d is None:
            ctx.ob("join-announced", False, ps, f"a join touches no device [{describe(p)}]", "dev")
            continue
        for e in add:
            ctx.ob("join-announced", contains(arg(e, 0, "ieee"), ("param", "ieee")) and contains(arg(e, 1, "nwk"), ("param", "nwk")), (ps.func, e.node), f"a new device is added as {show(e.value)}", "add")
        for e in get:
            ctx.ob("join-announced", contains(arg(e, 0, "ieee"), ("param", "ieee")), (ps.func, e.node), f"the joining device is looked up as {show(e.value)}", "get")
        nwk = ("attr", d, "nwk")
        for same in (True, False):
            for init in (True, False):
                for rejoin in (True, False):
                    a = ps.asg({"handle_rejoin": rejoin, "nwk": 1})
                    a[nwk] = 1 if same else 2
                    a[("attr", d, "is_initialized")] = init
                    if not ps.consistent(p, a) or add and init:
                        continue
                    new = bool(add) or not same
                    lab = f"{'new device' if add else 'known device'}, address {'unchanged' if same else 'changed'}, {'' if init else 'not '}initialized, {'rejoin' if rejoin else 'lookup'}"
                    seen[bool(add), same, init, rejoin] = 1
                    ev = emits(p, "device_joined")
                    ctx.ob("join-announced", len(ev) == (1 if new else 0), ps, f"{lab}: device_joined is announced {len(ev)} times", lab)
                    sc = [e for e in calls(p, "schedule_initialize") if norm(e.base) == d]
                    want = new or not init
                    ctx.ob("join-initializes", len(sc) == (1 if want else 0), ps, f"{lab}: initialization is started {len(sc)} times", lab)
                    sg = [e for e in calls(p, "schedule_group_membership_scan") if norm(e.base) == d]
                    ctx.ob("join-initializes", len(sg) == (1 if not want and rejoin else 0), ps, f"{lab}: groups are scanned {len(sg)} times", lab + "g")
                    wr = [e for e in p.events if e.kind == "setattr" and e.name == "nwk" and norm(e.base) == d]
                    if not same:
                        ctx.ob("address-recorded-first", len(wr) >= 1 and all(norm(w.value) == ("param", "nwk") for w in wr), ps, f"{lab}: the short address is not recorded", lab)
                    for e in ev:
                        ctx.ob("join-announced", emit_args(e) == (d,), (ps.func, e.node), f"device_joined carries {[show(x) for x in emit_args(e)]}", "args")
                        ctx.ob("address-recorded-first", all(index(p, w) < index(p, e) for w in wr), (ps.func, e.node), "the device is announced before its short address is recorded", "order")
                        ctx.ob("join-announced", all(index(p, e) < index(p, s) for s in sc), (ps.func, e.node), "initialization starts before the join is announced", "order")
    for add in (True, False):
        for same in (True, False):
            for init in (True, False):
                for rejoin in (True, False):
                    if not (add and init) and not (add and not same):
                        ctx.ob("join-announced", (add, same, init, rejoin) in seen, ps, f"undecided: new={add} same={same} init={init}", f"n{add}{same}{init}{rejoin}")
    # where joins come from
    ps = ctx.paths(f"{APP}._maybe_parse_zdo", handler_inject=False)
    cmd = [a for p in ps for a in allfacts(p) if "command_id" in show(a)]
    ctx.ob("announcements-are-joins", bool(cmd), ps, "ZDO announcements are not told apart", "cmd")
    got = set()
    for p in ps:
        if not p.normal:
            continue
        des = [e for e in calls(p, "deserialize") if e.ok]
        if not des:
            continue
        hdr, args = ("idx", norm(des[-1].value), ("const", 0)), ("idx", norm(des[-1].value), ("const", 1))
        for c in ("Device_annce", "NWK_addr_rsp", "IEEE_addr_rsp", "Node_Desc_rsp"):
            for st in ("SUCCESS", "DEVICE_NOT_FOUND"):
                a = ps.asg({})
                a[("attr", hdr, "command_id")] = ctx.kit.enum_value("zigpy.zdo.types.ZDOCmd", c)
                a[("idx", args, ("const", 0))] = ctx.kit.enum_value("zigpy.zdo.types.Status", st)
                if not ps.consistent(p, a):
                    continue
                js = calls(p, "handle_join")
                want = c == "Device_annce" or c.endswith("addr_rsp") and st == "SUCCESS"
                got.add((c, st))
                ctx.ob("announcements-are-joins", len(js) == (1 if want else 0), ps, f"{c} with {st}: {len(js)} joins", c + st)
                n, i = (0, 1) if c == "Device_annce" else (2, 1)
                for e in js:
                    ctx.ob("announcements-are-joins", arg(e, 0, "nwk") == ("idx", args, ("const", n)) and arg(e, 1, "ieee") == ("idx", args, ("const", i)), (ps.func, e.node), f"{c}: joins as {show(e.value)[:120]}", c)
                    rj = dict(e.kwargs).get("handle_rejoin", ("const", True))
                    ctx.ob("announcements-are-joins", is_const(norm(rj), c == "Device_annce"), (ps.func, e.node), f"{c}: handled as {'a rejoin' if c != 'Device_annce' else 'a lookup'}", c + "r")
    for c in ("Device_annce", "NWK_addr_rsp", "IEEE_addr_rsp"):
        ctx.ob("announcements-are-joins", (c, "SUCCESS") in got, ps, f"undecided: {c}", "n" + c)
    ps = ctx.paths(f"{APP}.handle_leave", **LOOK)
    for p in ps:
        get = [e for e in calls(p, "get_device") if e.ok]
        known = bool(get)
        ev = emits(p)
        ctx.ob("leave-announced", p.normal, ps, f"a leave raises [{describe(p)}]", "raise")
        for e in get:
            ctx.ob("leave-announced", ("ieee", ("param", "ieee")) in [(k, norm(v)) for k, v in e.kwargs] and all(emit_args(x) == (norm(e.value),) for x in ev), (ps.func, e.node), f"the leaving device is {show(e.value)}", "dev")
        ctx.ob("leave-announced", [norm(e.args[0])[1] for e in ev] == (["device_left"] if known else []), ps, f"a leave of {'a known' if known else 'an unknown'} device announces {[show(e.args[0]) for e in ev]}", str(known))


def lifecycle(ctx):
    # definitions
    ps = ctx.paths(f"{DEV}.is_initialized", handler_inject=False)
    for nd in (None, Obj("nd")):
        for al in (True, False):
            for v in ps.scen({"self.node_desc": nd, "self.all_endpoints_init": al, "self.has_non_zdo_endpoints": True}):
                pass
            a = ps.asg({"self.node_desc": nd, "self.all_endpoints_init": al})
            for p in ps:
                if ps.consistent(p, a):
                    got = ctx.kit._truth(ctx.kit.teval(norm(p.ret), a))
                    ctx.ob("initialized-means-complete", got == (nd is not None and al), ps, f"descriptor {nd}, endpoints ready {al}: initialized is {got}", f"{nd is None}{al}")
    ps = ctx.paths(f"{DEV}.all_endpoints_init", handler_inject=False)
    ctx.ob("initialized-means-complete", bool(ps.paths) and all(p.ret is not None and not is_const(norm(p.ret), None) for p in ps), ps, "no answer", "ret")
    for p in ps:
        r = norm(p.ret) if p.ret is not None else ("const", None)
        a = ps.asg({"self.has_non_zdo_endpoints": False, "self.non_zdo_endpoints": ()})
        v = ctx.kit._truth(ctx.kit.teval(r, a)) if ps.consistent(p, a) else False
        ctx.ob("initialized-means-complete", v is False, ps, f"a device without endpoints counts as complete: {show(r)[:120]}", "none")
        cs = [x for x in subterms(r) if x[0] == "comp" and contains(x, ps.T("self.non_zdo_endpoints"))]
        its = [e for e in p.events if e.kind in ("loopiter", "loopend")]
        yes = ps.asg({"self.has_non_zdo_endpoints": True})
        ctx.ob("initialized-means-complete", bool(cs or its) or not ps.consistent(p, yes), ps, f"completeness is {show(r)[:160]}", "every")
        if cs and not its:
            el = next((x for x in subterms(cs[0][2]) if x[0] == "elem"), None)
            ok = el is not None
            if ok:
                quant = [x for x in subterms(r) if x[0] == "call" and cs[0] in x[2]]
                neg = any(x[0] in ("not", "unop") and quant and contains(x, quant[0]) for x in subterms(r))
                name = quant[0][1][1].split(".")[-1] if quant and quant[0][1][0] == "glob" else "?"
                for st in ("NEW", "ZDO_INIT", "ENDPOINT_INACTIVE"):
                    b = ps.asg({})
                    b[("attr", el, "status")] = ctx.kit.enum_value("zigpy.endpoint.Status", st)
                    v = ctx.kit._truth(ctx.kit.teval(norm(cs[0][2]), b))
                    want = (st != "NEW") if name == "all" else (st == "NEW") if name == "any" and neg else None
                    ok = ok and want is not None and v is want
            ctx.ob("initialized-means-complete", ok, ps, f"completeness is {show(r)[:160]}", "each")
    # at most one interview
    ps = ctx.paths(f"{DEV}.schedule_initialize", inline=(f"{DEV}.cancel_initialization", f"{DEV}.initializing"), noinline=(f"{DEV}.initialize",), handler_inject=False)
    old, k = ps.T("self._initialize_task"), {True: 0, False: 0}
    for p in ps:
        for init in (True, False):
            if not p.normal or not ps.consistent(p, ps.asg({"self.is_initialized": init})):
                continue
            run = [e for e in calls(p, "initialize") if norm(e.base)[0] == "self"]
            done = calls(p, "device_initialized")
            k[init] += 1
            if init:
                ctx.ob("no-second-interview", not run and len(done) == 1, ps, f"an initialized device is interviewed again or not announced [{describe(p)}]", "init")
                continue
            w = [e for e in p.events if e.kind == "setattr" and e.name == "_initialize_task"]
            ctx.ob("no-second-interview", len(run) == 1 and len(w) == 1 and contains(norm(w[0].value), norm(run[0].value)) and "create_task" in show(norm(w[0].value)), ps, f"the interview is not kept as the device's only one [{describe(p)}]", "task")
            ctx.ob("no-second-interview", not done, ps, "a device is announced as initialized before its interview", "early")
            live = ps.asg({"self._initialize_task": Obj("task"), "self._initialize_task.done()": False})
            if ps.consistent(p, live):
                can = [e for e in calls(p, "cancel") if norm(e.base) == old]
                ctx.ob("no-second-interview", bool(can) and w and index(p, can[0]) < index(p, w[0]), ps, f"a running interview is not cancelled [{describe(p)}]", "cancel")
    ctx.ob("no-second-interview", k[True] and k[False], ps, "undecided", "n")
    for f in ctx.p.funcs.values():
        for x in walk_own(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("initialize", "_initialize") and not x.args and isinstance(x.func.value, ast.Name) and \
                    (x.func.value.id == "self" and f.cls is not None and f.cls.qual == DEV or x.func.value.id in ("dev", "device")):
                ctx.ob("no-second-interview", {o.rsplit(".", 1)[-1] for o in ctx.kit.owners(f.qual)} <= {"schedule_initialize", "initialize"}, (f, x), "an interview is started outside the one place that replaces the running one", f.qual)
    # failure announced once
    ps = ctx.paths(f"{DEV}.initialize", noinline=(f"{DEV}._initialize",), inject=(*FAILS, "asyncio.CancelledError"), inject_at=lambda t, n, a: n == "_initialize" and a, handler_inject=False)
    n = 0
    for p in ps:
        bad = [e for e in p.events if e.kind == "call" and e.name == "_initialize" and not e.ok]
        ev = emits(p, "device_init_failure", ps.T("self.application"))
        canc = p.outcome.kind == "raise" and "Cancel" in str(p.outcome.value)
        if bad and not canc:
            n += 1
            ctx.ob("failure-announced-once", p.normal, ps, f"a failed interview raises instead of being announced [{describe(p)}]", "raise")
            ctx.ob("failure-announced-once", len(ev) == 1 and all(emit_args(e)[:1] and emit_args(e)[0][0] == "self" for e in ev), ps, f"a failed interview is announced {len(ev)} times [{describe(p)}]")
        elif not bad:
            ctx.ob("failure-announced-once", not ev, ps, "a successful interview is announced as failed", "ok")
            ctx.ob("failure-announced-once", len(calls(p, "_initialize")) == 1 and all(e.awaited for e in calls(p, "_initialize")), ps, "the interview is not run", "run")
    ctx.ob("failure-announced-once", n >= 1, ps, "no failure is handled", "n")
    ps = ctx.paths(f"{DEV}.initialize", noinline=(f"{DEV}._initialize",), inject=("asyncio.CancelledError",), inject_at=lambda t, n, a: n == "_initialize" and a, handler_inject=False)
    for p in ps:
        if any(e.kind == "call" and e.name == "_initialize" and not e.ok for e in p.events):
            ctx.ob("failure-announced-once", not emits(p, "device_init_failure", ps.T("self.application")), ps, "an interview which is cancelled, because a newer one replaces it, is announced as failed", "cancelled")
            ctx.ob("failure-announced-once", p.outcome.kind == "raise", ps, "cancelling an interview is ignored", "cancel")
    # a frame from a device in the middle of nowhere starts one
    ps = ctx.paths(f"{APP}.packet_received", noinline=(f"{APP}._maybe_parse_zdo", f"{APP}._discover_unknown_device"), handler_inject=False)
    dev = next((norm(e.value) for p in ps for e in calls(p, "get_device_with_address") if e.ok), None)
    ctx.need("frame-starts-interview", 1 if dev else 0, 1, "sender lookups")
    k = 0
    for p in ps:
        if not p.normal:
            continue
        for init in (True, False):
            for run in (True, False):
                a = ps.asg({"packet.dst_ep": 0, "packet.src_ep": 0})
                a[("attr", dev, "is_initialized")] = init
                a[("attr", dev, "initializing")] = run
                if not ps.consistent(p, a) or not any(norm(e.value) == dev for e in calls(p, "get_device_with_address") if e.ok):
                    continue
                k += 1
                sc = calls(p, "schedule_initialize")
                ctx.ob("frame-starts-interview", len(sc) == (1 if not init and not run else 0), ps, f"a frame from a device ({'' if init else 'not '}initialized, interview {'running' if run else 'not running'}) starts {len(sc)} interviews [{describe(p)}]", f"{init}{run}")
    ctx.ob("frame-starts-interview", k >= 3, ps, "undecided", "n")


def announced(ctx):
    ps = ctx.paths(f"{APP}.device_initialized", handler_inject=False)
    n = 0
    for p in ps:
        if not p.normal:
            continue
        q = [e for e in calls(p, "get_device") if e.callee is not None and ev_callee(e) and ev_callee(e).startswith("zigpy.quirks")] or [e for e in calls(p, "get_device")]
        ev = emits(p)
        ctx.ob("quirk-between-announcements", len(q) == 1 and arg(q[0], 0, "device") == ("param", "device"), ps, f"the device is looked up as a quirk {len(q)} times", "q")
        if len(q) != 1:
            continue
        d = norm(q[0].value)
        names = [(norm(e.args[0])[1], emit_args(e)) for e in ev]
        ctx.ob("quirk-between-announcements", names == [("raw_device_initialized", (("param", "device"),)), ("device_initialized", (d,))], ps, f"announces {[(x, [show(z) for z in y]) for x, y in names]}", "ev")
        w = [e for e in p.events if e.kind == "setidx" and norm(e.base) == ps.T("self.devices")]
        ctx.ob("quirk-between-announcements", len(w) == 1 and norm(w[0].value) == d and norm(w[0].args[0]) in (("attr", d, "ieee"), ps.T("device.ieee")), ps, "the device table does not get the replacement", "tab")
        if len(ev) == 2 and len(w) == 1:
            n += 1
            ctx.ob("quirk-between-announcements", index(p, ev[0]) < index(p, q[0]) < index(p, w[0]) < index(p, ev[1]), ps, f"out of order [{describe(p)}]", "order")
        for db in (None, Obj("db")):
            if ps.consistent(p, ps.asg({"self._dblistener": db})):
                cl = [e for e in calls(p, "add_context_listener") if norm(e.base) == d and norm(e.args[0]) == ps.T("self._dblistener")]
                ctx.ob("quirk-between-announcements", len(cl) == (0 if db is None else 1), ps, f"the database follows the replacement {len(cl)} times (database {'on' if db else 'off'})", f"db{db is None}")
    ctx.need("quirk-between-announcements", n, 1, "announcing paths")


def interview(ctx):
    inj = lambda t, n, a: a and n in ("get_node_descriptor", "Active_EP_req", "initialize", "get_model_info")
    ps = ctx.paths(f"{DEV}._initialize", loop=1, handler_inject=False, inject=("Exception",), inject_at=inj, max_inject=1, noinline=(f"{DEV}.get_node_descriptor", f"{DEV}.add_endpoint"))
    F = ps.func
    NZ = ps.T("self.non_zdo_endpoints")
    READY = ctx.kit.enum_value("zigpy.device.Status", "ENDPOINTS_INIT")
    n = {}
    for p in ps:
        fin = calls(p, "device_initialized")
        mark = [e for e in p.events if e.kind == "setattr" and e.name == "status" and ctx.kit.teval(norm(e.value), {}) == READY]
        failed = [e for e in p.events if e.kind == "call" and not e.ok]
        if p.outcome.kind == "raise":
            n["raise"] = n.get("raise", 0) + 1
            ctx.ob("announced-after-every-step", not fin and not mark, ps, f"a failed interview is announced or marked complete [{describe(p)}]", "fail")
            continue
        if not p.normal:
            continue
        ctx.ob("step-failure-fails-interview", not failed, ps, f"a failed step is ignored [{describe(p)}]", "swallow")
        ctx.ob("announced-after-every-step", len(fin) == 1 and len(mark) == 1 and arg(fin[0], 0, "device")[0] == "self", ps, f"a finished interview is announced {len(fin)} times, marked {len(mark)} times", "n")
        if len(fin) != 1 or len(mark) != 1:
            continue
        nd = [e for e in calls(p, "get_node_descriptor")]
        ae = [e for e in calls(p, "Active_EP_req")]
        ei = [e for e in calls(p, "initialize") if norm(e.base)[0] == "elem"]
        mi = [e for e in calls(p, "get_model_info")]
        steps = nd + ae + ei + mi
        ctx.ob("announced-after-every-step", all(index(p, e) < index(p, mark[0]) < index(p, fin[0]) for e in steps), ps, f"announced before the last step [{describe(p)}]", "order")
        ctx.ob("announced-after-every-step", all(e.awaited for e in steps), ps, "a step is not waited for", "await")
        for a, b in ((nd, ae), (ae, ei), (ei, mi)):
            ctx.ob("steps-in-order", all(index(p, x) < index(p, y) for x in a for y in b), ps, f"steps out of order [{describe(p)}]")
        for e in ae:
            st = ("idx", norm(e.value), ("const", 0))
            a = ps.asg({})
            a[st] = ctx.kit.enum_value("zigpy.zdo.types.Status", "NOT_SUPPORTED")
            ctx.ob("step-failure-fails-interview", not ps.consistent(p, a), (F, e.node), "a refused endpoint list counts as success", "ae")
            ctx.ob("steps-in-order", arg(e, 0) == ps.T("self.nwk"), (F, e.node), "the endpoint list is requested for another address", "aeargs")
            lst = ("idx", norm(e.value), ("const", 2))
            its = [x for x in p.events if x.kind == "loopiter" and contains(norm(x.base), lst)]
            ends = [x for x in p.events if x.kind == "loopend" and contains(norm(x.base), lst)]
            ctx.ob("every-endpoint", len(ends) >= 1, (F, e.node), f"the reported endpoints are not added [{describe(p)}]", "loop")
            for it in its:
                el = ("elem", norm(it.base), norm(it.args[0])[1])
                for num in (0, 5):
                    b = ps.asg({})
                    for alt in (el, ("elem", norm(it.base))):
                        b[alt] = num
                    if ps.consistent(p, b):
                        ad = [x for x in calls(p, "add_endpoint")]
                        n["add"] = n.get("add", 0) + 1
                        ctx.ob("every-endpoint", bool(ad) == (num != 0) and all(arg(x, 0, "endpoint_id")[0] == "elem" for x in ad), (F, it.node), f"reported endpoint {num} is {'added' if ad else 'dropped'}", f"ep{num}")
        for nds in (None, Obj("nd")):
            for has in (True, False):
                for al in (True, False):
                    for mod, man in ((None, Obj("f")), (Obj("m"), None), (Obj("m"), Obj("f"))):
                        a = ps.asg({"self.node_desc": nds, "self.has_non_zdo_endpoints": has, "self.all_endpoints_init": al, "self.model": mod, "self.manufacturer": man})
                        if not ps.consistent(p, a):
                            continue
                        n[nds is None, has, al, mod is None, man is None] = 1
                        ctx.ob("steps-in-order", nds is not None or len(nd) == 1, ps, f"a missing node descriptor is not requested [{describe(p)}]", "nd")
                        ctx.ob("steps-in-order", not has or not ae, ps, f"known endpoints are thrown away by a retry [{describe(p)}]", "keep")
                        ctx.ob("steps-in-order", has or len(ae) == 1, ps, f"missing endpoints are not requested [{describe(p)}]", "ep")
                        loops = {k: [x for x in p.events if x.kind == k and norm(x.base) == NZ] for k in ("loopend", "loopiter")}
                        if not al:
                            ini = [x for x in loops["loopend"] if any(isinstance(y, ast.Attribute) and y.attr == "initialize" for y in ctx.kit.expand(x.node))]
                            ctx.ob("every-endpoint", len(ini) == 1, ps, f"endpoints are not interviewed [{describe(p)}]", "ini")
                            its = [x for x in loops["loopiter"] if any(isinstance(y, ast.Attribute) and y.attr == "initialize" for y in ctx.kit.expand(x.node))]
                            ctx.ob("every-endpoint", len(ei) == len(its), ps, f"{len(ei)} of {len(its)} endpoints are interviewed", "each")
                        if mod is None or man is None:
                            q = [x for x in loops["loopend"] if any(isinstance(y, ast.Attribute) and y.attr == "get_model_info" for y in ctx.kit.expand(x.node))]
                            ctx.ob("steps-in-order", len(q) == 1, ps, f"the model is not queried [{describe(p)}]", "model")
                            its = [x for x in loops["loopiter"] if any(isinstance(y, ast.Attribute) and y.attr == "get_model_info" for y in ctx.kit.expand(x.node))]
                            ctx.ob("steps-in-order", len(mi) == len(its), ps, f"{len(mi)} of {len(its)} endpoints are asked for a missing model", "each")
        # what the device answered
        for e in mi:
            for fld, i in (("model", 0), ("manufacturer", 1)):
                v = ("idx", norm(e.value), ("const", i))
                set_ = [x for x in p.events[index(p, e):] if (x.kind == "setattr" or x.kind == "call" and x.callee is not None) and x.name == fld and x.base is not None and norm(x.base)[0] == "self"]
                for val in (None, "x"):
                    a = ps.asg({})
                    a[v] = val
                    if ps.consistent(p, a):
                        vals = [norm(x.value if x.kind == "setattr" else x.args[0]) for x in set_]
                        ctx.ob("model-recorded", vals == ([v] if val else []) or not val and vals == [v], (F, e.node), f"answered {fld} {val!r} is recorded as {[show(z) for z in vals]}", f"{fld}{val}")
    for nds in (True, False):
        for has in (True, False):
            for al in (True, False):
                for mod in ((True, False), (False, True), (False, False)):
                    ctx.ob("steps-in-order", (nds, has, al, *mod) in n, ps, "undecided", f"n{nds}{has}{al}{mod}")
    ctx.ob("every-endpoint", n.get("add", 0) >= 2, ps, "undecided", "nadd")
    ctx.need("announced-after-every-step", n.get("raise", 0), 3, "failing interviews")
    # node descriptor
    ps = ctx.paths(f"{DEV}.get_node_descriptor", handler_inject=False)
    k = 0
    for p in ps:
        rq = calls(p, "Node_Desc_req")
        w = [e for e in p.events if e.kind == "setattr" and e.name == "node_desc"]
        for e in rq:
            for st, ok in (("SUCCESS", True), ("NO_DESCRIPTOR", False)):
                a = ps.asg({})
                a[("idx", norm(e.value), ("const", 0))] = ctx.kit.enum_value("zigpy.zdo.types.Status", st)
                if ps.consistent(p, a):
                    k += 1
                    nd = ("idx", norm(e.value), ("const", 2))
                    ctx.ob("step-failure-fails-interview", p.normal is ok and (len(w) == 1 and norm(w[0].value) == nd if ok else not w), (ps.func, e.node), f"a node descriptor response with {st} {'fails' if ok else 'is accepted'}", st)
    ctx.ob("step-failure-fails-interview", k >= 2, ps, "undecided", "nd")


def endpoint(ctx):
    for done in (False, True):
        ps = ctx.paths(f"{EP}.initialize", loop=1, handler_inject=False, inject=("Exception",), inject_at=lambda t, n, a: a, scenario={"self.profile_id": Obj("p") if done else None, "self.status": ctx.kit.enum_value("zigpy.endpoint.Status", "ZDO_INIT" if done else "NEW")})
        F = ps.func
        k = {}
        for p in ps:
            rq = calls(p, "Simple_Desc_req")
            st = [e for e in p.events if e.kind == "setattr" and e.name == "status" and norm(e.base)[0] == "self"]
            vals = [getattr(ctx.kit.teval(norm(e.value), {}), "name", "?") for e in st]
            if done:
                ctx.ob("endpoint-descriptor-stored", p.normal and not rq, F, "an endpoint is interviewed twice", "twice")
                continue
            ctx.ob("endpoint-descriptor-stored", len(rq) == 1 and arg(rq[0], 0) == ps.T("self.device.nwk") and arg(rq[0], 1) == ps.T("self.endpoint_id") and rq[0].awaited, F, "the endpoint's own descriptor is not requested", "rq")
            if not rq:
                continue
            if not rq[0].ok:
                ctx.ob("endpoint-descriptor-stored", p.outcome.kind == "raise" and not st, F, f"an unanswered descriptor request counts as an interview [{describe(p)}]", "fail")
                continue
            sd = ("idx", norm(rq[0].value), ("const", 2))
            for s in ("SUCCESS", "NOT_ACTIVE", "INVALID_EP"):
                a = ps.asg({})
                a[("idx", norm(rq[0].value), ("const", 0))] = ctx.kit.enum_value("zigpy.zdo.types.Status", s)
                if not ps.consistent(p, a):
                    continue
                k[s] = 1
                adds = [e for e in p.events if e.kind == "call" and e.name in ("add_input_cluster", "add_output_cluster")]
                if s != "SUCCESS":
                    ok = p.outcome.kind == "raise" and not st if s == "INVALID_EP" else p.normal and vals == ["ENDPOINT_INACTIVE"]
                    ctx.ob("endpoint-descriptor-stored", ok and not adds, F, f"a descriptor response with {s} leaves status {vals} [{describe(p)}]", s)
                    continue
                ctx.ob("endpoint-descriptor-stored", p.normal and vals == ["ZDO_INIT"], F, f"a good descriptor leaves status {vals} [{describe(p)}]", s)
                pr = [e for e in p.events if e.kind == "setattr" and e.name == "profile_id"]
                dt = [e for e in p.events if e.kind == "setattr" and e.name == "device_type"]
                ctx.ob("endpoint-descriptor-stored", len(pr) == 1 and norm(pr[0].value) == ("attr", sd, "profile") and dt and norm(dt[0].value) == ("attr", sd, "device_type") or bool(pr) and bool(dt) and contains(norm(pr[-1].value), ("attr", sd, "profile")) and contains(norm(dt[-1].value), ("attr", sd, "device_type")), F, "profile or device type are not stored", "pr")
                for side, fld in (("add_input_cluster", "input_clusters"), ("add_output_cluster", "output_clusters")):
                    lst = ("attr", sd, fld)
                    ends = [e for e in p.events if e.kind == "loopend" and norm(e.base) == lst]
                    its = [e for e in p.events if e.kind == "loopiter" and norm(e.base) == lst]
                    mine = [e for e in adds if e.name == side]
                    good = [e for e in mine if arg(e, 0, "cluster_id")[0] == "elem" and arg(e, 0, "cluster_id")[1] == lst]
                    ctx.ob("endpoint-descriptor-stored", len(ends) == 1 and len(mine) == len(its) == len(good), F, f"{fld}: {len(good)} of {len(its)} reported clusters are added on their side [{describe(p)}]", fld)
                    ctx.ob("endpoint-descriptor-stored", all(index(p, e) < index(p, st[-1]) for e in [*mine, *ends]) if st else True, F, "the endpoint counts as interviewed before its clusters are stored", fld + "o")
        if not done:
            ctx.ob("endpoint-descriptor-stored", len(k) == 3, ps, f"undecided: {sorted(k)}", "n")


def bounded(ctx):
    f = ctx.p.func("zigpy.util.retry") if hasattr(ctx.p, "func") else ctx.p.funcs["zigpy.util.retry"]
    types = tuple("?" + ast.unparse(h.type) for c in ctx.kit.whole(f.qual) for t in ast.walk(c) if isinstance(t, ast.Try) for h in t.handlers if h.type is not None)
    types = tuple(t for t in types if t[1:] in f.params)
    ctx.ob("retries-bounded", bool(types), f, "the retried exceptions are not the caller's", "types")
    ps = ctx.paths(f, loop=4, max_inject=4, inject=types, inject_at=lambda t, n, a: a and n != "sleep", handler_inject=False)
    fn = ("param", f.params[0])
    n = 0
    for p in ps:
        tries = [e for e in p.events if e.kind == "call" and e.awaited and e.term is not None and norm(e.term)[0] == "call" and norm(e.term)[1] == fn] or [e for e in p.events if e.kind == "call" and e.awaited and e.name != "sleep"]
        for t in (1, 2, 3):
            if not ps.consistent(p, ps.asg({"tries": t})):
                continue
            n += 1
            bad = sum(not e.ok for e in tries)
            ctx.ob("retries-bounded", len(tries) <= t and p.outcome.kind != "cut", f, f"with {t} tries the operation is attempted {len(tries)}+ times", f"max{t}")
            if p.outcome.kind == "raise":
                ctx.ob("retries-bounded", bad == len(tries) == t, f, f"with {t} tries it gives up after {len(tries)}", f"give{t}")
            elif p.normal:
                ctx.ob("retries-bounded", bad == len(tries) - 1 and norm(p.ret) == norm(tries[-1].value), f, f"a failed attempt counts as success with {t} tries [{describe(p)}]", f"ok{t}")
    ctx.ob("retries-bounded", n >= 6, f, "undecided", "n")
    # every use of the decorator names a finite number of tries
    k = 0
    for m in ctx.p.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) in ("retryable_request", "retryable"):
                k += 1
                for kw in x.keywords:
                    if kw.arg == "tries":
                        v = ctx.kit.consteval(m, kw.value)
                        ctx.ob("retries-bounded", isinstance(v, int), (m.name, x) if False else m.name, f"tries={ast.unparse(kw.value)} is not a number", ast.unparse(x))
    # the decorator passes on what it was given
    f = ctx.p.funcs["zigpy.util.retryable"]
    code = [x for c in ctx.kit.whole(f.qual) for x in ast.walk(c) if x is not c]
    inner = [x for x in code if isinstance(x, ast.FunctionDef) and any(isinstance(y, ast.Call) and ast.unparse(y.func).split(".")[-1] == "retry" for y in walk_own(x))]
    ctx.ob("retries-bounded", len(inner) == 1, f, "the decorator does not retry", "inner")
    for x in inner:
        outer = [y for y in code if isinstance(y, ast.FunctionDef) and x in y.body]
        fn = outer[0].args.args[0].arg if outer and outer[0].args.args else "func"
        w = Func(f.module, None, x, f.qual + "." + x.name, None)
        env = {n: ("param", n) for n in (*f.params, fn)}
        ps = ctx.paths(w, env=env, noinline=("zigpy.util.retry",), handler_inject=False)
        for t in (1, 5):
            k2 = 0
            for p in ps:
                if not ps.consistent(p, {("param", "tries"): t}):
                    continue
                k2 += 1
                rt = [e for e in calls(p, "retry")]
                direct = [e for e in p.events if e.kind == "call" and e.value is not None and norm(e.value)[0] == "call" and norm(e.value)[1] == ("param", fn)]
                if not rt:
                    ctx.ob("retries-bounded", t == 1 and len(direct) == 1 and norm(p.ret) == norm(direct[0].value), w, f"with {t} tries the operation runs {len(direct)} times without being retried", f"direct{t}")
                    continue
                e = rt[0]
                b = {**dict(zip(("func", "retry_exceptions", "tries", "delay"), [norm(z) for z in e.args])), **{k3: norm(v) for k3, v in e.kwargs}}
                ok = contains(b.get("func", ("none",)), ("param", fn)) and b.get("retry_exceptions") == ("param", f.params[0]) and b.get("tries") == ("param", "tries") and norm(p.ret) == norm(e.value)
                ctx.ob("retries-bounded", ok, (w, e.node), f"retries {show(e.value)[:120]}", "args")
            ctx.ob("retries-bounded", k2 >= 1, w, "undecided", f"w{t}")
    f = ctx.p.funcs[f"{DEV}._initialize"]
    deco = [ast.unparse(d) for d in f.node.decorator_list]
    ini = ctx.p.funcs[f"{DEV}.initialize"]
    own = any(isinstance(x, ast.Call) and "retry" in ast.unparse(x.func) for x in ast.walk(ini.node))
    ctx.ob("retries-bounded", any("retry" in d for d in deco) or own, f, "the interview is not retried", "deco")
    ctx.need("retries-bounded", k, 1, "retried operations")


RULES = [join, lifecycle, announced, interview, endpoint, bounded]
