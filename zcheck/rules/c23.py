"""A firmware transfer ends exactly once and leaves nothing behind."""
from ..core import Obj, calls, describe, ev_callee, index, norm, sets, show
from ..lib import allfacts, applied_events, assumed, field_of, is_const, lin_eq
from ..walk import contains, subterms

M = "zigpy.ota.manager.OTAManager"
OPQ = (f"{M}._finish", "zigpy.ota.OtaImageWithMetadata.*", "zigpy.datastructures.*", "zigpy.zcl.*")
C = lambda v: ("const", v)  # noqa: E731
SENDS = ("query_next_image_response", "image_block_response", "upgrade_end_response", "image_notify")
FAIL = dict(inject=("Exception",), inject_at=lambda t, n, a: n in SENDS or n == "progress_callback")
SIG = {
    "query_next_image_response": ("status", "manufacturer_code", "image_type", "file_version", "image_size"),
    "image_block_response": ("status", "manufacturer_code", "image_type", "file_version", "file_offset", "image_data"),
    "upgrade_end_response": ("manufacturer_code", "image_type", "file_version", "current_time", "upgrade_time"),
}
HDR = {"manufacturer_code": "manufacturer_id", "image_type": "image_type", "file_version": "file_version", "image_size": "image_size"}
REQ = {"query_next_image": "query_next_image_response", "image_block": "image_block_response", "upgrade_end": "upgrade_end_response"}


def status(ps, name):
    return ps.T(f"foundation.Status.{name}")


def finished(p):
    return [e for e in calls(p) if ev_callee(e) == f"{M}._finish" or e.name == "_finish"]


def args(ps, e):
    b = ps.bound(e, SIG[e.name])
    return {k: norm(v) for k, v in b.items() if v is not None}


def handlers(ctx):
    """request name -> handler function name, from the registrations of __enter__."""
    ps = ctx.paths(f"{M}.__enter__", noinline=("zigpy.application.*",))
    reg = {}
    for p in ps:
        ctx.ob("listeners-released", p.outcome.kind == "raise" or p.ret is not None and norm(p.ret) == ps.T("self"), ps, "the context manager does not provide itself", "self")
        es = calls(p, "enter_context")
        for e in calls(p, "callback_for_response"):
            b = ps.bound(e, ("src", "filters", "callback"))
            ctx.ob("listeners-released", any(x.args and norm(x.args[0]) == norm(e.value) and norm(x.base) == ps.T("self.stack") for x in es), (ps.func, e.node), f"a listener is registered outside the manager's stack: {show(e.value)[:90]}", "stack")
            ctx.ob("own-requests-only", b.get("src") is not None and norm(b["src"]) == ps.T("self.device"), (ps.func, e.node), f"requests of {show(b.get('src'))} are answered", "src")
            f = norm(b["filters"]) if b.get("filters") is not None else C(None)
            names = {x[1].split(".")[-1] if x[0] == "glob" else x[-1] for x in subterms(f) if x[0] in ("glob", "attr", "enum") and show(x).split(".")[-1] in REQ}
            cb = norm(b["callback"]) if b.get("callback") is not None else C(None)
            ok = f[0] in ("list", "tuple") and len(f[1]) == 1 and len(names) == 1 and f[1][0][0] == "call" and not f[1][0][2] and not f[1][0][3]
            ctx.ob("own-requests-only", ok, (ps.func, e.node), f"the filter of {show(cb)} is {show(f)[:100]}", "filter")
            if len(names) == 1 and cb[0] == "attr":
                reg.setdefault(names.pop(), set()).add(cb[2])
    for r in REQ:
        ctx.ob("requests-answered", len(reg.get(r, ())) == 1, ps, f"{r} requests are answered by {sorted(reg.get(r, ()))}", r)
    return {r: next(iter(reg[r])) for r in REQ if reg.get(r)}


def image_fields(ctx, ps, e, b):
    for k in SIG[e.name]:
        ctx.ob("answers-identify-image", k in b, (ps.func, e.node), f"{e.name} is sent without {k}", e.name + k)
    for k, h in HDR.items():
        if k in SIG[e.name]:
            ctx.ob("answers-identify-image", b.get(k) == ps.T(f"self.image.firmware.header.{h}"), (ps.func, e.node), f"{e.name}: {k} is {show(b[k])[:80] if k in b else 'missing'}", e.name + k)
    kw = dict(e.kwargs)
    ctx.ob("answers-belong-to-request", kw.get("tsn") is not None and norm(kw["tsn"]) == ps.T("hdr.tsn"), (ps.func, e.node), f"{e.name} is sent with sequence number {show(kw.get('tsn')) if kw.get('tsn') else 'of its own'}", e.name)


def ended(ctx, ps, p, want, rule, msg, key):
    """The path ends the transfer with one of the wanted statuses."""
    fs = finished(p)
    ctx.ob(rule, bool(fs) and all(norm(e.args[0]) in want for e in fs if e.args), ps, f"{msg}: ends with {[show(e.args[0]) for e in fs if e.args]} [{describe(p)}]", key)


def query(ctx, name):
    ps = ctx.paths(f"{M}.{name}", noinline=OPQ, **FAIL)
    ok, no, bad = status(ps, "SUCCESS"), status(ps, "NO_IMAGE_AVAILABLE"), status(ps, "FAILURE")
    comp, ver, force = ps.T("self.image.check_compatibility(self.device, command)"), ps.T("self.image.check_version(command.current_file_version)"), ps.T("self.force")
    n = set()
    for p in ps:
        ctx.ob("failure-ends", p.outcome.kind != "raise", ps, f"a failed answer escapes [{describe(p)}]", "raise")
        rs = calls(p, "query_next_image_response", ok=None)
        ctx.ob("requests-answered", len(rs) == 1, ps, f"an image query is answered {len(rs)} times [{describe(p)}]", "query")
        if len(rs) != 1:
            continue
        e = rs[0]
        b = args(ps, e)
        image_fields(ctx, ps, e, b)
        st = b.get("status")
        for fo in (True, False):
            for co in (True, False):
                for ve in (True, False):
                    asg = {force: fo, comp: co, ver: ve}
                    if not ps.consistent(p, asg):
                        continue
                    good = fo or co and ve
                    n.add((fo, co, ve, e.ok))
                    ctx.ob("only-suitable-image", st == (ok if good else no), (ps.func, e.node), f"an image that is {'forced' if fo else ''} {'' if co else 'in'}compatible, {'' if ve else 'not '}newer is answered {show(st) if st else 'nothing'}", f"{fo}{co}{ve}")
                    if not e.ok:
                        ended(ctx, ps, p, (bad,), "failure-ends", "a query answer that could not be delivered", "q")
                    elif good:
                        ctx.ob("ends-once", not finished(p), ps, f"the transfer ends although the image was offered [{describe(p)}]", "offered")
                    else:
                        ended(ctx, ps, p, (no,), "refusal-ends", "a refused image", f"{co}{ve}")
    need = {(a, b, c, d) for a in (True, False) for b in (True, False) for c in (True, False) for d in (True, False)}
    ctx.ob("only-suitable-image", n >= need, ps, f"undecided: {sorted(need - n)[:4]}", "all")


def block(ctx, name):
    ps = ctx.paths(f"{M}.{name}", noinline=OPQ, **FAIL)
    ok, bad, mal = status(ps, "SUCCESS"), status(ps, "FAILURE"), status(ps, "MALFORMED_COMMAND")
    off, size, data = ps.T("command.file_offset"), ps.T("command.maximum_data_size"), ps.T("self._image_data")
    done = ps.T("self._upgrade_end_future.done()")
    cap = 40
    n = set()
    for p in ps:
        ctx.ob("failure-ends", p.outcome.kind != "raise", ps, f"a failed answer escapes [{describe(p)}]", "raise")
        rs = calls(p, "image_block_response", ok=None)
        ctx.ob("requests-answered", len(rs) == 1, ps, f"an image block request is answered {len(rs)} times [{describe(p)}]", "block")
        for e in rs:
            b = args(ps, e)
            kw = dict(e.kwargs)
            ctx.ob("answers-belong-to-request", kw.get("tsn") is not None and norm(kw["tsn"]) == ps.T("hdr.tsn"), (ps.func, e.node), f"the answer's sequence number is {show(kw.get('tsn')) if kw.get('tsn') else 'its own'}", "block")
            st, blk = b.get("status"), b.get("image_data")
            ctx.ob("ends-with-error", st in (ok, mal), (ps.func, e.node), f"a block is answered with {show(st) if st else 'nothing'}", "status")
            if st == ok:
                n.add(("good", e.ok))
                image_fields(ctx, ps, e, b)
                ctx.ob("requested-offset", b.get("file_offset") == off, (ps.func, e.node), f"the answer's offset is {show(b.get('file_offset'))}", "offset")
                shape = blk is not None and blk[0] == "idx" and blk[1] == data and blk[2][0] == "slice"
                ctx.ob("only-image-bytes", shape, (ps.func, e.node), f"the bytes sent are {show(blk)[:120]}", "bytes")
                if shape:
                    _, lo, hi, step = (blk[2] + (C(None),))[:4]
                    ctx.ob("requested-offset", norm(lo) == off and norm(step) == C(None), (ps.func, e.node), f"the bytes start at {show(lo)}", "lo")
                    mins = [x for x in subterms(hi) if x[0] == "call" and x[1] in (("glob", "builtins.min"), ("glob", "min"))]
                    lens = set()
                    if len(mins) == 1 and lin_eq(hi, ("bin", "+", off, mins[0])):
                        lens = {norm(x) for x in mins[0][2]}
                    else:
                        # bounded by a comparison on the path
                        for c in (C(cap), size):
                            if lin_eq(hi, ("bin", "+", off, c)):
                                lens = {c} | {x for x in (C(cap), size) if leq(p, c, x)}
                    consts = [x[1] for x in lens if x[0] == "const" and isinstance(x[1], int)]
                    ctx.ob("no-more-than-asked", size in lens, (ps.func, e.node), f"the bytes end at {show(hi)}", "size")
                    ctx.ob("no-more-than-asked", bool(consts) and 0 < min(consts) <= 64, (ps.func, e.node), f"the bytes end at {show(hi)}: not limited to what a radio can carry", "cap")
                    truth = [v for a, v in ps_facts(p) if a == ("truthy", blk) or a[0] == "cmp" and contains(a, blk)]
                    ctx.ob("ends-with-error", any(truth), (ps.func, e.node), f"a request beyond the end of the image is answered with success [{describe(p)}]", "empty")
            else:
                n.add(("beyond", e.ok))
                ended(ctx, ps, p, (mal,), "ends-with-error", "a request beyond the end of the image", "end")
                ctx.ob("ends-with-error", not calls(p, "reschedule"), ps, "the stall timer is armed after the end", "rearm")
            if st == ok and not e.ok:
                ended(ctx, ps, p, (bad,), "failure-ends", "a block that could not be delivered", "blk")
                ctx.ob("progress-after-delivery", not calls(p, "progress_callback"), ps, "progress is reported for an undelivered block", "progress")
            if st == ok and e.ok:
                rr = calls(p, "reschedule")
                for r in rr:
                    ctx.ob("not-rearmed", any(a == ("truthy", done) and v is False for a, v in assumed(p, e, r)), (ps.func, r.node), "the stall timer is re-armed by a request handled after the end", "block")
                    ctx.ob("stall-detected", norm(r.base) == ps.T("self._stall_timer") and r.args and isinstance(ctx.kit.teval(norm(r.args[0]), {}), (int, float)) and 0 < ctx.kit.teval(norm(r.args[0]), {}) <= 600, (ps.func, r.node), f"the stall timer is set to {show(r.args[0]) if r.args else '?'}", "delay")
                if ps.consistent(p, {ps.T("self.progress_callback"): None}, trail=True):
                    ctx.ob("progress-after-delivery", not calls(p, "progress_callback", ok=None), ps, "progress is reported to nobody", "none")
                elif ps.consistent(p, {ps.T("self.progress_callback"): Obj("cb"), done: False}, trail=True):
                    ctx.ob("progress-after-delivery", len(calls(p, "progress_callback", ok=None)) == 1, ps, f"progress is not reported [{describe(p)}]", "once")
                live = any(a == ("truthy", done) and v is False for a, v in assumed(p, e))
                dead = any(a == ("truthy", done) and v is True for a, v in assumed(p, e))
                failed = any(x.kind == "handler" for x in p.events)
                if not failed and not dead:
                    ctx.ob("stall-detected", bool(rr), ps, f"a delivered block does not postpone the stall [{describe(p)}]", "postpone")
                    ctx.ob("ends-once", not finished(p), ps, f"a delivered block ends the transfer [{describe(p)}]", "blk")
                    n.add("live")
                for c in calls(p, "progress_callback", ok=None):
                    ctx.ob("progress-after-delivery", live, (ps.func, c.node), "progress is reported after the end of the transfer", "dead")
                    a = [norm(x) for x in c.args]
                    ctx.ob("progress-after-delivery", len(a) == 2 and blk is not None and lin_eq(a[0], ("bin", "+", off, ("call", ("glob", "builtins.len"), (blk,), ()))) and a[1] == ps.T("len(self._image_data)"), (ps.func, c.node), f"progress {[show(x)[:60] for x in a]}", "args")
                    n.add("progress")
                    if not c.ok:
                        ended(ctx, ps, p, (bad,), "failure-ends", "a failing progress callback", "cb")
    need = {("good", True), ("good", False), ("beyond", True), ("beyond", False), "live", "progress"}
    ctx.ob("requests-answered", n >= need, ps, f"undecided: {sorted(map(str, need - n))}", "all")


def ps_facts(p):
    out = []
    for _, a, v in p.trail:
        out.append((norm(a), v))
    return out


def leq(p, a, b):
    """a <= b assumed along the path?"""
    for at, v in ps_facts(p):
        if at[0] == "cmp" and len(at) == 4:
            op, x, y = at[1], at[2], at[3]
            if (x, y) == (a, b) and (op in ("<", "<=") and v or op in (">", ">=") and not v):
                return True
            if (x, y) == (b, a) and (op in (">", ">=") and v or op in ("<", "<=") and not v):
                return True
        if at[0] in ("lt", "le", "gt", "ge"):
            x, y = at[1], at[2]
            if (x, y) == (a, b) and (at[0] in ("lt", "le") and v or at[0] in ("gt", "ge") and not v):
                return True
            if (x, y) == (b, a) and (at[0] in ("gt", "ge") and v or at[0] in ("lt", "le") and not v):
                return True
    return False


def end(ctx, name):
    ps = ctx.paths(f"{M}.{name}", noinline=OPQ, **FAIL)
    bad, st = status(ps, "FAILURE"), ps.T("command.status")
    n = set()
    for p in ps:
        ctx.ob("failure-ends", p.outcome.kind != "raise", ps, f"a failed answer escapes [{describe(p)}]", "raise")
        rs = calls(p, "upgrade_end_response", ok=None)
        ctx.ob("requests-answered", len(rs) == 1, ps, f"an end request is answered {len(rs)} times [{describe(p)}]", "end")
        fs = finished(p)
        for e in rs:
            image_fields(ctx, ps, e, args(ps, e))
            failed = any(x.kind == "handler" for x in p.events)
            n.add(e.ok)
            if not e.ok:
                ended(ctx, ps, p, (bad,), "failure-ends", "an end answer that could not be delivered", "end")
            elif not failed:
                ctx.ob("success-only-confirmed", bool(fs) and norm(fs[0].args[0]) == st, ps, f"the device's end request ends the transfer with {[show(f.args[0]) for f in fs]} [{describe(p)}]", "status")
                ctx.ob("success-only-confirmed", bool(fs) and index(p, e) < index(p, fs[0]), ps, "the transfer ends before the device was answered", "order")
    ctx.ob("requests-answered", n == {True, False}, ps, f"undecided {n}", "all-end")


def ending(ctx):
    """_finish, stall, notify, wait, exit."""
    ps = ctx.paths(f"{M}._finish", noinline=("zigpy.datastructures.*",))
    fut = ps.T("self._upgrade_end_future")
    done = ps.T("self._upgrade_end_future.done()")
    n = set()
    for p in ps:
        ctx.ob("timer-removed", any(norm(e.base) == ps.T("self._stall_timer") for e in calls(p, "cancel")), ps, f"the stall timer survives the end [{describe(p)}]", "finish")
        sr = calls(p, "set_result", ok=None)
        for d in (True, False):
            if not ps.consistent(p, {done: d}):
                continue
            n.add(d)
            if d:
                ctx.ob("ends-once", not sr, ps, "the transfer ends twice", "twice")
            else:
                ctx.ob("ends-once", len(sr) == 1 and norm(sr[0].base) == fut and norm(sr[0].args[0]) == ("param", "status"), ps, f"ending with a status gives {[show(e.args[0]) for e in sr]}", "status")
    ctx.ob("ends-once", n == {True, False}, ps, f"undecided {n}", "both")

    ps = ctx.paths(f"{M}.__init__", noinline=("zigpy.ota.manager.find_ota_cluster",), handler_inject=False)
    cb = None
    for p in ps:
        if p.outcome.kind == "raise":
            continue
        v = {e.name: norm(e.value) for e in sets(p) if norm(e.base) == ps.T("self")}
        t = v.get("_stall_timer", C(None))
        cb = [x[2] for x in subterms(t) if x[0] == "attr" and x[1] == ps.T("self")]
        ctx.ob("stall-detected", t[0] == "call" and len(cb) == 1, ps, f"the stall timer is {show(t)[:80]}", "timer")
        ctx.ob("only-image-bytes", v.get("_image_data") == ps.T("image.firmware.serialize()") and v.get("image") == ("param", "image"), ps, f"the data sent is {show(v.get('_image_data', C(None)))[:80]}", "data")
        for k in ("device", "force", "progress_callback"):
            ctx.ob("only-image-bytes", v.get(k) == ("param", k), ps, f"{k} is {show(v.get(k, C(None)))[:60]}", k)
        f = v.get("_upgrade_end_future", C(None))
        ctx.ob("ends-once", f[0] == "call" and f[1][0] == "attr" and f[1][2] == "create_future", ps, f"the outcome is kept in {show(f)[:60]}", "future")
        oc = v.get("ota_cluster", C(None))
        ctx.ob("own-requests-only", oc == ("call", ("glob", "zigpy.ota.manager.find_ota_cluster"), (("param", "device"),), ()), ps, f"the cluster is {show(oc)[:60]}", "cluster")
    for name in cb or ():
        ps = ctx.paths(f"{M}.{name}", noinline=OPQ, **FAIL)
        for p in ps:
            fs = finished(p)
            ok = len(fs) == 1 and ctx.kit.teval(norm(fs[0].args[0]), {}) != ctx.kit.teval(status(ps, "SUCCESS"), {})
            ctx.ob("stall-detected", ok, ps, f"a stalled transfer ends with {[show(e.args[0]) for e in fs]}", "stall")

    ps = ctx.paths(f"{M}.notify", noinline=OPQ, **FAIL)
    n = set()
    for p in ps:
        ctx.ob("failure-ends", p.outcome.kind != "raise", ps, f"a failed notification escapes [{describe(p)}]", "notify")
        es = calls(p, "image_notify", ok=None)
        ctx.ob("device-notified", len(es) == 1, ps, f"the device is notified {len(es)} times [{describe(p)}]", "once")
        for e in es:
            n.add(e.ok)
            b = ps.bound(e, ("payload_type", "query_jitter"))
            ctx.ob("device-notified", b.get("query_jitter") is not None and is_const(norm(b["query_jitter"]), 100) and b.get("payload_type") is not None and show(norm(b["payload_type"])).endswith("QueryJitter"), (ps.func, e.node), f"the device is notified with {show(e.value)[:120] if e.value else b}: it may stay silent", "args")
            if not e.ok:
                ended(ctx, ps, p, (status(ps, "FAILURE"),), "failure-ends", "a notification that could not be delivered", "notify-end")
                ctx.ob("timer-removed", not calls(p, "reschedule"), ps, "the stall timer is armed after the end", "notify")
            elif not any(x.kind == "handler" for x in p.events):
                rr = calls(p, "reschedule")
                ctx.ob("stall-detected", len(rr) == 1 and norm(rr[0].base) == ps.T("self._stall_timer"), ps, f"a device that never answers is not detected [{describe(p)}]", "notify")
                ctx.ob("ends-once", not finished(p), ps, "the notification ends the transfer", "notify")
    ctx.ob("device-notified", n == {True, False}, ps, f"undecided {n}", "all")

    ps = ctx.paths(f"{M}.wait")
    for p in ps:
        ctx.ob("ends-once", p.outcome.kind == "raise" or contains(norm(p.ret), fut) and any(e.kind == "await" or e.awaited for e in p.events), ps, f"the outcome is {show(p.ret or C(None))[:60]}", "wait")

    ps = ctx.paths(f"{M}.__exit__", handler_inject=False, noinline=("zigpy.datastructures.*",))
    for p in ps:
        if p.outcome.kind == "raise":
            continue
        cl = [e for e in calls(p, "close") + calls(p, "__exit__") if norm(e.base) == ps.T("self.stack")]
        ctx.ob("listeners-released", len(cl) >= 1, ps, f"the listeners survive the transfer [{describe(p)}]", "exit")
        tc = [e for e in calls(p, "cancel") if norm(e.base) == ps.T("self._stall_timer")]
        fin = calls(p, "_finish")
        ctx.ob("timer-removed", bool(tc or fin), ps, f"the stall timer survives the transfer [{describe(p)}]", "exit")
        fc = [e for e in calls(p) if e.name in ("cancel", "set_result", "set_exception") and norm(e.base) == fut]
        isdone = any(a == ("truthy", done) and v for a, v in ps_facts(p))
        ctx.ob("not-rearmed", bool(fc or fin) or isdone, ps, "requests still being handled can re-arm the stall timer after the transfer was left", "exit")
        ctx.ob("listeners-released", p.ret is None or is_const(norm(p.ret), None) or is_const(norm(p.ret), False), ps, "errors are swallowed", "swallow")



def update(ctx):
    ps = ctx.paths("zigpy.ota.manager.update_firmware", noinline=(f"{M}.*",))
    n = set()
    for p in ps:
        cs = calls(p, "OTAManager")
        ctx.ob("transfer-scoped", len(cs) == 1, ps, f"{len(cs)} managers [{describe(p)}]", "one")
        if not cs:
            continue
        e = cs[0]
        ents = [x for x in p.events if x.kind == "enter" and norm(x.base) == norm(e.value)]
        ctx.ob("transfer-scoped", len(ents) == 1, ps, f"the manager is not entered [{describe(p)}]", "enter")
        nt, wt = calls(p, "notify", ok=None), calls(p, "wait", ok=None)
        ex = [x for x in p.events if x.kind == "exit" and norm(x.base) == norm(e.value)]
        if ents:
            ctx.ob("transfer-scoped", bool(ex) and all(index(p, ents[0]) < index(p, x) < index(p, ex[0]) for x in nt + wt), ps, f"the transfer outlives its listeners [{describe(p)}]", "scope")
        b = ps.bound(e, ("device", "image", "progress_callback", "force"))
        ctx.ob("only-image-bytes", norm(b["device"]) == ("param", "device") and b.get("force") is not None and norm(b["force"]) == ("param", "force"), ps, f"the manager gets {show(e.value)[:100]}", "args")
        img = norm(b["image"])
        for fo in (True, False):
            if not ps.consistent(p, {("param", "force"): fo}):
                continue
            n.add(fo)
            if not fo:
                ctx.ob("only-image-bytes", img == ("param", "image"), ps, f"the image sent is {show(img)[:100]}", "image")
            else:
                fw = field_of(ctx, p, img, "firmware")
                h = field_of(ctx, p, fw, "header")
                v1, v2 = norm(field_of(ctx, p, field_of(ctx, p, img, "metadata"), "file_version")), norm(field_of(ctx, p, h, "file_version"))
                ctx.ob("forced-is-newest", v1 == v2 and v1[0] == "const" and 0xF0000000 <= v1[1] < 0xFFFFFFFF, ps, f"a forced image is presented as version {show(v1)[:40]} / {show(v2)[:40]}", "version")
                for k in ("manufacturer_id", "image_type", "image_size", "header_length"):
                    ctx.ob("forced-is-newest", norm(field_of(ctx, p, h, k)) == ps.T(f"image.firmware.header.{k}"), ps, f"a forced image's {k} is {show(field_of(ctx, p, h, k))[:60]}", k)
                ctx.ob("only-image-bytes", norm(field_of(ctx, p, fw, "subelements")) == ps.T("image.firmware.subelements"), ps, "the contents of a forced image are replaced", "contents")
        if p.outcome.kind != "raise":
            ctx.ob("ends-once", p.ret is not None and len(nt) == 1 and len(wt) == 1 and index(p, nt[0]) < index(p, wt[0]) and norm(p.ret) == norm(wt[0].value), ps, f"the result is {show(p.ret or C(None))[:60]} [{describe(p)}]", "result")
    ctx.ob("only-image-bytes", n == {True, False}, ps, f"undecided {n}", "force")

    ps = ctx.paths("zigpy.device.Device.update_firmware", noinline=("zigpy.ota.manager.*", "zigpy.zcl.*"))
    flag = ps.T("self.ota_in_progress")
    ok = status(ps, "SUCCESS")
    n = set()
    for p in ps:
        up = [e for e in calls(p, "update_firmware", ok=None) if ev_callee(e) == "zigpy.ota.manager.update_firmware"]
        fl = [e for e in sets(p, "ota_in_progress")]
        if ps.consistent(p, {flag: True}):
            n.add("busy")
            ctx.ob("never-overlap", not up and not fl, ps, f"an update starts while another runs [{describe(p)}]", "busy")
            ctx.ob("never-overlap", p.outcome.kind == "raise" or p.ret is None or is_const(norm(p.ret), None), ps, "a refused update reports a result", "busy-result")
        if not ps.consistent(p, {flag: False}):
            continue
        ctx.ob("never-overlap", len(up) == 1, ps, f"{len(up)} transfers in one update [{describe(p)}]", "one")
        if not up:
            continue
        b = ps.bound(up[0], ("device", "image", "progress_callback", "force"))
        want = {"device": "self", "image": "image", "progress_callback": "progress_callback", "force": "force"}
        for k, v in want.items():
            ctx.ob("only-image-bytes", b.get(k) is not None and norm(b[k]) == ps.T(v), (ps.func, up[0].node), f"the transfer's {k} is {show(b[k]) if b.get(k) is not None else 'missing'}", k)
        on = [e for e in fl if is_const(norm(e.value), True) and index(p, e) < index(p, up[0])]
        off = [e for e in fl if is_const(norm(e.value), False) and index(p, e) > index(p, up[0])]
        ctx.ob("never-overlap", bool(on), ps, "the device is not marked busy before the transfer starts", "mark")
        if on:
            pre = [e for e in p.events[:index(p, on[0])] if e.awaited]
            ctx.ob("never-overlap", not pre, ps, "another update can start between the test and the mark", "race")
        ctx.ob("device-freed", bool(off) and is_const(norm(fl[-1].value), False), ps, f"the device stays busy [{describe(p)}]", "free")
        if p.outcome.kind == "raise" and not up[0].ok:
            n.add("raise")
        if not up[0].ok:
            ctx.ob("ends-once", p.outcome.kind == "raise", ps, f"a failed transfer is swallowed [{describe(p)}]", "swallow")
            continue
        for s in (True, False):
            eq = [(a, v) for a, v in ps_facts(p) if a[0] == "eq" and norm(up[0].value) in (a[1], a[2]) and ok in (a[1], a[2])]
            if not eq or eq[-1][1] is not s:
                continue
            n.add(s)
            aft = p.events[index(p, up[0]):]
            clr = [e for e in aft if e.kind == "call" and e.name == "update_attribute"]
            rd = [e for e in aft if e.kind == "call" and ("read_attributes" in show(e.value or C(0)) or e.name == "read_attributes")]
            if not s:
                ctx.ob("version-refreshed", not clr and not rd, ps, "a failed update forgets the version", "failed")
            if p.outcome.kind != "raise":
                ctx.ob("ends-once", p.ret is not None and norm(p.ret) == norm(up[0].value), ps, f"the result is {show(p.ret or C(None))[:60]}", "ret")
                if s:
                    ctx.ob("version-refreshed", len(clr) == 1 and norm(clr[0].args[0]) == ps.T("Ota.AttributeDefs.current_file_version.id") and is_const(norm(clr[0].args[1]), None), ps, f"the version is not forgotten after an update [{describe(p)}]", "clear")
                    ctx.ob("version-refreshed", bool(rd) or "read_attributes" in " ".join(show(e.value) for e in aft if e.value is not None), ps, "the version is not read again after an update", "read")
    ctx.ob("never-overlap", n == {"busy", "raise", True, False}, ps, f"undecided: {n}", "all")


def reporting(ctx):
    """Progress given by the manager reaches the caller's callback."""
    ps = ctx.paths("zigpy.ota.manager.update_firmware", noinline=(f"{M}.*",), handler_inject=False)
    cur, tot = ("param", "<current>"), ("param", "<total>")
    p = [p for p in ps if calls(p, "OTAManager")][0]
    cb = dict(calls(p, "OTAManager")[0].kwargs).get("progress_callback")
    ctx.ob("progress-after-delivery", cb is not None and cb != C(None), ps, "progress is not reported", "wired")
    if cb is None or cb[0] != "lam":
        ctx.ob("progress-after-delivery", cb is None or norm(cb) == ("param", "progress_callback"), ps, f"progress is given to {show(cb or C(None))}", "cb")
    else:
        seen = set()
        for evs, facts in applied_events(ps, cb, cur, tot):
            own = [e for e in evs if e.kind == "call" and e.base is None and "progress_callback" in show(e.value or C(0)) or e.name == "progress_callback"]
            none = any(norm(a) == ("is", ("param", "progress_callback"), C(None)) and v for a, v in facts)
            seen.add(none)
            ctx.ob("progress-after-delivery", len(own) == (0 if none else 1), ps, f"progress is reported {len(own)} times", f"{none}")
            for e in own:
                a = [norm(x) for x in e.args]
                ctx.ob("progress-after-delivery", a[:2] == [cur, tot] and len(a) == 3 and percent(a[2], cur, tot), ps, f"progress is reported as {[show(x) for x in a]}", "values")
        ctx.ob("progress-after-delivery", seen == {True, False}, ps, f"undecided: {seen}", "all")
    for q in (f"{M}.__init__", "zigpy.ota.manager.update_firmware", "zigpy.device.Device.update_firmware"):
        f = ctx.kit.p.funcs[q]
        d = f.defaults().get("force")
        ctx.ob("only-suitable-image", d is not None and ctx.kit.consteval(f.module, d) is False, f, "updates are forced unless told otherwise", "default")


def percent(t, cur, tot):
    """100 * cur / tot, whatever the order of the operations."""
    k = 1.0
    up, down = [], []

    def go(x, inv):
        if x[0] == "bin" and x[1] == "*":
            return go(x[2], inv) and go(x[3], inv)
        if x[0] == "bin" and x[1] == "/":
            return go(x[2], inv) and go(x[3], not inv)
        (down if inv else up).append(x)
        return True

    go(t, False)
    for x in up:
        k *= x[1] if x[0] == "const" else 1
    for x in down:
        k /= x[1] if x[0] == "const" and x[1] else 1
    return abs(k - 100) < 1e-6 and [x for x in up if x[0] != "const"] == [cur] and [x for x in down if x[0] != "const"] == [tot]


def quiet(ctx):
    """The OTA cluster's default answers stay out of a transfer."""
    O = "zigpy.zcl.clusters.general.Ota"
    ps = ctx.paths(f"{O}.handle_cluster_request", noinline=(f"{O}._handle*", "zigpy.zcl.Cluster.*", "zigpy.util.*"), handler_inject=False)
    busy = ps.T("self.endpoint.device.ota_in_progress")
    n = 0
    for p in ps:
        if ps.consistent(p, {busy: True}):
            n += 1
            bad = [e for e in calls(p, ok=None) if e.name not in ("debug", "info", "warning", "listener_event") and "_handle" in show(e.value or C(0)) or e.name.startswith("_handle") or e.name in ("create_catching_task", "create_task")]
            ctx.ob("one-answer", not bad, ps, f"a request of a transfer is also answered by the cluster itself [{describe(p)}]", "busy")
    ctx.need("one-answer", n, 1, "paths with a transfer in progress")

    ps = ctx.paths("zigpy.ota.manager.find_ota_cluster", handler_inject=False)
    n = set()
    for p in ps:
        if p.outcome.kind == "raise":
            n.add("raise")
            continue
        ctx.ob("own-requests-only", p.ret is not None, ps, "no cluster and no error", "none")
        r = norm(p.ret) if p.ret is not None else C(None)
        ok = r[0] == "idx" and r[1][0] == "attr" and r[1][2] == "out_clusters" and contains(r[1], ps.T("device.non_zdo_endpoints")) and show(r[2]).endswith(("cluster_id", "25"))
        ctx.ob("own-requests-only", ok, ps, f"the OTA cluster is {show(r)[:80]}", "find")
        if ok:
            n.add("found")
            ctx.ob("own-requests-only", any(v and norm(x) == ("in", r[2], r[1]) for x, v in allfacts(p)), ps, "an endpoint without the cluster is used", "has")
    ctx.ob("own-requests-only", n == {"raise", "found"}, ps, f"undecided {n}", "all")


def timer(ctx):
    R = "zigpy.datastructures.ReschedulableTimeout"
    ps = ctx.paths(f"{R}._timeout_trigger", noinline=(f"{R}._reschedule",), handler_inject=False)
    n = set()
    for p in ps:
        if p.outcome.kind == "raise":
            continue
        for e in calls(p, "_callback"):
            st = [x for x in sets(p, "_timer") if index(p, x) < index(p, e)]
            ctx.ob("stall-detected", bool(st) and is_const(norm(st[-1].value), None), ps, "an expired timer still counts as armed", "expired")
        fired = calls(p, "_callback")
        again = calls(p, "_reschedule") + calls(p, "call_at") + calls(p, "call_later")
        ctx.ob("timer-fires-once", len(fired) + min(1, len(again)) == 1, ps, f"an expired timer fires {len(fired)} times and is re-armed {len(again)} times [{describe(p)}]", "one")
        for late in (True, False):
            now = ps.T("self._loop.time()")
            if ps.consistent(p, {ps.T("self._when"): 10, now: 20 if late else 5}):
                n.add(late)
                ctx.ob("timer-fires-once", bool(fired) is late, ps, f"a timer {'past' if late else 'before'} its deadline {'fires' if fired else 'does not fire'}", "late")
    ctx.ob("timer-fires-once", n == {True, False}, ps, f"undecided {n}", "all")
    ps = ctx.paths(f"{R}.__init__", handler_inject=False)
    for p in ps:
        v = {e.name: norm(e.value) for e in sets(p)}
        ctx.ob("stall-detected", v.get("_callback") == ("param", "callback") and v.get("_timer") == C(None), ps, f"a new timer has {[(k, show(x)) for k, x in v.items()]}", "init")
    ps = ctx.paths(f"{R}.cancel", handler_inject=False)
    for p in ps:
        if ps.consistent(p, {ps.T("self._timer"): None}, trail=True):
            ctx.ob("timer-removed", not [e for e in calls(p, "cancel", ok=None) if norm(e.base) == ps.T("self._timer")], ps, "an unarmed timer cannot be cancelled", "none")
        if ps.consistent(p, {ps.T("self._timer"): Obj("h")}) and p.normal:
            cs = calls(p, "cancel")
            st = sets(p, "_timer")
            ctx.ob("timer-removed", len(cs) == 1 and bool(st) and is_const(norm(st[-1].value), None), ps, f"a cancelled timer stays armed [{describe(p)}]", "cancel")
    ps = ctx.paths(f"{R}.reschedule", handler_inject=False)
    n = set()
    for p in ps:
        if not p.normal:
            continue
        w = sets(p, "_when")
        ctx.ob("stall-detected", len(w) >= 1 and lin_eq(norm(w[-1].value), ("bin", "+", ps.T("self._loop.time()"), ("param", "delay"))), ps, f"the deadline is {show(w[-1].value) if w else 'unchanged'}", "when")
        arm = calls(p, "call_at")
        for c in arm:
            ctx.ob("stall-detected", c.args and w and norm(c.args[0]) in (norm(w[-1].value), ps.T("self._when")) and show(c.args[1]).endswith("_timeout_trigger"), (ps.func, c.node), f"armed as {show(c.value)[:90]}", "arm")
        if ps.consistent(p, {ps.T("self._timer"): None}):
            n.add("unarmed")
            ctx.ob("stall-detected", len(arm) == 1, ps, f"an unarmed timer is armed {len(arm)} times", "unarmed")
            ctx.ob("stall-detected", not [e for e in calls(p, ok=None) if e.base is not None and norm(e.base) == ps.T("self._timer")], ps, "an unarmed timer is used", "unarmed-use")
        if ps.consistent(p, {ps.T("self._timer"): Obj("h")}):
            n.add("armed")
            cur = ps.T("self._timer.when()")
            for x, v in allfacts(p):
                x = norm(x)
                if x[0] == "lt" and cur in (x[1], x[2]):
                    late = v if x[2] == cur else None if not v else False
                    if late is True:
                        ctx.ob("stall-detected", len(arm) == 1, ps, "a timer that would expire too late is not replaced", "late")
                        n.add("late")
            if arm:
                ctx.ob("timer-removed", any(x.base is not None and norm(x.base) in (ps.T("self._timer"), ps.T("self")) for x in calls(p, "cancel")), ps, "the previous timer stays armed", "replace")
    ctx.ob("stall-detected", n == {"unarmed", "armed", "late"}, ps, f"undecided {n}", "resched")


def check(ctx):
    hs = handlers(ctx)
    for r, fn in (("query_next_image", query), ("image_block", block), ("upgrade_end", end)):
        if r in hs:
            fn(ctx, hs[r])
    ending(ctx)
    update(ctx)
    reporting(ctx)
    quiet(ctx)
    timer(ctx)


RULES = [check]
