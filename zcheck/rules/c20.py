"""Install codes are verified before a key is derived or used."""
from ..core import calls, describe, index, norm, show
from ..lib import is_const
from ..walk import contains, subterms

C = lambda v: ("const", v)  # noqa: E731
CODE = ("param", "code")
TAIL = ("slice", C(-2), C(None), C(None))
HEAD = ("slice", C(None), C(-2), C(None))
BOTH = {C(-2), C(-1)}


def is_tail(t):
    """The last two bytes, in wire order."""
    return any(x == ("idx", CODE, TAIL) for x in subterms(t)) or {x[2] for x in subterms(t) if x[0] == "idx" and x[1] == CODE} == BOTH


def swapped(t):
    rev = ("slice", C(None), C(None), C(-1))
    return sum(1 for x in set(subterms(t)) if x[0] == "idx" and x[2] == rev) % 2 == 1


def order(t):
    """Byte order named in the term (None: not named)."""
    s = {x[1] for x in subterms(t) if x[0] == "const" and x[1] in ("little", "big")}
    return s.pop() if len(s) == 1 else None


def derive(ctx):
    ps = ctx.paths("zigpy.util.convert_install_code", noinline=("zigpy.util.aes_mmo_hash*",), handler_inject=False)
    ln = ps.T("len(code)")
    n = set()
    for p in ps:
        crc = [(norm(at), v) for _, at, v in p.trail if norm(at)[0] == "eq" and "CrcX25" in show(norm(at))]
        ret = norm(p.ret) if p.ret is not None else C(None)
        key = contains(ret, ("glob", "zigpy.util.aes_mmo_hash")) or (ret != C(None) and p.normal)
        for k in list(range(0, 24)) + [32, 34]:
            if not ps.consistent(p, {ln: k}, trail=True):
                continue
            good = k in (8, 10, 14, 18)
            if not good:
                n.add("len")
                ctx.ob("length-checked", not key, ps, f"a key is derived from an install code of {k} bytes", f"{k}")
                ctx.ob("length-checked", p.normal or p.outcome.kind == "raise", ps, "undecided", "out")
            elif crc and crc[-1][1] or not crc and key:
                n.add(("key", k))
                ctx.ob("accepted-when-valid", key, ps, f"no key is derived from a valid install code of {k} bytes", f"{k}")
        if key:
            ctx.ob("checksum-checked", any(v for _, v in crc), ps, f"a key is derived without a matching checksum [{describe(p)}]", "crc")
            ctx.ob("key-from-code", ret == ("call", ("glob", "zigpy.util.aes_mmo_hash"), (CODE,), ()), ps, f"the key is {show(ret)[:80]}", "whole")
        for a, v in crc:
            sides = [a[1], a[2]]
            t = [s for s in sides if is_tail(s)]
            c = [s for s in sides if "CrcX25" in show(s)]
            ctx.ob("checksum-checked", len(t) == 1 and len(c) == 1 and t[0] is not c[0], ps, f"compared: {show(a)[:120]}", "tail")
            if len(t) == 1 and len(c) == 1:
                end = order(c[0]) or order(t[0]) or "big"
                rev = swapped(c[0]) != swapped(t[0])
                ctx.ob("checksum-byte-order", (end == "little") != rev, ps, f"the checksum is compared in {'big' if (end == 'little') == rev else end}-endian order: {show(a)[:140]}", "order")
                pr = [e for e in p.events if e.kind == "call" and e.name in ("process", "calc", "calcbytes", "calchex")]
                ins = [norm(e.args[0]) for e in pr if e.args]
                ctx.ob("checksum-checked", any(contains(x, ("idx", CODE, HEAD)) for x in ins), ps, f"the checksum covers {[show(x) for x in ins]}", "head")
            if not v:
                n.add("bad")
                ctx.ob("checksum-checked", not key, ps, "an install code with a wrong checksum yields a key", "bad")
    for k in (8, 10, 14, 18):
        n.discard(("key", k)) if ("key", k) in n else ctx.ob("accepted-when-valid", False, ps, f"no key is derived from an install code of {k} bytes", f"{k}")
    ctx.ob("length-checked", n == {"len", "bad"}, ps, f"undecided: {n}", "n")


def use(ctx):
    ps = ctx.paths("zigpy.application.ControllerApplication.permit_with_key", noinline=("zigpy.util.*", "zigpy.application.*"))
    n = set()
    key = ps.T("zigpy.util.convert_install_code(code)")
    for p in ps:
        ln = calls(p, "permit_with_link_key")
        for ok in (True, False):
            if not ps.consistent(p, {key: "KEY" if ok else None}):
                continue
            n.add(ok)
            if ok:
                ctx.ob("key-used", len(ln) == 1 and ln[0].awaited and p.outcome.kind != "raise", ps, f"joining with a valid install code opens the network {len(ln)} times", "ok")
            else:
                ctx.ob("invalid-refused", not ln and p.outcome.kind == "raise" and not [e for e in p.events if e.kind == "call" and e.name.startswith("permit")], ps, f"joining with an invalid install code is not refused [{describe(p)}]", "bad")
        for e in ln:
            b = ps.bound(e, ("node", "link_key", "time_s"))
            ctx.ob("key-used", norm(b.get("link_key", C(None))) == key and norm(b.get("node", C(None))) == ("param", "node") and norm(b.get("time_s", C(None))) == ("param", "time_s"), (ps.func, e.node), f"opens the network by {show(e.value)[:120]}", "args")
    ctx.ob("invalid-refused", n == {True, False}, ps, f"undecided: {n}", "n")


RULES = [derive, use]
