"""Firmware is used only after size, checksum and structure were verified."""
import ast

from ..core import calls, describe, ev_callee, index, norm, sets, show
from ..lib import deref, implied
from ..walk import contains, subterms

P = "zigpy.ota.providers"
IMG = "zigpy.ota.image"
VAL = "zigpy.ota.validators"
C = lambda v: ("const", v)  # noqa: E731
DATA = ("param", "data")
NOIN = ("_fetch", "_validate", "fetch")


def unexec(t):
    """Runs in an executor or thread are the calls they stand for."""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(unexec(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == "call" and t[1][0] in ("attr", "glob"):
        n = t[1][2] if t[1][0] == "attr" else t[1][1].rsplit(".", 1)[-1]
        a = t[2]
        if n == "run_in_executor" and len(a) >= 2:
            return ("call", a[1], a[2:], ())
        if n == "to_thread" and a:
            return ("call", a[0], a[1:], t[3])
    return t


def plain(t):
    """Case conversions and awaiting do not matter here."""
    t = unexec(norm(t))
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("upper", "lower") and not t[2]:
        t = t[1][1]
    return t


def hashed(p, t):
    """(algorithm term, [data terms]) of a digest term, or None."""
    t = plain(t)
    if not (t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("hexdigest", "digest")):
        return None
    h = t[1][1]
    if h[0] != "call" or h[1][0] != "glob" or not h[1][1].startswith("hashlib."):
        return None
    if h[1][1] == "hashlib.new":
        alg, fed = h[2][0] if h[2] else None, list(h[2][1:])
    else:
        alg, fed = C(h[1][1][8:]), list(h[2])
    for e in p.events:
        if e.kind == "call" and e.value is not None and e.ok:
            c = unexec(norm(e.value))
            if c[0] == "call" and c[1] == ("attr", h, "update"):
                fed += c[2]
    return alg, fed


def compared(p, want):
    """Outcomes assumed on the path for an equality of which one side satisfies `want`: [(other side, side, equal)]."""
    out = []
    for _, a, v in p.trail:
        a = norm(a)
        if a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if want(x):
                    out.append((y, x, v))
    return out


def fetch(ctx):
    sites = 0
    base = f"{P}.BaseOtaImageMetadata"
    for q in [base] + sorted(c for c in ctx.kit.p.classes if c != base and base in ctx.kit.p.base_names(ctx.kit.p.classes[c])):
        if f"{q}.fetch" not in ctx.kit.p.funcs:
            continue
        ps = ctx.paths(f"{q}.fetch", noinline=NOIN, handler_inject=False, inject=("Exception",), inject_at=lambda t, n, a: n in ("_fetch", "_validate", "parse_ota_image"))
        for p in ps:
            if not p.normal:
                continue
            ret = norm(p.ret) if p.ret is not None else C(None)
            got = [e for e in calls(p, "_fetch") if e.ok]
            val = [e for e in calls(p, "_validate") if e.ok]
            par = [e for e in calls(p, "parse_ota_image") if e.ok]
            sup = [e for e in calls(p, "fetch") if e.ok]
            if sup and ret == norm(sup[-1].value):
                continue
            ctx.ob("image-comes-from-parser", len(par) == 1 and ret == ("idx", norm(par[0].value), C(0)), ps, f"the image returned is {show(ret)[:80]} [{describe(p)}]", "ret")
            for e in par:
                sites += 1
                d = norm(e.args[0]) if e.args else None
                before = [v for v in val if v.args and norm(v.args[0]) == d and index(p, v) < index(p, e) and v.awaited]
                ctx.ob("validated-before-use", bool(before), ps, f"a downloaded image is parsed without having been validated [{describe(p)}]", "validate")
                ctx.ob("downloaded-data-used", any(d == norm(g.value) for g in got), ps, f"the data parsed is {show(d)[:80] if d else None}", "data")
    ctx.need("downloads", sites, 1, "parsed downloads")
    # the one place an image is made available
    q = "zigpy.ota.OtaImageWithMetadata.fetch"
    ps = ctx.paths(q, noinline=NOIN, handler_inject=False)
    n = 0
    for p in ps:
        if not p.normal:
            continue
        n += 1
        ret = norm(p.ret) if p.ret is not None else C(None)
        fw = [dict(x[3])["firmware"] for x in subterms(ret) if x[0] == "call" and "firmware" in dict(x[3])]
        own = ret == ps.T("self")
        ok = own and any(norm(a) == ("is", ps.T("self.firmware"), C(None)) and not v for _, a, v in p.trail) or fw and all(f == norm(e.value) for f in fw for e in calls(p, "fetch")) and calls(p, "fetch")
        ctx.ob("firmware-from-verified-download", bool(ok), ps, f"an image becomes available as {show(ret)[:120]} [{describe(p)}]", "fw")
    ctx.need("downloads", n, 1, "paths of OtaImageWithMetadata.fetch")


def validate(ctx):
    ps = ctx.paths(f"{P}.BaseOtaImageMetadata._validate", handler_inject=False)
    size, total, csum = ps.T("self.file_size"), ps.T("len(data)"), ps.T("self.checksum")
    split = [("call", ("attr", csum, "split"), (C(":"),), ()), ("call", ("attr", csum, "split"), (C(":"), C(1)), ()), ("call", ("attr", csum, "partition"), (C(":"),), ())]
    hexes = {("idx", s, C(k)) for s in split for k in (1, 2, -1)}
    algs = {("idx", s, C(0)) for s in split}

    def raises(a, eq=None):
        out = set()
        for p in ps.paths:
            if not ps.consistent(p, a, trail=True):
                continue
            if eq is not None:
                cmp = compared(p, lambda t: t in hexes)
                if any(v != eq for *_, v in cmp):
                    continue
                if not cmp and p.outcome.kind == "raise":
                    continue
                if not cmp:
                    out.add(False)
                    continue
            out.add(p.outcome.kind == "raise")
        return out

    for have, want in ((10, 10), (9, 10), (11, 10), (0, 10), (10, 0), (0, 0)):
        got = raises({size: want, total: have, csum: None, DATA: b"x" * have})
        ctx.ob("size-checked", got == {have != want}, ps, f"{have} bytes where {want} were advertised: refused is {sorted(got)}", f"{have}/{want}")
        for eq in (True, False):
            got = raises({size: want, total: have, csum: "sha1:00", DATA: b"x" * have}, eq)
            if have == want:
                ctx.ob("checksum-checked", got == {not eq}, ps, f"checksum {'matches' if eq else 'differs'}, size matches: refused is {sorted(got)}", f"{eq}")
    ctx.ob("unchecked-when-not-advertised", raises({size: None, total: 5, csum: None}) == {False}, ps, "an image without advertised size or checksum is refused", "none")
    for eq in (True, False):
        ctx.ob("checksum-checked", raises({size: None, total: 5, csum: "sha1:00"}, eq) == {not eq}, ps, f"checksum {'matches' if eq else 'differs'}, no size advertised", f"only{eq}")
    n = 0
    for p in ps:
        for other, own, _ in compared(p, lambda t: t in hexes):
            n += 1
            h = hashed(p, other)
            ctx.ob("checksum-of-all-data", h is not None and h[1] == [DATA], ps, f"the advertised checksum is compared with {show(other)[:100]} over {[show(x)[:60] for x in h[1]] if h else None}", "data")
            ctx.ob("checksum-algorithm", h is not None and h[0] in algs, ps, f"the checksum algorithm is {show(h[0])[:60] if h and h[0] else None}", "alg")
            ctx.ob("checksum-algorithm", "hexdigest" in show(other), ps, "a raw digest is compared with a hexadecimal checksum", "hex")
    ctx.need("checksum comparisons", n, 1, "comparisons with the advertised checksum")


def overrides(ctx):
    """Every subclass either keeps the base verification, adds to it, or is the signed container."""
    base = f"{P}.BaseOtaImageMetadata"
    for c in sorted(ctx.kit.p.classes):
        q = f"{c}._validate"
        if c == base or base not in ctx.kit.p.base_names(ctx.kit.p.classes[c]) or q not in ctx.kit.p.funcs:
            continue
        ps = ctx.paths(q, handler_inject=False, noinline=(f"{base}._validate",), loop=1)
        for p in ps:
            if p.normal:
                sup = [e for e in p.events if e.kind == "call" and e.name == "_validate" and e.awaited and e.args and norm(e.args[0]) == DATA]
                blocks = [e for e in p.events if e.kind in ("loopiter", "loopend")]
                ctx.ob("override-keeps-verification", bool(sup) or bool(blocks), ps, f"an image can be accepted with neither the advertised size and checksum nor block hashes verified [{describe(p)}]", "kept")


def signed(ctx):
    ps = ctx.paths(f"{P}.SignedIkeaRemoteOtaImageMetadata._validate", handler_inject=False, loop=1)
    le = lambda n: n.to_bytes(4, "little")  # noqa: E731

    def container(blocks=2, block=8, size=None, offset=None, magic=b"NGIS"):
        size = blocks * block if size is None else size
        off = 40 + 32 * blocks if offset is None else offset
        return magic + b"\xee" * 12 + le(off) + le(size) + b"\xee" * 8 + le(block) + le(blocks) + bytes(range(7, 7 + 32 * blocks)) + bytes(range(100, 100 + size)) + b"signature" * 4, size

    def bad(data, size, key, text):
        got = {p.outcome.kind == "raise" for p in ps.paths if ps.consistent(p, {DATA: data, ps.T("self.file_size"): size}, trail=True)}
        ctx.ob("container-checked", got == {True}, ps, text, key)

    d, s = container()
    bad(d, s + 1, "size", "a container whose image is not of the advertised size is accepted")
    bad(d, s - 1, "size", "a container whose image is not of the advertised size is accepted")
    d, s = container(magic=b"NGIT")
    bad(d, s, "magic", "a container with another magic is accepted")
    for off in (40 + 64 + 1, 40 + 64 - 32, 40, 39):
        d, s = container(offset=off)
        bad(d, s, "offset", f"a container whose image starts at {off} although two block hashes are present is accepted")
    d, s = container(size=17)
    bad(d, s, "cover", "a container whose last bytes are in no hashed block is accepted")
    # good ones: every block's hash is compared with the right slice
    n = 0
    for blocks, block, size in ((2, 8, 16), (2, 8, 9), (3, 4, 11), (1, 8, 8), (1, 8, 3)):
        d, s = container(blocks, block, size)
        a = {DATA: d, ps.T("self.file_size"): s}
        off = 40 + 32 * blocks
        for p in ps.paths:
            if not ps.consistent(p, a, trail=True):
                continue
            its = [e for e in p.events if e.kind == "loopiter" and not contains(norm(e.base), ("glob", "hashlib"))]
            ends = [e for e in p.events if e.kind == "loopend"]
            if not its:
                ctx.ob("good-container-accepted", p.outcome.kind != "raise" or bool(ends), ps, f"a consistent container of {blocks} blocks is refused [{describe(p)}]", "good")
                ctx.ob("every-block-checked", bool(ends) or p.outcome.kind == "raise", ps, f"the blocks of a container are not looked at [{describe(p)}]", "loop")
            for it in its[:1]:
                src = ctx.kit.teval(norm(it.base), a)
                ctx.ob("every-block-checked", src == range(blocks), ps, f"with {blocks} block hashes the loop goes over {show(norm(it.base))[:80]}", "range")
                el = ("elem", norm(it.base))
                facts = [(norm(at), v) for _, at, v in p.trail if norm(at)[0] == "eq" and ("digest" in show(norm(at)))]
                ctx.ob("every-block-checked", bool(facts), ps, f"a block is accepted without its hash being compared [{describe(p)}]", "cmp")
                for at, v in facts:
                    n += 1
                    ctx.ob("block-mismatch-refused", v or p.outcome.kind == "raise", ps, f"a block with another hash is accepted [{describe(p)}]", "raise")
                    ctx.ob("good-container-accepted", not v or p.outcome.kind != "raise", ps, f"a block with the right hash is refused [{describe(p)}]", "fine")
                    dig = at[1] if "digest" in show(at[1]) else at[2]
                    exp = at[2] if dig is at[1] else at[1]
                    h = hashed(p, dig)
                    ctx.ob("block-hash", h is not None and h[0] == C("sha256") and len(h[1]) == 1, ps, f"a block's hash is {show(dig)[:90]}", "sha")
                    for k in range(blocks):
                        b = dict(a)
                        b[el] = k
                        lo = off + block * k
                        want = d[lo:min(lo + block, off + size)]
                        if h and len(h[1]) == 1:
                            got = ctx.kit.teval(h[1][0], b)
                            ctx.ob("block-range", got == want, ps, f"block {k} of {blocks} ({block} bytes each, image {size}): {len(got) if isinstance(got, bytes) else got} bytes hashed, {len(want)} expected", f"{k}/{blocks}/{size}")
                        got = ctx.kit.teval(exp, b)
                        ctx.ob("block-range", got == d[40 + 32 * k:72 + 32 * k], ps, f"block {k} is compared with another block's hash", f"hash{k}")
    ctx.need("block hash comparisons", n, 1, "comparisons of block hashes")


def salus(ctx):
    ps = ctx.paths(f"{P}.SalusRemoteOtaImageMetadata._extract_ota_from_tar", handler_inject=False, loop=1)
    n = 0
    for p in ps:
        if p.outcome.kind == "raise":
            continue
        ret = norm(p.ret) if p.ret is not None else C(None)
        ok = False
        for _, a, v in p.trail:
            a = norm(a)
            if a[0] != "eq":
                continue
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                h = hashed(p, x)
                if h and v:
                    ok = ok or h[0] == C("md5") and h[1] == [ret] and any(z[0] == "idx" and z[2] == C("checksum") for z in subterms(y))
        n += 1
        ctx.ob("embedded-checksum", ok, ps, f"a file is taken from the archive without its checksum having matched [{describe(p)}]", "md5")
    ctx.need("archive extractions", n, 1, "paths returning a file")
    for q, inner in ((f"{P}.SalusRemoteOtaImageMetadata._fetch", "_extract_ota_from_tar"),):
        ps = ctx.paths(q, noinline=NOIN + ("_extract_ota_from_tar",), handler_inject=False)
        for p in ps:
            if p.normal:
                ret = plain(p.ret) if p.ret is not None else C(None)
                src = [norm(e.value) for e in calls(p, "_fetch")]
                ctx.ob("embedded-checksum", ret[0] == "call" and ret[1] == ps.T(f"self.{inner}") and len(ret[2]) == 1 and ret[2][0] in src, ps, f"the download becomes {show(ret)[:90]}", "used")


def keys(t):
    """String keys looked up anywhere in the term."""
    out = set()
    for x in subterms(t):
        if x[0] == "idx" and x[2][0] == "const" and isinstance(x[2][1], str):
            out.add(x[2][1])
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "get" and x[2] and x[2][0][0] == "const" and isinstance(x[2][0][1], str) and "://" not in x[2][0][1]:
            out.add(x[2][0][1])
    return out


def concat(t):
    if t[0] == "bin" and t[1] == "+":
        return concat(t[2]) + concat(t[3])
    if t[0] == "fstr":
        out = []
        for x in (t[1] if t[1] and isinstance(t[1][0], tuple) else t[1:]):
            out += [x]
        return out
    return [t]


# provider -> metadata class -> field -> (algorithm or None, the keys of the index entry it comes from)
ZIGPY = {k: {k} for k in ("file_version", "manufacturer_id", "image_type", "manufacturer_names", "model_names", "checksum", "file_size", "min_hardware_version", "max_hardware_version",
                          "min_current_file_version", "max_current_file_version", "specificity")}
Z2M = {"file_version": {"fileVersion"}, "manufacturer_id": {"manufacturerCode"}, "image_type": {"imageType"}, "checksum": {"sha512"}, "file_size": {"fileSize"}, "manufacturer_names": {"manufacturerName"},
       "model_names": {"modelId"}, "min_current_file_version": {"minFileVersion"}, "max_current_file_version": {"maxFileVersion"}}
INDEX = {
    "Tradfri": {"IkeaRemoteOtaImageMetadata": {"checksum": {"fw_sha3_256"}, "file_version": {"fw_binary_url"}, "image_type": {"fw_image_type"}, "url": {"fw_binary_url"}, "manufacturer_id": set()},
                "SignedIkeaRemoteOtaImageMetadata": {"file_size": {"fw_filesize"}, "file_version": {"fw_file_version_MSB", "fw_file_version_LSB"}, "manufacturer_id": {"fw_manufacturer_id"},
                                                     "image_type": {"fw_image_type"}, "url": {"fw_binary_url"}}},
    "Ledvance": {"RemoteOtaImageMetadata": {"checksum": {"shA256"}, "file_size": {"length"}, "file_version": {"fullName"}, "manufacturer_id": {"company"}, "image_type": {"product"},
                                            "model_names": {"productName"}, "url": {"company", "product", "version", "major", "minor", "build", "revision"}}},
    "Sonoff": {"RemoteOtaImageMetadata": {"file_size": {"fw_filesize"}, "file_version": {"fw_file_version"}, "manufacturer_id": {"fw_manufacturer_id"}, "image_type": {"fw_image_type"},
                                          "model_names": {"model_id"}, "url": {"fw_binary_url"}}},
    "Inovelli": {"RemoteOtaImageMetadata": {"file_version": {"version"}, "manufacturer_id": {"manufacturer_id"}, "image_type": {"image_type"}, "model_names": set(), "url": {"firmware"}}},
    "ThirdReality": {"RemoteOtaImageMetadata": {"file_version": {"fileVersion"}, "manufacturer_id": {"manufacturerId"}, "image_type": {"imageType"}, "model_names": {"modelId"}, "url": {"url"}}},
    "Salus": {"SalusRemoteOtaImageMetadata": {"file_version": {"version"}, "model_names": {"model"}, "url": {"url"}}},
    "BaseZigpyProvider": {"LocalOtaImageMetadata": {**ZIGPY, "path": {"path"}}, "RemoteOtaImageMetadata": {**ZIGPY, "url": {"binary_url"}}},
    "BaseZ2MProvider": {"LocalOtaImageMetadata": {**Z2M, "path": {"path"}}, "RemoteOtaImageMetadata": {**Z2M, "url": {"url"}}},
}
ALGORITHM = {"Tradfri": "sha3-256:", "Ledvance": "sha256:", "BaseZ2MProvider": "sha512:"}
LOADER = {"BaseZigpyProvider": "_load_zigpy_index", "BaseZ2MProvider": "_load_z2m_index"}
OUTER = ("firmwares", "versions", "identity")
INTEGRITY = ("checksum", "file_size", "url", "path")


def entries(ctx, name, qual):
    """(path, yield event, metadata class, keyword terms) of every index entry offered."""
    ps = ctx.paths(qual, handler_inject=False, loop=1)
    out = []
    for p in ps:
        for e in p.events:
            if e.kind == "yield" and e.value is not None:
                t = norm(e.value)
                if t[0] == "call" and t[1][0] == "glob" and t[1][1].startswith(P):
                    out.append((p, e, t[1][1].rsplit(".", 1)[-1], dict(t[3])))
                elif t[0] == "call" and t[1][0] == "attr" and t[1][2] == "replace":
                    out.append((p, e, "replace", dict(t[3])))
                else:
                    out.append((p, e, None, {}))
    return ps, out


def fields(ctx, ps, p, prov, cls, kw, which, rule):
    """Each of these fields of an offered image comes from the entry's own declaration of it."""
    for f, ks in INDEX[prov].get(cls, {}).items():
        if f in which:
            t = kw.get(f, C(None))
            got = keys(t) - set(OUTER)
            absent = t in (("tuple", ()), C(None)) and any(norm(a)[0] == "in" and not v and norm(a)[1][0] == "const" and norm(a)[1][1] in ks for _, a, v in p.trail)
            ctx.ob(rule, absent or got == ks and (ks or t != C(None)), ps, f"{prov}: {f} of an image is {show(t)[:80]} instead of coming from the index entry's {sorted(ks)}", f"{cls}.{f}")


def schema_validated(p, e):
    """The index was checked against the provider's schema before the entry is offered."""
    return any(v.ok and index(p, v) < index(p, e) and len(v.args) >= 2 and "JSON_SCHEMA" in show(norm(v.args[1])) for v in calls(p, "validate"))


def indexes(ctx):
    for prov, want in INDEX.items():
        ps, got = entries(ctx, prov, f"{P}.{prov}.{LOADER.get(prov, '_load_index')}")
        ctx.need("index entries", len(got), 1, f"entries offered by {prov}")
        for p, e, cls, kw in got:
            ctx.ob("index-validated", schema_validated(p, e), ps, f"{prov} offers an entry of an index that was not checked against its schema", "schema")
            ctx.ob("advertised-check-kept", cls in want, ps, f"{prov} describes an image as {cls}", f"class:{cls}")
            fields(ctx, ps, p, prov, cls, kw, INTEGRITY, "advertised-check-kept")
            if prov in ALGORITHM and "checksum" in want.get(cls, ()):
                t, alg = kw.get("checksum", C(None)), ALGORITHM[prov]
                ctx.ob("advertised-check-kept", concat(t)[0] == C(alg), ps, f"{prov}: the checksum is {show(t)[:80]}, the index gives {alg[:-1]}", f"{cls}.alg")
    for prov, loader in (("LocalZigpyProvider", "_load_zigpy_index"), ("RemoteZigpyProvider", "_load_zigpy_index"), ("LocalZ2MProvider", "_load_z2m_index"), ("RemoteZ2MProvider", "_load_z2m_index")):
        ps = ctx.paths(f"{P}.{prov}._load_index", handler_inject=False, loop=1, noinline=("_load_zigpy_index", "_load_z2m_index"))
        n = 0
        for p in ps:
            for e in p.events:
                if e.kind == "yield" and e.value is not None:
                    n += 1
                    t = norm(e.value)
                    kw = {}
                    while t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("replace", "evolve") and not t[2]:
                        kw.update(dict(t[3]))
                        t = t[1][1]
                    ok = t[0] == "elem" and any(x[0] == "call" and show(x[1]).endswith(loader) for x in subterms(t))
                    ctx.ob("advertised-check-kept", ok and not set(kw) - {"source"}, ps, f"{prov} offers {show(norm(e.value))[:100]}", "passed")
        ctx.need("index entries", n, 1, f"entries offered by {prov}")
    # images found in a folder: the digest and size recorded are those of the file that was parsed
    ps, got = entries(ctx, "AdvancedFileProvider", f"{P}.AdvancedFileProvider._load_index")
    ctx.need("index entries", len(got), 1, "entries offered by AdvancedFileProvider")
    for p, e, cls, kw in got:
        par = [x for x in calls(p, "parse_ota_image") if x.ok and index(p, x) < index(p, e)]
        ctx.ob("folder-image-verified", cls == "LocalOtaImageMetadata" and bool(par), ps, f"a file is offered without having been parsed [{describe(p)}]", "parsed")
        if not par:
            continue
        d = norm(par[-1].args[0])
        cs = concat(kw.get("checksum", C(None)))
        h = hashed(p, cs[-1]) if len(cs) == 2 else None
        ctx.ob("folder-image-verified", bool(h) and h[1] == [norm(d)] or bool(h) and h[1] == [unexec(d)], ps, f"the checksum recorded is {show(kw.get('checksum', C(None)))[:80]}", "sum")
        if h and h[0] is not None and h[0][0] == "const":
            ctx.ob("folder-image-verified", cs[0] == C(f"{h[0][1]}:"), ps, f"the checksum recorded claims {show(cs[0])}, computed with {show(h[0])}", "alg")
        ctx.ob("folder-image-verified", kw.get("file_size") in (("call", ("glob", "builtins.len"), (d,), ()), C(None), None), ps, f"the size recorded is {show(kw.get('file_size', C(None)))[:60]}", "size")
        ctx.ob("folder-image-verified", unexec(d) == ("call", ("attr", unexec(kw.get("path", C(None))), "read_bytes"), (), ()), ps, "the file recorded is not the one that was parsed", "path")
    ps = ctx.paths(f"{P}.AdvancedFileProvider._load_index", handler_inject=False, loop=1, inject=("Exception",), inject_at=lambda t, n, a: n == "parse_ota_image")
    n = 0
    for p in ps:
        for e in p.events:
            if e.kind == "call" and e.name == "parse_ota_image" and not e.ok:
                n += 1
                ctx.ob("bad-file-skipped", p.outcome.kind != "raise", ps, f"a file that is no image aborts the whole folder [{describe(p)}]", "skip")
                ctx.ob("bad-file-skipped", not any(x.kind == "yield" and index(p, x) > index(p, e) for x in p.events), ps, "a file that failed to parse is offered", "yield")
    ctx.need("folder", n, 1, "failing parses")


def bypass(ctx):
    """Only verified downloads and the folder scan (which records a digest and offers no image) parse images."""
    allowed = {f"{P}.AdvancedFileProvider._load_index"} | {q for q in ctx.kit.p.funcs if q.startswith(P) and q.endswith(".fetch")}
    callers = {}
    for q, f in ctx.kit.p.funcs.items():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                callers.setdefault(name, set()).update(ctx.kit.owners(q))
    todo = set(callers.get("parse_ota_image", ()))
    ctx.need("parser", len(todo), 1, "callers of parse_ota_image")

    def fine(q, seen=()):
        short = q.rsplit(".", 1)[-1]
        return q in allowed or short.startswith("_") and short not in ("_fetch", "_validate") and q not in seen and callers.get(short) and all(fine(c, (*seen, q)) for c in callers[short])

    for q in sorted(todo):
        ctx.ob("no-unverified-image", bool(fine(q)), ctx.kit.p.funcs[q], f"{q} obtains an image without the advertised checks", q)
    for q in sorted(callers.get("_fetch", ())):
        short = q.rsplit(".", 1)[-1]
        ctx.ob("no-unverified-image", not q.startswith("zigpy.ota") or short in ("fetch", "_fetch") or bool(fine(q)), ctx.kit.p.funcs[q], f"{q} downloads an image without verifying it", "fetch" + q)


# ------------------------------------------------------------------ structure
def parser(ctx):
    le = lambda n: n.to_bytes(4, "little")  # noqa: E731
    ps = ctx.paths(f"{IMG}.parse_ota_image", noinline=("deserialize",), handler_inject=False)

    def taken(data):
        """('raise', None) or (class parsing, bytes given to it) for every consistent path."""
        out = set()
        for p in ps.paths:
            if not ps.consistent(p, {DATA: data, ps.T("len(data)"): len(data)}, trail=True):
                continue
            des = [e for e in calls(p, "deserialize") if e.ok]
            if any(contains(norm(a), ("glob", "hashlib.sha512")) and norm(a)[0] == "truthy" and v for _, a, v in p.trail):
                continue
            if p.outcome.kind == "raise" and not des:
                out.add(("raise", None))
            for e in des[:1]:
                got = ctx.kit.teval(norm(e.args[0]), {DATA: data}) if e.args else None
                out.add((show(norm(e.base)).rsplit(".", 1)[-1], got if isinstance(got, bytes) else str(got)))
        return out

    def case(data, want, key, text):
        got = taken(data)
        ctx.ob("container-unwrapped", got == want, ps, f"{text}: {[(c, len(b) if isinstance(b, bytes) else b) for c, b in sorted(got, key=str)]}", key)

    inner = bytes(range(50, 60))
    case(b"\x1e\xf1\xee\x0b" + inner, {("HueSBLOTAImage", b"\x1e\xf1\xee\x0b" + inner)}, "plain", "an image without a container is parsed from")
    case(le(10) + inner + b"s" * 17, {("OTAImage", inner)}, "legrand", "a size-prefixed container of 10 bytes is parsed from")
    for off, pad in ((24, 1), (30, 1), (40, 5)):
        head = b"NGIS" + b"\xee" * 12 + le(off) + le(10) + b"\xee" * (off - 24)
        case(head + inner + b"e" * pad, {("OTAImage", inner)}, f"ikea{off}", "an IKEA container's image of 10 bytes is parsed from")
        case(head + inner[:-1], {("raise", None)}, f"ikeashort{off}", "a truncated IKEA container is parsed from")
    for k in (4, 16, 20, 23, 24):
        case((b"NGIS" + b"\0" * 20)[:k], {("raise", None)}, f"ikeahead{k}", f"an IKEA container of {k} bytes is parsed from")
    for total, declared, want in ((200, 136, True), (200, 135, False), (153, 89, True)):
        d = (b"h" * 68 + le(declared)).ljust(total, b"i")
        got = {ctx.kit.teval(norm(e.args[0]), {DATA: d}) == d[152:] for p in ps.paths if ps.consistent(p, {DATA: d, ps.T("len(data)"): total}, trail=True) for e in calls(p, "deserialize")[:1] if e.args}
        ctx.ob("container-unwrapped", (True in got) == want, ps, f"a Third Reality container of {total} bytes declaring {declared} + 64 is {'unwrapped' if True in got else 'not unwrapped'}", f"tr{total}/{declared}")
    n = 0
    for p in ps:
        for e in calls(p, "deserialize"):
            a = norm(e.args[0]) if e.args else None
            if a == ("idx", DATA, ("slice", C(152), C(None), C(None))):
                n += 1
                ok = any(v and any(x == ("call", ("glob", "hashlib.sha512"), (("idx", DATA, ("slice", C(64), C(None), C(None))),), ()) for x in subterms(norm(at))) and
                         not any(x[0] == "idx" and contains(x[1], ("glob", "hashlib.sha512")) for x in subterms(norm(at))) for _, at, v in p.trail)
                ctx.ob("container-hash-checked", ok, ps, "a Third Reality container is unwrapped without its hash having matched", "sha512")
        if p.outcome.kind == "raise":
            continue
        ret = norm(p.ret) if p.ret is not None else C(None)
        des = [norm(e.value) for e in calls(p, "deserialize") if e.ok]
        whole = ret in des
        parts = ret[0] == "tuple" and len(ret[1]) == 2 and any(ret[1][0] == ("idx", d, C(0)) for d in des)
        ikea = any("NGIS" in show(norm(a)) and v for _, a, v in p.trail)
        ctx.ob("trailing-data-consistent", not ikea or parts, ps, "trailing data of an image in an IKEA container is ignored", "ikea")
        ctx.ob("parser-result", whole or parts, ps, f"the parser returns {show(ret)[:90]}", "ret")
        if parts:
            img = ret[1][0]
            rest = ("idx", img[1], C(1))
            longer = not any(norm(a) == ("truthy", rest) and not v for _, a, v in p.trail)
            if longer:
                # the trailing bytes become part of the single upgrade element and of the image size
                ups = [e for e in p.events if e.kind == "setattr" and e.name in ("image_size", "data")]
                ctx.ob("trailing-data-consistent", {e.name for e in ups} >= {"image_size", "data"}, ps, f"only part of an image with trailing data is fixed: {sorted({e.name for e in ups})}", "both")
                for e in ups:
                    v = norm(e.value)
                    want = ("call", ("glob", "builtins.len"), (rest,), ()) if e.name == "image_size" else rest
                    ctx.ob("trailing-data-consistent", v[0] == "bin" and v[1] == "+" and want in (v[2], v[3]) and any(x[0] == "attr" and x[2] == e.name for x in (v[2], v[3])), ps, f"{e.name} becomes {show(v)[:80]}", e.name)
                if ups:
                    one = any("len(" in show(norm(a)) and "subelements" in show(norm(a)) and v and norm(a)[0] == "eq" and C(1) in norm(a) for _, a, v in p.trail)
                    ctx.ob("trailing-data-consistent", one, ps, "trailing data is added to an image whatever its elements", "single")
                    kind = any("tag_id" in show(norm(a)) and "UPGRADE_IMAGE" in show(norm(a)) and v and norm(a)[0] == "eq" for _, a, v in p.trail)
                    ctx.ob("trailing-data-consistent", kind, ps, "trailing data is added to an element whatever its kind", "kind")
                    ctx.ob("trailing-data-consistent", ret[1][1] != rest, ps, "the trailing bytes are both added and returned as left over", "rest")
    ctx.ob("container-unwrapped", n >= 1, ps, "Third Reality containers are never unwrapped", "tr")
    # anything the Hue parser does not recognise is tried as a standard image
    ps = ctx.paths(f"{IMG}.parse_ota_image", noinline=("deserialize",), handler_inject=False, inject=("ValueError",), inject_at=lambda t, n, a: n == "deserialize")
    n = 0
    for p in ps:
        fail = [e for e in calls(p, "deserialize", ok=False) if show(norm(e.base)).endswith("HueSBLOTAImage")]
        for e in fail:
            later = [x for x in calls(p, "deserialize") if index(p, x) > index(p, e) and show(norm(x.base)).endswith(".OTAImage") or show(norm(x.base)) == "OTAImage" and index(p, x) > index(p, e)]
            n += 1
            ctx.ob("standard-image-tried", any(norm(x.args[0]) == norm(e.args[0]) for x in later), ps, f"an image that is not a Hue one is not tried as a standard image [{describe(p)}]", "fallback")
    ctx.need("fallback", n, 1, "failing Hue parses")


def structure(ctx):
    H = ("idx", ("call", ("attr", ("glob", f"{IMG}.OTAImageHeader"), "deserialize"), (DATA,), ()), C(0))
    REST = ("idx", H[1], C(1))
    at = lambda n: ("attr", H, n)  # noqa: E731
    ln = lambda t: ("call", ("glob", "builtins.len"), (t,), ())  # noqa: E731
    hs = ln(("call", ("attr", H, "serialize"), (), ()))
    elements = ("idx", REST, ("slice", C(None), C(None), C(None)))
    ps = ctx.paths(f"{IMG}.OTAImage.deserialize", noinline=("deserialize",), handler_inject=False, loop=2)

    def run(size, hlen, real, have):
        a = {at("image_size"): size, at("header_length"): hlen, hs: real, ln(REST): have, REST: b"e" * have, ln(DATA): have + real}
        return [p for p in ps.paths if ps.consistent(p, a, trail=True)], a

    for size, hlen, real, have in ((66, 56, 56, 9), (66, 56, 56, 0), (66, 58, 56, 10), (66, 54, 56, 12), (50, 56, 56, 0), (50, 56, 56, 10), (0, 56, 56, 10)):
        got, _ = run(size, hlen, real, have)
        ctx.ob("incomplete-image-refused", got and all(p.outcome.kind == "raise" for p in got), ps, f"accepted: image size {size}, header length {hlen} (actual {real}), {have} bytes follow the header", f"{size}/{hlen}/{real}/{have}")
    for size, hlen, real, have in ((66, 56, 56, 10), (66, 56, 56, 12), (70, 60, 60, 10), (56, 56, 56, 0), (56, 56, 56, 3)):
        got, a = run(size, hlen, real, have)
        els = [p for p in got if calls(p, "deserialize", base=None)]
        ctx.ob("complete-image-accepted", any(p.outcome.kind != "raise" for p in got), ps, f"refused: image size {size}, header length {hlen}, {have} bytes follow the header", f"{size}/{have}")
        for p in got:
            subs = [e for e in calls(p, "deserialize") if show(norm(e.base)).endswith("SubElement")]
            if subs:
                v = ctx.kit.teval(norm(subs[0].args[0]), a)
                ctx.ob("elements-within-image", isinstance(v, bytes) and len(v) == size - hlen, ps, f"the elements of an image of {size} bytes with a {hlen} byte header are read from {len(v) if isinstance(v, bytes) else v} bytes", "first")
                if len(subs) > 1:
                    ctx.ob("elements-within-image", norm(subs[1].args[0]) == ("idx", norm(subs[0].value), C(1)), ps, "the second element is not read where the first ended", "next")
            if p.outcome.kind not in ("return", "next"):
                continue
            ctx.ob("every-element-read", bool(subs) == (size > hlen), ps, f"an image with {size - hlen} bytes of elements is returned having read {len(subs)}", "count")
            ret = norm(p.ret) if p.ret is not None else C(None)
            ok = ret[0] == "tuple" and len(ret[1]) == 2
            v = ctx.kit.teval(ret[1][1], a) if ok else None
            ctx.ob("rest-returned", ok and isinstance(v, bytes) and len(v) == have - (size - hlen), ps, f"left over after an image of {size} bytes: {v!r}", "rest")
            img = deref(ctx, p, ret[1][0]) if ok else None
            ctx.ob("header-kept", ok and contains(ret[1][0], H) or ok and any(norm(e.value) == H for e in sets(p, "header")), ps, "the image returned does not carry the header that was read", "hdr")
            apps = [norm(e.args[0]) for e in calls(p, "append") if e.args]
            ctx.ob("every-element-read", [x for x in apps] == [("idx", norm(s.value), C(0)) for s in subs] or any(contains(ret, ("idx", norm(s.value), C(0))) for s in subs), ps, "an element that was read is not kept", "kept")
            for s in subs[-1:]:
                left = [(norm(x), v) for _, x, v in p.trail if norm(x) in (("truthy", ("idx", norm(s.value), C(1))), ("lt", C(0), ln(("idx", norm(s.value), C(1)))), ("eq", ("idx", norm(s.value), C(1)), C(b"")))]
                ctx.ob("every-element-read", bool(left), ps, "reading stops before the elements' end is reached", "end")
    # writing: the declared size must be the real one
    ps = ctx.paths(f"{IMG}.OTAImage.serialize", handler_inject=False, noinline=("deserialize", "serialize"))
    n = 0
    for p in ps:
        if p.outcome.kind == "raise":
            continue
        ret = norm(p.ret) if p.ret is not None else C(None)
        n += 1
        ok = any(norm(a)[0] == "eq" and v and set(norm(a)[1:3]) == {ps.T("self.header.image_size"), ln(ret)} for _, a, v in p.trail)
        ctx.ob("written-size-consistent", ok, ps, f"an image is written although its header may declare another size [{describe(p)}]", "size")
    ctx.ob("written-size-consistent", n >= 1, ps, "no image can be written", "n")
    # Hue images
    ps = ctx.paths(f"{IMG}.HueSBLOTAImage.deserialize", noinline=("deserialize",), handler_inject=False)
    magic = b"\x2a\x00\x01"
    for size, real, have, first, manuf, ok in ((66, 56, 10, magic, 4107, True), (66, 56, 14, magic, 4107, True), (66, 56, 9, magic, 4107, False), (66, 56, 10, b"\x2b\x00\x01", 4107, False), (66, 56, 10, magic, 4108, False)):
        rest = (first + b"e" * 20)[:have]
        data = b"h" * real + rest
        a = {DATA: data, ln(DATA): len(data), at("image_size"): size, hs: real, REST: rest, at("manufacturer_id"): manuf, ps.T("cls.SUBELEMENTS_MAGIC"): magic}
        got = [p for p in ps.paths if ps.consistent(p, a, trail=True)]
        ctx.ob("hue-image-checked", bool(got) and {p.outcome.kind == "raise" for p in got} == {not ok}, ps, f"size {size}, {have} bytes after a {real} byte header starting {first!r}, manufacturer {manuf}: refused is {sorted({p.outcome.kind == 'raise' for p in got})}", f"{size}/{have}/{manuf}/{first!r}")
        for p in got:
            if ok and p.outcome.kind != "raise":
                ret = norm(p.ret) if p.ret is not None else C(None)
                two = ret[0] == "tuple" and len(ret[1]) == 2
                left = ctx.kit.teval(ret[1][1], a) if two else None
                ctx.ob("rest-returned", two and left == data[size:], ps, f"left over after a Hue image: {left!r}", "hue")
                kw = dict(ret[1][0][3]) if two and ret[1][0][0] in ("call", "ctor") else {}
                d = ctx.kit.teval(kw.get("data", C(None)), a)
                ctx.ob("hue-image-checked", d == rest[:size - real] and kw.get("header") == H, ps, f"the Hue image keeps {len(d) if isinstance(d, bytes) else d} bytes", "data")
    # the header must be one
    ps = ctx.paths(f"{IMG}.OTAImageHeader.deserialize", handler_inject=False, noinline=("deserialize", "serialize"))
    n = 0
    for p in ps:
        for v, good in ((0x0BEEF11E, True), (0, False), (0x1EF1EE0B, False)):
            ids = [x for e in p.events for x in ([norm(e.value)] if e.value is not None else [])]
            a = {}
            for _, at_, _v in p.trail:
                for x in subterms(norm(at_)):
                    if x[0] == "attr" and x[2] == "upgrade_file_id":
                        a[x] = v
            if not a:
                ctx.ob("magic-checked", p.outcome.kind == "raise", ps, "a header is accepted whatever its magic number", "any")
                continue
            a[ps.T("cls.MAGIC_VALUE")] = 0x0BEEF11E
            if ps.consistent(p, a, trail=True):
                n += 1
                ctx.ob("magic-checked", (p.outcome.kind != "raise") == good, ps, f"a header with magic {v:#x} is {'refused' if good else 'accepted'}", f"{v}")
    ctx.ob("magic-checked", n >= 3, ps, "the magic number does not decide whether a header is accepted", "n")
    for f, bit in (("security_credential_version_present", 1), ("device_specific_file", 2), ("hardware_versions_present", 4)):
        ps = ctx.paths(f"{IMG}.OTAImageHeader.{f}", handler_inject=False)
        for v in range(8):
            got = {bool(ctx.kit.teval(norm(p.ret), {ps.T("self.field_control"): v})) if p.ret is not None else None for p in ps.paths if p.outcome.kind == "return" and ps.consistent(p, {ps.T("self.field_control"): v}, trail=True)}
            ctx.ob("header-fields-present", got == {bool(v & bit)}, ps, f"field control {v:#05b}: {f} is {sorted(map(str, got))}", f"{f}{v}")
    cls = ctx.kit.p.classes[f"{IMG}.OTAImageHeader"]
    want = {"security_credential_version": "security_credential_version_present", "upgrade_file_destination": "device_specific_file", "minimum_hardware_version": "hardware_versions_present", "maximum_hardware_version": "hardware_versions_present"}
    for st in cls.node.body:
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            used = {n.attr for n in ast.walk(st.value) if isinstance(n, ast.Attribute)} if st.value is not None else set()
            conds = used & set(want.values())
            f = st.target.id
            ctx.ob("header-fields-present", conds == ({want[f]} if f in want else set()), cls, f"the presence of {f} depends on {sorted(conds)}", f)


# ------------------------------------------------------------------ embedded firmware
def upgrade_only(p, e):
    """The element whose data is judged is known to be an upgrade image."""
    d = norm(e.args[0])
    el = d[1] if d[0] == "attr" else d
    conds = [(norm(a), v) for _, a, v in p.trail]
    for _, a, _v in p.trail:
        for x in subterms(norm(a)):
            if x[0] == "comp" and contains(x[2], norm(e.value)):
                conds += [(norm(c), True) for _, cs in x[3] for c in cs]
    k = ("attr", ("glob", f"{IMG}.ElementTagId"), "UPGRADE_IMAGE")
    return any(implied(conds, ("eq", *o)) for o in ((("attr", el, "tag_id"), k), (k, ("attr", el, "tag_id"))))


def firmware(ctx):
    for fn, tagend, lo, order in (("parse_silabs_ebl", b"\xfc\x04", 4, "big"), ("parse_silabs_gbl", b"\xfc\x04\x04\xfc", 8, "little")):
        ps = ctx.paths(f"{VAL}.{fn}", handler_inject=False, loop=1)
        end, more = 0, 0
        tl = len(tagend)

        def run(data):
            return [p for p in ps.paths if ps.consistent(p, {DATA: data, ps.T("len(data)"): len(data)}, trail=True)]

        fill = b"\xff" * 64
        for k in range(lo):
            got = run((tagend + bytes(8))[:k] if fn.endswith("gbl") else (tagend + bytes(8))[:k])
            ctx.ob("truncated-firmware-invalid", got and all(p.outcome.kind == "raise" for p in got), ps, f"{fn}: a firmware of {k} bytes is accepted", f"{fn}{k}")
        for length, have in ((4, 3), (4, 0), (60, 59), (300, 200)):
            d = tagend + length.to_bytes(lo - tl, order) + b"v" * have
            for pad in ((-len(d)) % 64,) if fn.endswith("ebl") else (0,):
                if fn.endswith("ebl") and length <= have + pad:
                    continue
                d2 = d + b"v" * pad
                got = run(d2)
                ctx.ob("truncated-firmware-invalid", got and all(p.outcome.kind == "raise" for p in got), ps, f"{fn}: a tag of {length} bytes of which {have} are present is accepted", f"{fn}{length}/{have}")
        if fn.endswith("ebl"):
            for k in (63, 65, 100):
                got = run(b"\0" * k)
                ctx.ob("truncated-firmware-invalid", got and all(p.outcome.kind == "raise" for p in got), ps, f"{fn}: a firmware of {k} bytes is accepted", f"len{k}")
        # the end tag: checksum over everything up to it
        for vlen, pad in ((4, 56), (60, 0), (260, 56)) if fn.endswith("ebl") else ((4, 0), (4, 3), (260, 0)):
            value = b"v" * vlen
            body = tagend + len(value).to_bytes(lo - tl, order) + value
            good = body + b"\xff" * pad
            a = {DATA: good, ps.T("len(data)"): len(good)}
            ctx.ob("firmware-checksum", any("crc32" in show(norm(x)) for p in run(good) for _, x, _v in p.trail), ps, f"{fn}: a firmware of one {vlen} byte tag and {pad} bytes of padding is never accepted", f"{fn}{vlen}/{pad}")
            for p in run(good):
                crc = [(norm(x), v) for _, x, v in p.trail if norm(x)[0] == "eq" and "crc32" in show(norm(x))]
                if p.outcome.kind != "raise":
                    ctx.ob("firmware-checksum", bool(crc) and all(v for _, v in crc), ps, f"{fn}: a firmware is accepted without its checksum having matched [{describe(p)}]", f"{fn}ok")
                for x, v in crc:
                    end += 1
                    ctx.ob("firmware-checksum", not v or p.outcome.kind not in ("raise", "cut"), ps, f"{fn}: a firmware with a matching checksum is not accepted", f"{fn}good")
                    ctx.ob("firmware-checksum", v or p.outcome.kind == "raise", ps, f"{fn}: a wrong checksum is accepted", f"{fn}bad")
                    side, other = (x[1], x[2]) if "crc32" in show(x[1]) else (x[2], x[1])
                    val = ctx.kit.teval(other, a)
                    ctx.ob("firmware-checksum", val == 0x2144DF1C or other == ("glob", f"{VAL}.VALID_SILABS_CRC") and ctx.kit.teval(other, {}) in (0x2144DF1C,), ps, f"{fn}: the checksum residue expected is {val!r}", f"{fn}val")
                    arg = side[2][0] if side[0] == "call" and side[2] else None
                    d = ctx.kit.teval(arg, a) if arg else None
                    ctx.ob("firmware-checksum", d == body, ps, f"{fn}: the checksum covers {len(d) if isinstance(d, bytes) else d} of the {len(body)} bytes up to the end tag", f"{fn}cover")
                ys = [norm(e.value) for e in p.events if e.kind == "yield" and e.value is not None]
                ctx.ob("firmware-tags", p.outcome.kind == "raise" and not crc or len(ys) >= 1 and ctx.kit.teval(ys[0], a) == (tagend, value), ps, f"{fn}: the end tag read is {ctx.kit.teval(ys[0], a) if ys else None}", f"{fn}tag")
        ctx.ob("firmware-checksum", end >= 1, ps, f"{fn}: the checksum is never compared", f"{fn}n")
        value = b"v" * 4
        body = tagend + len(value).to_bytes(lo - tl, order) + value
        if fn.endswith("ebl"):
            badpad = body + b"\xfe" * (64 - len(body))
            got = [p for p in run(badpad)]
            okp = [p for p in got if p.outcome.kind != "raise" and not any("strip" in show(norm(x)) and not v for _, x, v in p.trail)]
            ctx.ob("firmware-padding", not okp, ps, "a firmware with anything but padding after its end tag is accepted", "pad")
        # any other tag: go on with what follows it
        other = b"\x01\x02\x03\x04"[:tl] + len(value).to_bytes(lo - tl, order) + value
        data = other + b"\xff" * ((-len(other)) % 64 if fn.endswith("ebl") else 8)
        for p in run(data):
            more += 1
            ctx.ob("firmware-tags", p.outcome.kind in ("cut", "raise") and not any("crc32" in show(norm(x)) for _, x, _v in p.trail), ps, f"{fn}: a firmware without an end tag is accepted [{describe(p)}]", f"{fn}noend")
        ctx.ob("firmware-tags", more >= 1, ps, f"{fn}: undecided for other tags", f"{fn}more")
        value = b"v" * (64 - lo)
        for p in run(b"\x01\x02\x03\x04"[:tl] + len(value).to_bytes(lo - tl, order) + value):
            ctx.ob("firmware-tags", p.outcome.kind in ("cut", "raise"), ps, f"{fn}: a firmware that ends without an end tag is accepted [{describe(p)}]", f"{fn}eof")
    # which parser looks at which firmware; unknown kinds are not judged
    ps = ctx.paths(f"{VAL}.validate_firmware", handler_inject=False, noinline=("parse_silabs_ebl", "parse_silabs_gbl"))
    for head, fn in ((b"\xeb\x17\xa6\x03", "parse_silabs_gbl"), (b"\x00\x00\x00\x8c", "parse_silabs_ebl"), (b"\xeb\x17\xa6\x04", None), (b"abcd", None), (b"", None), (b"\x00\x00\x00", None)):
        d = head + b"x" * (10 if len(head) == 4 else 0)
        got = [p for p in ps.paths if ps.consistent(p, {DATA: d}, trail=True)]
        for p in got:
            ret = show(norm(p.ret)).rsplit(".", 1)[-1] if p.ret is not None else None
            used = {e.name for e in p.events if e.kind == "call" and e.name and e.name.startswith("parse_")} | {x[1].rsplit(".", 1)[-1] for e in p.events if e.kind == "call" and e.value is not None for x in subterms(norm(e.value)) if x[0] == "glob" and ".parse_" in x[1]}
            drained = any(isinstance(x, (ast.For, ast.ListComp, ast.SetComp, ast.DictComp, ast.Starred)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name | ast.Attribute) and (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) in ("tuple", "list", "deque", "sum", "set", "dict", "sorted", "all") for code in ctx.kit.whole(ps.func.qual) for x in ast.walk(code))
            ctx.ob("firmware-judged", used == ({fn} if fn else set()) and (ret == ("VALID" if fn else "UNKNOWN")) and p.outcome.kind == "return", ps, f"a firmware starting {head!r} is {ret}, judged by {sorted(used)}", f"{head!r}")
            ctx.ob("firmware-judged", not fn or drained, ps, "the lazy parser is never run", "drained")
        ctx.ob("firmware-judged", bool(got), ps, f"undecided for {head!r}", "any")
    ps = ctx.paths(f"{VAL}.validate_ota_image", handler_inject=False, noinline=("validate_firmware",), loop=1)
    n = 0
    for p in ps:
        ret = show(norm(p.ret)).rsplit(".", 1)[-1] if p.ret is not None else None
        std = [v for _, a, v in p.trail if norm(a)[0] == "isinstance" and contains(norm(a), ("param", "image"))]
        if std == [False]:
            ctx.ob("firmware-judged", ret == "UNKNOWN", ps, f"an image of another kind is {ret}", "kind")
        if p.normal and any(e.kind == "loopiter" and "subelements" in show(e.base) for e in p.events):
            ctx.ob("firmware-judged", any(e.kind == "loopend" for e in p.events), ps, f"the elements after one are not judged [{describe(p)}]", "rest")
        if p.outcome.kind == "return" and ret != "UNKNOWN":
            n += 1
            ctx.ob("firmware-judged", ret == "VALID" and any(contains(norm(a), ("glob", f"{VAL}.validate_firmware")) for _, a, v in p.trail) or any(e.kind == "loopend" for e in p.events), ps, f"an image is {ret} without its firmware having been judged [{describe(p)}]", "judged")
        used = [e for e in calls(p, "validate_firmware") if e.args]
        if used:
            ctx.ob("firmware-judged", any(norm(a) == ("isinstance", ("param", "image"), ("glob", f"{IMG}.OTAImage")) and v for _, a, v in p.trail), ps, "an image of another kind is taken apart", "other")
        for e in used:
            ctx.ob("firmware-judged", upgrade_only(p, e), ps, "an element that is no firmware is judged as one, or firmware is left out", "which")
            ctx.ob("firmware-judged", show(norm(e.args[0])).endswith(".data"), ps, f"the firmware judged is {show(norm(e.args[0]))[:60]}", "arg")
    ctx.ob("firmware-judged", n >= 1, ps, "no image is ever judged valid", "n")
    ps = ctx.paths(f"{VAL}.check_invalid", handler_inject=False, noinline=("validate_ota_image",), inject=("zigpy.ota.validators.ValidationError",), inject_at=lambda t, n, a: n == "validate_ota_image")
    k = set()
    for p in ps:
        for e in calls(p, "validate_ota_image"):
            ret = ctx.kit.teval(norm(p.ret), {}) if p.ret is not None else None
            k.add(e.ok)
            ctx.ob("invalid-reported", p.outcome.kind == "return" and ret is (not e.ok), ps, f"an image whose validation {'passed' if e.ok else 'failed'} is reported invalid={ret!r}", f"{e.ok}")
    ctx.ob("invalid-reported", k == {True, False}, ps, f"validation outcomes distinguished: {sorted(k)}", "n")


RULES = [fetch, validate, overrides, signed, salus, indexes, bypass, parser, structure, firmware]
