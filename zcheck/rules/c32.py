"""Wire structures and packets behave as values: equality, matching, copies, immutability and hashes agree."""
import ast

from ..core import UNK, calls, describe, norm, show
from ..lib import allfacts, contains, data_fields

S = "zigpy.types.struct.Struct"
F = "zigpy.types.struct.StructField"
N = "zigpy.types.named."
ND = "zigpy.zdo.types.NodeDescriptor"
NI = (f"{S}._real_cls", f"{S}.as_dict", f"{S}.freeze", f"{S}.matches", f"{S}.serialize", f"{S}.deserialize", f"{F}.get_type", f"{F}._convert_type", f"{S}.from_dict")


def facts(p):
    return {norm(a): v for a, v in allfacts(p)}


def isconst(p, *vals):
    return p.ret is not None and norm(p.ret)[0] == "const" and any(norm(p.ret)[1] is v for v in vals)


def elem(ps):
    return ("elem", ps.T("self.fields"))


def fieldname(ps):
    return ("attr", elem(ps), "name")


def getat(ps, base):
    return ("call", ("glob", "builtins.getattr"), (base, fieldname(ps)), ())


def is_at(ps, t, base):
    """getattr(base, field.name), with or without a default."""
    return t[0] == "call" and t[1] == ("glob", "builtins.getattr") and t[2][:2] == (base, fieldname(ps))


def is_struct(f, t):
    """What the path knows about isinstance(t, Struct)."""
    for a, v in f.items():
        if a[0] == "isinstance" and a[1] == t and a[2] == ("glob", S):
            return v
    return None


def compat(ps, f, v):
    a, b = ps.T("self"), ps.T("other")
    ty = lambda x: ("call", ("glob", "builtins.type"), (x,), ())
    got = [f.get(("isinstance", x, ty(y))) for x, y in ((a, b), (b, a))]
    return (True in got) if v else got == [False, False]


def matching(ctx):
    """A pattern matches exactly the structures which agree with it on each field it sets."""
    R = "match"
    ps = ctx.paths(f"{S}.matches", loop=1, noinline=[x for x in NI if not x.endswith("matches")] + [f"{S}.matches"])
    me, other = ps.T("self"), ps.T("other")
    A, E = getat(ps, me), getat(ps, other)
    src = ps.T("self.fields")
    n = 0
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        f = facts(p)
        for e in calls(p, "matches"):
            if e.base is not None and norm(e.base) == A:
                g = {norm(a): v for a, v in e.facts.items()}
                ok = is_struct(g, A) is True or g.get(("is", A, ("const", None))) is False or g.get(("truthy", A)) is True
                ctx.ob(R, ok, ps, f"a pattern with a nested structure crashes on a structure which leaves it unset [{describe(p)}]", "unset")
        its = [e for e in p.events if e.kind == "loopiter" and e.base is not None and norm(e.base) == src]
        ended = any(e.kind == "loopend" and e.base is not None and norm(e.base) == src for e in p.events)
        nested = [v for a, v in f.items() if a[0] == "truthy" and a[1][0] == "call" and a[1][1] == ("attr", A, "matches") and a[1][2] == (E,)]
        eq = [v for a, v in f.items() if a[0] == "eq" and set(a[1:]) == {A, E}]
        n += bool(nested or eq)
        if eq and is_struct(f, E) is True and is_struct(f, A) is not False:
            ctx.ob(R, False, ps, f"a nested pattern must be equal instead of matching [{describe(p)}]", "nested")
        unset = f.get(("is", E, ("const", None))) is True
        if isconst(p, True):
            ctx.ob(R, compat(ps, f, True), ps, f"structures of unrelated types match [{describe(p)}]", "type")
            if any(e.kind in ("loopiter", "loopend") and e.base is not None for e in p.events):
                ctx.ob(R, ended, ps, f"the structures match before each field was compared [{describe(p)}]", "all")
            if its:
                ok = unset or True in nested or True in eq
                ctx.ob(R, ok, ps, f"a field which the pattern sets is not compared [{describe(p)}]", "each")
        elif isconst(p, False):
            ok = compat(ps, f, False) or not unset and (False in nested or False in eq or is_struct(f, E) is True and (is_struct(f, A) is False or f.get(("is", A, ("const", None))) is True))
            ctx.ob(R, ok, ps, f"structures which agree with the pattern do not match [{describe(p)}]", "false")
    ctx.need(R, n, 0, "field comparisons")


def whole(ps, t, who):
    """The term denotes all fields of the structure."""
    if t[0] == "call" and t[1][0] == "attr" and t[1][1] == who and t[1][2] in ("as_dict", "as_tuple"):
        return not t[2] and not [v for _, v in t[3] if v != ("const", False)]
    return None


def equality(ctx):
    """Structures are equal exactly when they are of one type and all their fields are."""
    R = "equal"
    ps = ctx.paths(f"{S}.__eq__", noinline=NI)
    me, other = ps.T("self"), ps.T("other")
    it = ps.T("self._int_type")
    n = 0
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        f = facts(p)
        r = norm(p.ret)
        isint = f.get(("isinstance", other, ("glob", "builtins.int")))
        num = f.get(("is", it, ("const", None))) is False and isint is True
        if r == ("glob", "builtins.NotImplemented"):
            ctx.ob(R, not compat(ps, f, True) and not num, ps, f"comparable structures are not compared [{describe(p)}]", "ni")
        elif r[0] == "const":
            same = f.get(("is", me, other)) is True or f.get(("is", other, me)) is True
            if compat(ps, f, True) or num:
                ctx.ob(R, r[1] is True and same or any(a[0] in ("eq", "cmp") or a[0] == "truthy" for a in f), ps, f"equality is {r[1]} without comparing [{describe(p)}]", "const")
            else:
                ctx.ob(R, r[1] is False or same, ps, f"unrelated values are equal [{describe(p)}]", "const2")
        elif r[0] == "cmp":
            ctx.ob(R, r[1] == "==", ps, f"equality is {show(r)[:100]}", "op")
            sides = r[2:]
            if any(s[0] == "call" and s[1] == ("glob", "builtins.int") for s in sides):
                ints = {("call", ("glob", "builtins.int"), (x,), ()) for x in (me, other)} | {other}
                ctx.ob(R, num and all(s in ints for s in sides) and sides[0] != sides[1], ps, f"compared as numbers: {show(r)[:100]} [{describe(p)}]", "int")
                n += 1
                continue
            w = [(whole(ps, s, me), whole(ps, s, other)) for s in sides]
            if all(any(x is not None for x in y) for y in w):
                n += 1
                names = {s[1][2] for s in sides}
                ctx.ob(R, len(names) == 1, ps, f"different views are compared: {show(r)[:100]}", "views")
                ok = any(y[0] for y in w) and any(y[1] for y in w)
                ctx.ob(R, ok, ps, f"equality compares {show(r)[:120]}, not all fields of both", "fields")
                ctx.ob(R, compat(ps, f, True), ps, f"structures of unrelated types are compared [{describe(p)}]", "type")
                ctx.ob(R, not num, ps, f"an integer is compared as a structure [{describe(p)}]", "num")
    ctx.need(R, n, 0, "comparisons")
    flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
    for name, op in dict(__lt__="<", __le__="<=", __gt__=">", __ge__=">=").items():
        ps = ctx.paths(f"{S}.{name}", noinline=NI)
        me, other, it = ps.T("self"), ps.T("other"), ps.T("self._int_type")
        num = lambda x: (x, ("call", ("glob", "builtins.int"), (x,), ()))
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            f, r = facts(p), norm(p.ret)
            ok = f.get(("is", it, ("const", None))) is not True and f.get(("isinstance", other, ("glob", "builtins.int"))) is not False
            if r == ("glob", "builtins.NotImplemented"):
                ctx.ob("order", not (f.get(("is", it, ("const", None))) is False and f.get(("isinstance", other, ("glob", "builtins.int"))) is True), ps, f"numeric structures are not ordered [{describe(p)}]", name)
                continue
            if r[0] != "cmp":
                continue
            ctx.ob("order", ok, ps, f"values without an order are ordered [{describe(p)}]", name)
            good = r[1] == op and r[2] in num(me)[1:] and r[3] in num(other) or r[1] == flip[op] and r[3] in num(me)[1:] and r[2] in num(other)
            ctx.ob("order", good, ps, f"`{op}` is decided by {show(r)[:100]}", name + "op")


def dict_entries(p):
    """(key, value, facts) of each item stored in a dict, in order."""
    return [(norm(e.args[0]), norm(e.value if e.value is not None else e.args[1]), {norm(a): v for a, v in e.facts.items()}) for e in p.events if e.kind == "setidx" and e.args]


def copying(ctx):
    """Every copy of a structure holds every field of the original."""
    R = "as-dict"
    ps = ctx.paths(f"{S}.as_dict", loop=1, noinline=NI)
    me = ps.T("self")
    A, key, src = getat(ps, me), fieldname(ps), ps.T("self.fields")
    skip, rec = ("param", "skip_missing"), ("param", "recursive")
    n = 0
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        its = [e for e in p.events if e.kind == "loopiter" and e.base is not None and norm(e.base) == src]
        loops = [e for e in p.events if e.kind in ("loopiter", "loopend")]
        if not loops:
            continue
        ctx.ob(R, any(e.kind == "loopend" for e in loops), ps, f"fields are left out [{describe(p)}]", "end")
        if not its:
            continue
        f = facts(p)
        st = [(k, v) for k, v, _ in dict_entries(p)]
        none, sk, rc = f.get(("is", A, ("const", None))), f.get(("truthy", skip)), f.get(("truthy", rec))
        n += 1
        if not st:
            ctx.ob(R, none is True and sk is True, ps, f"a field is left out [{describe(p)}]", "out")
            continue
        ctx.ob(R, not (none is True and sk is True), ps, f"a missing field is kept although they are to be skipped [{describe(p)}]", "kept")
        k, v = st[-1]
        ctx.ob(R, k == key, ps, f"the field is stored under {show(k)[:80]}", "key")
        inner = v[0] == "call" and v[1] == ("attr", A, "as_dict")
        ctx.ob(R, v == A or inner, ps, f"the field is given as {show(v)[:100]}", "value")
        if inner:
            kw = dict(v[3])
            ctx.ob(R, rc is True, ps, f"a nested structure is converted without being asked to [{describe(p)}]", "rec")
            ctx.ob(R, kw.get("skip_missing") in (skip, ("const", sk)) and kw.get("recursive") in (rec, ("const", True)), ps, f"nested structures are converted with other options: {show(v)[:120]}", "opts")
        else:
            ctx.ob(R, not (rc is True and is_struct(f, A) is True), ps, f"a nested structure is not converted [{describe(p)}]", "rec2")
    ctx.need(R, n, 0, "fields")

    R = "replace"
    ps = ctx.paths(f"{S}.replace", noinline=NI)
    me, kw = ps.T("self"), ("param", "**kwargs")
    d0 = ps.T("self.as_dict()")
    typ = (ps.T("type(self)"), ps.T("self._real_cls()"), ps.T("self.__class__"))
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        f = facts(p)
        fz = f.get(("truthy", ps.T("self._frozen")))
        r = norm(p.ret)
        frozen = r[0] == "call" and r[1][0] == "attr" and r[1][2] == "freeze"
        t = r[1][1] if frozen else r
        ctx.ob(R, r != me, ps, f"nothing is replaced [{describe(p)}]", "same")
        if not (t[0] == "call" and t[1] in typ):
            continue
        ctx.ob(R, frozen if fz else not frozen or fz is None, ps, f"the copy of a {'frozen' if fz else 'mutable'} structure is {'frozen' if frozen else 'mutable'} [{describe(p)}]", "frozen")
        if fz is None:
            ctx.ob(R, False, ps, "the copy does not keep the original's frozen state", "frozen")
        parts = [v for k, v in t[3] if k == "**"]
        late = [e for e in p.events if e.kind == "call" and e.name == "update" and e.base is not None and norm(e.base) in parts]
        pos = lambda x: show(("tuple", tuple(parts))).find(show(x))
        body = ("tuple", tuple(parts))
        asd = lambda t: t[0] == "call" and t[1] == ("attr", me, "as_dict") and dict(t[3]).get("recursive", ("const", False)) == ("const", False)
        d0 = next((t for t in sub((body, *(norm(a) for e in late for a in e.args))) if asd(t)), d0)
        ctx.ob(R, contains(body, d0) or any(contains(norm(a), d0) for e in late for a in e.args), ps, f"the copy does not start from the current fields: {show(t)[:140]}", "from")
        got = contains(body, kw) or any(contains(norm(a), kw) or norm(a) == kw for e in late for a in e.args) or any(contains(norm(v), kw) for e in late for _, v in e.kwargs)
        ctx.ob(R, got, ps, f"the replacement values are not used: {show(t)[:140]}", "with")
        part = [t for t in sub((body, *(norm(a) for e in late for a in e.args))) if t[0] == "comp" and contains(t, kw) and any(c for _, c in t[3])]
        ctx.ob(R, not part, ps, f"some replacement values are ignored: {show(part[0])[:120] if part else ''}", "some")
        for e in late:
            ctx.ob(R, not any(contains(norm(a), d0) for a in e.args), ps, "the current fields override the replacements", "order")
        if not late and contains(body, kw) and contains(body, d0):
            ctx.ob(R, pos(d0) < pos(kw), ps, f"the current fields override the replacements: {show(t)[:140]}", "order2")


def frozen(ctx):
    """A frozen structure never changes, its nested structures included, and only it can be hashed."""
    R = "frozen"
    ps = ctx.paths(f"{S}.freeze", loop=1, noinline=NI)
    me = ps.T("self")
    A, key, src = getat(ps, me), fieldname(ps), ps.T("self.fields")
    n = 0
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        f, r = facts(p), norm(p.ret)
        if r == me:
            ctx.ob(R, f.get(("truthy", ps.T("self._frozen"))) is True, ps, f"a mutable structure is returned as frozen [{describe(p)}]", "self")
            continue
        es = [e for e in p.events if e.kind == "setattr" and e.base is not None and norm(e.base) == r]
        hs = [e for e in es if e.name == "_hash"]
        fs = [e for e in es if e.name == "_frozen"]
        n += 1
        ctx.ob(R, len(fs) == 1 and norm(fs[0].value) == ("const", True), ps, f"the result is not marked as frozen [{describe(p)}]", "mark")
        ctx.ob(R, len(hs) >= 1, ps, f"the frozen structure has no hash [{describe(p)}]", "hash")
        if not fs or not hs:
            continue
        ctx.ob(R, all(p.events.index(e) <= p.events.index(fs[0]) for e in es), ps, "a frozen structure is stored to", "late")
        ctx.ob(R, not [e for e in p.events if e.kind == "setattr" and e.base is not None and norm(e.base) == me], ps, "freezing changes the original", "orig")
        loops = [e for e in p.events if e.kind in ("loopiter", "loopend") and e.base is not None and norm(e.base) == src]
        if not loops:
            continue
        ctx.ob(R, any(e.kind == "loopend" for e in loops), ps, f"fields are left out [{describe(p)}]", "all")
        if len(loops) < 2:
            continue
        st = [(k, v) for k, v, _ in dict_entries(p)]
        ctx.ob(R, bool(st) and st[-1][0] == key, ps, f"a field is left out of the frozen structure [{describe(p)}]", "field")
        if not st:
            continue
        v = st[-1][1]
        ns = is_struct(f, A)
        fro = ("call", ("attr", A, "freeze"), (), ())
        ctx.ob(R, v == fro if ns else v in (A, fro), ps, f"a {'nested structure' if ns else 'field'} is kept as {show(v)[:80]}", "nested")
        if ns is None:
            ctx.ob(R, v == fro, ps, "nested structures stay mutable", "nested")
        hv = norm(hs[-1].value)
        ctx.ob(R, contains(visible(hv), v), ps, f"the hash ignores field values: {show(hv)[:120]}", "hashed")
        ctx.ob(R, not contains(hv, ("call", ("glob", "builtins.id"), (me,), ())), ps, "the hash depends on the object's identity", "id")
        ctx.ob(R, contains(r, v), ps, f"the frozen structure is made without the field's value: {show(r)[:120]}", "made")
    ctx.need(R, n, 0, "frozen structures")

    ps = ctx.paths(f"{S}.__setattr__")
    fr = ps.T("self._frozen")
    for p in ps:
        v = facts(p).get(("truthy", fr))
        stores = [e for e in p.events if e.kind == "call" and e.name == "__setattr__"]
        if p.outcome.kind == "raise":
            ctx.ob(R, v is not False, ps, f"a mutable structure refuses a value [{describe(p)}]", "set1")
            ctx.ob(R, v is not None, ps, f"a value is refused whether or not the structure is frozen [{describe(p)}]", "set2")
            continue
        ctx.ob(R, v is False, ps, f"a frozen structure can be changed [{describe(p)}]", "set3")
        ctx.ob(R, len(stores) == 1 and [norm(a) for a in stores[0].args][-2:] == [("param", "name"), ("param", "value")], ps, f"the value is not stored [{describe(p)}]", "set4")
    ps = ctx.paths(f"{S}.__hash__")
    for p in ps:
        v = facts(p).get(("truthy", ps.T("self._frozen")))
        if p.outcome.kind == "raise":
            ctx.ob(R, v is False, ps, f"a frozen structure has no hash [{describe(p)}]", "h1")
        else:
            ctx.ob(R, v is True, ps, f"a mutable structure can be hashed [{describe(p)}]", "h2")
            ctx.ob(R, p.ret is not None and norm(p.ret) == ps.T("self._hash"), ps, f"the hash of a frozen structure is {show(p.ret)[:80] if p.ret else None}", "h3")
    # No subclass may get around the guard.
    for c in ctx.kit.p.subclasses(S):
        m = c.methods.get("__setattr__")
        if m is None:
            continue
        ps = ctx.paths(m.qual)
        for p in ps:
            if p.normal:
                es = [e for e in calls(p, "__setattr__") if e.base is None or norm(e.base)[0] in ("super", "self") or norm(e.base) == ("glob", S)]
                ctx.ob(R, bool(es), ps, f"a store to a frozen {c.qual.rsplit('.', 1)[1]} is not refused [{describe(p)}]", c.qual)
    # A command's arguments are also the tuple of its fields.
    q = "zigpy.zcl.foundation.CommandSchema"
    want = dict(__iter__="iter(self.as_tuple())", __getitem__="self.as_tuple()[item]", __len__="len(self.as_tuple())")
    for name, w in want.items():
        if name not in ctx.kit.p.classes[q].methods:
            continue
        ps = ctx.paths(f"{q}.{name}", noinline=(f"{S}.as_tuple",))
        for p in ps:
            if p.normal and p.ret is not None:
                tup = [t for t in sub(norm(p.ret)) if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "as_tuple"]
                ctx.ob("command-tuple", not tup or norm(p.ret) == ps.T(w), ps, f"a command's arguments as a tuple: {name} is {show(p.ret)[:80]}", name)


def conversion(ctx):
    """A value given for a field is stored under that field, in its declared type."""
    R = "convert"
    ps = ctx.paths(f"{F}.get_type")
    dyn = ps.T("self.dynamic_type")
    for p in ps:
        if p.outcome.kind != "return" or p.ret is None:
            continue
        f, r = facts(p), norm(p.ret)
        none = f.get(("is", dyn, ("const", None)), None if ("truthy", dyn) not in f else not f[("truthy", dyn)])
        if none is False:
            ctx.ob(R, r == ps.T("self.dynamic_type(struct)"), ps, f"a field of dynamic type is read as {show(r)[:80]}", "dyn")
        elif none is True:
            ctx.ob(R, r == ps.T("self.type"), ps, f"a field is read as {show(r)[:80]}", "static")
        elif r[0] != "call" or r[1] != dyn:
            ctx.ob(R, r != ps.T("self.type"), ps, "the dynamic type of a field is ignored", "ignored")
    ps = ctx.paths(f"{F}._convert_type", noinline=NI, inject=("ValueError", "TypeError"), inject_at=lambda t, n, a: n not in ("get_type",))
    ft, val = ps.T("self.get_type(struct)"), ("param", "value")
    n = 0
    for p in ps:
        f = facts(p)
        none, inst = f.get(("is", val, ("const", None))), f.get(("isinstance", val, ft))
        made = [e for e in p.events if e.kind == "call" and e.term is not None and norm(e.term)[:3] == ("call", ft, (val,))]
        if p.outcome.kind == "raise":
            ctx.ob(R, any(not e.ok for e in p.events if e.kind == "call"), ps, f"a valid value is refused [{describe(p)}]", "refuse")
            continue
        if p.outcome.kind != "return" or p.ret is None:
            continue
        r = norm(p.ret)
        n += 1
        if none is True or inst is True:
            ctx.ob(R, r == val, ps, f"a value which has the type already becomes {show(r)[:80]} [{describe(p)}]", "keep")
        elif r != ("call", ft, (val,), ()):
            ctx.ob(R, r != val and r[0] != "const" and not any(not e.ok for e in p.events if e.kind == "call"), ps, f"a value of another type is taken as {show(r)[:80]} [{describe(p)}]", "to")
    ctx.need(R, n, 1, "conversions")

    ps = ctx.paths(f"{S}.__new__", loop=1, noinline=NI)
    n = 0
    a0 = ("idx", ("param", "*args"), ("const", 0))
    for p in ps:
        f = facts(p)
        copy = [v for a, v in f.items() if a[0] == "isinstance" and a[1] == a0 and a[2] != ("glob", "builtins.int")]
        isint = f.get(("isinstance", a0, ("glob", "builtins.int")))
        haskw = f.get(("truthy", ("param", "**kwargs")))
        if p.outcome.kind == "raise":
            ctx.ob(R, True in copy and haskw is True, ps, f"valid arguments are refused [{describe(p)}]", "new-raise")
            continue
        if p.outcome.kind != "return" or p.ret is None:
            continue
        ctx.ob(R, not (True in copy and haskw is True), ps, "a copy silently drops the other arguments", "new-kw")
        r = norm(p.ret)
        binds = [e for e in calls(p, "bind")]
        if not binds:
            if isint is True:
                want = r[0] == "idx" and r[2] == ("const", 0) and r[1][0] == "call" and r[1][1][0] == "attr" and r[1][1][2] == "deserialize"
                ctx.ob(R, want, ps, f"an integer is taken as {show(r)[:100]}", "new-int")
                if want:
                    b = r[1][2][0] if r[1][2] else ("none",)
                    ok = b[0] == "call" and b[1][0] == "attr" and b[1][2] == "serialize" and b[1][1][0] == "call" and b[1][1][1][0] == "attr" and b[1][1][1][2] == "_int_type" and b[1][1][2] == (a0,)
                    ctx.ob(R, ok, ps, f"an integer is decoded from {show(b)[:100]}", "new-int2")
            continue
        for e in binds:
            src = [norm(v) for _, v in e.kwargs] + [norm(a) for a in e.args]
            if True in copy:
                ok = len(src) == 1 and src[0][0] == "call" and src[0][1] == ("attr", a0, "as_dict") and dict(src[0][3]).get("recursive", ("const", False)) == ("const", False)
                ctx.ob(R, ok, ps, f"the copy is made of {show(('tuple', tuple(src)))[:120]}", "new-copy")
            else:
                ok = ("star", ("param", "*args")) in src and ("param", "**kwargs") in src
                ctx.ob(R, ok, ps, f"the arguments are bound as {show(('tuple', tuple(src)))[:120]}", "new-args")
            sig = [x for x in p.events if x.kind == "call" and x.name == "Signature"]
            for x in sig:
                pr = dict((k, norm(v)) for k, v in x.kwargs).get("parameters") or (norm(x.args[0]) if x.args else None)
                if pr is None or pr[0] != "comp" or len(pr[3]) != 1:
                    continue
                it, conds = pr[3][0]
                ctx.ob(R, it[0] == "attr" and it[2] == "fields" and not conds, ps, f"the constructor takes the fields {show(('comp', pr[1], it, pr[3]))[:120]}", "new-sig")
                el = ("elem", it)
                par = dict(pr[2][3]) if pr[2][0] == "call" else {}
                ctx.ob(R, par.get("name", ("attr", el, "name")) == ("attr", el, "name"), ps, f"the parameter of a field is called {show(par['name'])[:80] if 'name' in par else ''}", "new-name")
                ctx.ob(R, par.get("default") == ("const", None), ps, "a field which is not given is not unset", "new-default")
        loops = [e for e in p.events if e.kind in ("loopiter", "loopend")]
        if loops:
            ctx.ob(R, loops[-1].kind == "loopend", ps, f"not every field is set [{describe(p)}]", "new-all")
        if not any(e.kind == "loopiter" for e in loops):
            continue
        st = [e for e in p.events if e.kind == "setattr" and e.base is not None and norm(e.base) == r]
        ctx.ob(R, len(st) == 1, ps, f"{len(st)} fields are set for one argument [{describe(p)}]", "new-set")
        for e in st:
            n += 1
            k = norm(e.name) if isinstance(e.name, tuple) else None
            v = norm(e.value)
            if k is None or k[0] != "idx" or v[0] != "call" or v[1][0] != "attr" or v[1][2] != "_convert_type":
                ctx.ob(R, not (k is not None and v == ("idx", k[1], ("const", 1))), ps, "a value is stored without being converted to the field's type", "new-conv")
                continue
            pair = k[1]
            ctx.ob(R, k[2] == ("const", 0) and v[2][:1] == (("idx", pair, ("const", 1)),), ps, f"{show(v)[-120:]} is stored in field {show(k)[-60:]}", "new-val")
            fld = v[1][1]
            if fld[0] == "call" and fld[1] == ("glob", "builtins.getattr"):
                ctx.ob(R, fld[2][1] == k, ps, "a value is converted to the type of another field", "new-fld")
            ctx.ob(R, contains(("tuple", (*v[2], *[x for _, x in v[3]])), r), ps, "the type of a field is not decided by the structure being made", "new-self")
    ctx.need(R, n, 0, "stored arguments")


def packets(ctx):
    """Equal packets and addresses have equal hashes, and an address has the type its mode says."""
    R = "hash-eq"
    for q in (N + "ZigbeePacket", N + "AddrModeAddress"):
        c = ctx.kit.p.classes[q]
        cmpd, skipped = [], []
        for st in c.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                kw = {k.arg: k.value for k in st.value.keywords} if isinstance(st.value, ast.Call) else {}
                off = isinstance(kw.get("compare"), ast.Constant) and kw["compare"].value is False
                (skipped if off else cmpd).append(st.target.id)
        ps = ctx.paths(q + ".__hash__")
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            r = norm(p.ret)
            for name in skipped:
                ctx.ob(R, not contains(r, ps.T(f"self.{name}")), ps, f"equal objects have different hashes: `{name}` is hashed but not compared", q + name)
            ctx.ob(R, any(contains(r, ps.T(f"self.{x}")) for x in cmpd), ps, "the hash ignores every field", q + "none")
    # the debouncer recognises a repeated packet by these fields
    c = ctx.kit.p.classes[N + "ZigbeePacket"]
    for st in c.node.body:
        if isinstance(st, ast.AnnAssign) and isinstance(st.value, ast.Call) and st.target.id != "timestamp":
            kw = {k.arg: k.value for k in st.value.keywords}
            ctx.ob(R, not (isinstance(kw.get("compare"), ast.Constant) and kw["compare"].value is False), c.node, f"packets which differ in `{st.target.id}` are equal", "cmp" + st.target.id)

    R = "address-type"
    ps = ctx.paths(N + "AddrModeAddress.__post_init__")
    mode, addr = ps.T("self.addr_mode"), ps.T("self.address")
    want = dict(Group="Group", NWK="NWK", IEEE="EUI64", Broadcast="BroadcastAddress")
    for m, ty in want.items():
        sym = ctx.kit.enum_value(N + "AddrMode", m)
        k = 0
        for p in ps.scen({"self.addr_mode": sym}):
            f = facts(p)
            if f.get(("is", addr, ("const", None))) is True or f.get(("is", mode, ("const", None))) is True:
                continue
            st = [e for e in p.events if e.kind == "setattr" and e.name == "address"]
            ctx.ob(R, bool(st), ps, f"an address of mode {m} keeps the type it was given [{describe(p)}]", m)
            for e in st:
                v = norm(e.value)
                if v[0] != "call":
                    continue
                fn = v[1]
                if fn[0] == "idx" and fn[1][0] == "dict" and fn[2] == mode:
                    d = {}
                    for kv in fn[1][1]:
                        d[show(kv[0]).rsplit(".", 1)[-1]] = kv[1]
                    fn = d.get(m, ("none",))
                k += 1
                ctx.ob(R, fn in (("glob", N + ty), ("glob", "zigpy.types." + ty)), ps, f"an address of mode {m} becomes {show(fn)[:60]} instead of {ty}", m + "t")
                ctx.ob(R, v[2] == (addr,), ps, f"an address becomes {show(v)[:80]}", m + "v")
        ctx.need(R, k, 0, m)

    R = "identifier"
    for q, rev in ((N + "EUI64", True), (N + "KeyData", False)):
        for how in ("convert", "__repr__"):
            ps = ctx.paths(f"{q}.{how}")
            for p in ps:
                if p.outcome.kind != "return" or p.ret is None:
                    continue
                r = norm(p.ret)
                if r[0] == "const":
                    continue
                back = ("slice", ("const", None), ("const", None), ("const", -1))
                nrev = len({t for t in sub(r) if t[0] == "idx" and t[2] == back or t[0] == "call" and t[1] == ("glob", "builtins.reversed")})
                if how == "convert":
                    ln = [v for a, v in facts(p).items() if a[0] == "eq" and any(x[0] == "attr" and x[2] == "_length" or x == ("const", 8 if rev else 16) for x in a[1:]) and any(x[0] == "call" and x[1] == ("glob", "builtins.len") for x in a[1:])]
                    ctx.ob(R, ln and all(ln), ps, f"text of any length becomes {q.rsplit('.', 1)[1]}", q + "len")
                ctx.ob(R, (nrev % 2 == 1) == rev, ps, f"{q.rsplit('.', 1)[1]}.{how} {'keeps' if rev else 'reverses'} the byte order: {show(r)[:120]}", q + how)


def visible(t):
    """The term without what iterating over it does not show: a dictionary is only its keys."""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("call",) and t[1][0] == "attr" and t[1][2] in ("items", "values") and t[1][1][0] == "dict":
        return ("shown", tuple(visible(v) for kv in t[1][1][1] for v in kv[-1:]))
    if t[:1] == ("dict",):
        return ("dict", tuple(visible(kv[0]) for kv in t[1]))
    return tuple(visible(x) for x in t)


def sub(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from sub(x)


FLAGS = {
    "is_end_device": ("logical_type", "EndDevice"), "is_router": ("logical_type", "Router"), "is_coordinator": ("logical_type", "Coordinator"),
    "is_alternate_pan_coordinator": ("mac_capability_flags", "AlternatePanCoordinator"), "is_full_function_device": ("mac_capability_flags", "FullFunctionDevice"),
    "is_mains_powered": ("mac_capability_flags", "MainsPowered"), "is_receiver_on_when_idle": ("mac_capability_flags", "RxOnWhenIdle"),
    "is_security_capable": ("mac_capability_flags", "SecurityCapable"), "allocate_address": ("mac_capability_flags", "AllocateAddress"),
}


def descriptor(ctx):
    """A device's capabilities are read from the field and flag which the standard assigns to them."""
    R = "capability"
    cls = dict(logical_type="zigpy.zdo.types.LogicalType", mac_capability_flags="zigpy.zdo.types._NodeDescriptorEnums.MACCapabilityFlags")
    for name, (field, member) in FLAGS.items():
        ps = ctx.paths(f"{ND}.{name}")
        ft = ps.T(f"self.{field}")
        n = 0
        for p in ps:
            if p.outcome.kind != "return" or p.ret is None:
                continue
            f, r = facts(p), norm(p.ret)
            none = f.get(("is", ft, ("const", None)))
            if r[0] == "const" and r[1] is None:
                ctx.ob(R, none is True, ps, f"{name} is unknown although the descriptor tells [{describe(p)}]", name + "n")
                continue
            ctx.ob(R, none is not True, ps, f"{name} of an unknown device is {show(r)[:60]}", name + "u")
            other = [x for x in sub(r) if x[0] == "attr" and x[1] == ps.T("self") and x[2] in cls and x[2] != field]
            ctx.ob(R, not other, ps, f"{name} is read from {show(other[0]) if other else ''}", name + "f")
            for x in sub(r):
                m = x[2] if x[0] == "attr" and len(x) == 3 and isinstance(x[2], str) else x[1].rsplit(".", 1)[-1] if x[0] == "glob" and isinstance(x[1], str) else None
                if m in {v for _, v in FLAGS.values()} | {"EndDevice", "Router", "Coordinator"} and m is not None:
                    n += 1
                    ctx.ob(R, m == member, ps, f"{name} tests {m}", name + "m")
            t = r[2][0] if r[0] == "call" and r[1] == ("glob", "builtins.bool") and r[2] else r
            if t[0] == "bin":
                ctx.ob(R, t[1] == "&", ps, f"{name} is {show(t)[:80]}", name + "op")
            elif t[0] == "cmp":
                if field == "logical_type":
                    ctx.ob(R, t[1] in ("==", "is"), ps, f"{name} is {show(t)[:80]}", name + "op")
                else:
                    ctx.ob(R, t[1] in ("==", "is") and contains(t, ("bin",)) or t[1] in ("!=", ">", "==", "in"), ps, f"{name} is {show(t)[:80]}", name + "op")
        ctx.need(R, n, 0, name)


RULES = [matching, equality, copying, frozen, conversion, packets, descriptor]
