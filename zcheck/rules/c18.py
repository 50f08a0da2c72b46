"""The two backup formats read back what they write: reader o writer simplifies to the identity, field by field."""
import ast

from ..core import UNK, calls, describe, norm, show
from ..lib import data_fields, is_const
from ..walk import contains, subterms

ST = "zigpy.state."
BK = "zigpy.backups.NetworkBackup"
C = lambda v: ("const", v)  # noqa: E731
REV = ("slice", C(None), C(None), C(-1))
WHOLE = (C(None), C(None), C(None))


class Simp:
    """Rewrites a reader's term over the document into the state it came from."""

    def __init__(self, ctx, func, doc=None, dev=None, roots=()):
        self.ctx, self.func, self.doc, self.dev, self.roots = ctx, func, doc, dev, roots

    def kind(self, t, depth=0):
        """Which textual form a value has: '8' EUI64-like, '16' key, '2' hexadecimal 16 bit."""
        q = None
        if t[0] == "call" and t[1][0] == "glob" and len(t[2]) == 1:
            q = t[1][1]
        elif t[0] == "attr":
            q = self.ftype(t)
        elif t[0] in ("elem", "idx"):
            q = self.ftype(t)
        return self.tkind(q)

    def tkind(self, q):
        if q is None or q not in self.ctx.p.classes:
            return None
        for c in self.ctx.p.mro(self.ctx.p.cls(q)):
            n = c.qual.split(".")[-1]
            if n in ("EUI64", "KeyData", "NWK"):
                return n
        return q

    def ftype(self, t):
        """Declared type of a state field."""
        ann = self.ann(t)
        return self.ctx.p.resolve_expr(ann[0], ann[1], None) if ann and not isinstance(ann[1], ast.Subscript) else None

    def ann(self, t):
        if t[0] == "attr":
            c = self.cls_of(t[1])
            if c is None:
                return None
            for k in self.ctx.p.mro(self.ctx.p.cls(c)):
                for st in k.node.body:
                    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == t[2]:
                        return k.module, st.annotation
        if t[0] == "elem":
            inner = t[1]
            if inner[0] == "call" and inner[1] == ("glob", "builtins.sorted"):
                inner = inner[2][0]
            items = inner[0] == "call" and inner[1][0] == "attr" and inner[1][2] == "items"
            a = self.ann(inner[1][1] if items else inner)
            if a and isinstance(a[1], ast.Subscript):
                s = a[1].slice
                if items and isinstance(s, ast.Tuple):
                    return a[0], s
                return a[0], s.elts[0] if isinstance(s, ast.Tuple) else s
        if t[0] == "idx" and t[1][0] == "elem" and t[2][0] == "const":
            a = self.ann(t[1])
            if a and isinstance(a[1], ast.Tuple) and isinstance(t[2][1], int) and t[2][1] < len(a[1].elts):
                return a[0], a[1].elts[t[2][1]]
        return None

    def cls_of(self, t):
        for r, q in self.roots:
            if t == r:
                return q
        return self.ftype(t)

    def inv_maps(self, a, b):
        """Is dict literal/comprehension `a` the inverse of `b` (both module globals)?"""
        va, vb = self.gdict(a), self.gdict(b)
        return va is not None and vb is not None and len(vb) == len(set(vb.values())) and va == {v: k for k, v in vb.items()}

    def gdict(self, t):
        if t[0] != "glob":
            return None
        mod, _, name = t[1].rpartition(".")
        if mod not in self.ctx.p.modules:
            return None
        m = self.ctx.p.module(mod)
        for st in m.tree.body:
            tgt = st.targets[0] if isinstance(st, ast.Assign) else st.target if isinstance(st, ast.AnnAssign) and st.value else None
            if isinstance(tgt, ast.Name) and tgt.id == name:
                v = st.value
                if isinstance(v, ast.Dict) and all(v.keys):
                    return {self.cval(m, k): self.cval(m, x) for k, x in zip(v.keys, v.values)}
                if isinstance(v, ast.DictComp) and len(v.generators) == 1:
                    g = v.generators[0]
                    if not g.ifs and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "items" and isinstance(g.target, ast.Tuple):
                        base = self.gdict(("glob", self.ctx.p.resolve_expr(m, g.iter.func.value, None) or ""))
                        names = [x.id for x in g.target.elts if isinstance(x, ast.Name)]
                        if base is not None and isinstance(v.key, ast.Name) and isinstance(v.value, ast.Name) and len(names) == 2:
                            e = [dict(zip(names, kv)) for kv in base.items()]
                            if v.key.id in names and v.value.id in names:
                                return {d[v.key.id]: d[v.value.id] for d in e}
        return None

    def cval(self, m, e):
        v = self.ctx.kit.consteval(m, e)
        return v if v is not UNK and isinstance(v, (str, int)) else self.ctx.p.resolve_expr(m, e, None) or ast.unparse(e)

    # -- rewriting
    def __call__(self, t):
        return self.go(norm(t))

    def go(self, t):
        if not isinstance(t, tuple) or not t or t[0] in ("const", "lam"):
            return t
        if t == ("param", "obj") and self.doc is not None:
            return self.doc
        if t[0] == "elem" and self.dev is not None and t == self.dev[0]:
            return self.dev[1]
        t = tuple(self.go(x) if isinstance(x, tuple) else x for x in t)
        for _ in range(8):
            n = self.step(t)
            if n == t:
                break
            t = n
        return t

    def entry(self, d, k):
        """Value under a constant key of a dict literal (None: absent)."""
        for kk, v in d[1]:
            if kk == k:
                return v
        return None

    def step(self, t):
        op = t[0]
        if op == "idx":
            b, i = t[1], t[2]
            if b[0] == "dict" and i[0] == "const" and all(k is None or k[0] == "const" for k, _ in b[1]):
                v = self.entry(b, i)
                return v if v is not None else ("missing", i)
            if b[0] == "comp" and b[1] == "dict":
                k, v = b[2][0], b[2][1]
                if k[0] == "call" and len(b[3]) == 1 and not b[3][0][1]:
                    # {f(x): g(x) for x in X}[f(y)]: y one of X
                    hole = ("elem", b[3][0][0])
                    y = self.match(k, i, hole)
                    if y is not None:
                        return self.replace(v, hole, y)
            if b[0] == "glob" and i[0] == "idx" and i[1][0] == "glob" and self.inv_maps(b, i[1]):
                return i[2]
            if i == REV and b[0] == "idx" and b[2] == REV:
                return b[1]
            if i == ("const", 0) and b[0] == "call" and b[1][0] == "attr" and b[1][2] == "deserialize" and b[2]:
                src = b[2][0]
                if src[0] == "call" and src[1][0] == "attr" and src[1][2] == "serialize":
                    return self.typed(src[1][1], b[1][1])
            if b[0] in ("tuple", "list") and i[0] == "const" and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]) and all(x[0] != "star" for x in b[1]):
                return b[1][i[1]]
        if op == "attr" and t[1][0] == "call" and t[1][1][0] == "glob":
            v = dict(t[1][3]).get(t[2])
            if v is not None:
                return v
        if op == "elem":
            b = t[1]
            if b[0] == "comp" and len(b[3]) == 1 and not b[3][0][1] and b[1] != "dict":
                return b[2]
            if b[0] == "call" and b[1] in (("glob", "builtins.sorted"), ("glob", "builtins.list"), ("glob", "builtins.tuple")) and b[2]:
                return self.step(("elem", b[2][0]))
            if b[0] == "call" and b[1][0] == "attr" and b[1][2] == "items" and b[1][1][0] == "comp" and b[1][1][1] == "dict":
                c = b[1][1]
                if len(c[3]) == 1 and not c[3][0][1]:
                    return ("tuple", (c[2][0], c[2][1]))
            if b[0] == "list" and len(b[1]) == 1 and b[1][0][0] != "star":
                return b[1][0]
        if op == "comp" and len(t[3]) == 1:
            it, conds = t[3][0]
            while it[0] == "call" and it[1] in (("glob", "builtins.sorted"), ("glob", "builtins.list"), ("glob", "builtins.tuple")) and it[2]:
                it = it[2][0]
            if not conds:
                if t[1] != "dict" and t[2][0] == "elem" and self.same_iter(t[2][1], it):
                    return self.base(t[2][1])
                if t[1] == "dict":
                    k, v = t[2][0], t[2][1]
                    if k[0] == v[0] == "idx" and k[1] == v[1] and k[1][0] == "elem" and k[2] == C(0) and v[2] == C(1):
                        x = self.base(k[1][1])
                        if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "items":
                            return x[1][1]
        if op == "boolop" and t[1] == "or" and len(t[2]) == 2 and t[2][1] == C(0):
            return t[2][0]
        if op == "call":
            f, args = t[1], t[2]
            if f[0] == "glob" and len(args) == 1:
                n = f[1].split(".")[-1]
                if f[1] in ("builtins.sorted", "builtins.list", "builtins.tuple", "copy.copy", "copy.deepcopy", "builtins.dict") and args[0][0] != "comp" or n in ("sorted", "list", "tuple", "dict") and args[0][0] in ("comp", "attr", "list", "dict"):
                    if n == "list" and self.tkind(self.ftype(args[0]) if args[0][0] == "attr" else None) == "zigpy.types.named.Channels":
                        return t
                    return args[0]
                if n == "deepcopy":
                    return args[0]
            if f[0] == "attr":
                o, m = f[1], f[2]
                if m == "get" and o[0] == "dict" and args and args[0][0] == "const" and all(k is None or k[0] == "const" for k, _ in o[1]):
                    v = self.entry(o, args[0])
                    return v if v is not None else args[1] if len(args) > 1 else C(None)
                if m == "copy" and not args:
                    return o
                if m == "fromhex" and args and args[0][0] == "call" and args[0][1][0] == "attr" and args[0][1][2] == "hex" and not args[0][2]:
                    return args[0][1][1]
                if m == "fromisoformat" and args and args[0][0] == "call" and args[0][1][0] == "attr" and args[0][1][2] == "isoformat" and not args[0][2]:
                    return args[0][1][1]
                if m == "from_dict" and args and args[0][0] == "call" and args[0][1][0] == "attr" and args[0][1][2] == "as_dict":
                    x = args[0][1][1]
                    if o[0] == "glob" and self.ftype(x) == o[1]:
                        return x
                if m == "from_channel_list" and args and args[0][0] == "call" and args[0][1] == ("glob", "builtins.list") and o[0] == "glob" and o[1].endswith(".Channels"):
                    return args[0][2][0]
                if m == "convert" and args and o[0] == "glob":
                    return self.converted(t, o[1], args[0])
            if f[0] == "glob" and args and len(args) == 1:
                n = f[1].split(".")[-1]
                for m, w in (("fromhex", "hex"), ("fromisoformat", "isoformat")):
                    if n == m and args[0][0] == "call" and args[0][1][0] == "attr" and args[0][1][2] == w and not args[0][2]:
                        return args[0][1][1]
                if n == "convert":
                    return self.converted(t, f[1][:-len(".convert")], args[0])
        return t

    def base(self, x):
        while x[0] == "call" and x[1] in (("glob", "builtins.sorted"), ("glob", "builtins.list"), ("glob", "builtins.tuple")) and x[2]:
            x = x[2][0]
        return x

    def same_iter(self, x, it):
        a = self.base(x)
        return a == self.base(it) or it[0] == "comp" and len(it[3]) == 1 and self.same_iter(a, it[3][0][0])

    def match(self, pat, t, hole):
        """y such that pat[hole := y] == t."""
        found = []

        def go(p, x):
            if p == hole:
                found.append(x)
                return True
            if isinstance(p, tuple) and isinstance(x, tuple) and len(p) == len(x):
                return all(go(a, b) for a, b in zip(p, x))
            return p == x
        return found[0] if go(pat, t) and found and all(y == found[0] for y in found) else None

    def replace(self, t, a, b):
        if t == a:
            return b
        return tuple(self.replace(x, a, b) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t

    def typed(self, x, cls):
        """A deserialized value is the original one if the types have the same layout."""
        if cls[0] != "glob":
            return ("mistyped", x, cls)
        k, want = self.tkind(cls[1]), self.tkind(self.ftype(x))
        return x if want is None or k == want else ("mistyped", x, cls)

    def converted(self, t, q, s):
        """T.convert(str(x)): the text form of `T` must be that of x."""
        cut = 0
        if s[0] == "idx" and s[2][0] == "slice":
            if s[2][1][0] != "const" or s[2][2] != C(None) or s[2][3] != C(None):
                return t
            cut, s = s[2][1][1] or 0, s[1]
        if s[0] == "call" and s[1] == ("glob", "builtins.str") and len(s[2]) == 1:
            x = s[2][0]
            k = self.kind(x)
            while x[0] == "call" and x[1][0] == "glob" and x[1][1] in self.ctx.p.classes and len(x[2]) == 1:
                x = x[2][0]
            want = self.tkind(q)
            if k == want and cut == (2 if want == "NWK" else 0) and want in ("EUI64", "KeyData", "NWK"):
                return x
        return t


# ------------------------------------------------------------------
def value(ctx, path, raw, depth=0):
    """Normalised value with the fields assigned after construction."""
    if depth > 6 or not isinstance(raw, tuple):
        return norm(raw)
    if raw[0] == "call" and raw[1][0] == "glob" and raw[1][1] in ctx.p.classes and len(raw) > 4:
        kw = {k: value(ctx, path, v, depth + 1) for k, v in raw[3]}
        if not any("dataclass" in ast.unparse(d) or "define" in ast.unparse(d) for d in ctx.p.cls(raw[1][1]).node.decorator_list):
            return norm(raw)
        fs = data_fields(ctx, raw[1][1])
        for i, a in enumerate(raw[2]):
            if i < len(fs):
                kw[fs[i]] = value(ctx, path, a, depth + 1)
        for (b, f), v in path.heap.items():
            if b == raw:
                kw[f] = value(ctx, path, v, depth + 1)
        for e in path.events:       # additions to a default value
            if e.base is not None and e.base[0] == "attr" and e.base[1] == raw and e.base[2] not in kw or e.base is not None and e.base[0] == "attr" and e.base[1] == raw and kw[e.base[2]][0] == "added":
                f = e.base[2]
                if e.kind == "call" and e.name in ("append", "add"):
                    kw[f] = ("added", kw.get(f, ("added", ()))[1] + (value(ctx, path, e.args[0], depth + 1),))
                elif e.kind == "setidx":
                    kw[f] = ("added", kw.get(f, ("added", ()))[1] + ((norm(e.args[0]), value(ctx, path, e.value, depth + 1)),))
        kw = {f: (("dict" if v[1] and len(v[1][0]) == 2 and isinstance(v[1][0][0], tuple) else "list"), v[1]) if v[0] == "added" else v for f, v in kw.items()}
        return ("call", raw[1], (), tuple(sorted(kw.items())))
    if raw[0] == "list":
        return ("list", tuple(value(ctx, path, x, depth + 1) for x in raw[1]))
    return norm(raw)


def fields(t):
    return dict(t[3]) if t is not None and t[0] == "call" else {}


def decide(ctx, simp, fact):
    """Truth of an assumption about the document, None if it depends on the data."""
    a = norm(fact)
    if a[0] == "in":
        b = simp(a[2])
        if b[0] == "dict" and a[1][0] == "const" and all(k is None or k[0] == "const" for k, _ in b[1]):
            return any(k == a[1] for k, _ in b[1])
    if a[0] in ("is", "eq"):
        x, y = simp(a[1]), simp(a[2])
        if x[0] == "const" and y[0] == "const":
            return x == y
        if y == C(None) and x[0] in ("dict", "idx", "call", "attr") and not (x[0] == "call" and x[1][0] == "attr" and x[1][2] == "get"):
            return False if not contains(x, ("param", "obj")) else None
    if a[0] == "truthy":
        x = simp(a[1])
        if x[0] == "const":
            return bool(x[1])
        if x[0] in ("dict", "list"):
            return bool(x[1])
    return None


def follows(ctx, simp, path, skip=()):
    for _, at, val in path.trail:
        d = decide(ctx, simp, at)
        if d is not None and d != val:
            return False
    for at, val in path.facts.items():
        d = decide(ctx, simp, at)
        if d is not None and d != val:
            return False
    return True


def dict_keys(d):
    return [k[1] for k, _ in d[1] if k is not None and k[0] == "const"] if d[0] == "dict" else []


def pure(ctx, ps, name):
    """Reading a document does not modify it."""
    def rooted(t):
        """(rooted in the document, levels below a shallow copy)"""
        lvl = None
        steps = 0
        while True:
            if t == ("param", "obj"):
                return True, lvl is None or lvl[0] > 0
            if t[0] in ("idx", "attr", "elem"):
                t, steps = t[1], steps + 1
            elif t[0] == "call" and t[1][0] == "glob" and t[1][1] == "copy.deepcopy":
                return False, False
            elif t[0] == "call" and t[1][0] == "glob" and t[1][1] in ("copy.copy", "builtins.dict", "builtins.list") and t[2]:
                lvl, t, steps = (steps,), t[2][0], 0
            elif t[0] == "call" and t[1][0] == "attr" and t[1][2] == "copy" and not t[2]:
                lvl, t, steps = (steps,), t[1][1], 0
            elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("get", "values", "items", "setdefault"):
                t, steps = t[1][1], steps + 1
            elif t[0] == "dict" and any(k == C("**") or k is None for k, _ in t[1]):
                lvl, t, steps = (steps,), [v for k, v in t[1] if k == C("**") or k is None][0], 0
            else:
                return False, False
    k = 0
    for p in ps:
        for e in p.events:
            if e.base is None:
                continue
            if e.kind in ("setidx", "delidx", "setattr") or e.kind == "call" and e.name in ("pop", "popitem", "update", "setdefault", "clear", "append", "extend", "remove", "insert", "sort", "reverse"):
                k += 1
                r, bad = rooted(norm(e.base))
                ctx.ob("document-not-modified", not (r and bad), (ps.func, e.node), f"{name} modifies the document it was given: {show(norm(e.base))[:80]} .{e.name}", "mut")
    ctx.ob("document-not-modified", True, ps, f"{k} writes", name)


def internal(ctx):
    nested = ("zigpy.backups.*", "zigpy.state.*")
    for cls in (ST + "Key", ST + "NodeInfo", ST + "NetworkInfo", BK):
        fs = data_fields(ctx, cls)
        wp = ctx.paths(f"{cls}.as_dict", noinline=[n + x for n in ("zigpy.state.", "zigpy.backups.") for x in ("*.as_dict", "*.from_dict")], loop=1)
        rp = ctx.paths(f"{cls}.from_dict", noinline=[n + x for n in ("zigpy.state.", "zigpy.backups.") for x in ("*.as_dict", "*.from_dict", "*.from_open_coordinator_json")], loop=1, assert_raises=True, handler_inject=False)
        pure(ctx, rp, cls.split(".")[-1] + ".from_dict")
        if cls == BK:
            refusal(ctx, rp)
        me = wp.T("self")
        nr = 0
        for w in wp:
            doc = norm(w.ret) if w.ret is not None else ("none",)
            if not w.normal:
                continue
            its = [e for e in w.events if e.kind == "loopiter"]
            if any(e.kind == "loopend" for e in w.events) and not its:
                continue
            if not ctx.ob("format-complete", doc[0] == "dict", wp, f"{cls.split('.')[-1]} is written as {show(doc)[:80]}", cls):
                continue
            simp = Simp(ctx, rp.func, doc, None, ((me, cls), (("self",), cls), (("param", "self"), cls)))
            for r in rp:
                if not follows(ctx, simp, r) or not r.normal:
                    continue
                if any(contains(norm(at), ("param", "obj")) and is_version(norm(at)) and val and norm(at)[2] == C(0) for _, at, val in r.trail):
                    continue
                if any(e.kind == "loopend" for e in r.events) and not any(e.kind == "loopiter" for e in r.events):
                    continue
                nr += 1
                got = fields(value(ctx, r, r.ret))
                for f in fs:
                    if cls == BK and f == "version":
                        continue
                    back = simp(got[f]) if f in got else ("missing", f)
                    back = collapse(back)
                    ctx.ob("every-field-both-ways", back == ("attr", me, f), rp, f"{cls.split('.')[-1]}.{f} comes back as {show(back)[:200]}", f"{cls}.{f}")
                used = {x[2][1] for t in got.values() for x in subterms(t) if x[0] == "idx" and x[1] == ("param", "obj") and x[2][0] == "const"}
                used |= {x[2][0][1] for t in got.values() for x in subterms(t) if x[0] == "call" and x[1] == ("attr", ("param", "obj"), "get") and x[2] and x[2][0][0] == "const"}
                extra = set(dict_keys(doc)) - used - {"version"}
                ctx.ob("every-field-both-ways", not extra or any(e.kind == "loopiter" for e in r.events), rp, f"{cls.split('.')[-1]}: {sorted(extra)} written but not read", f"{cls}.extra")
        ctx.ob("format-complete", nr >= 1, rp, f"undecided: how {cls.split('.')[-1]} is read", cls + ".n")


def is_version(a):
    return a[0] == "eq" and "version" in show(a[1])


def collapse(t):
    """[elem(X)] collected by a loop stands for X, likewise {k: v} of X.items()."""
    if t[0] == "list" and len(t[1]) == 1 and t[1][0][0] == "elem":
        return t[1][0][1]
    if t[0] == "dict" and len(t[1]) == 1 and t[1][0][0] is not None:
        k, v = t[1][0]
        if k[0] == v[0] == "idx" and k[1] == v[1] and k[1][0] == "elem" and k[2] == C(0) and v[2] == C(1) and k[1][1][0] == "call" and k[1][1][1][0] == "attr" and k[1][1][1][2] == "items":
            return k[1][1][1][1]
    return t


def refusal(ctx, ps):
    n = set()
    V = [x for p in ps for _, at, _ in p.trail for x in subterms(norm(at)) if x[0] == "call" and x[1] == ("attr", ("param", "obj"), "get") and x[2] and x[2][0] == C("version")]
    for x in V:
        d = x[2][1] if len(x[2]) > 1 else C(None)
        ctx.ob("unknown-refused", d == C(0), ps, f"a document without a version counts as version {show(d)}", "default")
    v = V[0] if V else ps.T("obj.get('version', 0)")
    for meta, net, ver in ((True, False, 0), (False, True, 0), (False, True, 1), (False, True, 2), (False, True, -1), (False, False, 0)):
        a = {("in", C("metadata"), ("param", "obj")): meta, ("in", C("network_info"), ("param", "obj")): net, v: ver, ("idx", ("param", "obj"), C("version")): ver}
        for p in ps:
            if not ps.consistent(p, a, trail=True):
                continue
            n.add((meta, net, ver))
            good = meta or net and ver in (0, 1)
            ctx.ob("unknown-refused", p.normal if good else p.outcome.kind == "raise", ps, f"a document {'with' if net else 'without'} network information of version {ver} is {'refused' if good else 'accepted'}", f"{meta}{net}{ver}")
            if good:
                got = [e for e in p.events if e.kind == "call" and e.name in ("from_open_coordinator_json", "_open_coordinator_backup_to_network_backup")]
                ctx.ob("unknown-refused", bool(got) == meta, ps, f"a document {'with' if meta else 'without'} metadata is read as the {'open' if got else 'internal'} format", f"fmt{meta}")
            if good and not meta and ver == 0:
                for f in ("model", "manufacturer", "version"):
                    s = [e for e in p.events if e.kind == "setidx" and e.args and e.args[0] == C(f) and is_const(norm(e.value), None) and contains(norm(e.base), C("node_info"))]
                    s += [e for e in p.events if e.kind == "call" and e.name in ("setdefault", "update")]
                    s += [x for e in p.events for y in e.args if isinstance(y, tuple) for x in subterms(norm(y)) if x[0] == "dict" and any(k == C(f) for k, _ in x[1])]
                    ctx.ob("unknown-refused", bool(s), ps, f"an old document without `{f}` cannot be read", f"v0{f}")
    ctx.ob("unknown-refused", len(n) == 6, ps, f"undecided: {n}", "n")


def text_forms(ctx):
    """str() and convert() of addresses and keys agree on the byte order."""
    T = "zigpy.types.named."
    for cls, rev in (("EUI64", 1), ("KeyData", 0)):
        for fn in ("__repr__", "convert"):
            ps = ctx.paths(f"{T}{cls}.{fn}", handler_inject=False)
            k = 0
            for p in ps:
                if not p.normal or p.ret is None or is_const(norm(p.ret), None):
                    continue
                k += 1
                n = sum(1 for x in set(subterms(norm(p.ret))) if x[0] == "idx" and x[2] == REV or x[0] == "call" and x[1] == ("glob", "builtins.reversed"))
                ctx.ob("text-form-byte-order", n % 2 == rev, ps, f"{cls}.{fn} {'does not reverse' if rev else 'reverses'} the bytes: {show(norm(p.ret))[:120]}", fn)
            ctx.ob("text-form-byte-order", k >= 1, ps, "undecided", "n")
    ps = ctx.paths(f"{T}NWK.convert", handler_inject=False)
    for p in ps:
        if p.normal:
            n = sum(1 for x in set(subterms(norm(p.ret))) if x[0] == "idx" and x[2] == REV)
            ctx.ob("text-form-byte-order", n % 2 == 1 or "'big'" in show(norm(p.ret)) or ", 16)" in show(norm(p.ret)) or "base=16" in show(norm(p.ret)), ps, f"NWK.convert: {show(norm(p.ret))[:120]}", "nwk")
            ctx.ob("text-form-byte-order", True, ps, "", "n")


OPEN = {
    "node_info": ("nwk", "ieee", "logical_type", "model", "manufacturer", "version"),
    "network_info": ("source", "pan_id", "extended_pan_id", "nwk_update_id", "nwk_manager_id", "channel", "channel_mask", "security_level", "stack_specific"),
    "network_info.tc_link_key": ("key", "tx_counter", "partner_ieee"),
    "network_info.network_key": ("key", "tx_counter", "seq"),
}
REQUIRED = {"metadata": ("version", "format", "source", "internal"), None: ("stack_specific", "coordinator_ieee", "pan_id", "extended_pan_id", "nwk_update_id", "security_level", "channel", "channel_mask", "network_key", "devices", "metadata"), "network_key": ("key", "sequence_number", "frame_counter")}


def open_format(ctx):
    wp = ctx.paths("zigpy.backups._network_backup_to_open_coordinator_backup", loop=1)
    rp = ctx.paths("zigpy.backups._open_coordinator_backup_to_network_backup", loop=1, handler_inject=False, idx_raises=False)
    pure(ctx, rp, "the open-coordinator reader")
    bk = ("param", "backup")
    roots = ((bk, BK),)
    docs = {}
    for w in wp:
        if w.normal and w.ret is not None:
            d = norm(w.ret)
            docs.setdefault(tuple(kv for kv in d[1] if kv[0] != C("devices")) if d[0] == "dict" else d, (w, d))
    n = 0
    for w, doc in list(docs.values())[:4]:
        if not ctx.ob("open-format-complete", doc[0] == "dict", wp, f"written: {show(doc)[:80]}", "doc"):
            continue
        get = lambda d, k: dict((kk[1], v) for kk, v in d[1] if kk is not None and kk[0] == "const").get(k) if d is not None and d[0] == "dict" else None  # noqa: E731
        for sect, keys in REQUIRED.items():
            d = doc if sect is None else get(doc, sect)
            for k in keys:
                ctx.ob("open-format-complete", get(d, k) is not None, wp, f"`{k}` is missing from {sect or 'the document'}", f"{sect}{k}")
        meta = get(doc, "metadata")
        ctx.ob("open-format-complete", meta is not None and is_const(get(meta, "version"), 1) and is_const(get(meta, "format"), "zigpy/open-coordinator-backup"), wp, "the format is misnamed", "fmt")
        inner = get(meta, "internal")
        for k, big in (("pan_id", True), ("extended_pan_id", True), ("coordinator_ieee", True)):
            v = get(doc, k)
            good = v is not None and v[0] == "call" and v[1][0] == "attr" and v[1][2] == "hex" and sum(1 for x in set(subterms(v)) if x[0] == "idx" and x[2] == REV) == 1
            ctx.ob("open-format-byte-order", good, wp, f"`{k}` is not written as big-endian hexadecimal: {show(v) if v else None}", k)
        v = get(get(inner, "node"), "ieee")
        ctx.ob("open-format-byte-order", v == get(doc, "coordinator_ieee"), wp, "the two coordinator addresses differ", "ieee2")
        v = get(get(doc, "network_key"), "key")
        ctx.ob("open-format-byte-order", v is not None and v[0] == "call" and v[1][0] == "attr" and v[1][2] == "hex" and not any(x[0] == "idx" and x[2] == REV for x in subterms(v)), wp, "the network key is not written in transmission order", "key")
        simp = Simp(ctx, rp.func, doc, None, roots)
        for r in rp:
            if not r.normal or not follows(ctx, simp, r):
                continue
            n += 1
            got = fields(value(ctx, r, r.ret))
            back = collapse(simp(got.get("backup_time", C(None))))
            ctx.ob("every-field-both-ways", back == ("attr", bk, "backup_time"), rp, f"backup_time comes back as {show(back)[:150]}", "open.time")
            for sect, names in OPEN.items():
                t, src = got, bk
                obj = None
                for part in sect.split("."):
                    obj = t.get(part)
                    t, src = fields(obj), ("attr", src, part)
                for f in names:
                    back = collapse(simp(t[f])) if f in t else ("missing", f)
                    if f == "stack_specific" and (back[0] == "missing" or back == ("dict", ())):
                        ok = any(norm(at)[0] == "truthy" and simp(norm(at)[1]) == ("attr", src, f) and not val for _, at, val in r.trail)
                        ctx.ob("every-field-both-ways", ok, rp, "stack_specific is not read", "open.stack")
                        continue
                    ctx.ob("every-field-both-ways", back == ("attr", src, f), rp, f"{sect}.{f} comes back as {show(back)[:150]}", f"open.{sect}.{f}")
            # extra metadata: exactly the fixed sections are left out
            md = fields(got.get("network_info", ())).get("metadata") if got.get("network_info") else None
            fixed = {k for k in dict_keys(inner)} - {"**"} if inner is not None else set()
            star = [v for k, v in inner[1] if k is None or k == C("**") or k == ("star",) or k[0] == "const" and k[1] == "**"] if inner is not None and inner[0] == "dict" else []
            ctx.ob("every-field-both-ways", star == [("attr", ("attr", bk, "network_info"), "metadata")], wp, "the extra metadata is not written", "open.meta.w")
            if md is not None and md[0] == "comp" and len(md[3]) == 1:
                it, conds = md[3][0]
                el = ("elem", it)
                k0 = ("idx", el, C(0))
                for key, keep in [(k, False) for k in sorted(fixed)] + [("anything-else", True), ("date", True)]:
                    vals = [ctx.kit._truth(ctx.kit.teval(norm(c), {k0: key})) for c in conds]
                    is_kept = all(v is True for v in vals)
                    ctx.ob("every-field-both-ways", is_kept == keep, rp, f"metadata key `{key}` is {'kept' if is_kept else 'dropped'}", f"open.meta.{key}")
                ctx.ob("every-field-both-ways", md[1] == "dict" and md[2] == (k0, ("idx", el, C(1))), rp, f"metadata is {show(md)[:100]}", "open.meta.v")
            elif md is not None:
                ctx.ob("every-field-both-ways", contains(md, ("param", "obj")) or bool(r.events), rp, "metadata is not read", "open.meta")
            else:
                ctx.ob("every-field-both-ways", False, rp, "metadata is not read", "open.meta")
    ctx.ob("open-format-complete", n >= 1, rp, "undecided: how the open format is read", "n")
    shapes = device_entries(ctx, wp)
    read_devices(ctx, wp, rp, shapes, docs)


def hexrev(x):
    return ("call", ("attr", ("idx", ("call", ("attr", x, "serialize"), (), ()), REV), "hex"), (), ())


def device_entries(ctx, wp):
    """What each kind of device looks like in the written document."""
    bk = ("param", "backup")
    ni = ("attr", bk, "network_info")
    A = ("elem", ("call", ("attr", ("attr", ni, "nwk_addresses"), "items"), (), ()))
    ieee, nwk = ("idx", A, C(0)), ("idx", A, C(1))
    ch, K = ("elem", ("attr", ni, "children")), ("elem", ("attr", ni, "key_table"))
    part = ("attr", K, "partner_ieee")
    lk = {"key": ("call", ("attr", ("call", ("attr", ("attr", K, "key"), "serialize"), (), ()), "hex"), (), ()), "tx_counter": ("attr", K, "tx_counter"), "rx_counter": ("attr", K, "rx_counter")}
    n = {}
    shapes = {}
    for p in wp:
        if not p.normal:
            continue
        new, mods = {}, {}
        for e in p.events:
            if e.kind == "setidx" or e.kind == "call" and e.name == "setdefault" and len(e.args) == 2:
                k = norm(e.args[0])
                v = norm(e.value if e.kind == "setidx" else e.args[1])
                if k in (ieee, ch, part) and v[0] == "dict":
                    new[k] = dict((x[1], y) for x, y in v[1] if x is not None)
                elif k[0] == "const":
                    mods.setdefault(k[1], []).append((norm(e.base), v, e))
        for x in (x for e in p.events for t in [e.base, e.value] if t is not None for x in subterms(norm(t))):
            if x[0] == "comp" and x[1] == "dict" and x[2][0] in (ieee, ch, part) and x[2][1][0] == "dict":
                new.setdefault(x[2][0], dict((a[1], y) for a, y in x[2][1][1] if a is not None))
        its = {norm(e.base) for e in p.events if e.kind == "loopiter"}
        for key, what in ((ieee, "addr"), (ch, "child"), (part, "key")):
            d = new.get(key)
            if d is None:
                continue
            n[what] = 1
            if not ctx.ob("device-entries", d.get("ieee_address") is not None, wp, f"the entry of {show(key)} has no address", what + "a0"):
                continue
            if key != ieee and any(e.kind == "setidx" and norm(e.args[0]) == key for e in p.events if e.args):
                known = [v for _, at, v in p.trail if norm(at)[0] == "in" and norm(at)[1] == key and not (norm(at)[2][0] == "attr" and norm(at)[2][1] == ni and (key == part or norm(at)[2][2] != "nwk_addresses"))]
                ctx.ob("device-entries", False in known and True not in known, wp, f"the entry of {show(key)} replaces one written before", what + "over")
            ctx.ob("device-entries", d["ieee_address"] == hexrev(key), wp, f"the entry of {show(key)} has address {show(d['ieee_address'])}", what + "a")
            w = d.get("nwk_address")
            ctx.ob("device-entries", w == (hexrev(nwk) if key == ieee else C(None)), wp, f"the entry of {show(key)} has network address {show(w) if w else None}", what + "n")
            c = d.get("is_child")
            late = [v for b, v, _ in mods.get("is_child", ())]
            ctx.ob("device-entries", c == C(key == ch) or key == ch and C(True) in late, wp, f"the entry of {show(key)} says is_child={show(c) if c else None}", what + "c")
            shapes[what] = d
        if ("attr", ni, "children") in its and ch not in new:
            m = mods.get("is_child", [])
            n["child+"] = 1
            ctx.ob("device-entries", len(m) == 1 and m[0][1] == C(True), wp, f"a child with a known address is not marked as one [{describe(p)[-200:]}]", "child+")
        if ("attr", ni, "key_table") in its:
            m = mods.get("link_key", [])
            lit = (new.get(part) or {}).get("link_key")
            vals = [v for _, v, _ in m] + ([lit] if lit is not None else [])
            n["link"] = 1
            if ctx.ob("device-entries", len(vals) == 1 and vals[0][0] == "dict", wp, "a link key is not written", "link"):
                d = dict((a[1], y) for a, y in vals[0][1] if a is not None)
                ctx.ob("device-entries", d == lk, wp, f"a link key is written as {show(vals[0])[:150]}", "linkv")
    ctx.ob("device-entries", {"addr", "link", "child", "key"} <= set(n), wp, f"undecided: {sorted(n)}", "n")
    shapes["link"] = lk
    return shapes


def read_devices(ctx, wp, rp, shapes, docs):
    if not {"addr", "child", "key", "link"} <= set(shapes) or not docs:
        return
    bk = ("param", "backup")
    ni = ("attr", bk, "network_info")
    lit = lambda d: ("dict", tuple((C(k), v) for k, v in d.items()))  # noqa: E731
    doc = list(docs.values())[0][1]
    K = ("elem", ("attr", ni, "key_table"))
    A = ("elem", ("call", ("attr", ("attr", ni, "nwk_addresses"), "items"), (), ()))
    ch = ("elem", ("attr", ni, "children"))
    cases = {"a device with an address": (shapes["addr"], ("idx", A, C(0)), ("idx", A, C(1)), False, False),
             "a child": (shapes["child"], ch, None, True, False),
             "a device with a link key": ({**shapes["key"], "link_key": lit(shapes["link"])}, ("attr", K, "partner_ieee"), None, False, True),
             "a child with an address": ({**shapes["addr"], "is_child": C(True)}, ("idx", A, C(0)), ("idx", A, C(1)), True, False)}
    for name, (shape, ieee, nwk, child, link) in cases.items():
        n = 0
        for r in rp:
            its = [e for e in r.events if e.kind == "loopiter" and contains(norm(e.base), ("idx", ("param", "obj"), C("devices")))]
            if not r.normal or len(its) != 1 or any(e.kind == "handler" for e in r.events):
                continue
            simp = Simp(ctx, rp.func, doc, (("elem", norm(its[0].base)), lit(shape)), ((bk, BK),))
            if not follows(ctx, simp, r):
                continue
            n += 1
            f = fields(fields(value(ctx, r, r.ret)).get("network_info", ("none",)))
            kids = f.get("children", ("list", ()))
            got = [simp(x) for x in kids[1]] if kids[0] == "list" else None
            ctx.ob("device-entries", got == ([ieee] if child else []), rp, f"{name} comes back with children {[show(x) for x in got or ()]}", name + "c")
            ad = f.get("nwk_addresses", ("dict", ()))
            got = {simp(k): simp(v) for k, v in ad[1] if k is not None} if ad[0] == "dict" and all(len(kv) == 2 for kv in ad[1]) else None
            ctx.ob("device-entries", got == ({ieee: nwk} if nwk is not None else {}), rp, f"{name} comes back with addresses {show(ad)[:120]}", name + "a")
            ks = f.get("key_table", ("list", ()))
            got = [fields(x) for x in ks[1]] if ks[0] == "list" else None
            if not link:
                ctx.ob("device-entries", got == [], rp, f"{name} comes back with a link key", name + "k")
            elif ctx.ob("device-entries", got is not None and len(got) == 1, rp, f"{name} comes back with {len(got or ())} link keys", name + "k"):
                for x in ("key", "tx_counter", "rx_counter", "partner_ieee", "seq"):
                    b = simp(got[0].get(x, ("missing", x)))
                    ctx.ob("device-entries", b == ("attr", K, x), rp, f"{x} of a link key comes back as {show(b)[:120]}", name + x)
        ctx.ob("device-entries", n >= 1, rp, f"undecided: how {name} is read", name + "n")


def optional_parts(ctx):
    """What an open-format document may leave out."""
    rp = ctx.paths("zigpy.backups._open_coordinator_backup_to_network_backup", loop=1, handler_inject=False, idx_raises=False)
    doc_in = lambda *ks: ("dict", tuple((C(k), ("param", "in:" + k)) for k in ks))  # noqa: E731
    base = ("coordinator_ieee", "pan_id", "extended_pan_id", "nwk_update_id", "security_level", "channel", "channel_mask", "network_key", "devices")

    def doc(internal=None):
        m = ((C("source"), ("param", "in:source")), (C("version"), C(1)), (C("format"), C("zigpy/open-coordinator-backup")))
        if internal is not None:
            m += ((C("internal"), internal),)
        return ("dict", doc_in(*base)[1] + ((C("metadata"), ("dict", m)),))
    fs = {"node_info": data_fields(ctx, ST + "NodeInfo"), "network_info": data_fields(ctx, ST + "NetworkInfo")}
    for name, d in (("without `internal`", doc()), ("with an empty `internal`", doc(("dict", ()))), ("with empty sections", doc(("dict", ((C("node"), ("dict", ())), (C("network"), ("dict", ()))))))):
        simp = Simp(ctx, rp.func, d)
        n = 0
        for r in rp:
            if any(e.kind == "loopiter" for e in r.events) or any(e.kind == "handler" for e in r.events) or not follows(ctx, simp, r):
                continue
            n += 1
            if not ctx.ob("optional-parts", r.normal, rp, f"a document {name} cannot be read", name):
                continue
            top = {k: simp(v) for k, v in fields(value(ctx, r, r.ret)).items()}
            lost = sorted({k for k, v in top.items() if any(x[0] == "missing" for x in subterms(v))} | {f"{s}.{k}" for s in fs for k, v in fields(top.get(s, ("none",))).items() if any(x[0] == "missing" for x in subterms(v))})
            ctx.ob("optional-parts", not lost, rp, f"a document {name}: {lost} cannot be determined", name + "lost")
            node, net = fields(top.get("node_info", ("none",))), fields(top.get("network_info", ("none",)))
            zero = ("call", ("glob", "zigpy.types.named.NWK"), (C(0),), ())
            lt = node.get("logical_type", ("none",))
            if lt[0] == "idx" and lt[2][0] == "const":
                g = simp.gdict(lt[1]) or {}
                lt = g.get(lt[2][1])
            ctx.ob("optional-parts", "Coordinator" in str(lt) or lt == 0, rp, f"a document {name} describes a {lt}", name + "type")
            ctx.ob("optional-parts", node.get("nwk") in (zero, C(0)), rp, f"a document {name}: coordinator address {show(node['nwk']) if 'nwk' in node else 'unset'}", name + "nwk")
            ctx.ob("optional-parts", net.get("nwk_manager_id") in (zero, C(0), None), rp, f"a document {name}: network manager {show(net.get('nwk_manager_id', C(None)))}", name + "mgr")
            tc = fields(net.get("tc_link_key", ("none",)))
            ctx.ob("optional-parts", "TC_LINK_KEY_DEFAULT" in show(tc.get("key", C(None))), rp, f"a document {name}: trust center link key {show(tc.get('key', C(None)))}", name + "tc")
            ctx.ob("optional-parts", tc.get("partner_ieee") == node.get("ieee") and "ieee" in node, rp, f"a document {name}: trust center address {show(tc.get('partner_ieee', C(None)))}", name + "tca")
            ctx.ob("optional-parts", tc.get("tx_counter", C(0)) == C(0), rp, f"a document {name}: trust center frame counter {show(tc.get('tx_counter', C(0)))}", name + "tcc")
            for f in ("model", "manufacturer", "version"):
                ctx.ob("optional-parts", is_const(node.get(f, C(None)), None), rp, f"a document {name}: {f} {show(node.get(f, C(None)))}", name + f)
        ctx.ob("optional-parts", n >= 1, rp, "undecided", name + "n")
    d = doc(("dict", ((C("date"), ("param", "in:date")), (C("network"), ("dict", ((C("tc_link_key"), ("dict", ((C("key"), ("param", "in:key")),))), (C("tc_address"), ("param", "in:tc"))))))))
    simp = Simp(ctx, rp.func, d)
    want = ("call", ("attr", ("param", "in:date"), "replace"), (C("Z"), C("+00:00")), ())
    n = 0
    for r in rp:
        if any(e.kind == "loopiter" for e in r.events) or not follows(ctx, simp, r) or not r.normal:
            continue
        n += 1
        top = {k: simp(v) for k, v in fields(value(ctx, r, r.ret)).items()}
        bt = top.get("backup_time", C(None))
        ctx.ob("optional-parts", contains(bt, want) or contains(bt, ("param", "in:date")) and not any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "replace" for x in subterms(bt)) and False, rp, f"a document with a date has backup time {show(bt)[:120]}", "date")
        tc = fields(fields(top.get("network_info", ("none",))).get("tc_link_key", ("none",)))
        ctx.ob("optional-parts", tc.get("tx_counter", C(0)) == C(0), rp, f"trust center frame counter {show(tc.get('tx_counter', C(0)))} when none is given", "tccnt")
    ctx.ob("optional-parts", n >= 1, rp, "undecided", "daten")
    # a device without `is_child`, and a link key without sequence number
    n = set()
    for r in rp:
        its = [e for e in r.events if e.kind == "loopiter"]
        if not r.normal or len(its) != 1:
            continue
        dev = ("dict", ((C("ieee_address"), ("param", "in:ieee")), (C("nwk_address"), C(None)), (C("link_key"), ("dict", tuple((C(k), ("param", "in:" + k)) for k in ("key", "tx_counter", "rx_counter"))))))
        simp = Simp(ctx, rp.func, doc(("dict", ())), (("elem", norm(its[0].base)), dev))
        if not follows(ctx, simp, r):
            continue
        f = fields(fields(value(ctx, r, r.ret)).get("network_info", ("none",)))
        kids, ks = f.get("children", ("list", ())), f.get("key_table", ("list", ()))
        n.add("child")
        ctx.ob("optional-parts", kids[0] == "list" and len(kids[1]) == 1, rp, "a device without `is_child` is not a child", "child")
        hs = [e for e in r.events if e.kind == "handler"]
        sq = simp(fields(ks[1][0]).get("seq", C(0))) if ks[0] == "list" and ks[1] else None
        if sq is not None and (hs or not any(x[0] == "missing" for x in subterms(sq))):
            n.add("seq")
            ctx.ob("optional-parts", sq == C(0), rp, f"a link key without sequence number has {show(fields(ks[1][0]).get('seq', C(0)))}", "seq")
    ctx.ob("optional-parts", len(n) == 2, rp, f"undecided: {n}", "devn")


RULES = [optional_parts, internal, text_forms, open_format]
