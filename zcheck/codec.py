"""Symbolic composition decoder o encoder over concatenations of wire parts.

`Wire(ctx, types).go(t, parts)` rewrites a decoder's term, with its input replaced by the concatenation `parts ++ rest`,
using only facts about byte strings (lengths, slices at part boundaries, to_bytes/from_bytes with equal width, order and
signedness) and the contract of nested wire types (T.deserialize(T(x).serialize() ++ r) = (T(x), r)).
"""
from .core import UNK, norm, show
from .lib import lin_diff, linear
from .walk import contains

REST = ("param", "<rest>")
C = lambda v: ("const", v)  # noqa: E731
G = lambda q: ("glob", q)  # noqa: E731
LEN = ("glob", "builtins.len")
FROM = "from_bytes"


def length(t):
    return ("call", LEN, (t,), ())


def add(a, b):
    if a == C(0):
        return b
    if b == C(0):
        return a
    if a[0] == "const" and b[0] == "const":
        return C(a[1] + b[1])
    return ("bin", "+", a, b)


class Wire:
    def __init__(self, ctx, qual, types=None, data="data", consts=None, count=None):
        self.ctx, self.qual, self.types, self.data = ctx, qual, dict(types or {}), ("param", data)
        self.consts, self.count, self.parts, self.composite = dict(consts or {}), count, (), {}
        self.me = {x for x in self.names(qual)}

    def names(self, qual):
        return {c.qual for c in self.ctx.p.mro(self.ctx.p.cls(qual))} if qual in self.ctx.p.classes else {qual}

    # -- encoder side
    def concat(self, t):
        """Flat list of the parts a bytes term is made of (None: not understood)."""
        if t[0] == "cat":
            return list(t[1])
        if t[0] == "const":
            return [] if t[1] == b"" else [t] if isinstance(t[1], bytes) else None
        if t[0] == "bin" and t[1] == "+":
            a, b = self.concat(t[2]), self.concat(t[3])
            return None if a is None or b is None else a + b
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and t[1][1] == C(b"") and len(t[2]) == 1:
            return self.items(t[2][0])
        if t[0] == "call" and t[1] in (("glob", "builtins.bytes"), ("glob", "builtins.bytearray")) and len(t[2]) == 1:
            x = t[2][0]
            if x[0] in ("list", "tuple"):
                return [("call", ("attr", y, "to_bytes"), (C(1), C("little")), ()) for y in x[1]]
            return self.concat(x)
        return [t]

    def items(self, t):
        if t[0] in ("list", "tuple"):
            out = []
            for x in t[1]:
                c = self.concat(x)
                if c is None:
                    return None
                out += c
            return out
        if t[0] == "comp" and len(t[3]) == 1 and not t[3][0][1] and self.count is not None:
            it = t[3][0][0]
            out = []
            for i in range(self.count):
                from .lib import subst
                c = self.concat(subst(t[2], ("elem", it), ("nth", it, i)))
                if c is None:
                    return None
                out += c
            return out
        return None

    def encode(self, term):
        parts = self.concat(self._go(self.canon(norm(term))))
        self.parts = None if parts is None else tuple(parts)
        return self.parts

    def canon(self, t):
        """One name for attributes of the class, read through self or cls."""
        if not isinstance(t, tuple) or not t or t[0] in ("const", "lam"):
            return t
        if t[0] == "super":
            return t
        if t[0] == "attr" and (t[1][0] == "self" or t[1][0] == "glob" and t[1][1] in self.me):
            if t[2] in self.consts:
                return self.consts[t[2]]
            if t[1][0] == "glob":
                return ("cattr", t[2])
            k, v = self.ctx.p.find_attr(self.ctx.p.cls(self.qual), t[2]) if self.qual in self.ctx.p.classes else (None, None)
            if k is not None and (t[2].startswith("_")):
                return ("cattr", t[2])
        if t[0] == "attr" and t[1][0] == "glob" and t[1][1] in self.ctx.p.classes and t[2] in self.ctx.p.cls(t[1][1]).attrs and not t[2].startswith("_"):
            return G(t[1][1] + "." + t[2])
        return tuple(self.canon(x) if isinstance(x, tuple) else x for x in t)

    # -- sizes
    def size(self, p):
        if p[0] == "const" and isinstance(p[1], (bytes, str)):
            return C(len(p[1]))
        if p[0] == "call" and p[1][0] == "attr" and p[1][2] == "to_bytes" and p[2]:
            return p[2][0]
        if p[0] == "call" and p[1][0] == "attr" and p[1][2] == "serialize" and not p[2]:
            q = self.type_of(p[1][1])
            n = self.width(q)
            if n is not None:
                return C(n)
        return length(p)

    def width(self, q):
        """Number of bytes of a fixed-width integer type."""
        if q is None or q[0] != "glob":
            return None
        b = self.intinfo(q[1])
        return b[0] // 8 if b and b[0] % 8 == 0 else None

    def intinfo(self, q):
        return int_info(self.ctx, q)

    def type_of(self, v):
        """Wire type of a value term."""
        for k, t in self.types.items():
            if v == k:
                return t
        if v[0] == "call" and len(v[2]) == 1 and not v[3] and (v[1][0] in ("cattr", "idx") or v[1][0] == "glob" and v[1][1] in self.ctx.p.classes or v[1][0] == "attr" and v[1][2] in ("python_type",)):
            return v[1]
        if v[0] == "glob" and v[1].rpartition(".")[0] in self.ctx.p.classes:
            return ("glob", v[1].rpartition(".")[0])
        return None

    # -- rewriting
    def go(self, t):
        return self._go(self.canon(norm(t)))

    def _go(self, t):
        if not isinstance(t, tuple) or not t or t[0] in ("const", "lam"):
            return t
        if t == self.data:
            return ("cat", self.parts + (() if self.types.get(REST) == "empty" else (REST,)))
        if t[0] == "cat":
            return t
        t = tuple(self._go(x) if isinstance(x, tuple) else x for x in t)
        for _ in range(12):
            n = self.step(t)
            if n == t:
                break
            t = n
        return t

    def bounds(self, cat):
        pos, out = C(0), [C(0)]
        for p in cat[1]:
            pos = add(pos, self.size(p))
            out.append(pos)
        return out

    def at(self, bs, off, end=None):
        if off == C(None):
            return end
        for i, b in enumerate(bs):
            d = lin_diff(b, off)
            if not d:
                return i
        return None

    def step(self, t):
        op = t[0]
        if op == "call" and t[1] == ("glob", "builtins.type") and len(t[2]) == 1:
            ty = self.type_of(t[2][0])
            return ty if ty is not None and ty[0] == "glob" else t
        if op == "call" and t[1][0] in ("attr", "glob") and self.callee(t) in ("from_python_type", "from_type_id") and len(t[2]) == 1 and t[2][0][0] == "glob":
            for name, (tid, py, _, _) in self.table().items():
                if t[2][0] in (G(py), G(tid)):
                    return ("dtype", name)
        if op == "attr" and t[1][0] == "dtype" and t[2] in ("type_id", "python_type"):
            return G(self.table()[t[1][1]][0 if t[2] == "type_id" else 1])
        if op == "bin" and t[1] == "+" and (t[2][0] == "cat" or t[3][0] == "cat"):
            a, b = self.concat(t[2]), self.concat(t[3])
            if a is not None and b is not None:
                return ("cat", tuple(a + b))
        if op == "bin" and t[2][0] == "const" and t[3][0] == "const" and isinstance(t[2][1], int) and isinstance(t[3][1], int) and t[1] in ("+", "-", "*", "//", "%", "**", "<<") and abs(t[3][1]) < 100:
            try:
                return C({"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b if b >= 0 else 0, "<<": lambda a, b: a << b if b >= 0 else 0}[t[1]](t[2][1], t[3][1]))
            except ZeroDivisionError:
                return t
        if op == "call" and t[1] == ("glob", "builtins.pow") and len(t[2]) == 2:
            return ("bin", "**", t[2][0], t[2][1])
        if op == "call" and t[1] == LEN and len(t[2]) == 1:
            x = t[2][0]
            if x[0] == "cat":
                s = C(0)
                for p in x[1]:
                    s = add(s, self.size(p))
                return s
            if self.count is not None and (x[0] == "self"):
                return C(self.count)
        if op == "idx" and t[1][0] == "tuple" and t[2][0] == "const" and isinstance(t[2][1], int) and -len(t[1][1]) <= t[2][1] < len(t[1][1]):
            return t[1][1][t[2][1]]
        if op == "idx" and t[1][0] == "cat":
            cat, i = t[1], t[2]
            if i[0] == "slice":
                if i[3] not in (C(None), C(1)):
                    return t
                bs = self.bounds(cat)
                a, b = self.at(bs, i[1], 0), self.at(bs, i[2], len(cat[1]))
                if a is not None and b is not None and a <= b:
                    return ("cat", cat[1][a:b])
                return t
            if i[0] == "const" and isinstance(i[1], int) and cat[1]:
                bs = self.bounds(cat)
                k = self.at(bs[:-1], i)
                if k is not None and k < len(cat[1]):
                    p = cat[1][k]
                    if p[0] == "call" and p[1][0] == "attr" and p[1][2] == "to_bytes" and p[2][0] == C(1):
                        return p[1][1]
        if op == "call" and self.callee(t) == FROM and t[2]:
            x = t[2][0]
            p = x[1][0] if x[0] == "cat" and len(x[1]) == 1 else None
            if p is not None and p[0] == "call" and p[1][0] == "attr" and p[1][2] == "to_bytes" and self.order(p) == self.order(t):
                v = p[1][1]
                return v if t[1] == ("glob", "builtins.int.from_bytes") else ("call", ("glob", t[1][1].rpartition(".")[0]), (v,), ())
        if op == "call" and t[1][0] == "attr" and t[1][2] == "deserialize" and len(t[2]) == 1 and t[2][0][0] == "cat":
            cat, ty = t[2][0], t[1][1]
            if ty[0] == "call" and ty[1][0] == "glob" and ty[1][1].endswith(".Optional") and len(ty[2]) == 1:
                if not cat[1]:
                    return ("tuple", (C(None), cat))
                ty = ty[2][0]
            if cat[1]:
                v = self.reads(ty, cat[1])
                if v is not None:
                    return ("tuple", (v[0], ("cat", v[1][1] if isinstance(v[1], tuple) else cat[1][v[1]:])))
        if op == "idx" and t[1][0] == "call" and t[1][1] == ("glob", "struct.unpack") and t[2] == C(0) and len(t[1][2]) == 2:
            fmt, x = t[1][2]
            p = x[1][0] if x[0] == "cat" and len(x[1]) == 1 else x
            if p[0] == "call" and p[1] == ("glob", "struct.pack") and len(p[2]) == 2 and p[2][0] == fmt:
                return p[2][1]
        # text: X.encode(e).split(NUL)[0].decode(e) = X, for text without NUL
        if op == "call" and t[1][0] == "attr" and t[1][2] == "decode" and t[2]:
            x = t[1][1]
            if x[0] == "cat" and len(x[1]) == 1:
                x = x[1][0]
            if x[0] == "idx" and x[2] == C(0) and x[1][0] == "call" and x[1][1][0] == "attr" and x[1][1][2] in ("split", "partition") and x[1][2][:1] == (C(b"\x00"),):
                x = x[1][1][1]
                if x[0] == "cat" and len(x[1]) == 1:
                    x = x[1][0]
            if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "encode" and x[2][:1] == t[2][:1]:
                return x[1][1]
        return t

    def table(self):
        return datatypes(self.ctx)

    def callee(self, t):
        f = t[1]
        return f[1].split(".")[-1] if f[0] == "glob" else f[2] if f[0] == "attr" else None

    def order(self, t):
        """(byte order, signed) of a to_bytes/from_bytes call."""
        kw = dict(t[3])
        o = t[2][1] if len(t[2]) > 1 else kw.get("byteorder", C("big"))
        s = t[2][2] if len(t[2]) > 2 else kw.get("signed", C(False))
        return o, s

    def reads(self, ty, parts):
        """(value, parts consumed) when the type's decoder meets these parts."""
        p = parts[0]
        for v, exp in self.composite.items():
            if self.same_type(self.types.get(v, ("?",)), ty) and len(parts) >= len(exp) and all(self.plain(x) == self.plain(y) for x, y in zip(parts, exp)):
                return v, len(exp)
            if p == ("call", ("attr", v, "serialize"), (), ()) and not self.same_type(self.types[v], ty):
                # a different type reads the beginning of the value
                r = self.reads(ty, exp + parts[1:])
                if r is not None:
                    return r[0], r[1] - len(exp) + 1 if r[1] >= len(exp) else ("split", exp[r[1]:] + parts[1:])
        if p[0] == "call" and p[1][0] == "attr" and p[1][2] == "serialize" and not p[2]:
            v = p[1][1]
            own = self.type_of(v)
            if own is not None and self.same_type(own, ty):
                return (v if own == ty or v in self.types else ("call", ty, (v,), ())), 1
        if p[0] == "call" and p[1][0] == "attr" and p[1][2] == "to_bytes" and ty[0] == "glob":
            i = self.intinfo(ty[1])
            if i and p[2] and p[2][0][0] == "const" and p[2][0][1] * 8 == i[0] and self.order(p) == (C(i[2]), C(bool(i[1]))):
                return ("call", ty, (p[1][1],), ()), 1
        return None

    def same_type(self, a, b):
        if a == b or self.bare(a) == self.bare(b):
            return True
        if a[0] == "glob" and b[0] == "glob":
            x, y = self.intinfo(a[1]), self.intinfo(b[1])
            return x is not None and x == y
        return False

    def plain(self, p):
        """A part with integers in one notation."""
        if p[0] == "call" and p[1][0] == "attr" and p[1][2] == "serialize" and not p[2]:
            own = self.type_of(p[1][1])
            i = self.intinfo(own[1]) if own is not None and own[0] == "glob" else None
            if i and i[0] % 8 == 0:
                return ("int", self.bare(p[1][1]), i[0] // 8, i[2], bool(i[1]))
        if p[0] == "call" and p[1][0] == "attr" and p[1][2] == "to_bytes" and p[2] and p[2][0][0] == "const":
            o, s = self.order(p)
            if o[0] == "const" and s[0] == "const":
                return ("int", self.bare(p[1][1]), p[2][0][1], o[1] if p[2][0][1] > 1 else "little", bool(s[1]))
        return self.bare(p)

    def bare(self, t):
        """A term without the conversions of one value to a wire type."""
        if not isinstance(t, tuple) or not t or t[0] == "const":
            return t
        t = tuple(self.bare(x) if isinstance(x, tuple) else x for x in t)
        while t[0] == "call" and len(t[2]) == 1 and not t[3] and (t[1][0] == "cattr" or t[1][0] == "attr" and t[1][2] == "python_type" or t[1][0] == "glob" and (self.intinfo(t[1][1]) or t[1][1] in ("builtins.int",))):
            t = t[2][0]
        if t[0] == "cat" and len(t[1]) == 1:
            t = t[1][0]
        return t

    # -- conditions
    def holds(self, a, facts=()):
        """Truth of a condition atom after rewriting (None: undetermined)."""
        t = self.bare(self.go(a))
        for f, v in facts:
            if t == f or t[0] == "eq" and f[0] == "eq" and (t[2], t[1]) == f[1:]:
                return v
        if t[0] == "truthy":
            x = t[1]
            if x[0] == "cat":
                if any(self.positive(p) for p in x[1]):
                    return True
                if not x[1] or all(p == REST and self.types.get(REST) == "empty" for p in x[1]):
                    return False
            if x[0] == "const":
                return bool(x[1])
        if t[0] == "const":
            return bool(t[1])
        if t[0] == "isinstance" and len(t) == 3:
            own = self.type_of(t[1])
            if own is not None and own[0] == "glob" and t[2][0] == "glob" and own[1] in self.ctx.p.classes:
                return t[2][1] in self.names(own[1])
        if t[0] == "is" and t[1][0] == "const" and t[2][0] == "const":
            return t[1][1] is t[2][1]
        if t[0] == "is" and t[2] == C(None) and (self.type_of(t[1]) is not None or t[1][0] in ("call", "cattr", "self")):
            return False
        if t[0] in ("lt", "eq"):
            if t[0] == "eq" and all(x[0] == "glob" and x[1].rpartition(".")[0] in self.ctx.p.classes for x in t[1:]) and t[1][1].rpartition(".")[0] == t[2][1].rpartition(".")[0]:
                return t[1] == t[2]
            d = lin_diff(t[1], t[2])
            if t[0] == "eq" and not d:
                return True
            if set(d) <= {None}:
                k = d.get(None, 0)
                return k < 0 if t[0] == "lt" else k == 0
            if all(v >= 0 and (k is None or nonneg(k)) for k, v in d.items()):
                # a - b >= 0
                if t[0] == "lt":
                    return False
                if d.get(None, 0) > 0:
                    return False
            if t[0] == "lt" and all(v <= 0 and (k is None or nonneg(k)) for k, v in d.items()) and d.get(None, 0) < 0:
                return True
        return None

    def positive(self, p):
        s = self.size(p)
        return s[0] == "const" and s[1] > 0 or p != REST and p[0] == "call" and p[1][0] == "attr" and p[1][2] in ("serialize", "to_bytes")


def nonneg(k):
    return k[0] == "call" and k[1] == LEN or k[0] == "cattr" or k[0] == "param" and k[1].startswith("<n")


def int_info(ctx, q):
    """(bits, signed, byteorder) of a fixed-width integer class of the tree, from the class keywords it inherits."""
    p = ctx.p
    if q not in p.classes:
        return None
    bits = signed = order = None
    seen_base = False
    for c in p.mro(p.cls(q)):
        if c.qual == "zigpy.types.basic.FixedIntType":
            seen_base = True
        kws = {k.arg: k.value for k in c.node.keywords}
        bases = list(c.node.bases)
        for b in bases:
            # enum_factory(uint8_t), bitmap_factory(uint8_t)
            import ast
            if isinstance(b, ast.Call) and b.args and (p.resolve_expr(c.module, b.func, None) or "").split(".")[-1] in ("enum_factory", "bitmap_factory"):
                inner = int_info(ctx, p.resolve_expr(c.module, b.args[0], None) or "")
                if inner:
                    bits, signed, order = (x if x is not None else y for x, y in zip((bits, signed, order), inner))
                    seen_base = True
        for name in ("bits", "signed", "byteorder"):
            if name in kws:
                v = ctx.kit.consteval(c.module, kws[name])
                if v is UNK:
                    return None
                if name == "bits" and bits is None:
                    bits = v
                if name == "signed" and signed is None:
                    signed = v
                if name == "byteorder" and order is None:
                    order = v
    if not seen_base or bits is None or signed is None:
        return None
    return bits, signed, order or "little"


def datatypes(ctx):
    """The data-type table: member -> (type id, wire class, data class, non-value expression or None)."""
    p = ctx.p
    q = "zigpy.zcl.foundation.DataType"
    if getattr(p, "_datatypes", None) is None:
        out = {}
        c = p.cls(q)
        for name, e in c.attrs.items():
            import ast
            if isinstance(e, ast.Call) and len(e.args) >= 5:
                elts = e.args
            elif isinstance(e, ast.Tuple):
                elts = e.elts
            else:
                continue
            if len(elts) < 5:
                continue
            r = [p.resolve_expr(c.module, x, None) or ast.unparse(x) for x in elts[:3]]
            out[name] = (r[0], r[1], r[2], elts[4])
        p._datatypes = out
    return p._datatypes
