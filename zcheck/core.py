"""Rule-writing kit: obligations, scenario tables, path queries and reporting."""
from __future__ import annotations

import ast
import json
import os
import pathlib
import sys
import time
import traceback

from .model import REPO, AnalysisBroken, Func, Program, walk_own
from . import walk
from .walk import (ANYEXC, CANCEL, NONE, Event, Outcome, Path, State, TooManyPaths, Walker,
                   const, contains, show, subterms)

VERIF = pathlib.Path(__file__).resolve().parent.parent
BASE_FUNCS = VERIF / "zcheck" / "base_functions.txt"


# ------------------------------------------------------------------ terms
def norm(t):
    """Term without the bookkeeping that distinguishes two evaluations of one expression."""
    if not isinstance(t, tuple) or not t:
        return t
    r = _NORMED.get(id(t))
    if r is not None and r[0] is t:
        return r[1]
    v = _norm(t)
    _NORMED[id(t)] = (t, v)
    if v is not t:
        _NORMED[id(v)] = (v, v)
    return v


_NORMED = {}


def _norm(t):
    op = t[0]
    if op == "call" and len(t) >= 4 and isinstance(t[1], tuple):
        return ("call", norm(t[1]), tuple(norm(x) for x in t[2]), tuple((k, norm(v)) for k, v in sorted(t[3], key=lambda kv: kv[0])))
    if op == "param":
        return ("param", t[1])
    if op == "elem":
        return ("elem", norm(t[1]))
    if op == "lam":
        return ("lam", t[2]) if len(t) > 2 else t
    if op == "exc":
        return ("exc", t[1])
    if op == "const":
        return t
    if op in ("idx", "attr") and len(t) == 3:
        return (op, norm(t[1]), norm(t[2]) if op == "idx" else t[2])
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


class Unknown:
    def __repr__(self):
        return "?"


UNK = Unknown()


class Obj:
    """An abstract object in a scenario: truthy or not, never None, distinct from the others."""

    def __init__(self, name="obj", truthy=True):
        self.name, self.truthy = name, truthy

    def __bool__(self):
        return self.truthy

    def __repr__(self):
        return f"<{self.name}>"


class Sym:
    """An enum member."""

    def __init__(self, cls, name, value=None):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        if isinstance(o, Sym):
            if self.cls == o.cls:
                return self.name == o.name or (self.value is not None and self.value == o.value)
            return self.value is not None and self.value == o.value
        return self.value is not None and self.value == o

    def __hash__(self):
        return hash((self.cls, self.name))

    def __bool__(self):
        if self.value is None:
            raise ValueError
        return bool(self.value)

    def __repr__(self):
        return f"{self.cls.split('.')[-1]}.{self.name}"


class Kit:
    """Everything a rule needs for one program."""

    def __init__(self, program=None):
        self.p = program or Program()
        self.base = set(BASE_FUNCS.read_text().split()) if BASE_FUNCS.exists() else set(self.p.funcs)
        self._enumcache = {}
        self.p.consteval = self.consteval

    # -- constants ------------------------------------------------------
    def enum_value(self, cls, name):
        key = (cls, name)
        if key not in self._enumcache:
            v = None
            c = self.p.classes.get(cls)
            if c is not None:
                k, e = self.p.find_attr(c, name)
                if e is not None:
                    v = self.consteval(k.module, e)
                    if not isinstance(v, (int, str, bytes, float)):
                        v = None
            self._enumcache[key] = v
        return self._enumcache[key]

    def consteval(self, module, e, depth=0):
        """Value of a constant expression, or UNK."""
        if depth > 12:
            return UNK
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.UnaryOp):
            v = self.consteval(module, e.operand, depth + 1)
            if isinstance(v, (int, float)):
                return {ast.USub: lambda: -v, ast.Invert: lambda: ~v, ast.UAdd: lambda: v, ast.Not: lambda: not v}[type(e.op)]()
            return UNK
        if isinstance(e, ast.BinOp):
            a = self.consteval(module, e.left, depth + 1)
            b = self.consteval(module, e.right, depth + 1)
            if a is UNK or b is UNK:
                return UNK
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "/": lambda: a / b,
                        "%": lambda: a % b, "<<": lambda: a << b, ">>": lambda: a >> b, "|": lambda: a | b, "&": lambda: a & b,
                        "^": lambda: a ^ b, "**": lambda: a ** b}[Walker._OPS[type(e.op)]]()
            except Exception:
                return UNK
        if isinstance(e, ast.JoinedStr):
            out = ""
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    v = self.consteval(module, x.value, depth + 1)
                    if not isinstance(v, (str, int)) or x.format_spec is not None:
                        return UNK
                    out += str(v)
                else:
                    out += x.value
            return out
        if isinstance(e, (ast.Tuple, ast.List)):
            vs = [self.consteval(module, x, depth + 1) for x in e.elts]
            if any(v is UNK for v in vs):
                return UNK
            return tuple(vs) if isinstance(e, ast.Tuple) else vs
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(module, e)
            if r:
                b, _, n = r.rpartition(".")
                m = self.p.modules.get(b)
                if m is not None and n in m.assigns:
                    return self.consteval(m, m.assigns[n], depth + 1)
                if b in self.p.classes:
                    k, v = self.p.find_attr(self.p.classes[b], n)
                    if v is not None:
                        return self.consteval(k.module, v, depth + 1)
            return UNK
        if isinstance(e, ast.Call):
            # constructors of integer-like types are transparent
            if len(e.args) == 1 and not e.keywords:
                r = self.p.resolve_expr(module, e.func)
                if r in self.p.classes and any(b.endswith(("builtins.int",)) or b.split(".")[-1] in ("uint_t", "int_t", "FixedIntType") for b in self.p.base_names(self.p.classes[r])):
                    return self.consteval(module, e.args[0], depth + 1)
                if r == "builtins.bytes" or r == "builtins.int":
                    v = self.consteval(module, e.args[0], depth + 1)
                    return v
            return UNK
        return UNK

    # -- helpers ----------------------------------------------------------
    def callers(self):
        """Short called name -> qualified names of the functions calling it (class-aware for self.x)."""
        if not hasattr(self, "_callers"):
            out = {}
            for q, f in self.p.funcs.items():
                for n in walk_own(f.node):
                    r = n.func if isinstance(n, ast.Call) else n
                    if isinstance(r, ast.Attribute) and isinstance(r.ctx, ast.Load):
                        own = isinstance(r.value, ast.Name) and r.value.id in ("self", "cls") and f.cls is not None
                        out.setdefault(r.attr, set()).add((q, f.cls.qual if own else None))
                    elif isinstance(r, ast.Name):
                        out.setdefault(r.id, set()).add((q, None))
            self._callers = out
        return self._callers

    def owners(self, q, seen=()):
        """The functions a construct in `q` belongs to: `q` itself, or, for a helper that the
        analysed code base did not have when the rules were written, the functions that use it."""
        f = self.p.funcs.get(q)
        if f is None or q in self.base or f.name.startswith("__") or q in seen:
            return {q} - set(seen)
        out = set()
        for c, cls in self.callers().get(f.name, ()):
            if cls is not None and f.cls is not None and f.cls.qual not in {k.qual for k in self.p.mro(self.p.classes[cls])}:
                continue
            if f.cls is None and cls is not None:
                continue
            if c != q:
                out |= self.owners(c, (*seen, q))
        return out or {q}

    def expand(self, node):
        """Nodes of `node` and of the new private helpers used in it."""
        seen, todo = set(), [node]
        while todo:
            for n in ast.walk(todo.pop()):
                yield n
                name = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                if name and name not in seen:
                    seen.add(name)
                    for q, f in self.p.funcs.items():
                        if f.name == name and q not in self.base:
                            todo.append(f.node)

    def whole(self, q):
        """AST of a function and of the new private helpers that belong to it."""
        out = [self.p.funcs[q].node] if q in self.p.funcs else []
        for h in self.p.funcs:
            if h != q and h not in self.base and q in self.owners(h):
                out.append(self.p.funcs[h].node)
        return out

    # -- walking --------------------------------------------------------
    def walker(self, module=None, *, inline=(), noinline=(), private=True, **kw):
        base = self.base

        def inline_if(f: Func):
            if not private or f.module is not module:
                return False
            return f.name.startswith("_") and not (f.name.startswith("__") and f.name.endswith("__"))

        return Walker(self.p, known=base, inline=inline, noinline=noinline, inline_if=inline_if, **kw)

    # -- evaluation -----------------------------------------------------
    def sym(self, t):
        q = None
        if t[0] == "attr" and t[1][0] == "glob" and t[1][1] in self.p.classes:
            q = (t[1][1], t[2])
        elif t[0] == "glob" and t[1].rpartition(".")[0] in self.p.classes:
            b, _, n = t[1].rpartition(".")
            q = (b, n)
        if q is None:
            return None
        c = self.p.classes[q[0]]
        if q[1] in c.methods:
            return None
        return Sym(q[0], q[1], self.enum_value(*q))

    def teval(self, t, asg):
        """Value of term `t` in scenario `asg` (normalised term -> value); UNK when undetermined."""
        n = norm(t)
        return self._teval(n, asg)

    def _truth(self, v):
        if v is UNK:
            return UNK
        try:
            return bool(v)
        except ValueError:
            return UNK

    def _teval(self, t, asg):
        if t in asg:
            return asg[t]
        op = t[0]
        E = self._teval
        if op == "const":
            return t[1]
        if op in ("attr", "glob"):
            s = self.sym(t)
            if s is not None:
                return s
            return UNK
        if op == "not":
            v = self._truth(E(t[1], asg))
            return UNK if v is UNK else not v
        if op == "truthy":
            return self._truth(E(t[1], asg))
        if op == "boolop":
            vals = [E(x, asg) for x in t[2]]
            unk = False
            for v in vals:
                tv = self._truth(v)
                if tv is UNK:
                    unk = True
                elif t[1] == "and" and not tv:
                    return False if unk else v
                elif t[1] == "or" and tv:
                    return True if unk else v
            return UNK if unk else vals[-1]
        if op == "ifexp":
            c = self._truth(E(t[1], asg))
            if c is UNK:
                return UNK
            return E(t[2] if c else t[3], asg)
        if op == "cmp":
            return self._cmp(t[1], t[2], t[3], asg)
        if op == "eq":
            return self._cmp("==", t[1], t[2], asg)
        if op == "is":
            return self._cmp("is", t[1], t[2], asg)
        if op == "lt":
            return self._cmp("<", t[1], t[2], asg)
        if op == "in":
            return self._cmp("in", t[1], t[2], asg)
        if op == "isinstance":
            return self._isinst(t[1], t[2], asg)
        if op in ("tuple", "list"):
            vs = [E(x, asg) for x in t[1]]
            if any(v is UNK for v in vs):
                return UNK
            return tuple(vs) if op == "tuple" else list(vs)
        if op == "set":
            vs = [E(x, asg) for x in t[1]]
            if any(v is UNK for v in vs):
                return UNK
            try:
                return set(vs)
            except TypeError:
                return UNK
        if op == "bin":
            a, b = E(t[2], asg), E(t[3], asg)
            a = a.value if isinstance(a, Sym) and a.value is not None else a
            b = b.value if isinstance(b, Sym) and b.value is not None else b
            if a is UNK or b is UNK or isinstance(a, (Obj, Sym)) or isinstance(b, (Obj, Sym)):
                return UNK
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b,
                        "<<": lambda: a << b, ">>": lambda: a >> b, "|": lambda: a | b, "&": lambda: a & b, "^": lambda: a ^ b,
                        "/": lambda: a / b, "**": lambda: a ** b}[t[1]]()
            except Exception:
                return UNK
        if op == "un":
            a = E(t[2], asg)
            if isinstance(a, (int, float)):
                return -a if t[1] == "-" else ~a
            return UNK
        if op == "idx":
            b = E(t[1], asg)
            if t[2] and t[2][0] == "slice":
                parts = [E(x, asg) for x in t[2][1:]]
                if isinstance(b, (bytes, str, tuple, list)) and not any(p is UNK for p in parts):
                    return b[slice(*parts)]
                return UNK
            k = E(t[2], asg)
            if isinstance(b, (bytes, str, tuple, list, dict)) and k is not UNK:
                try:
                    return b[k]
                except Exception:
                    return UNK
            return UNK
        if op == "call":
            f = t[1]
            if f[0] == "glob" and f[1] == "builtins.isinstance" and len(t[2]) == 2:
                return self._isinst(t[2][0], t[2][1], asg)
            vs = [E(x, asg) for x in t[2]]
            if f[0] == "glob" and f[1].startswith("builtins.") and not t[3]:
                n = f[1][9:]
                if n == "bool" and len(vs) == 1:
                    return self._truth(vs[0])
                if n == "set" and not vs:
                    return set()
                if any(v is UNK or isinstance(v, Obj) for v in vs):
                    return UNK
                if n == "pow" and len(vs) == 2 and all(isinstance(v, int) and abs(v) <= 4096 for v in vs):
                    return vs[0] ** vs[1] if vs[1] >= 0 else UNK
                if n in ("len", "min", "max", "abs", "int", "str", "bytes", "sum", "tuple", "list", "set", "frozenset", "sorted", "range", "any", "all", "float", "round"):
                    try:
                        return getattr(__import__("builtins"), n)(*[v.value if isinstance(v, Sym) and v.value is not None else v for v in vs])
                    except Exception:
                        return UNK
            # integer wire types used as conversions
            if f == ("glob", "builtins.int.from_bytes") and vs and isinstance(vs[0], bytes):
                kw = {k: E(v, asg) for k, v in t[3]}
                order = vs[1] if len(vs) > 1 else kw.get("byteorder", "big")
                if order in ("little", "big") and not any(v is UNK for v in kw.values()):
                    return int.from_bytes(vs[0], order, signed=bool(kw.get("signed", False)))
            if f[0] == "glob" and f[1] in self.p.classes and len(vs) == 1 and not t[3] and isinstance(vs[0], (int, Sym)):
                if any(b == "builtins.int" for b in self.p.base_names(self.p.classes[f[1]])):
                    return vs[0]
            if f[0] == "attr" and f[2] == "get" and len(vs) in (1, 2):
                b = E(f[1], asg)
                if isinstance(b, dict) and vs[0] is not UNK:
                    return b.get(*vs)
            if f[0] == "attr" and f[2] in ("startswith", "endswith", "lower", "upper", "strip") and not t[3]:
                b = E(f[1], asg)
                if isinstance(b, (str, bytes)) and not any(v is UNK for v in vs):
                    try:
                        return getattr(b, f[2])(*vs)
                    except Exception:
                        return UNK
        return UNK

    def _isinst(self, a, b, asg):
        k = ("isinstance", a, b)
        if k in asg:
            return asg[k]
        if b[0] == "tuple":
            rs = [self._isinst(a, x, asg) for x in b[1]]
            if any(r is True for r in rs):
                return True
            return UNK if any(r is UNK for r in rs) else False
        v = self._teval(a, asg)
        if v is None:
            return False
        if b[0] == "glob" and b[1].startswith("builtins.") and v is not UNK and not isinstance(v, (Obj, Sym)):
            ty = getattr(__import__("builtins"), b[1][9:], None)
            if isinstance(ty, type):
                return isinstance(v, ty)
        return UNK

    def _cmp(self, op, a, b, asg):
        for o, k in ((op, (op, a, b)),):
            if ("cmp", op, a, b) in asg:
                return asg[("cmp", op, a, b)]
        if op in ("==", "!="):
            for k in (("eq", a, b), ("eq", b, a)):
                if k in asg:
                    return asg[k] if op == "==" else not asg[k]
            if a == b:
                return op == "=="
        if op in ("in", "not in"):
            k = ("in", a, b)
            if k in asg:
                return asg[k] if op == "in" else not asg[k]
            if op == "in" or op == "not in":
                if b[0] in ("tuple", "list", "set"):
                    rs = [self._cmp("==", a, x, asg) for x in b[1]]
                    if any(r is True for r in rs):
                        return op == "in"
                    if all(r is False for r in rs):
                        return op != "in"
                    return UNK
        va, vb = self._teval(a, asg), self._teval(b, asg)
        if op in ("is", "is not"):
            if a == b:
                return op == "is"
            if va is UNK or vb is UNK:
                # an object that is truthy cannot be None
                return UNK
            r = va is vb or (isinstance(va, (Sym, bool, int, str)) and type(va) is type(vb) and va == vb)
            return r if op == "is" else not r
        if va is UNK or vb is UNK:
            return UNK
        try:
            if op in ("==", "!="):
                if isinstance(va, Obj) or isinstance(vb, Obj):
                    r = va is vb
                else:
                    if (isinstance(va, Sym) and va.value is None and not isinstance(vb, (Sym, type(None)))) or (isinstance(vb, Sym) and vb.value is None and not isinstance(va, (Sym, type(None)))):
                        return UNK
                    r = va == vb
                return r if op == "==" else not r
            va = va.value if isinstance(va, Sym) else va
            vb = vb.value if isinstance(vb, Sym) else vb
            if va is None or vb is None or isinstance(va, Obj) or isinstance(vb, Obj):
                if op in ("in", "not in") and isinstance(vb, (tuple, list, set, dict, frozenset)):
                    r = any(x is va for x in vb)
                    return r if op == "in" else not r
                return UNK
            return {"<": lambda: va < vb, "<=": lambda: va <= vb, ">": lambda: va > vb, ">=": lambda: va >= vb,
                    "in": lambda: va in vb, "not in": lambda: va not in vb}[op]()
        except Exception:
            return UNK


class PathSet:
    """All paths of one function, with spec-term helpers."""

    def __init__(self, ctx, func, walker, paths, selfcls):
        self.ctx, self.kit, self.func, self.w, self.paths, self.selfcls = ctx, ctx.kit, func, walker, paths, selfcls
        self._t = {}

    def __iter__(self):
        return iter(self.paths)

    def T(self, expr, env=None):
        """Normalised term of a Python expression in the scope of this function."""
        if isinstance(expr, tuple):
            return norm(expr)
        key = (expr, tuple(sorted((env or {}).items())))
        if key not in self._t:
            self._t[key] = norm(self.ctx.term(expr, self.func, self.w, self.selfcls, env))
        return self._t[key]

    def asg(self, scenario):
        out = {}
        for k, v in scenario.items():
            kt = self.T(k) if isinstance(k, str) else norm(k)
            if isinstance(v, str) and v.startswith("="):
                v = self.kit.teval(self.T(v[1:]), {})
            out[kt] = v
            if kt[0] == "call" and kt[1] == ("glob", "builtins.isinstance") and len(kt[2]) == 2:
                out[("isinstance", kt[2][0], kt[2][1])] = v
            if kt[0] == "cmp":
                at, pol = self.w.atom(kt)
                out[norm(at)] = v if pol else not v
        return out

    def consistent(self, path, asg, upto=None, trail=False):
        """Could the scenario follow this path (no assumed branch contradicts it)?

        With `trail`, also assumptions that no event saw (dropped by the next loop iteration).
        """
        if trail:
            for _, at, val in path.trail:
                v = self.kit._teval(self.ctx.norm(at), asg)
                tv = UNK if v is UNK else self.kit._truth(v)
                if tv is not UNK and tv != val:
                    return False
        seen = set()
        dicts = []
        own = set()         # memberships the path itself has changed
        for e in path.events:
            if id(e.facts) not in seen:
                seen.add(id(e.facts))
                dicts.append((e.facts, frozenset(own)))
            if e is upto:
                break
            if e.base is not None and e.args and (e.kind in ("setidx", "delidx") or e.kind == "call" and e.name in ("pop", "add", "remove", "discard", "append")):
                own.add(("in", norm(e.args[0]), norm(e.base)))
        if upto is None and id(path.facts) not in seen:
            dicts.append((path.facts, frozenset(own)))
        done = set()
        for d, mine in dicts:
            for at, val in d.items():
                if (at, val) in done:
                    continue
                done.add((at, val))
                n = self.ctx.norm(at)
                if n in mine:
                    continue
                if n[0] == "isinstance" and n not in asg:
                    v = self.kit._isinst(n[1], n[2], asg)
                else:
                    v = self.kit._teval(n, asg)
                if v is UNK:
                    continue
                tv = self.kit._truth(v)
                if tv is UNK:
                    continue
                if tv != val:
                    return False
        return True

    def scen(self, scenario, kinds=("return", "next")):
        """Paths a scenario can follow (by outcome kind)."""
        a = self.asg(scenario)
        return [p for p in self.paths if p.outcome.kind in kinds and self.consistent(p, a)]

    def value(self, term, scenario):
        return self.kit.teval(term, self.asg(scenario))

    def bound(self, e: Event, sig=None):
        """Arguments of a call event by parameter name (normalised; defaults filled in)."""
        return self.ctx.bound(self.w, e, sig)


class Ctx:
    """One property's run: collects obligations and violations."""

    def __init__(self, kit: Kit, pid: str, tier: str = "quick"):
        self.kit, self.p, self.pid, self.tier = kit, kit.p, pid, tier
        self.functions, self.rules = set(), {}
        self.npaths = self.nobl = 0
        self.violations, self.broken = [], []
        self._keys = set()
        self._norm = {}
        self.sites = 0

    # -- normalisation cache -------------------------------------------
    def norm(self, t):
        # terms are shared between paths; keyed by identity because 0 == False
        r = self._norm.get(id(t))
        if r is None:
            r = self._norm[id(t)] = (norm(t), t)
        return r[0]

    # -- walking --------------------------------------------------------
    def paths(self, qual, *, selfcls=None, inline=(), noinline=(), private=True, args=None, env=None, scenario=None, extra=None, decide=None, **kw) -> PathSet:
        """Paths of `qual`; with `scenario`, only those the scenario can follow (branches it
        determines are not forked)."""
        f = qual if isinstance(qual, Func) else self.p.func(qual)
        c = self.p.cls(selfcls) if isinstance(selfcls, str) else selfcls
        w = self.kit.walker(f.module, inline=inline, noinline=noinline, private=private, **kw)
        if scenario is not None:
            tmp = PathSet(self, f, w, [], c)
            asg = tmp.asg(scenario)
            asg.update(extra or {})

            def decider(at):
                n = self.norm(at)
                v = self.kit._isinst(n[1], n[2], asg) if n[0] == "isinstance" and n not in asg else self.kit._teval(n, asg)
                v = self.kit._truth(v) if v is not UNK else UNK
                return None if v is UNK else v
            w.decider = decider
        if decide is not None:
            w.decider = decide
        try:
            ps = w.paths(f, selfcls=c, args=args, env=env)
        except TooManyPaths as e:
            raise AnalysisBroken(str(e))
        self.functions |= w.seen_funcs
        self.npaths += len(ps)
        if not ps:
            raise AnalysisBroken(f"{f.qual}: no path")
        out = PathSet(self, f, w, ps, c)
        self.at = out
        return out

    def term(self, expr, func, w=None, selfcls=None, env=None):
        w = w or self.kit.walker(func.module)
        e = ast.parse(expr, mode="eval").body
        st = State()
        cls = selfcls or func.cls
        params = list(func.params)
        selfterm = None
        if cls is not None and not func.is_staticmethod and func.cls is not None and params:
            p0 = params.pop(0)
            selfterm = ("glob", cls.qual) if func.is_classmethod else ("self", cls.qual)
            st.env[p0] = selfterm
        if cls is not None:
            st.env.setdefault("self", ("self", cls.qual))
        for x in params + func.kwonly:
            st.env[x] = ("param", x, w.ann_type(func.module, func.annotation(x), func.cls))
        a = func.node.args
        if a.vararg:
            st.env[a.vararg.arg] = ("param", "*" + a.vararg.arg, None)
        if a.kwarg:
            st.env[a.kwarg.arg] = ("param", "**" + a.kwarg.arg, None)
        for k, v in (env or {}).items():
            st.env[k] = v
        fr = walk.Frame(func, func.module, cls, selfterm)
        w.frames.append((fr, None))
        try:
            for s, v in w.ev(e, st):
                if not isinstance(v, Outcome):
                    return v
        finally:
            w.frames.pop()
        raise AnalysisBroken(f"cannot build term {expr!r} in {func.qual}")

    def bound(self, w, e: Event, sig=None):
        if sig is not None:
            out = {}
            names = [s.split("=")[0] for s in sig]
            pos = [a for a in e.args]
            for n, v in zip(names, pos):
                out[n] = self.norm(v)
            if len(pos) > len(names):
                out["*"] = tuple(self.norm(x) for x in pos[len(names):])
            for k, v in e.kwargs:
                out[k] = self.norm(v)
            for s in sig:
                n, _, d = s.partition("=")
                if n not in out and d:
                    out[n] = norm(const(ast.literal_eval(d)))
            return out
        if e.callee is None:
            out = {str(i): self.norm(v) for i, v in enumerate(e.args)}
            for k, v in e.kwargs:
                out[k] = self.norm(v)
            return out
        env, fuzzy = w.bind(e.callee, e.base, e.args, e.kwargs)
        out = {k: self.norm(v) for k, v in env.items()}
        for pn, d in e.callee.defaults().items():
            if pn not in out and not fuzzy:
                v = self.kit.consteval(e.callee.module, d)
                if v is UNK:
                    try:
                        out[pn] = norm(self.term(ast.unparse(d), e.callee))
                    except AnalysisBroken:
                        out[pn] = ("default", ast.unparse(d))
                elif isinstance(v, (int, str, bytes, float, bool, type(None))):
                    r = d
                    out[pn] = norm(const(v)) if isinstance(r, ast.Constant) else norm(self.term(ast.unparse(d), e.callee))
                else:
                    out[pn] = ("default", ast.unparse(d))
        return out

    # -- obligations ----------------------------------------------------
    def ob(self, rule, ok, where, msg, key=""):
        """One obligation of `rule`; `where` is a Func, (Func|Module|Class, node) or a string."""
        self.nobl += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            return True
        r[1] += 1
        loc, name = self.locate(where)
        k = f"{rule}|{name}|{key}"
        if k in self._keys:
            return False
        self._keys.add(k)
        self.violations.append({"rule": rule, "construct": name, "at": loc, "message": msg, "key": k})
        return False

    def locate(self, where):
        node = None
        if isinstance(where, tuple):
            where, node = where
        if isinstance(where, str):
            return where, where
        if isinstance(where, PathSet):
            where = where.func
        mod = getattr(where, "module", where)
        n = node if node is not None else getattr(where, "node", None)
        line = getattr(n, "lineno", 0)
        return f"{getattr(mod, 'relpath', '?')}:{line}", getattr(where, "qual", getattr(where, "name", "?"))

    def need(self, rule, n, minimum, what):
        """Instance-count guard: a rule that matches nothing proves nothing."""
        self.rules.setdefault(rule, [0, 0])
        if n < minimum:
            self.missing(rule, self.at, f"the property needs at least {minimum} {what}; the source has {n}", what)

    def missing(self, rule, where, msg, key):
        """Nothing in the analysed function(s) implements what the rule is about."""
        if where is None:
            raise AnalysisBroken(f"{rule}: {msg}")
        self.ob(rule, False, where, msg, f"missing:{key}")
        raise RuleStop

    # -- path queries -----------------------------------------------------
    def must(self, rule, ps: PathSet, scenario, pred, msg, kinds=("return", "next"), minimum=1, key=""):
        """Every path the scenario can follow satisfies `pred(path)`."""
        sel = ps.scen(scenario, kinds) if scenario is not None else [p for p in ps if p.outcome.kind in kinds]
        if len(sel) < minimum:
            self.missing(rule, ps, f"no path of {ps.func.qual} completes when {scenario}", key or msg)
        for p in sel:
            ok = pred(p)
            self.ob(rule, bool(ok), (ps.func, last_node(p) or ps.func.node), f"{msg} [path: {describe(p)}]", key or msg)

    def last(self, path):
        return last_node(path)


class RuleStop(Exception):
    """The rule has reported that its subject is missing; its other obligations have no subject."""


def last_node(p):
    for e in reversed(p.events):
        if e.node is not None and e.depth <= 1:
            return e.node
    return None


def describe(p, limit=14):
    """Short human-readable form of a path."""
    out = []
    for at, v in list(p.facts.items())[:limit]:
        out.append(("" if v else "not ") + show(at))
    calls = [(("!" if not e.ok else "") + (str(e.name))) for e in p.events if e.kind in ("call", "setattr", "raise", "handler", "setidx", "delidx", "await")
             and e.name not in walk.LOGGERS][:limit]
    s = "; ".join(out)
    return (s[:400] + " => " + " > ".join(calls))[:900] + f" => {p.outcome.kind}"


# ------------------------------------------------------------------ event selection
def calls(path, name=None, ok=None, awaited=None, base=None, kinds=("call",)):
    out = []
    for e in path.events:
        if e.kind not in kinds:
            continue
        if name is not None and not (e.name == name or (isinstance(name, (tuple, set, frozenset)) and e.name in name)):
            continue
        if ok is not None and e.ok != ok:
            continue
        if awaited is not None and e.awaited != awaited:
            continue
        if base is not None and (e.base is None or norm(e.base) != base):
            continue
        out.append(e)
    return out


def sets(path, name=None, base=None):
    return [e for e in path.events if e.kind == "setattr" and (name is None or e.name == name)
            and (base is None or norm(e.base) == base)]


def index(path, e):
    for i, x in enumerate(path.events):
        if x is e:
            return i
    return -1


def ev_callee(e):
    return e.callee.qual if e.callee is not None else None


# ------------------------------------------------------------------ runner
def load_known():
    out = []
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line.startswith("known:"):
                d = dict(x.split("=", 1) for x in line[6:].split(" :: ")[0].split() if "=" in x)
                out.append((d.get("property"), line.split(" :: ")[1].strip(), line.split(" :: ")[2].strip()))
    return out


def run(pid, tier, rules, title):
    t0 = time.time()
    err = None
    violations, broken = [], []
    ctx = None
    try:
        kit = Kit()
        ctx = Ctx(kit, pid, tier)
        for r in rules:
            try:
                ctx.at = None
                r(ctx)
            except RuleStop:
                pass
            except AnalysisBroken as e:
                broken.append(f"{r.__name__}: {e}")
            except Exception as e:
                broken.append(f"{r.__name__}: internal error {type(e).__name__}: {e}\n{traceback.format_exc()}")
        violations = ctx.violations
    except AnalysisBroken as e:
        broken.append(str(e))
    known = [(k, text) for p, k, text in load_known() if p == pid]
    kk = {k for k, _ in known}
    fresh = [v for v in violations if v["key"] not in kk]
    for k, text in known:
        if any(v["key"] == k for v in violations):
            print(f"KNOWN-FINDING: property={pid} {text}")
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": f"static analysis of {REPO}/zigpy: {title}",
            "functions_analysed": len(ctx.functions) if ctx else 0,
            "paths": ctx.npaths if ctx else 0,
            "obligations": ctx.nobl if ctx else 0,
            "rules": {k: {"instances": v[0], "violated": v[1]} for k, v in sorted(ctx.rules.items())} if ctx else {},
            "functions": sorted(ctx.functions)[:400] if ctx else [],
            "modules": len(ctx.p.modules) if ctx else 0,
            "analysis_broken": broken,
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    ed = pathlib.Path(os.environ.get("ZCHECK_EVIDENCE", VERIF / "evidence"))
    ed.mkdir(parents=True, exist_ok=True)
    (ed / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    print(f"{pid}: {ev['coverage']['functions_analysed']} functions, {ev['coverage']['paths']} paths, "
          f"{ev['coverage']['obligations']} obligations, {len(ctx.rules) if ctx else 0} rules, {ev['wall_s']}s")
    if fresh:
        rp = ed / f"{pid}.violation.txt"
        rp.write_text("\n\n".join(f"{v['at']}: rule {v['rule']}: {v['construct']}\n  {v['message']}\n  key: {v['key']}" for v in fresh) + "\n")
        for v in fresh[:20]:
            print(f"  {v['at']}: rule {v['rule']}: {v['construct']}: {v['message'][:600]}")
        print(f"VIOLATION property={pid} replay={rp}")
        for b in broken:
            print("analysis-broken:", b)
        return 1
    for b in broken:
        print("analysis-broken:", b)
    return 2 if broken else 0
