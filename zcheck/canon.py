"""Canonical syntax: a loop that only collects is the comprehension it spells out.

`x = []; for a in b: if c: x.append(e)` and `x = [e for a in b if c]` build the same value; the
analyses see the second form for both.  Applied to the parsed modules before anything else.
"""
from __future__ import annotations

import ast
import copy

FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def _own(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (*FN, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def _mentions(node, var):
    return any(isinstance(n, ast.Name) and n.id == var for n in ast.walk(node))


def _empty(v):
    if isinstance(v, ast.List) and not v.elts:
        return "list"
    if isinstance(v, ast.Dict) and not v.keys:
        return "dict"
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "set", "dict") and not v.args and not v.keywords:
        return v.func.id
    return None


class _Subst(ast.NodeTransformer):
    def __init__(self, var, value):
        self.var, self.value = var, value

    def visit_Name(self, n):
        if n.id == self.var and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.value)
        return n


def _names(target):
    return {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}


def _neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.copy_location(ast.UnaryOp(ast.Not(), e), e)


def _collect(loop, var, kind, bound):
    """(element or (key, value), generators) of a loop that only fills `var`, or None."""
    gens = []

    def body(stmts, gen):
        stmts = list(stmts)
        while stmts:
            s = stmts[0]
            if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                stmts = stmts[1:]
                continue
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and len(stmts) > 1:
                gen.ifs.append(_neg(s.test))
                stmts = stmts[1:]
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and len(stmts) > 1 and not any(isinstance(n, (ast.Await, ast.NamedExpr, ast.Yield)) for n in ast.walk(s.value)):
                t = s.targets[0].id
                rest = stmts[1:]
                if t == var or any(isinstance(n, ast.Name) and n.id == t and not isinstance(n.ctx, ast.Load) for r in rest for n in ast.walk(r)):
                    return None
                bound.add(t)
                stmts = [_Subst(t, s.value).visit(copy.deepcopy(r)) for r in rest]
                continue
            break
        if len(stmts) != 1:
            return None
        s = stmts[0]
        if isinstance(s, ast.If) and not s.orelse:
            gen.ifs.append(s.test)
            return body(s.body, gen)
        if isinstance(s, (ast.For, ast.AsyncFor)) and not s.orelse:
            return one(s)
        if isinstance(s, ast.Assign) and kind == "dict" and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == var:
            return (s.targets[0].slice, s.value)
        c = s.value if isinstance(s, ast.Expr) else None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == var and len(c.args) == 1 and not c.keywords and c.func.attr == {"list": "append", "set": "add"}.get(kind):
            return c.args[0]
        return None

    def one(l):
        gen = ast.comprehension(l.target, l.iter, [], int(isinstance(l, ast.AsyncFor)))
        gens.append(gen)
        bound.update(_names(l.target))
        return body(l.body, gen)

    e = one(loop)
    return None if e is None else (e, gens)


def _rewrite(fn, block):
    changed = False
    i = 0
    while i < len(block):
        s = block[i]
        tgt = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) and s.value is not None else None
        kind = _empty(s.value) if isinstance(tgt, ast.Name) else None
        if kind:
            var = tgt.id
            j = i + 1
            while j < len(block) and not _mentions(block[j], var):
                j += 1
            l = block[j] if j < len(block) else None
            if isinstance(l, (ast.For, ast.AsyncFor)) and not l.orelse:
                bound = set()
                got = _collect(l, var, kind, bound)
                if got:
                    e, gens = got
                    parts = [*(e if isinstance(e, tuple) else (e,)), *[g.iter for g in gens], *[c for g in gens for c in g.ifs]]
                    inside = {id(n) for n in ast.walk(l)}
                    # the loop's own names must not be read afterwards
                    leak = False
                    for n in _own(fn):
                        if isinstance(n, ast.Name) and n.id in bound and isinstance(n.ctx, ast.Load) and id(n) not in inside:
                            if not _rebound(fn, n, inside):
                                leak = True
                    if not leak and not any(_mentions(p, var) for p in parts):
                        comp = ast.DictComp(e[0], e[1], gens) if kind == "dict" else ast.SetComp(e, gens) if kind == "set" else ast.ListComp(e, gens)
                        ast.copy_location(comp, l)
                        new = ast.copy_location(ast.Assign([ast.Name(var, ast.Store())], comp), l)
                        ast.fix_missing_locations(new)
                        block[j] = new
                        del block[i]
                        changed = True
                        continue
        i += 1
    return changed


def _counted(fn, block):
    """`i = 0; while i < n: ...; i += 1`  is  `for i in range(0, n): ...`."""
    for j, w in enumerate(block):
        if not (isinstance(w, ast.While) and not w.orelse and isinstance(w.test, ast.Compare) and len(w.test.ops) == 1):
            continue
        a, op, b = w.test.left, w.test.ops[0], w.test.comparators[0]
        if isinstance(op, ast.Gt):
            a, op, b = b, ast.Lt(), a
        if not (isinstance(op, (ast.Lt, ast.NotEq)) and isinstance(a, ast.Name) and isinstance(b, (ast.Name, ast.Constant, ast.Attribute, ast.Call))):
            continue
        var = a.id
        if isinstance(b, ast.Call) and not (isinstance(b.func, ast.Name) and b.func.id == "len" and len(b.args) == 1 and isinstance(b.args[0], (ast.Name, ast.Attribute))):
            continue
        limit = {n.id for n in ast.walk(b) if isinstance(n, ast.Name)}
        stores = [n for s in w.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
        if any(n.id in limit for n in stores) or sum(n.id == var for n in stores) != 1:
            continue
        k = None
        for i, s in enumerate(w.body):
            if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == var and isinstance(s.value, ast.Constant) and s.value.value == 1:
                k = i
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == var and ast.dump(s.value) in (ast.dump(ast.parse(f"{var} + 1").body[0].value), ast.dump(ast.parse(f"1 + {var}").body[0].value)):
                k = i
        if k is None or any(_mentions(s, var) for s in w.body[k + 1:]):
            continue
        if any(isinstance(n, ast.Continue) for s in w.body[:k] for n in ast.walk(s)):
            continue
        i = j - 1
        while i >= 0 and not _mentions(block[i], var):
            i -= 1
        s = block[i] if i >= 0 else None
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == var and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int)):
            continue
        inside = {id(n) for x in (s, w) for n in ast.walk(x)}
        if any(isinstance(n, ast.Name) and n.id == var and isinstance(n.ctx, ast.Load) and id(n) not in inside for n in _own(fn)):
            continue
        rng = ast.Call(ast.Name("range", ast.Load()), [b] if s.value.value == 0 else [s.value, b], [])
        new = ast.copy_location(ast.For(ast.Name(var, ast.Store()), rng, w.body[:k] + w.body[k + 1:] or [ast.Pass()], []), w)
        ast.fix_missing_locations(new)
        block[j] = new
        del block[i]
        return True
    return False


def _rebound(fn, name, inside):
    """Is this read inside another loop or comprehension that binds the same name?"""
    for n in _own(fn):
        if id(n) in inside:
            continue
        if isinstance(n, (ast.For, ast.AsyncFor)) and name.id in _names(n.target) and any(x is name for b in n.body for x in ast.walk(b)):
            return True
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(name.id in _names(g.target) for g in n.generators) and any(x is name for x in ast.walk(n)):
            return True
    return False


def canonical(tree):
    for fn in ast.walk(tree):
        if not isinstance(fn, FN):
            continue
        again = True
        while again:
            again = False
            for n in [fn, *_own(fn)]:
                if n is not fn and isinstance(n, (*FN, ast.ClassDef)):
                    continue
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(n, f, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and (_counted(fn, b) or _rewrite(fn, b)):
                        again = True
    return tree
