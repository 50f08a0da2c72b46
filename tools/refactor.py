#!/usr/bin/env python3
"""Development aid: behaviour-preserving edits of a scratch copy, on which every check must stay quiet.

refactor.py [--kinds a,b] [--only zigpy.appdb:PersistingListener._worker,...] [--checks C01,...] [--tests] [--seed N] [--prob P]
Each kind is applied everywhere at once (or, with --prob, to a random share of the sites).
"""
import argparse, ast, concurrent.futures as cf, copy, fnmatch, json, os, pathlib, random, re, shutil, subprocess, sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
SCR = pathlib.Path("/tmp/rfz")
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
RNG = random.Random(1)
PROB = 1.0


def pick():
    return PROB >= 1 or RNG.random() < PROB


def own(node):
    """Nodes of a function excluding nested functions, lambdas and classes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop(0)
        yield n
        if not isinstance(n, (*FN, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def has(node, *kinds):
    return any(isinstance(n, kinds) for n in [node, *own(node)])


def terminal(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


def blocks(node):
    """Yield every statement list of a function (own, not nested functions)."""
    for n in [node, *own(node)]:
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not (n is not node and isinstance(n, (*FN, ast.ClassDef))):
                yield n, f, b


def fresh(fn, base):
    used = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    i = 0
    while f"{base}{i or ''}" in used:
        i += 1
    return f"{base}{i or ''}"


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def assign(v, e):
    return ast.Assign([name(v, ast.Store())], e)


# -- transformations: fn -> changed? -------------------------------------------------
def rename(fn, cls):
    if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)):
        return False
    params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    stores = {n.id for n in own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
    stores |= {n.name for n in own(fn) if isinstance(n, ast.ExceptHandler) and n.name}
    inner = {a.arg for n in ast.walk(fn) if n is not fn and isinstance(n, (*FN, ast.Lambda)) for a in ast.walk(n.args) if isinstance(a, ast.arg)}
    stores -= inner
    stores -= {(a.asname or a.name).split(".")[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    if any(isinstance(n, ast.Name) and n.id == "locals" for n in ast.walk(fn)):
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in stores:
            n.id = n.id + "_v"
        elif isinstance(n, ast.ExceptHandler) and n.name in stores:
            n.name += "_v"
        elif isinstance(n, FN) and n is not fn and n.name in stores:
            pass
    return bool(stores)


def noop(fn, cls):
    i = 1 if ast.get_docstring(fn) is not None else 0
    fn.body.insert(i, assign(fresh(fn, "unused"), ast.Constant(None)))
    return True


def invert(fn, cls):
    ch = False
    for n in list(own(fn)):
        if isinstance(n, ast.If) and n.orelse and pick():
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
            ch = True
    return ch


def elsewrap(fn, cls):
    """if c: ...return; rest  ->  if c: ...return else: rest"""
    ch = False
    for n, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and terminal(s.body) and i + 1 < len(b) and pick():
                s.orelse = b[i + 1:]
                del b[i + 1:]
                ch = True
                break
    return ch


def dedent(fn, cls):
    ch = False
    again = True
    while again:
        again = False
        for n, f, b in list(blocks(fn)):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and s.orelse and terminal(s.body):
                    b[i + 1:i + 1] = s.orelse
                    s.orelse = []
                    ch = again = True
                    break
            if again:
                break
    return ch


def retvar(fn, cls):
    ch = False
    v = fresh(fn, "outcome")
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)) and pick():
                b[b.index(s):b.index(s) + 1] = [assign(v, s.value), ast.Return(name(v))]
                ch = True
    return ch


def condvar(fn, cls):
    ch = False
    v = fresh(fn, "flag")
    for n, f, b in list(blocks(fn)):
        if f == "orelse" and isinstance(n, ast.If):
            continue
        for s in list(b):
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name) and not has(s.test, ast.NamedExpr) and pick():
                b.insert(b.index(s), assign(v, s.test))
                s.test = name(v)
                ch = True
    return ch


def argvar(fn, cls):
    """A call statement's first plain argument goes through a temporary."""
    ch = False
    k = 0
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            e = s.value if isinstance(s, (ast.Expr, ast.Return, ast.Assign)) else None
            if isinstance(e, ast.Await):
                e = e.value
            if not isinstance(e, ast.Call):
                continue
            if isinstance(e.func, ast.Attribute) and has(e.func.value, ast.Call, ast.Await) or isinstance(e.func, ast.Call):
                continue
            pos = [(e.args, i) for i in range(len(e.args)) if not isinstance(e.args[i], ast.Starred)] + ([(None, kw) for kw in e.keywords if kw.arg] if not any(isinstance(a, ast.Starred) for a in e.args) else [])
            for where, i in pos[:1]:
                val = where[i] if where is not None else i.value
                if isinstance(val, (ast.Constant, ast.Name, ast.Lambda)) or not pick():
                    continue
                v = fresh(fn, "tmp_arg")
                b.insert(b.index(s), assign(v, val))
                if where is not None:
                    where[i] = name(v)
                else:
                    i.value = name(v)
                ch = True
    return ch


def kworder(fn, cls):
    ch = False
    for n in own(fn):
        if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords) and not any(has(k.value, ast.Await, ast.NamedExpr) for k in n.keywords) and sum(has(k.value, ast.Call) for k in n.keywords) < 2 and pick():
            n.keywords = n.keywords[::-1]
            ch = True
    return ch


def compare(fn, cls):
    ch = False

    class T(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n
        visit_AsyncFunctionDef = visit_Lambda = visit_FunctionDef

        def visit_Compare(self, n):
            nonlocal ch
            self.generic_visit(n)
            if len(n.ops) != 1 or not pick():
                return n
            op = n.ops[0]
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}
            notted = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}
            if type(op) in notted:
                ch = True
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [notted[type(op)]()], n.comparators))
            if type(op) in flip and not (has(n.left, ast.Call, ast.Await) and has(n.comparators[0], ast.Call, ast.Await)):
                ch = True
                return ast.Compare(n.comparators[0], [flip[type(op)]()], [n.left])
            return n
    for i, s in enumerate(fn.body):
        fn.body[i] = T().visit(s)
    return ch


def splitand(fn, cls):
    ch = False
    for n in list(own(fn)):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and pick():
            vals = n.test.values
            rest = vals[1] if len(vals) == 2 else ast.BoolOp(ast.And(), vals[1:])
            n.body = [ast.If(rest, n.body, [])]
            n.test = vals[0]
            ch = True
    return ch


def joinand(fn, cls):
    ch = False
    for n in list(own(fn)):
        if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse and pick():
            n.test = ast.BoolOp(ast.And(), [n.test, n.body[0].test])
            n.body = n.body[0].body
            ch = True
    return ch


def demorgan(fn, cls):
    ch = False
    for n in list(own(fn)):
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and pick():
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in n.test.values]))
            ch = True
    return ch


def guardcontinue(fn, cls):
    ch = False
    for n in list(own(fn)):
        if isinstance(n, (ast.For, ast.AsyncFor)) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse and pick():
            s = n.body[-1]
            n.body[-1:] = [ast.If(neg(s.test), [ast.Continue()], []), *s.body]
            ch = True
    return ch


def uncontinue(fn, cls):
    ch = False
    for n in list(own(fn)):
        if isinstance(n, (ast.For, ast.AsyncFor)):
            for i, s in enumerate(n.body):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and i + 1 < len(n.body) and pick():
                    n.body[i:] = [ast.If(neg(s.test), n.body[i + 1:], [])]
                    ch = True
                    break
    return ch


def guardreturn(fn, cls):
    """A function ending in `if c: body` becomes a guard clause."""
    s = fn.body[-1]
    if isinstance(s, ast.If) and not s.orelse and not has(fn, ast.Yield, ast.YieldFrom):
        fn.body[-1:] = [ast.If(neg(s.test), [ast.Return(None)], []), *s.body]
        return True
    return False


def loopsof(comp, var, kind):
    g = comp.generators
    if kind == "list":
        inner = ast.Expr(ast.Call(ast.Attribute(name(var), "append", ast.Load()), [comp.elt], []))
    elif kind == "set":
        inner = ast.Expr(ast.Call(ast.Attribute(name(var), "add", ast.Load()), [comp.elt], []))
    else:
        inner = ast.Assign([ast.Subscript(name(var), comp.key, ast.Store())], comp.value)
    body = [inner]
    for x in reversed(g):
        for c in reversed(x.ifs):
            body = [ast.If(c, body, [])]
        body = [(ast.AsyncFor if x.is_async else ast.For)(x.target, x.iter, body, [])]
    return body


EMPTY = {"list": lambda: ast.List([], ast.Load()), "set": lambda: ast.Call(name("set"), [], []), "dict": lambda: ast.Dict([], [])}


def comploop(fn, cls):
    ch = False
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            if not isinstance(s, (ast.Assign, ast.Return, ast.AnnAssign)):
                continue
            e = s.value
            kind = {ast.ListComp: "list", ast.SetComp: "set", ast.DictComp: "dict"}.get(type(e))
            if kind is None or not pick():
                continue
            names = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            others = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and not any(x is y for y in ast.walk(e))} | {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
            if names & others:
                continue
            v = fresh(fn, "collected")
            new = [assign(v, EMPTY[kind]()), *loopsof(e, v, kind)]
            s.value = name(v)
            b[b.index(s):b.index(s)] = new
            ch = True
    return ch


def loopcomp(fn, cls):
    """x = []; for a in b: x.append(e)  ->  x = [e for a in b]"""
    ch = False
    for n, f, b in list(blocks(fn)):
        for i in range(len(b) - 1):
            if i + 1 >= len(b):
                break
            s, l = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name) and isinstance(l, ast.For) and not l.orelse and len(l.body) == 1:
                x = l.body[0]
                ifs = []
                while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                    ifs.append(x.test)
                    x = x.body[0]
                v = s.targets[0].id
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append" and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == v and not any(isinstance(y, ast.Name) and y.id == v for z in (*ifs, l.iter, *x.value.args) for y in ast.walk(z)):
                    b[i:i + 2] = [assign(v, ast.ListComp(x.value.args[0], [ast.comprehension(l.target, l.iter, ifs, 0)]))]
                    ch = True
    return ch


def anyloop(fn, cls):
    ch = False
    for n, f, b in list(blocks(fn)):
        if f == "orelse" and isinstance(n, ast.If):
            continue
        for s in list(b):
            if not isinstance(s, ast.If):
                continue
            t, inv = s.test, False
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, inv = t.operand, True
            if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("any", "all") and len(t.args) == 1 and isinstance(t.args[0], ast.GeneratorExp) and len(t.args[0].generators) == 1 and pick()):
                continue
            g = t.args[0]
            v = fresh(fn, "found")
            isany = t.func.id == "any"
            test = g.elt if isany else neg(g.elt)
            for c in g.generators[0].ifs[::-1]:
                test = ast.BoolOp(ast.And(), [c, test])
            b[b.index(s):b.index(s)] = [assign(v, ast.Constant(not isany)), ast.For(g.generators[0].target, g.generators[0].iter, [ast.If(test, [assign(v, ast.Constant(isany)), ast.Break()], [])], [])]
            s.test = neg(name(v)) if inv else name(v)
            ch = True
    return ch


def ternary(fn, cls):
    ch = False
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp) and pick():
                e = s.value
                a, c = copy.deepcopy(s), copy.deepcopy(s)
                a.value, c.value = e.body, e.orelse
                b[b.index(s)] = ast.If(e.test, [a], [c])
                ch = True
    return ch


def unternary(fn, cls):
    ch = False
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.If) and len(s.body) == 1 == len(s.orelse) and type(s.body[0]) is type(s.orelse[0]) and pick():
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and x.value is not None and y.value is not None:
                    b[b.index(s)] = ast.Return(ast.IfExp(s.test, x.value, y.value))
                    ch = True
                elif isinstance(x, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]) and len(x.targets) == len(y.targets) == 1 and not has(x.targets[0], ast.Call):
                    b[b.index(s)] = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
                    ch = True
    return ch


def tryelse(fn, cls):
    """try/except(return|raise)/else -> statements after the try."""
    ch = False
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.Try) and s.orelse and not s.finalbody and all(terminal(h.body) for h in s.handlers) and pick():
                k = b.index(s)
                b[k + 1:k + 1] = s.orelse
                s.orelse = []
                ch = True
    return ch


def aftertry(fn, cls):
    """Statements after try/except(terminal) move into its else."""
    ch = False
    for n, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.Try) and not s.orelse and not s.finalbody and all(terminal(h.body) for h in s.handlers) and not terminal(s.body) and i + 1 < len(b) and pick():
                s.orelse = b[i + 1:]
                del b[i + 1:]
                ch = True
                break
    return ch


def suppress(fn, cls):
    ch = False
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call) and ast.unparse(s.items[0].context_expr.func) == "contextlib.suppress" and pick():
                a = s.items[0].context_expr.args
                t = a[0] if len(a) == 1 else ast.Tuple(a, ast.Load())
                b[b.index(s)] = ast.Try(s.body, [ast.ExceptHandler(t, None, [ast.Pass()])], [], [])
                ch = True
    return ch


def itervar(fn, cls):
    ch = False
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name) and pick():
                v = fresh(fn, "source_items")
                b.insert(b.index(s), assign(v, s.iter))
                s.iter = name(v)
                ch = True
    return ch


def _locals_before(fn):
    return [a.arg for a in (*fn.args.posonlyargs, *fn.args.args, *([fn.args.vararg] if fn.args.vararg else []), *fn.args.kwonlyargs, *([fn.args.kwarg] if fn.args.kwarg else []))]


def extract(fn, cls, out=None, share=0.5):
    """The tail of the body becomes a new private method (or function)."""
    if has(fn, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global) or any(isinstance(n, ast.Name) and n.id in ("super", "__class__", "locals") for n in ast.walk(fn)):
        return False
    if any("overload" in ast.unparse(d) or "property" in ast.unparse(d) or "setter" in ast.unparse(d) or "abstract" in ast.unparse(d) for d in fn.decorator_list):
        return False
    if fn.name.startswith("__"):
        return False
    static = any(ast.unparse(d) == "staticmethod" for d in fn.decorator_list)
    start = 1 if ast.get_docstring(fn) is not None else 0
    n = len(fn.body) - start
    if n < 2:
        return False
    k = start + max(1, int(n * share))
    tail = fn.body[k:]
    head = fn.body[:k]
    if not tail:
        return False
    stores, order = set(_locals_before(fn)), _locals_before(fn)
    for s in head:
        for x in [s, *own(s)]:
            got = []
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                got = [x.id]
            elif isinstance(x, (*FN, ast.ClassDef)):
                got = [x.name]
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                got = [(a.asname or a.name).split(".")[0] for a in x.names]
            for g in got:
                if g not in stores:
                    stores.add(g)
                    order.append(g)
    # comprehension variables are not locals
    comps = {y.id for s in head for c in ast.walk(s) if isinstance(c, ast.comprehension) for y in ast.walk(c.target) if isinstance(y, ast.Name)}
    reads = {x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    reads |= {x.target.id for s in tail for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    reads |= {x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Del)}
    # a local that is only conditionally bound cannot be passed
    sure = set(_locals_before(fn))
    for s in head:
        if isinstance(s, ast.Assign):
            sure |= {y.id for t in s.targets for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            sure.add(s.target.id)
        elif isinstance(s, (*FN, ast.ClassDef)):
            sure.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            sure |= {(a.asname or a.name).split(".")[0] for a in s.names}
    use = [v for v in order if v in reads and v in stores and v not in (comps - sure)]
    if any(v not in sure for v in use):
        # bound on both branches of an if is common enough: give up otherwise
        return False
    # closures over variables the tail rebinds would see two variables
    tailstores = {x.id for s in tail for x in [s, *own(s)] if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    inner = {x.id for s in head for d in [s, *own(s)] if isinstance(d, (*FN, ast.Lambda)) for x in ast.walk(d) if isinstance(x, ast.Name)}
    if tailstores & inner:
        return False
    hname = f"_{share}_tail_of_{fn.name}".replace("0.", "")
    isasync = isinstance(fn, ast.AsyncFunctionDef)
    usesawait = any(has(s, ast.Await, ast.AsyncFor, ast.AsyncWith) for s in tail)
    first = fn.args.args[0].arg if cls and not static and fn.args.args else None
    if cls and not static and first is None:
        return False
    params = [v for v in use if v != first]
    args = ast.arguments([], [ast.arg(a) for a in ([first] if first else []) + params], None, [], [], None, [])
    helper = (ast.AsyncFunctionDef if usesawait else ast.FunctionDef)(hname, args, tail, [], None, None)
    if any(ast.unparse(d) == "classmethod" for d in fn.decorator_list):
        helper.decorator_list = [name("classmethod")]
    if hasattr(fn, "type_params"):
        helper.type_params = []
    if cls and not static:
        target = ast.Attribute(name(first), hname, ast.Load())
    elif cls:
        helper.decorator_list = [name("staticmethod")]
        target = ast.Attribute(name(cls), hname, ast.Load())
    else:
        target = name(hname)
    call = ast.Call(target, [name(v) for v in params], [])
    if usesawait:
        call = ast.Await(call)
    fn.body[k:] = [ast.Return(call)]
    return helper


def extract1(fn, cls):
    return extract(fn, cls, share=0.0)


def extract3(fn, cls):
    return extract(fn, cls, share=0.8)


def exprhelper(fn, cls, out=None):
    """The value of a plain assignment is computed by a new private helper."""
    if fn.name.startswith("__") or any(isinstance(n, ast.Name) and n.id in ("super", "locals") for n in ast.walk(fn)):
        return False
    params = _locals_before(fn)
    static = any(ast.unparse(d) == "staticmethod" for d in fn.decorator_list)
    clsm = any(ast.unparse(d) == "classmethod" for d in fn.decorator_list)
    first = fn.args.args[0].arg if cls and not static and fn.args.args else None
    if cls and (static or first is None):
        return False
    locs = set(params) | {n.id for n in own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {n.name for n in own(fn) if isinstance(n, (ast.ExceptHandler, *FN)) and n.name}
    for n, f, b in list(blocks(fn)):
        for s in b:
            if isinstance(s, ast.Assign) and not has(s.value, ast.Await, ast.NamedExpr, ast.Lambda, ast.Yield) and isinstance(s.value, (ast.Call, ast.BinOp, ast.ListComp, ast.DictComp, ast.BoolOp, ast.Compare, ast.IfExp)) and pick():
                comps = {y.id for c in ast.walk(s.value) if isinstance(c, ast.comprehension) for y in ast.walk(c.target) if isinstance(y, ast.Name)}
                use = []
                for x in ast.walk(s.value):
                    if isinstance(x, ast.Name) and x.id in locs and x.id not in comps and x.id != first and x.id not in use:
                        use.append(x.id)
                h = f"_value_of_{fn.name}"
                helper = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in ([first] if first else []) + use], None, [], [], None, []), [ast.Return(s.value)], [name("classmethod")] if clsm else [], None, None)
                if hasattr(fn, "type_params"):
                    helper.type_params = []
                s.value = ast.Call(ast.Attribute(name(first), h, ast.Load()) if first else name(h), [name(u) for u in use], [])
                return helper
    return False


def _helper(fn, cls, stmts, hname, ret=None, module=False, pub=False):
    """(helper def, call expression) running `stmts`, or None if they cannot move."""
    if any(isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.NamedExpr)) for s in stmts for n in [s, *own(s)]):
        return None
    if any(isinstance(n, ast.Name) and n.id in ("super", "locals", "__class__") for s in stmts for n in ast.walk(s)) or fn.name.startswith("__"):
        return None
    if any(isinstance(n, ast.Raise) and n.exc is None for s in stmts for n in [s, *own(s)]):
        return None
    deco = [ast.unparse(d) for d in fn.decorator_list]
    if "staticmethod" in deco or any("property" in d or "setter" in d or "abstract" in d for d in deco):
        return None
    stores = {n.id for s in stmts for n in [s, *own(s)] if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} | {n.name for s in stmts for n in [s, *own(s)] if isinstance(n, (ast.ExceptHandler, *FN, ast.ClassDef)) and n.name} | {(a.asname or a.name).split(".")[0] for s in stmts for n in [s, *own(s)] if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    comp = {y.id for s in stmts for c in ast.walk(s) if isinstance(c, ast.comprehension) for y in ast.walk(c.target) if isinstance(y, ast.Name)}
    stores -= comp
    inside = {id(n) for s in stmts for n in ast.walk(s)}
    if any(isinstance(n, ast.Name) and n.id in stores and id(n) not in inside for n in ast.walk(fn)):
        return None
    locs = set(_locals_before(fn)) | {n.id for n in own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in inside} | {n.name for n in own(fn) if isinstance(n, (ast.ExceptHandler, *FN)) and n.name and id(n) not in inside} | {(a.asname or a.name).split(".")[0] for n in own(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) and id(n) not in inside for a in n.names}
    first = fn.args.args[0].arg if cls and fn.args.args else None
    if cls and not first:
        return None
    use = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id in locs and n.id not in use and n.id != first and n.id not in stores:
                use.append(n.id)
    for d in own(fn):
        pass
    usesawait = any(has(s, ast.Await, ast.AsyncFor, ast.AsyncWith) for s in stmts)
    args = ([first] if first and not module else []) + ([first] if first and module and any(isinstance(n, ast.Name) and n.id == first for s in stmts for n in ast.walk(s)) else []) + use
    h = (ast.AsyncFunctionDef if usesawait else ast.FunctionDef)(hname, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), stmts, [], None, None)
    if first and not module and "classmethod" in deco:
        h.decorator_list = [name("classmethod")]
    if hasattr(fn, "type_params"):
        h.type_params = []
    f = ast.Attribute(name(first), hname, ast.Load()) if first and not module else name(hname)
    call = ast.Call(f, [name(a) for a in (args[1:] if first and not module else args)], [])
    if usesawait:
        call = ast.Await(call)
    return h, call


def _extractblock(fn, cls, kinds, fields, module=False):
    sites = [(n, f, b) for n, f, b in blocks(fn) if isinstance(n, kinds) and f in fields]
    RNG.shuffle(sites)
    for n, f, b in sites:
        if isinstance(n, ast.If) and f == "orelse" and len(b) == 1 and isinstance(b[0], ast.If):
            continue
        if not pick() or all(isinstance(s, ast.Pass) for s in b):
            continue
        r = _helper(fn, cls, list(b), f"_part_of_{(cls or str()) + fn.name if module else fn.name}", module=module)
        if r is None:
            continue
        h, call = r
        b[:] = [ast.Expr(call)]
        return ("module", h) if module else h
    return False


def extractif(fn, cls):
    return _extractblock(fn, cls, ast.If, ("body", "orelse"))


def extractloop(fn, cls):
    return _extractblock(fn, cls, (ast.For, ast.AsyncFor, ast.While), ("body",))


def extracttry(fn, cls):
    return _extractblock(fn, cls, (ast.Try, ast.With, ast.AsyncWith), ("body", "finalbody", "orelse"))


def extracthandler(fn, cls):
    return _extractblock(fn, cls, ast.ExceptHandler, ("body",))


def extractmodule(fn, cls):
    return _extractblock(fn, cls, (ast.If, ast.For, ast.AsyncFor, ast.Try, ast.With), ("body",), module=True)


def extractstmt(fn, cls):
    """One top-level compound or call statement moves to a helper."""
    sites = [s for s in fn.body if isinstance(s, (ast.If, ast.For, ast.AsyncFor, ast.Try, ast.With, ast.AsyncWith, ast.While)) or isinstance(s, ast.Expr) and isinstance(s.value, (ast.Call, ast.Await))]
    RNG.shuffle(sites)
    for s in sites:
        r = _helper(fn, cls, [s], f"_step_of_{fn.name}")
        if r:
            fn.body[fn.body.index(s)] = ast.Expr(r[1])
            return r[0]
    return False


def extractpub(fn, cls):
    r = extractstmt(fn, cls)
    if r:
        old = r.name
        r.name = f"step_of_{fn.name}"
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and n.attr == old:
                n.attr = r.name
            if isinstance(n, ast.Name) and n.id == old:
                n.id = r.name
    return r


STABLE = {"_application", "_app", "application", "_device", "_endpoint", "endpoint", "_dblistener", "_listener", "_db", "device"}


def hoist(fn, cls):
    """self._device and the like are read once, at the start."""
    if fn.name.startswith("__") or not fn.args.args or fn.args.args[0].arg != "self" or any("property" in ast.unparse(d) or "setter" in ast.unparse(d) for d in fn.decorator_list):
        return False
    if any(isinstance(n, (*FN, ast.Lambda, ast.GeneratorExp, ast.Yield)) for n in own(fn)):
        return False
    stored = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load)}
    reads = [n.attr for n in own(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in STABLE - stored]
    if not reads:
        return False
    a = reads[0]
    v = fresh(fn, "the" + a)

    class T(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr == a and isinstance(n.ctx, ast.Load):
                return name(v)
            return n
    i = 1 if ast.get_docstring(fn) is not None else 0
    fn.body[i:] = [T().visit(s) for s in fn.body[i:]]
    fn.body.insert(i, assign(v, ast.Attribute(name("self"), a, ast.Load())))
    return True


def isinst(fn, cls):
    ch = False

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal ch
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], (ast.Name, ast.Attribute)):
                ch = True
                return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [n.args[0], t], []) for t in n.args[1].elts])
            return n
    fn.body = [T().visit(s) for s in fn.body]
    return ch


def chain(fn, cls):
    """a < b < c  ->  a < b and b < c ; x in (a, b) -> x == a or x == b"""
    ch = False

    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            nonlocal ch
            self.generic_visit(n)
            if len(n.ops) == 2 and isinstance(n.comparators[0], (ast.Name, ast.Attribute, ast.Constant)):
                ch = True
                return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(n.comparators[0], [n.ops[1]], [n.comparators[1]])])
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.Set)) and isinstance(n.left, (ast.Name, ast.Attribute)) and not any(isinstance(e, ast.Starred) for e in n.comparators[0].elts):
                ch = True
                eq = isinstance(n.ops[0], ast.In)
                return ast.BoolOp(ast.Or() if eq else ast.And(), [ast.Compare(n.left, [ast.Eq() if eq else ast.NotEq()], [e]) for e in n.comparators[0].elts])
            return n
    fn.body = [T().visit(s) for s in fn.body]
    return ch


def walrus(fn, cls):
    ch = False
    for n, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, ast.If) and not isinstance(s.value, (ast.Await, ast.Yield)):
                v = s.targets[0].id
                c = t.test
                w = ast.NamedExpr(name(v, ast.Store()), s.value)
                if isinstance(c, ast.Name) and c.id == v:
                    t.test = w
                elif isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) and isinstance(c.operand, ast.Name) and c.operand.id == v:
                    c.operand = w
                elif isinstance(c, ast.Compare) and isinstance(c.left, ast.Name) and c.left.id == v and not any(isinstance(x, ast.Name) and x.id == v for y in c.comparators for x in ast.walk(y)):
                    c.left = w
                else:
                    i += 1
                    continue
                del b[i]
                ch = True
            i += 1
    return ch


def inlinevar(fn, cls):
    """A local read exactly once, in the very next statement, is written in place."""
    ch = False
    for n, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Assign, ast.Return, ast.Expr, ast.If, ast.Raise)):
                v = s.targets[0].id
                allr = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
                where = t.test if isinstance(t, ast.If) else t
                reads = [x for x in ast.walk(where) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
                nested = any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)) and any(y is reads[0] for y in ast.walk(x)) for x in ast.walk(where)) if reads else True
                # evaluation order: nothing with an effect may run before the read
                before = False
                for x in ast.walk(where):
                    if isinstance(x, (ast.Call, ast.Await)) and not any(y is (reads[0] if reads else None) for y in ast.walk(x)):
                        before = True
                if len(allr) == 2 and len(reads) == 1 and not nested and not before:
                    class T(ast.NodeTransformer):
                        def visit_Name(self, x):
                            return s.value if x is reads[0] else x
                    T().visit(where) if not isinstance(t, ast.If) else None
                    if isinstance(t, ast.If):
                        t.test = T().visit(t.test)
                    del b[i]
                    ch = True
                    continue
            i += 1
    return ch


def dictget(fn, cls):
    """try: x = d[k] except KeyError: A else: B  ->  if k not in d (plain names only)"""
    ch = False
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.Try) and len(s.body) == 1 and len(s.handlers) == 1 and not s.finalbody and isinstance(s.handlers[0].type, ast.Name) and s.handlers[0].type.id == "KeyError" and s.handlers[0].name is None and isinstance(s.body[0], ast.Assign) and isinstance(s.body[0].value, ast.Subscript) and isinstance(s.body[0].value.slice, (ast.Name, ast.Attribute, ast.Constant)) and not any(isinstance(x, ast.Raise) and x.exc is None for x in ast.walk(s.handlers[0])) and isinstance(s.body[0].value.value, (ast.Name, ast.Attribute)):
                d, k = s.body[0].value.value, s.body[0].value.slice
                b[b.index(s)] = ast.If(ast.Compare(k, [ast.NotIn()], [d]), s.handlers[0].body, [s.body[0], *s.orelse])
                ch = True
    return ch


def predicate(fn, cls):
    """An if's condition becomes a helper's result."""
    sites = [n for n in own(fn) if isinstance(n, ast.If) and not has(n.test, ast.Await, ast.NamedExpr, ast.Lambda) and not isinstance(n.test, ast.Name)]
    RNG.shuffle(sites)
    for n in sites:
        e = n.test
        st = ast.Expr(e)
        r = _helper(fn, cls, [st], f"_test_of_{fn.name}")
        if r:
            h, call = r
            h.body = [ast.Return(e)]
            n.test = call
            return h
    return False


def arghelper(fn, cls):
    """A call argument's value becomes a helper's result."""
    sites = []
    for n in own(fn):
        if isinstance(n, ast.Call):
            for i, a in enumerate(n.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.ListComp, ast.Dict, ast.List, ast.IfExp)):
                    sites.append((n.args, i, a))
            for k in n.keywords:
                if k.arg and isinstance(k.value, (ast.Call, ast.BinOp, ast.ListComp, ast.Dict, ast.List, ast.IfExp)):
                    sites.append((k, None, k.value))
    RNG.shuffle(sites)
    inner = {y.id for c in ast.walk(fn) if isinstance(c, ast.comprehension) for y in ast.walk(c.target) if isinstance(y, ast.Name)}
    for where, i, e in sites:
        if has(e, ast.Await, ast.NamedExpr, ast.Lambda, ast.Starred, ast.Yield) or any(isinstance(x, ast.Name) and x.id in inner for x in ast.walk(e)):
            continue
        r = _helper(fn, cls, [ast.Expr(e)], f"_arg_of_{fn.name}")
        if r:
            h, call = r
            h.body = [ast.Return(e)]
            if i is None:
                where.value = call
            else:
                where[i] = call
            return h
    return False


def swap(fn, cls):
    """Adjacent independent assignments without calls change places."""
    ch = False
    for n, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not has(s.value, ast.Call, ast.Await, ast.Subscript, ast.Attribute, ast.ListComp, ast.NamedExpr, ast.BinOp) for s in (x, y)):
                a, c = x.targets[0].id, y.targets[0].id
                if a != c and not any(isinstance(z, ast.Name) and z.id == a for z in ast.walk(y.value)) and not any(isinstance(z, ast.Name) and z.id == c for z in ast.walk(x.value)):
                    b[i], b[i + 1] = y, x
                    ch = True
                    i += 1
            i += 1
    return ch


def selfvar(fn, cls):
    """self.attr read more than once, never assigned, no awaits: through a local — only the first statement's uses."""
    ch = False
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, (ast.Expr, ast.Return)) and isinstance(s.value, (ast.Call, ast.Await)):
                c = s.value.value if isinstance(s.value, ast.Await) else s.value
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Attribute) and isinstance(c.func.value.value, ast.Name) and c.func.value.value.id == "self" and pick():
                    v = fresh(fn, "target_obj")
                    b.insert(b.index(s), assign(v, c.func.value))
                    c.func.value = name(v)
                    ch = True
    return ch


def augment(fn, cls):
    ch = False
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int) and isinstance(s.target, (ast.Name, ast.Attribute)) and pick():
                l = copy.deepcopy(s.target)
                l.ctx = ast.Load()
                b[b.index(s)] = ast.Assign([s.target], ast.BinOp(l, s.op, s.value))
                ch = True
    return ch


def elifs(fn, cls):
    """elif chains are already nested ifs in the tree; a leading `pass` makes them explicit blocks."""
    ch = False
    for n in own(fn):
        if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            n.orelse.insert(0, ast.Pass())
            ch = True
    return ch


def kwargs2var(fn, cls):
    """A keyword argument's value through a local, if everything before it is simple."""
    ch = False
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            e = s.value if isinstance(s, (ast.Expr, ast.Return, ast.Assign)) else None
            if isinstance(e, ast.Await):
                e = e.value
            if not isinstance(e, ast.Call) or has(e.func, ast.Call, ast.Await) or any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
                continue
            vals = [*e.args, *[k.value for k in e.keywords]]
            calls = [v for v in vals if has(v, ast.Call, ast.Await) and not isinstance(v, ast.Lambda)]
            if len(calls) == 1 and pick():
                v = fresh(fn, "tmp_value")
                b.insert(b.index(s), assign(v, calls[0]))
                e.args = [name(v) if a is calls[0] else a for a in e.args]
                for k in e.keywords:
                    if k.value is calls[0]:
                        k.value = name(v)
                ch = True
    return ch


def augseq(fn, cls):
    """a.append(x) stays; `d.update({k: v})` -> d[k] = v; `x.get(k)` untouched."""
    ch = False
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.Delete) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and not isinstance(s.targets[0].slice, ast.Slice) and pick():
                t = s.targets[0]
                b[b.index(s)] = ast.Expr(ast.Call(ast.Attribute(t.value, "pop", ast.Load()), [t.slice], []))
                ch = True
    return ch


def whileloop(fn, cls):
    """for i in range(n): -> while"""
    ch = False
    for n, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and not s.orelse and isinstance(s.target, ast.Name) and not has(s, ast.Continue) and pick():
                v, lim = fresh(fn, "counter"), fresh(fn, "limit")
                body = [assign(s.target.id, name(v)), assign(v, ast.BinOp(name(v), ast.Add(), ast.Constant(1))), *s.body]
                b[b.index(s):b.index(s) + 1] = [assign(lim, s.iter.args[0]), assign(v, ast.Constant(0)), ast.While(ast.Compare(name(v), [ast.Lt()], [name(lim)]), body, [])]
                ch = True
    return ch


def annotate(fn, cls):
    for n, f, b in list(blocks(fn)):
        b.insert(1 if b and n is fn and ast.get_docstring(fn) is not None else 0, ast.Expr(ast.Constant(...)))
    return True


KINDS = [rename, noop, invert, elsewrap, dedent, retvar, condvar, argvar, kworder, compare, splitand, joinand, demorgan, guardcontinue, uncontinue, guardreturn, comploop, loopcomp, anyloop, ternary, unternary, tryelse, aftertry, suppress, itervar, extract, extract1, extract3, exprhelper, extractif, extractloop, extracttry, extracthandler, extractmodule, extractstmt, predicate, arghelper, extractpub, hoist, isinst, chain, walrus, inlinevar, dictget, swap, selfvar, augment, elifs, kwargs2var, augseq, whileloop, annotate]
BYNAME = {k.__name__: k for k in KINDS}


def apply(tree, mod, kinds, only):
    changed = []

    def rec(body, prefix, cls):
        for n in list(body):
            if isinstance(n, FN):
                q = f"{mod}:{prefix}{n.name}"
                if only and not any(fnmatch.fnmatch(q, o) for o in only):
                    continue
                for k in kinds:
                    r = BYNAME[k](n, cls)
                    if r:
                        changed.append(q)
                    if isinstance(r, tuple):
                        tree.body.append(r[1])
                    if isinstance(r, ast.AST):
                        body.insert(body.index(n) + 1, r)
            elif isinstance(n, ast.ClassDef):
                if any("Enum" in ast.unparse(x) or "enum" in ast.unparse(x) for x in n.bases):
                    continue
                rec(n.body, prefix + n.name + ".", n.name)
            elif isinstance(n, (ast.If, ast.Try)):
                pass
    rec(tree.body, "", None)
    return changed


def build(dst, kinds, only):
    if dst.exists():
        shutil.rmtree(dst)
    shutil.copytree("/repo", dst, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    n = 0
    for f in sorted((dst / "zigpy").rglob("*.py")):
        mod = ".".join(f.relative_to(dst).with_suffix("").parts)
        if mod.endswith(".__init__"):
            mod = mod[:-9]
        tree = ast.parse(f.read_text())
        ch = apply(tree, mod, kinds, only)
        n += len(ch)
        if ch:
            ast.fix_missing_locations(tree)
            f.write_text(ast.unparse(tree) + "\n")
    return n


def run(dst, check, ev):
    env = dict(os.environ, ZCHECK_REPO=str(dst), ZCHECK_EVIDENCE=str(ev))
    r = subprocess.run([sys.executable, str(VERIF / "check.py"), check, "--tier", "quick"], cwd=VERIF, env=env, capture_output=True, text=True)
    return check, r.returncode, r.stdout + r.stderr


def main():
    global PROB, RNG
    ap = argparse.ArgumentParser()
    ap.add_argument("--kinds", default="")
    ap.add_argument("--only", default="")
    ap.add_argument("--checks", default="")
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--combine", action="store_true")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--prob", type=float, default=1.0)
    ap.add_argument("--show", type=int, default=3)
    a = ap.parse_args()
    PROB, RNG = a.prob, random.Random(a.seed)
    kinds = a.kinds.split(",") if a.kinds else [k.__name__ for k in KINDS]
    only = [o for o in a.only.split(",") if o]
    checks = a.checks.split(",") if a.checks else sorted(p.stem.upper() for p in (VERIF / "zcheck/rules").glob("c??.py"))
    groups = [kinds] if a.combine else [[k] for k in kinds]
    with cf.ThreadPoolExecutor(8) as ex:
        for g in groups:
            tag = "+".join(g) if len(g) < 4 else f"combined{a.seed}"
            dst = SCR / tag
            n = build(dst, g, only)
            if not n:
                print(tag, "no sites")
                continue
            ev = SCR / f"ev-{tag}"
            bad = [r for r in ex.map(lambda c: run(dst, c, ev), checks) if r[1] != 0]
            t = ""
            if a.tests:
                o = f"/tmp/rfz/{tag}.json"
                base = {x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]} if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "--deselect", "tests/test_quirks_v2.py::test_quirks_v2", "--deselect", "tests/test_serial.py::test_pyserial_error_remapping", "--ignore", "tests/ota/test_ota_providers.py"], cwd=dst, env=env, capture_output=True, text=True)
                t = " tests: " + r.stdout.strip().splitlines()[-1]
            print(f"{tag}: {n} functions, {len(bad)} checks alarmed{t}", " ".join(b[0] for b in bad), flush=True)
            for c, rc, out in bad:
                lines = [x for x in out.splitlines() if x.startswith("  ") or "analysis-broken" in x or "Error" in x]
                for x in lines[:a.show]:
                    print("    ", c, rc, x.strip().replace(str(dst), "")[:330])
            if not bad and not t.count("failed"):
                shutil.rmtree(dst)


if __name__ == "__main__":
    main()
