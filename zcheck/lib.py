"""Queries shared by several properties."""
from __future__ import annotations

import ast

from .core import UNK, calls, ev_callee, index, norm, show
from .model import AnalysisBroken, walk_own
from .walk import State, const, contains, subterms

EMIT = ("listener_event", "async_event")


def emits(path, name=None, base=None):
    """listener_event(<name>, ...) calls along a path."""
    out = []
    for e in path.events:
        if e.kind == "call" and e.name in EMIT and e.args and e.args[0][0] == "const":
            if (name is None or e.args[0][1] == name) and (base is None or (e.base is not None and norm(e.base) == base)):
                out.append(e)
    return out


def emit_args(e):
    return tuple(norm(a) for a in e.args[1:])


def emit_sites(ctx):
    """Every literal event announcement in the tree: [(func, node, receiver ast, event name, nargs or None)]."""
    out = []
    for f in ctx.p.funcs.values():
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in EMIT and n.args:
                a0 = n.args[0]
                v = ctx.kit.consteval(f.module, a0)
                if isinstance(v, str):
                    star = any(isinstance(x, ast.Starred) for x in n.args)
                    out.append((f, n, n.func.value, v, None if star or n.keywords else len(n.args) - 1))
    return out


def before(path, a, b):
    return index(path, a) < index(path, b)


def event_terms(e):
    return [norm(x) for x in e.args] + [norm(v) for _, v in e.kwargs]


def is_const(t, v):
    return t is not None and t[0] == "const" and t[1] == v and type(t[1]) is type(v)


def root(t):
    """Innermost object of an access path."""
    while t and t[0] in ("attr", "idx", "call", "elem"):
        t = t[1]
    return t


def reach_self(ctx, func, cls, seen=None):
    """Functions reachable from `func` through calls on self (syntactic)."""
    seen = seen if seen is not None else {}
    if func.qual in seen:
        return seen
    seen[func.qual] = func
    for n in walk_own(func.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
            m = ctx.p.find_method(cls, n.attr)
            if m is not None:
                reach_self(ctx, m, cls, seen)
    return seen


def calls_in(func, name):
    return [n for n in ast.walk(func.node) if isinstance(n, ast.Call) and
            (isinstance(n.func, ast.Attribute) and n.func.attr == name or isinstance(n.func, ast.Name) and n.func.id == name)]


def allfacts(path):
    """Every branch assumption made anywhere along a path."""
    out, seen = {}, set()
    for e in [*path.events, path]:
        if id(e.facts) in seen:
            continue
        seen.add(id(e.facts))
        for a, v in e.facts.items():
            out.setdefault((a, v), None)
    for _, a, v in path.trail:
        out.setdefault((a, v), None)
    return list(out)


def assumed(path, after=None, upto=None):
    """Assumptions made between two events of a path: [(normalised atom, value)]."""
    i = index(path, after) if after is not None else -1
    j = index(path, upto) if upto is not None else len(path.events)
    pos = {id(e): k for k, e in enumerate(path.events)}
    return [(norm(a), v) for ev, a, v in path.trail if i <= (pos.get(id(ev), -1) if ev is not None else -1) < j]


def isnone(path, term, val=True):
    """Was `term is None` assumed (with this outcome) along the path?"""
    return any(v is val and a[0] == "is" and norm(a)[2] == ("const", None) and norm(a)[1] == term for a, v in allfacts(path))


def ctor_fields(ctx, cls):
    """Field -> term over constructor parameters, for one class."""
    f = ctx.p.find_method(ctx.p.cls(cls) if isinstance(cls, str) else cls, "__init__")
    out = {}
    if f is None:
        return out, []
    ps = ctx.paths(f, handler_inject=False)
    for p in ps:
        if not p.normal:
            continue
        for e in p.events:
            if e.kind == "setattr" and norm(e.base)[0] == "self":
                out[norm(("attr", e.base, e.name))[2]] = norm(e.value)
    return out, list(f.params)[1:]


def simplifier(ctx, *classes):
    """Function that replaces `Cls(args).field` by what the constructor stored there."""
    info = {c: ctor_fields(ctx, c) for c in classes}

    def sub(t, env):
        if not isinstance(t, tuple) or not t or t[0] == "const":
            return t
        if t[0] == "param" and t[1] in env:
            return env[t[1]]
        return tuple(sub(x, env) if isinstance(x, tuple) else x for x in t)

    def go(t):
        if not isinstance(t, tuple) or not t or t[0] == "const":
            return t
        t = tuple(go(x) if isinstance(x, tuple) else x for x in t)
        if t[0] == "attr" and isinstance(t[1], tuple) and t[1] and t[1][0] == "call" and t[1][1][0] == "glob" and t[1][1][1] in info:
            fields, params = info[t[1][1][1]]
            v = fields.get(t[2])
            if v is not None:
                env = dict(zip(params, t[1][2]))
                env.update(dict(t[1][3]))
                r = sub(v, env)
                if all(x[0] in ("param", "attr", "self", "const", "idx") for x in subterms(r)):
                    return r
        return t
    return lambda t: go(norm(t))


def balance(path, takes, gives):
    """Net count of resources held at the end of a path."""
    return sum(1 for e in path.events if takes(e)) - sum(1 for e in path.events if gives(e))


def linear(t):
    """Integer linear normal form of a term: {atom: coefficient} with None for the constant."""
    t = norm(t)
    if t[0] == "const" and isinstance(t[1], int):
        return {None: int(t[1])}
    if t[0] == "bin" and len(t) == 4:
        op, a, b = t[1], t[2], t[3]
        if op in ("+", "-"):
            out = dict(linear(a))
            for k, v in linear(b).items():
                out[k] = out.get(k, 0) + (v if op == "+" else -v)
            return {k: v for k, v in out.items() if v}
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if x[0] == "const" and isinstance(x[1], int):
                    return {k: v * x[1] for k, v in linear(y).items() if v * x[1]}
    if t[0] == "un" and t[1] == "-":
        return {k: -v for k, v in linear(t[2]).items()}
    return {t: 1}


def lin_eq(a, b):
    d = dict(linear(a))
    for k, v in linear(b).items():
        d[k] = d.get(k, 0) - v
    return not any(d.values())


def lin_diff(a, b):
    d = dict(linear(a))
    for k, v in linear(b).items():
        d[k] = d.get(k, 0) - v
    return {k: v for k, v in d.items() if v}


def loops_over(path, src, kind="loopend"):
    return [e for e in path.events if e.kind == kind and e.base is not None and contains(norm(e.base), src)]


def derived(path, res, src):
    """Is `res` computed from `src` (directly, or element by element in a loop)?"""
    return res is not None and (contains(norm(res), src) or bool(loops_over(path, src)))


def keeps(ps, path, res, src, facts):
    """Does a filtered copy `res` of `src` keep an element for which `facts(elem)` hold?  None: this path does not say."""
    res = norm(res)
    truth = lambda v: ps.kit._truth(v)  # noqa: E731
    for x in subterms(res):
        if x[0] == "comp":
            for it, conds in x[3]:
                if contains(norm(it), src):
                    a = facts(("elem", norm(it)))
                    vals = [truth(ps.kit.teval(norm(c), a)) for c in conds]
                    if any(v is False for v in vals):
                        return False
                    return True if all(v is True for v in vals) else None
    its = loops_over(path, src, "loopiter")
    if its:
        el = ("elem", norm(its[0].base))
        if ps.consistent(path, facts(el), trail=True):
            return contains(res, el)
        return None
    return True if contains(res, src) else None


def data_fields(ctx, cls):
    """Ordered field names of a (data)class, base classes first."""
    out = []
    for c in reversed(ctx.p.mro(ctx.p.cls(cls))):
        for st in c.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if "ClassVar" in ast.unparse(st.annotation):
                    continue
                if st.target.id in out:
                    out.remove(st.target.id)
                out.append(st.target.id)
    return out


def field_of(ctx, path, t, name, cls=None):
    """Term of field `name` of the value `t`, looking through construction, `.replace()`, copies and later assignments."""
    t = norm(t)
    if path is not None:
        last = [e for e in path.events if e.kind == "setattr" and e.name == name and norm(e.base) == t]
        if last:
            return norm(last[-1].value)
    if t[0] == "attr":  # Cls(a=x).a
        inner = norm(t[1])
        if inner[0] == "call":
            v = field_of(ctx, path, inner, t[2], None)
            if v != t and v is not None:
                return field_of(ctx, path, v, name, cls)
        return ("attr", t, name)
    if t[0] == "call":
        fn, args, kw = t[1], t[2], dict(t[3])
        if fn[0] == "glob":
            if fn[1] in ("copy.copy", "copy.deepcopy") and args:
                return field_of(ctx, path, args[0], name, cls)
            if fn[1] in ("dataclasses.replace", "attrs.evolve") and args:
                return norm(kw[name]) if name in kw else field_of(ctx, path, args[0], name, cls)
            if fn[1] in ctx.p.classes:
                if name in kw:
                    return norm(kw[name])
                fs = data_fields(ctx, fn[1])
                if name in fs and fs.index(name) < len(args):
                    return norm(args[fs.index(name)])
                return ("default", fn[1], name)
        if fn[0] == "attr" and fn[2] == "replace" and not args:
            return norm(kw[name]) if name in kw else field_of(ctx, path, fn[1], name, cls)
    return ("attr", t, name)


def deref(ctx, path, t):
    """Resolve `Cls(field=x).field` chains."""
    t = norm(t)
    if t[0] == "attr":
        b = deref(ctx, path, t[1])
        v = field_of(ctx, path, b, t[2])
        return v if v[0] != "default" else ("attr", b, t[2])
    return t


def truths(ps, asg):
    """Truth values a predicate can return under an assignment (None: undecided)."""
    out = set()
    for p in ps:
        if p.outcome.kind not in ("return", "next") or not ps.consistent(p, asg):
            continue
        v = ps.kit.teval(norm(p.ret), asg) if p.ret is not None else None
        tv = ps.kit._truth(v) if v is not None else False
        out.add(tv if isinstance(tv, bool) else None)
    return out


def subst(t, a, b):
    """`t` with every occurrence of `a` replaced by `b`."""
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def _raw(t):
    return t + (None,) if t[0] == "param" and len(t) == 2 else t


def applied(ps, lam, *args):
    """Results of applying a lambda / local function term (as found in a raw term) to terms."""
    if lam[0] == "call" and lam[1] == ("glob", "operator.attrgetter") and lam[2]:
        vals = tuple(_attrs(args[0], x[1]) for x in lam[2] if x[0] == "const")
        return [norm(vals[0] if len(vals) == 1 else ("tuple", vals))]
    if lam[0] != "lam" or len(lam) < 3 or lam[1] not in ps.w.closures:
        return []
    w, c = ps.w, ps.w.closures[lam[1]]
    w.frames.append((c.frame, None))
    try:
        return list({norm(v) for _, v in w._call_closure(lam, tuple(_raw(a) for a in args), (), State(), c.node) if isinstance(v, tuple)})
    finally:
        w.frames.pop()


def applied_events(ps, lam, *args):
    """(events, facts) of each way a lambda / local function can run on the given terms."""
    w, c = ps.w, ps.w.closures[lam[1]]
    w.frames.append((c.frame, None))
    try:
        return [(s.event_list(), list(s.facts.items())) for s, _ in w._call_closure(lam, tuple(_raw(a) for a in args), (), State(), c.node)]
    finally:
        w.frames.pop()


def _attrs(t, dotted):
    for part in dotted.split("."):
        t = ("attr", t, part)
    return t


ELEM = ("param", "<element>")


def conditions(ps, path, coll):
    """Conditions every element of a collection term satisfies, as [(term, value)] over ELEM, and where they come from.

    Looks through sorted/list/tuple copies, `.values()`, comprehensions, and lists filled in a loop of the path.
    """
    t = norm(coll)
    if t[0] == "call" and t[1][0] == "glob" and t[1][1].split(".")[-1] in ("sorted", "tuple", "list", "set", "frozenset", "reversed") and t[2]:
        return conditions(ps, path, t[2][0])
    if t[0] == "call" and t[1][0] == "glob" and t[1][1] == "builtins.filter" and len(t[2]) == 2:
        cs, src = conditions(ps, path, t[2][1])
        return cs, src
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("values", "copy") and not t[2] and t[1][1][0] in ("comp", "call", "list", "dict"):
        return conditions(ps, path, t[1][1])
    if t[0] == "comp" and len(t[3]) == 1:
        it, cs = t[3][0]
        el = ("elem", norm(it))
        elt = t[2][1] if isinstance(t[2][0], tuple) and len(t[2]) == 2 else t[2]
        inner, src = conditions(ps, path, it) if norm(elt) == el else ([], t)
        return inner + [(subst(norm(c), el, ELEM), True) for c in cs], src
    if t[0] == "list" and t[1] and all(x[0] == "elem" for x in t[1]):
        el = t[1][0]
        inner, src = conditions(ps, path, el[1])
        facts = [(norm(a), v) for a, v in allfacts(path)]
        return inner + [(subst(a, el, ELEM), v) for a, v in facts if contains(a, el)], src
    return [], t


def implied(conds, want, value=True):
    """Does the list of conditions imply the (positive) term `want`?"""
    for c, v in conds:
        while c[0] in ("truthy", "not"):
            v, c = (v, c[1]) if c[0] == "truthy" else (not v, c[1])
        if c[0] == "cmp":
            pos = {"in": "in", "is": "is", "==": "eq"}
            neg = {"not in": "in", "is not": "is", "!=": "eq"}
            if c[1] in pos or c[1] in neg:
                v, c = (v if c[1] in pos else not v), ((pos.get(c[1]) or neg[c[1]]), c[2], c[3])
        if c == want and v == value:
            return True
        if c[0] == "boolop" and (c[1] == "and" and v or c[1] == "or" and not v):
            if implied([(x, v) for x in c[2]], want, value):
                return True
    return False
