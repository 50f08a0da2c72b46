"""Path walker: enumerates the abstract paths of one function.

A path is a list of events (calls, attribute/item writes, context enter/exit,
handler entries), the branch facts assumed along it and the way it ends.  Values
are symbolic *terms* built from the source (locals are replaced by what they were
assigned), so renaming, reordering or extracting helpers does not change a path.
No code is executed and no solver is used: branch conditions only ever become
entries in a table of assumed atoms, and a branch is dropped only when the very
same atom (or a syntactic negation/constant) is already in the table.
"""
from __future__ import annotations

import ast
import builtins
import itertools
import sys
from collections import namedtuple

from .model import Class, Func, Module, Program, walk_own

sys.setrecursionlimit(20000)

Event = namedtuple(
    "Event", "kind name term base callee args kwargs value ok node func facts awaited depth"
)

PURE = {
    "len", "isinstance", "issubclass", "getattr", "hasattr", "str", "int", "bytes", "repr",
    "min", "max", "sum", "abs", "set", "frozenset", "list", "tuple", "sorted", "range",
    "bool", "type", "id", "hash", "any", "all", "zip", "enumerate", "dict", "iter",
    "reversed", "float", "callable", "bytearray", "round", "divmod", "map", "filter", "next",
    "hex", "format", "ord", "chr", "vars", "super",
}
PURE_METHODS = {
    "items", "values", "keys", "lower", "upper", "strip", "startswith", "endswith", "split",
    "rsplit", "isoformat", "hex", "format", "copy", "as_tuple", "to_bytes", "count",
    "timestamp", "is_relative_to", "get", "replace", "index", "done", "total_seconds",
}
NORAISE_NAMES = {
    "len", "isinstance", "issubclass", "repr", "bool", "type", "id", "hasattr", "set", "list",
    "tuple", "dict", "range", "debug", "info", "warning", "error", "exception", "log",
    "enumerate", "zip", "sorted", "frozenset", "items", "values", "keys", "partial", "str",
    "super", "cast", "iter", "callable",
}
LOGGERS = {"debug", "info", "warning", "error", "exception", "log", "_log", "critical"}
MUTATORS = {"append", "extend", "add", "update", "insert", "setdefault", "appendleft"}

BUILTIN_EXC = {n: getattr(builtins, n) for n in dir(builtins)
               if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
CANCEL = "asyncio.CancelledError"
ANYEXC = "*Exception"          # an unknown subclass of Exception


class Outcome:
    __slots__ = ("kind", "value")

    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value

    def __repr__(self):
        return f"{self.kind}({self.value!r})"


NEXT = Outcome("next")
UNFOLDED = object()


class State:
    __slots__ = ("env", "heap", "facts", "events", "excs", "injected", "selfq", "notes", "trail")

    def __init__(self):
        self.env, self.heap, self.facts = {}, {}, {}
        self.trail = None   # cons list of (events so far, atom, value)
        self.events = None  # cons list
        self.excs = ()
        self.injected = 0
        self.notes = ()

    def copy(self):
        s = State()
        s.env, s.heap, s.facts = dict(self.env), dict(self.heap), dict(self.facts)
        s.trail = self.trail
        s.events, s.excs, s.injected, s.notes = self.events, self.excs, self.injected, self.notes
        return s

    def event_list(self):
        out, e = [], self.events
        while e is not None:
            out.append(e[0])
            e = e[1]
        out.reverse()
        return out


class Path:
    def __init__(self, st, outcome):
        self.events = st.event_list()
        self.facts = st.facts
        self._trail = st.trail
        self.outcome = outcome
        self.heap = st.heap
        self.env = st.env

    @property
    def trail(self):
        """Branch assumptions in order: [(event after which it was made or None, atom, value)]."""
        out, x = [], self._trail
        while x is not None:
            ev, at, val = x[0]
            out.append((ev[0] if ev else None, at, val))
            x = x[1]
        out.reverse()
        return out

    @property
    def normal(self):
        return self.outcome.kind in ("return", "next")

    @property
    def ret(self):
        if self.outcome.kind == "return":
            return self.outcome.value
        return ("const", None)

    @property
    def exc(self):
        return self.outcome.value if self.outcome.kind == "raise" else None


class TooManyPaths(Exception):
    pass


class Closure:
    def __init__(self, node, env, frame):
        self.node, self.env, self.frame = node, env, frame


class Frame:
    def __init__(self, func, module, cls, selfterm):
        self.func, self.module, self.cls, self.selfterm = func, module, cls, selfterm
        self.locals = set()


def const(v):
    return ("const", v)


NONE = const(None)
TRUE, FALSE = const(True), const(False)


def show(t, depth=0):
    """Readable form of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 8:
        return "..."
    d = depth + 1
    op = t[0]
    if op == "const":
        return repr(t[1])
    if op == "self":
        return "self"
    if op == "param":
        return t[1]
    if op == "glob":
        return t[1].split(".")[-1]
    if op == "attr":
        return f"{show(t[1], d)}.{t[2]}"
    if op == "idx":
        return f"{show(t[1], d)}[{show(t[2], d)}]"
    if op == "call":
        a = [show(x, d) for x in t[2]] + [f"{k}={show(v, d)}" for k, v in t[3]]
        return f"{show(t[1], d)}({', '.join(a)})"
    if op in ("bin",):
        return f"({show(t[2], d)} {t[1]} {show(t[3], d)})"
    if op == "cmp":
        return f"({show(t[2], d)} {t[1]} {show(t[3], d)})"
    if op == "not":
        return f"not {show(t[1], d)}"
    if op == "boolop":
        return "(" + f" {t[1]} ".join(show(x, d) for x in t[2]) + ")"
    if op in ("tuple", "list", "set"):
        return {"tuple": "(", "list": "[", "set": "{"}[op] + ", ".join(show(x, d) for x in t[1]) + {"tuple": ")", "list": "]", "set": "}"}[op]
    if op == "elem":
        return f"each({show(t[1], d)})"
    if op in ("isinstance", "eq", "lt", "is", "in"):
        return f"{op}({show(t[1], d)}, {show(t[2], d)})"
    if op == "truthy":
        return f"truthy({show(t[1], d)})"
    return "(" + " ".join(show(x, d) if isinstance(x, tuple) else str(x) for x in t) + ")"


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, sub):
    if not isinstance(t, tuple):
        return False
    if callable(sub):
        return any(sub(x) for x in subterms(t))
    return _has(t, sub)


def _has(t, sub):
    if t == sub:
        return True
    for x in t:
        if x.__class__ is tuple and _has(x, sub):
            return True
    return False


def only_return(fnode):
    """The expression a straight-line function returns, seen through simple temporaries."""
    env = {}
    for s in fnode.body:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            env[s.targets[0].id] = s.value
            continue
        if isinstance(s, ast.Return):
            v = s.value
            while isinstance(v, ast.Name) and v.id in env:
                v = env.pop(v.id)
            return v
        return None
    return None


class Walker:
    def __init__(self, program: Program, *, known=None, inline=(), noinline=(), inject=(),
                 loop=2, max_paths=60000, max_inject=1, depth=6, idx_raises=False,
                 may_raise=None, handler_inject=True, assert_raises=False, inline_all=False,
                 havoc_await=False, inline_if=None, max_handler_inject=2, inject_at=None):
        self.p = program
        self.known = known if known is not None else set()
        self.inline = set(inline)
        self.noinline = set(noinline)
        self.spawned = set()
        self.inject = tuple(f"builtins.{x}" if x in BUILTIN_EXC and x != "Exception" else x for x in inject)
        self.inject_at = inject_at
        self.loop = loop
        self.max_paths = max_paths
        self.max_inject = max_inject
        self.max_depth = depth
        self.idx_raises = idx_raises
        self.may_raise = may_raise
        self.handler_inject = handler_inject
        self.decider = None
        self.assert_raises = assert_raises
        self.inline_all = inline_all
        self.inline_if = inline_if
        self.havoc_await = havoc_await
        self.closures = {}
        self.counter = itertools.count(1)
        self.frames = []
        self.trystack = []      # list of list-of-exception-names
        self.npaths = 0
        self.seen_funcs = set()
        self.attr_types_cache = {}

    # ------------------------------------------------------------------ API
    def paths(self, func: Func, *, selfcls: Class | None = None, args=None, env=None):
        """All paths of `func`, with symbolic parameters."""
        out = []
        st = State()
        cls = selfcls or func.cls
        selfterm = None
        params = list(func.params)
        if cls is not None and not func.is_staticmethod and func.cls is not None and params:
            p0 = params.pop(0)
            if func.is_classmethod:
                selfterm = ("glob", cls.qual)
            else:
                selfterm = ("self", cls.qual)
            st.env[p0] = selfterm
        a = func.node.args
        for p in params + func.kwonly:
            st.env[p] = ("param", p, self.ann_type(func.module, func.annotation(p), func.cls))
        if a.vararg:
            st.env[a.vararg.arg] = ("param", "*" + a.vararg.arg, None)
        if a.kwarg:
            st.env[a.kwarg.arg] = ("param", "**" + a.kwarg.arg, None)
        for k, v in (args or {}).items():
            st.env[k] = v
        for k, v in (env or {}).items():
            st.env[k] = v
        fr = Frame(func, func.module, cls, selfterm)
        self.npaths = 0
        for st2, oc in self.run_body(func, st, fr):
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise TooManyPaths(f"{func.qual}: more than {self.max_paths} paths")
            out.append(Path(st2, oc))
        return out

    def run_body(self, func, st, frame, on_yield=None):
        self.seen_funcs.add(func.qual)
        self.frames.append((frame, on_yield))
        try:
            # generators: need frame popped/pushed around yields
            for r in self._framed(self.block(func.node.body, st), (frame, on_yield)):
                yield r
        finally:
            pass

    def _framed(self, gen, frame):
        """Run `gen` with `frame` on top of the frame stack only while it executes."""
        # frame was already pushed by the caller
        while True:
            try:
                item = next(gen)
            except StopIteration:
                self.frames.pop()
                return
            except BaseException:
                self.frames.pop()
                raise
            saved = self.frames.pop()
            saved_try = self.trystack
            yield item
            self.frames.append(saved)
            self.trystack = saved_try

    @property
    def fr(self) -> Frame:
        return self.frames[-1][0]

    # ------------------------------------------------------------ type hints
    def ann_type(self, module, ann, cls=None):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if not isinstance(ann.value, str):
                return None
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            for side in (ann.left, ann.right):
                r = self.ann_type(module, side, cls)
                if r and r != "builtins.None":
                    return r
            return None
        if isinstance(ann, ast.Subscript):
            n = ast.unparse(ann.value).split(".")[-1]
            if n in ("Optional",):
                return self.ann_type(module, ann.slice, cls)
            r = self.p.resolve_expr(module, ann.value, cls)
            return r if r in self.p.classes else None
        if isinstance(ann, ast.Name) and ann.id == "Self" and cls is not None:
            return cls.qual
        r = self.p.resolve_expr(module, ann, cls)
        alias = {"zigpy.typing.DeviceType": "zigpy.device.Device",
                 "zigpy.typing.ControllerApplicationType": "zigpy.application.ControllerApplication",
                 "zigpy.typing.EndpointType": "zigpy.endpoint.Endpoint",
                 "zigpy.typing.ClusterType": "zigpy.zcl.Cluster",
                 "zigpy.typing.CustomDeviceType": "zigpy.quirks.CustomDevice"}
        r = alias.get(r, r)
        if r in self.p.classes:
            return r
        return None

    def attr_type(self, cq, name):
        key = (cq, name)
        if key in self.attr_types_cache:
            return self.attr_types_cache[key]
        self.attr_types_cache[key] = None
        res = None
        c = self.p.classes.get(cq)
        if c is not None:
            for k in self.p.mro(c):
                if name in k.annots:
                    res = self.ann_type(k.module, k.annots[name], k)
                    if res:
                        break
                f = k.methods.get(name)
                if f is not None and f.is_property:
                    res = self.ann_type(k.module, f.node.returns, k)
                    if res is None:
                        v = only_return(f.node)
                        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self":
                            res = self.attr_type(cq, v.attr)
                    break
                if f is not None:
                    break
                found = False
                for m in k.methods.values():
                    if m.name != "__init__":
                        continue
                    for n in walk_own(m.node):
                        tgt = val = ann = None
                        if isinstance(n, ast.Assign) and len(n.targets) == 1:
                            tgt, val = n.targets[0], n.value
                        elif isinstance(n, ast.AnnAssign):
                            tgt, val, ann = n.target, n.value, n.annotation
                        if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self" and tgt.attr == name:
                            if ann is not None:
                                res = self.ann_type(k.module, ann, k)
                            if res is None and isinstance(val, ast.Call):
                                r = self.p.resolve_expr(k.module, val.func, k)
                                if r in self.p.classes:
                                    res = r
                            if res is None and isinstance(val, ast.Name):
                                res = self.ann_type(k.module, m.annotation(val.id), k)
                            found = True
                            break
                    if found:
                        break
                if res:
                    break
        self.attr_types_cache[key] = res
        return res

    def type_of(self, t):
        op = t[0]
        if op == "self":
            return t[1]
        if op == "param":
            return t[2]
        if op == "typed":
            return t[1]
        if op == "attr":
            b = self.type_of(t[1])
            if b:
                return self.attr_type(b, t[2])
            return None
        if op == "call":
            f = t[1]
            if f[0] == "glob":
                if f[1] in self.p.classes:
                    return f[1]
                fn = self.p.funcs.get(f[1])
                if fn is not None:
                    return self.ann_type(fn.module, fn.node.returns, fn.cls)
            if f[0] == "attr":
                b = self.type_of(f[1])
                if b and b in self.p.classes:
                    m = self.p.find_method(self.p.classes[b], f[2])
                    if m is not None:
                        return self.ann_type(m.module, m.node.returns, m.cls)
            return None
        if op == "exc":
            return t[1] if t[1] in self.p.classes else None
        return None

    def trivial_prop(self, cq, name):
        """Public property that just returns self._x: canonical public name for _x."""
        c = self.p.classes.get(cq)
        if c is None or not name.startswith("_") or name.startswith("__"):
            return name
        pub = name[1:]
        f = self.p.find_method(c, pub)
        if f is None or not f.is_property:
            return name
        v = only_return(f.node)
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self" and v.attr == name:
            return pub
        return name

    # ------------------------------------------------------------ exceptions
    def exc_match(self, exc, handler):
        """True / False / None(maybe): is exception type `exc` caught by handler type?"""
        if handler in ("builtins.BaseException", None):
            return True
        hname = handler.split(".")[-1]
        if exc == handler:
            return True
        if exc == CANCEL:
            return hname == "CancelledError"
        if exc == ANYEXC:
            if handler == "builtins.Exception":
                return True
            if hname in ("CancelledError", "KeyboardInterrupt", "GeneratorExit", "SystemExit"):
                return False
            return None
        if hname == "CancelledError":
            return False
        if handler == "builtins.Exception":
            return True
        ename = exc.split(".")[-1]
        alias = {"asyncio.TimeoutError": "builtins.TimeoutError", "asyncio.exceptions.TimeoutError": "builtins.TimeoutError"}
        exc, handler = alias.get(exc, exc), alias.get(handler, handler)
        if exc == handler:
            return True
        if exc in self.p.classes:
            return handler in self._exc_bases(exc)
        if exc.startswith("builtins.") and handler.startswith("builtins."):
            a, b = BUILTIN_EXC.get(exc[9:]), BUILTIN_EXC.get(handler[9:])
            if a and b:
                return issubclass(a, b)
        if exc.startswith("builtins.") and handler in self.p.classes:
            return False
        if handler.startswith("sqlite3.") or handler.endswith("sqlite3.Error"):
            return ".sqlite3." in "." + exc or "sqlite3" in exc
        if exc.startswith("builtins.") and "asyncio" in handler:
            return ename == handler.split(".")[-1]
        return False

    def _exc_bases(self, q):
        c = self.p.classes[q]
        out = set()
        for k in self.p.mro(c):
            out.add(k.qual)
            for b in k.node.bases:
                r = self.p.resolve_expr(k.module, b)
                if r:
                    out.add(r)
                    if r.startswith("builtins."):
                        e = BUILTIN_EXC.get(r[9:])
                        if e:
                            out.update(f"builtins.{x.__name__}" for x in e.__mro__)
        return out

    # ------------------------------------------------------------ events
    def emit(self, st, kind, name, *, term=None, base=None, callee=None, args=(), kwargs=(),
             value=None, ok=True, node=None, awaited=False):
        ev = Event(kind, name, term, base, callee, args, kwargs, value, ok, node,
                   self.fr.func if self.frames else None, st.facts, awaited, len(self.frames))
        st.events = (ev, st.events)
        # facts are copy-on-write: later assumes replace the dict
        return ev

    # ------------------------------------------------------------ facts
    def atom(self, t):
        """(atom, polarity) canonical form of a boolean term."""
        pol = True
        while True:
            if t[0] == "not":
                t, pol = t[1], not pol
                continue
            if t[0] == "call" and t[1] == ("glob", "builtins.bool") and len(t[2]) == 1:
                t = t[2][0]
                continue
            break
        if t[0] == "cmp":
            op, a, b = t[1], t[2], t[3]
            if op in ("is not", "!=", "not in"):
                pol = not pol
                op = {"is not": "is", "!=": "==", "not in": "in"}[op]
            if op in (">", ">="):
                op = {">": "<", ">=": "<="}[op]
                a, b = b, a
            if op == "<=":
                op, a, b, pol = "<", b, a, not pol
            lena = a[2][0] if a[0] == "call" and a[1] == ("glob", "builtins.len") and len(a[2]) == 1 else None
            lenb = b[2][0] if b[0] == "call" and b[1] == ("glob", "builtins.len") and len(b[2]) == 1 else None
            if op == "==" and lena and b == const(0):
                return ("truthy", lena), not pol
            if op == "==" and lenb and a == const(0):
                return ("truthy", lenb), not pol
            if op == "<" and lenb and a == const(0):
                return ("truthy", lenb), pol
            if op == "<" and lena and b == const(1):
                return ("truthy", lena), not pol
            if op in ("==", "is") and b[0] == "const" and b[1] is True:
                at, p2 = self.atom(a)
                return at, (p2 == pol)
            if op == "is" and b[0] == "const" and b[1] is False:
                at, p2 = self.atom(a)
                return at, (p2 != pol)
            if op == "==":
                if b == NONE or a == NONE:
                    op = "is"
                else:
                    if self._key(b) < self._key(a):
                        a, b = b, a
                    return ("eq", a, b), pol
            if op == "is":
                if self._key(b) < self._key(a) or a == NONE:
                    a, b = b, a
                if a == NONE and b != NONE:
                    a, b = b, a
                return ("is", a, b), pol
            if op == "<":
                return ("lt", a, b), pol
            if op == "in":
                return ("in", a, b), pol
        if t[0] == "call" and t[1] == ("glob", "builtins.isinstance") and len(t[2]) == 2:
            return ("isinstance", t[2][0], t[2][1]), pol
        if t[0] == "call" and t[1] == ("glob", "builtins.len") and len(t[2]) == 1:
            return ("truthy", t[2][0]), pol
        if t[0] in ("eq", "is", "lt", "in", "isinstance", "truthy"):
            return t, pol
        return ("truthy", t), pol

    @staticmethod
    def _key(t):
        return (t[0] == "const", repr(t))

    def decide(self, at, facts):
        if at in facts:
            return facts[at]
        k = at[0]
        if k == "truthy":
            t = at[1]
            if t[0] == "const":
                return bool(t[1])
            if t[0] in ("tuple", "list", "set", "dict"):
                if not any(isinstance(x, tuple) and x and x[0] == "star" for x in t[1]):
                    return bool(t[1])
                return None
            if t[0] in ("lam", "glob"):
                return True
            if facts.get(("is", t, NONE)) is True:
                return False
            if t[0] == "call" and t[1][0] == "glob" and t[1][1] in self.p.classes and not self._has_bool(t[1][1]):
                return True
        elif k == "is":
            a, b = at[1], at[2]
            if a == b:
                return True
            if a[0] == "const" and b[0] == "const":
                return a[1] is b[1]
            if b == NONE:
                if a[0] in ("tuple", "list", "set", "dict", "self", "glob", "lam", "fstr", "comp"):
                    return False
                if a[0] == "call" and a[1][0] == "glob" and (a[1][1] in self.p.classes):
                    return False
                if facts.get(("truthy", a)) is True:
                    return False
                for f, v in facts.items():
                    if v and f[0] == "isinstance" and f[1] == a:
                        return False
                    if v and f[0] == "eq" and a in f[1:] and any(x[0] == "const" and x[1] is not None for x in f[1:]):
                        return False
        elif k == "eq":
            a, b = at[1], at[2]
            if a == b:
                return True
            if a[0] == "const" and b[0] == "const":
                return a[1] == b[1]
            ea, eb = self._enumlike(a), self._enumlike(b)
            if ea and eb and ea[0] == eb[0] and ea[1] != eb[1]:
                return False
            # x == c1 known -> x == c2 false
            for x, c in ((a, b), (b, a)):
                if not (c[0] == "const" or self._enumlike(c)):
                    continue
                if c[0] == "const" and c[1] is not None and facts.get(("is", x, NONE)) is True:
                    return False
                for f, v in facts.items():
                    if v and f[0] == "eq" and x in f[1:]:
                        o = f[2] if f[1] == x else f[1]
                        if o != c and self._distinct(o, c):
                            return False
        elif k == "lt":
            a, b = at[1], at[2]
            if a[0] == "const" and b[0] == "const":
                try:
                    return a[1] < b[1]
                except TypeError:
                    return None
            if facts.get(("lt", b, a)) is True:
                return False
            e = ("eq",) + ((a, b) if self._key(a) <= self._key(b) else (b, a))
            if facts.get(e) is True:
                return False
        elif k == "isinstance":
            a, b = at[1], at[2]
            if a[0] == "const" and b[0] == "glob" and b[1].startswith("builtins."):
                ty = getattr(builtins, b[1][9:], None)
                if isinstance(ty, type):
                    return isinstance(a[1], ty)
            if a == NONE:
                return False
            if facts.get(("is", a, NONE)) is True:
                return False
            if a[0] == "call" and a[1][0] == "glob" and a[1][1] in self.p.classes and b[0] == "glob" and b[1] in self.p.classes:
                if self.p.is_subclass(a[1][1], b[1]):
                    return True
            if a[0] == "self" and b[0] == "glob" and self.p.is_subclass(a[1], b[1]):
                return True
            if a[0] == "exc" and b[0] == "glob":
                r = self.exc_match(a[1], b[1])
                return r
        return None

    def _has_bool(self, q):
        c = self.p.classes[q]
        for k in self.p.mro(c):
            if "__bool__" in k.methods or "__len__" in k.methods:
                return True
        for b in self.p.base_names(c):
            if b.split(".")[-1] in ("dict", "list", "int", "str", "bytes", "set", "IntEnum", "Enum", "IntFlag", "float", "tuple"):
                return True
        return False

    def _enumlike(self, t):
        if t[0] == "attr" and t[1][0] == "glob" and t[1][1] in self.p.classes and t[2].isupper():
            return (t[1][1], t[2])
        if t[0] == "attr" and t[1][0] == "glob" and t[1][1] in self.p.classes:
            c = self.p.classes[t[1][1]]
            k, v = self.p.find_attr(c, t[2])
            if v is not None and isinstance(v, ast.Constant):
                return (t[1][1], t[2])
        if t[0] == "glob" and t[1].rsplit(".", 1)[0] in self.p.classes:
            return tuple(t[1].rsplit(".", 1))
        return None

    def _distinct(self, a, b):
        if a[0] == "const" and b[0] == "const":
            return a[1] != b[1]
        ea, eb = self._enumlike(a), self._enumlike(b)
        return bool(ea and eb and ea[0] == eb[0] and ea[1] != eb[1])

    def assume(self, st, at, val):
        st.facts = dict(st.facts)
        st.facts[at] = val
        st.trail = ((st.events, at, val), st.trail)
        return st

    def split(self, t, st):
        """Fork on the truth of term t: yields (state, bool)."""
        if t[0] == "not":
            for s, v in self.split(t[1], st):
                yield s, not v
            return
        if t[0] == "boolop":
            yield from self._split_bool(t[1], t[2], st)
            return
        if t[0] == "ifexp":
            for s, c in self.split(t[1], st):
                yield from self.split(t[2] if c else t[3], s)
            return
        if t[0] == "cmp" and t[1] in ("in", "not in"):
            # membership in a literal or a constant range
            neg = t[1] == "not in"
            a, b = t[2], t[3]
            items = None
            if b[0] in ("tuple", "list", "set"):
                items = b[1]
            elif b[0] == "call" and b[1] == ("glob", "builtins.range") and not b[3] and 1 <= len(b[2]) <= 2:
                lo, hi = (const(0), b[2][0]) if len(b[2]) == 1 else b[2]
                tt = ("boolop", "and", (("not", ("cmp", "<", a, lo)), ("cmp", "<", a, hi)))
                for s, v in self.split(tt, st):
                    yield s, v != neg
                return
            if items is not None and not any(x[0] == "star" for x in items):
                if not items:
                    yield st, neg
                    return
                tt = ("boolop", "or", tuple(("cmp", "==", a, x) for x in items))
                for s, v in self.split(tt, st):
                    yield s, v != neg
                return
        if t[0] == "call" and t[1] == ("glob", "builtins.isinstance") and len(t[2]) == 2 and t[2][1][0] == "tuple":
            tt = ("boolop", "or", tuple(("call", t[1], (t[2][0], x), (), 0) for x in t[2][1][1]))
            yield from self.split(tt, st)
            return
        if t[0] == "call" and t[1] in (("glob", "builtins.any"), ("glob", "builtins.all")) and len(t[2]) == 1 and t[2][0][0] in ("tuple", "list"):
            yield from self._split_bool("or" if t[1][1].endswith("any") else "and", t[2][0][1], st)
            return
        at, pol = self.atom(t)
        d = self.decide(at, st.facts)
        if d is None and self.decider is not None:
            d = self.decider(at)
        if d is not None:
            if at not in st.facts:
                st = self.assume(st.copy(), at, d)
            yield st, (d == pol)
            return
        for v in (True, False):
            s = self.assume(st.copy(), at, v)
            yield s, (v == pol)

    def _split_bool(self, op, items, st):
        if len(items) == 1:
            yield from self.split(items[0], st)
            return
        for s, v in self.split(items[0], st):
            if (op == "and" and not v) or (op == "or" and v):
                yield s, v
            else:
                yield from self._split_bool(op, items[1:], s)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        if not stmts:
            yield st, NEXT
            return
        head, rest = stmts[0], stmts[1:]
        for s, oc in self.stmt(head, st):
            if oc.kind == "next":
                if rest:
                    yield from self.block(rest, s)
                else:
                    yield s, oc
            else:
                yield s, oc

    def stmt(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            yield st, NEXT
            return
        yield from m(n, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            yield st, NEXT
            return
        for s, v in self.ev(n.value, st):
            if isinstance(v, Outcome):
                yield s, v
            else:
                yield s, NEXT

    def s_Pass(self, n, st):
        yield st, NEXT

    def s_Return(self, n, st):
        if n.value is None:
            yield st, Outcome("return", NONE)
            return
        for s, v in self.ev(n.value, st):
            yield s, (v if isinstance(v, Outcome) else Outcome("return", v))

    def s_Break(self, n, st):
        yield st, Outcome("break")

    def s_Continue(self, n, st):
        yield st, Outcome("continue")

    def s_Assert(self, n, st):
        for s, v in self.cond(n.test, st):
            if isinstance(v, Outcome):
                yield s, v
            elif v:
                yield s, NEXT
            elif self.assert_raises:
                yield s, Outcome("raise", ("exc", "builtins.AssertionError", 0))

    def s_Raise(self, n, st):
        if n.exc is None:
            e = st.excs[-1] if st.excs else ("exc", ANYEXC, 0)
            self.emit(st, "raise", "reraise", value=e, node=n)
            yield st, Outcome("raise", e)
            return
        for s, v in self.ev(n.exc, st):
            if isinstance(v, Outcome):
                yield s, v
                continue
            yield from self._raise_value(n, s, v)

    def _raise_value(self, n, s, v):
        ty = None
        if v[0] == "exc":
            e = v
        else:
            t = v[1] if v[0] == "call" else v
            if t[0] == "glob":
                ty = t[1]
            elif v[0] == "attr" and v[2] == "__context__":
                ty = ANYEXC
            else:
                ty = ANYEXC
            e = ("exc", ty, v)
        s = s.copy()
        self.emit(s, "raise", e[1], value=e, node=n)
        yield s, Outcome("raise", e)

    def s_Assign(self, n, st):
        for s, v in self.ev(n.value, st):
            if isinstance(v, Outcome):
                yield s, v
                continue
            yield from self._assign_many(n.targets, v, s, n)

    def _assign_many(self, targets, v, st, n):
        if not targets:
            yield st, NEXT
            return
        for s, oc in self.assign(targets[0], v, st, n):
            if oc.kind != "next":
                yield s, oc
            else:
                yield from self._assign_many(targets[1:], v, s, n)

    def s_AnnAssign(self, n, st):
        if n.value is None:
            yield st, NEXT
            return
        for s, v in self.ev(n.value, st):
            if isinstance(v, Outcome):
                yield s, v
                continue
            if v[0] == "call" and self.type_of(v) is None:
                pass
            yield from self.assign(n.target, v, s, n)

    def s_AugAssign(self, n, st):
        op = self._op(n.op)
        load = _as_load(n.target)
        for s, cur in self.ev(load, st):
            if isinstance(cur, Outcome):
                yield s, cur
                continue
            for s2, v in self.ev(n.value, s):
                if isinstance(v, Outcome):
                    yield s2, v
                    continue
                yield from self.assign(n.target, self.mkbin(op, cur, v), s2, n)

    def s_Delete(self, n, st):
        yield from self._del_many(n.targets, st, n)

    def _del_many(self, targets, st, n):
        if not targets:
            yield st, NEXT
            return
        t = targets[0]
        if isinstance(t, ast.Name):
            s = st.copy()
            s.env.pop(t.id, None)
            yield from self._del_many(targets[1:], s, n)
        elif isinstance(t, ast.Attribute):
            for s, b in self.ev(t.value, st):
                if isinstance(b, Outcome):
                    yield s, b
                    continue
                s = s.copy()
                self.emit(s, "delattr", t.attr, base=b, node=n)
                yield from self._del_many(targets[1:], s, n)
        elif isinstance(t, ast.Subscript):
            for s, b in self.ev(t.value, st):
                if isinstance(b, Outcome):
                    yield s, b
                    continue
                for s2, k in self.ev(t.slice, s):
                    if isinstance(k, Outcome):
                        yield s2, k
                        continue
                    s2 = s2.copy()
                    self.emit(s2, "delidx", "del", base=b, args=(k,), node=n)
                    yield from self._del_many(targets[1:], s2, n)
        else:
            yield from self._del_many(targets[1:], st, n)

    def assign(self, tgt, v, st, node):
        if isinstance(tgt, ast.Name):
            s = st.copy()
            s.env[tgt.id] = v
            yield s, NEXT
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            yield from self._unpack(list(tgt.elts), v, st, node)
        elif isinstance(tgt, ast.Starred):
            yield from self.assign(tgt.value, v, st, node)
        elif isinstance(tgt, ast.Attribute):
            for s, b in self.ev(tgt.value, st):
                if isinstance(b, Outcome):
                    yield s, b
                    continue
                ty = self.type_of(b)
                name = tgt.attr
                setter = None
                if ty and ty in self.p.classes:
                    setter = self.p.find_setter(self.p.classes[ty], name)
                if setter is not None:
                    term = ("call", ("attr", b, name + ".setter"), (v,), (), next(self.counter))
                    yield from self._drop_value(self.call_func(setter, b, (v,), (), s, node, term))
                    continue
                s = s.copy()
                cname = self.trivial_prop(ty, name) if ty else name
                self.emit(s, "setattr", cname, base=b, value=v, node=node)
                s.heap[(b, cname)] = v
                # facts about this attribute are stale now
                loc = ("attr", b, cname)
                s.facts = {k: x for k, x in s.facts.items() if not _mentions(k, loc)}
                yield s, NEXT
        elif isinstance(tgt, ast.Subscript):
            for s, b in self.ev(tgt.value, st):
                if isinstance(b, Outcome):
                    yield s, b
                    continue
                for s2, k in self.ev(tgt.slice, s):
                    if isinstance(k, Outcome):
                        yield s2, k
                        continue
                    s2 = s2.copy()
                    self.emit(s2, "setidx", "setitem", base=b, args=(k,), value=v, node=node)
                    if b[0] == "dict":
                        new = ("dict", b[1] + ((k, v),))
                        self._rebind(s2, b, new)
                    else:
                        s2.heap[("idx", b, k)] = v
                        at = ("in", k, b)
                        s2.facts = {kk: x for kk, x in s2.facts.items() if kk[0] != "in" or kk[2] != b}
                        s2.facts[at] = True
                    yield s2, NEXT
        else:
            yield st, NEXT

    def _drop_value(self, gen):
        for s, v in gen:
            yield s, (v if isinstance(v, Outcome) else NEXT)

    def _rebind(self, st, old, new):
        for k, v in list(st.env.items()):
            if v is old:
                st.env[k] = new
        for k, v in list(st.heap.items()):
            if v is old:
                st.heap[k] = new

    def _unpack(self, elts, v, st, node):
        if not elts:
            yield st, NEXT
            return
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = []
        for i, e in enumerate(elts):
            if star and i == star[0]:
                vals.append(("rest", v, i))
            elif v[0] in ("tuple", "list") and not star and len(v[1]) == len(elts):
                vals.append(v[1][i])
            else:
                vals.append(("idx", v, const(i if not star or i < star[0] else i - len(elts))))
        def rec(i, s):
            if i == len(elts):
                yield s, NEXT
                return
            for s2, oc in self.assign(elts[i], vals[i], s, node):
                if oc.kind != "next":
                    yield s2, oc
                else:
                    yield from rec(i + 1, s2)
        yield from rec(0, st)

    def s_If(self, n, st):
        for s, v in self.cond(n.test, st):
            if isinstance(v, Outcome):
                yield s, v
            else:
                yield from self.block(n.body if v else n.orelse, s)

    def s_While(self, n, st):
        yield from self._while(n, st, self.loop)

    def _while(self, n, st, left):
        for s, v in self.cond(n.test, st):
            if isinstance(v, Outcome):
                yield s, v
                continue
            if not v:
                yield from self.block(n.orelse, s)
                continue
            if left == 0:
                yield s, Outcome("cut")
                continue
            for s2, oc in self.block(n.body, s):
                if oc.kind == "break":
                    yield s2, NEXT
                elif oc.kind in ("next", "continue"):
                    s2 = s2.copy()
                    s2.facts = self._loop_havoc(s2, n)
                    yield from self._while(n, s2, left - 1)
                else:
                    yield s2, oc

    def _loop_havoc(self, st, n):
        """Branch facts about mutable state do not survive a loop iteration."""
        return {k: v for k, v in st.facts.items() if not _has_state(k)}

    def s_For(self, n, st):
        for s, it in self.ev(n.iter, st):
            if isinstance(it, Outcome):
                yield s, it
                continue
            yield from self._for(n, it, s, 0)

    s_AsyncFor = s_For

    def _for(self, n, it, st, i):
        # literal sequences are unrolled exactly
        if it[0] in ("tuple", "list") and not any(x[0] == "star" for x in it[1]):
            if i < len(it[1]) and i < 24:
                yield from self._iter_body(n, it, it[1][i], st, i)
            else:
                yield from self.block(n.orelse, st)
            return
        # exit
        s_exit = st.copy()
        self.emit(s_exit, "loopend", "for", base=it, node=n, args=(const(i),))
        yield from self.block(n.orelse, s_exit)
        if i >= self.loop:
            return
        s = st.copy()
        self.emit(s, "loopiter", "for", base=it, node=n, args=(const(i),))
        yield from self._iter_body(n, it, ("elem", it, i), s, i)

    def _iter_body(self, n, it, val, st, i):
        for s, oc in self.assign(n.target, val, st, n):
            if oc.kind != "next":
                yield s, oc
                continue
            for s2, oc2 in self.block(n.body, s):
                if oc2.kind == "break":
                    yield s2, NEXT
                elif oc2.kind in ("next", "continue"):
                    yield from self._for(n, it, s2, i + 1)
                else:
                    yield s2, oc2

    def _handler_types(self, h):
        if h.type is None:
            return ["builtins.BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            r = self.p.resolve_expr(self.fr.module, t, None)
            if r is None:
                out.append("?" + ast.unparse(t))
                continue
            v = None
            b, _, nme = r.rpartition(".")
            if b in self.p.modules and nme in self.p.modules[b].assigns:
                v = self.p.modules[b].assigns[nme]
            if isinstance(v, ast.Tuple):
                out.extend(self.p.resolve_expr(self.p.modules[b], e) or "?" for e in v.elts)
            else:
                if r.endswith("appdb.sqlite3.Error"):
                    r = "sqlite3.Error"
                if r.endswith("appdb.sqlite3.IntegrityError"):
                    r = "sqlite3.IntegrityError"
                out.append(r)
        return out

    def s_Try(self, n, st):
        htypes = [self._handler_types(h) for h in n.handlers]
        flat = [t for ts in htypes for t in ts]
        outer = self.trystack
        inner = outer + [flat]

        def body():
            for s, oc in self._with_try(self.block(n.body, st), inner):
                if oc.kind == "next":
                    if n.orelse:
                        yield from self.block(n.orelse, s)
                    else:
                        yield s, oc
                elif oc.kind == "raise":
                    yield from self._handle(n, htypes, s, oc)
                else:
                    yield s, oc

        if not n.finalbody:
            yield from body()
            return
        for s, oc in self._with_try(body(), outer + [["builtins.BaseException!finally"]]):
            for s2, oc2 in self.block(n.finalbody, s):
                yield s2, (oc if oc2.kind == "next" else oc2)

    def _with_try(self, gen, stack):
        saved = self.trystack
        while True:
            self.trystack = stack
            try:
                item = next(gen)
            except StopIteration:
                self.trystack = saved
                return
            finally:
                self.trystack = saved
            yield item

    def _handle(self, n, htypes, st, oc):
        exc = oc.value
        pending = True
        for h, ts in zip(n.handlers, htypes):
            res = [self.exc_match(exc[1], t) for t in ts]
            if any(r is True for r in res):
                yield from self._run_handler(h, st, exc)
                pending = False
                break
            for t, r in zip(ts, res):
                if r is None:
                    yield from self._run_handler(h, st, ("exc", t, exc[2]))
        if pending:
            yield st, oc

    def _run_handler(self, h, st, exc):
        s = st.copy()
        if h.name:
            s.env[h.name] = exc
        s.excs = s.excs + (exc,)
        self.emit(s, "handler", exc[1], value=exc, node=h)
        for s2, oc in self.block(h.body, s):
            s2 = s2.copy()
            s2.excs = s2.excs[:-1]
            yield s2, oc

    # with --------------------------------------------------------------
    def s_With(self, n, st):
        yield from self._with(list(n.items), n, st)

    s_AsyncWith = s_With

    def _with(self, items, n, st):
        if not items:
            yield from self.block(n.body, st)
            return
        item, rest = items[0], items[1:]

        def body(s):
            yield from self._with(rest, n, s)

        # evaluate the context expression; inline generator context managers
        yield from self._with_item(item, body, n, st)

    def _with_item(self, item, body, n, st):
        e = item.context_expr
        if isinstance(e, ast.Call):
            for s, call in self.ev_callparts(e, st):
                if isinstance(call, Outcome):
                    yield s, call
                    continue
                fterm, recv, callee, args, kwargs = call
                # contextlib.suppress(E, ...): an except-and-ignore handler
                if fterm == ("glob", "contextlib.suppress"):
                    types = [a[1] if a[0] == "glob" else "?" for a in args]
                    for s2, oc in self._with_try(body(s), self.trystack + [types]):
                        if oc.kind == "raise":
                            res = [self.exc_match(oc.value[1], t) for t in types]
                            if any(r is True for r in res):
                                yield s2, NEXT
                                continue
                            if any(r is None for r in res):
                                yield s2.copy(), NEXT
                        yield s2, oc
                    continue
                if callee is not None and callee.is_ctxmgr and self.want_inline(callee):
                    yield from self._gen_ctx(callee, recv, args, kwargs, item, body, n, s)
                    continue
                # ordinary call producing a context manager
                for s2, v in self.do_call(fterm, recv, callee, args, kwargs, s, e):
                    if isinstance(v, Outcome):
                        yield s2, v
                    else:
                        yield from self._obj_ctx(v, item, body, n, s2)
            return
        for s, v in self.ev(e, st):
            if isinstance(v, Outcome):
                yield s, v
            else:
                yield from self._obj_ctx(v, item, body, n, s)

    def _gen_ctx(self, callee, recv, args, kwargs, item, body, n, st):
        """Inline an @contextmanager generator around the with-body."""
        caller_env = st.env

        def on_yield(s, val):
            # run the with body in the caller's environment
            gen_env = s.env
            s = s.copy()
            s.env = dict(caller_env)
            frame_top = self.frames.pop()
            try:
                def inner():
                    if item.optional_vars is not None:
                        for s1, oc in self.assign(item.optional_vars, val, s, n):
                            if oc.kind == "next":
                                yield from body(s1)
                            else:
                                yield s1, oc
                    else:
                        yield from body(s)
                for s2, oc in inner():
                    self.frames.append(frame_top)
                    s3 = s2.copy()
                    body_env = s3.env
                    s3.env = dict(gen_env)
                    s3.env["$body"] = ("bodyenv", _Box(body_env))
                    s3.env["$oc"] = ("oc", _Box(oc))
                    yield s3, oc
                    self.frames.pop()
            finally:
                self.frames.append(frame_top)

        s0 = st.copy()
        self.emit(s0, "enter", callee.name, callee=callee, base=recv, args=args, kwargs=kwargs, node=n)
        for s, oc in self.inline_call(callee, recv, args, kwargs, s0, n, on_yield=on_yield, keep_env=True):
            box = s.env.get("$body")
            pend = s.env.get("$oc")
            s = s.copy()
            s.env = dict(box[1].v) if box else dict(caller_env)
            self.emit(s, "exit", callee.name, callee=callee, base=recv, args=args, kwargs=kwargs, node=n)
            if oc.kind == "raise":
                yield s, oc
            elif oc.kind == "cut":
                yield s, oc
            elif pend is not None:
                p = pend[1].v
                if p.kind == "raise":
                    # the generator swallowed the exception
                    yield s, NEXT
                else:
                    yield s, p
            else:
                yield s, NEXT

    def _obj_ctx(self, v, item, body, n, st):
        ty = self.type_of(v)
        enter = exit_ = None
        if ty in self.p.classes:
            c = self.p.classes[ty]
            a = isinstance(n, ast.AsyncWith)
            enter = self.p.find_method(c, "__aenter__" if a else "__enter__")
            exit_ = self.p.find_method(c, "__aexit__" if a else "__exit__")
        if enter is not None and exit_ is not None and self.want_inline(enter):
            for s, r in self.inline_call(enter, v, (), (), st, n):
                if r.kind == "raise":
                    yield s, r
                    continue
                val = r.value if r.kind == "return" else NONE
                if item.optional_vars is not None:
                    gen = self.assign(item.optional_vars, val, s, n)
                else:
                    gen = [(s, NEXT)]
                for s1, oc1 in gen:
                    for s2, oc in self._with_try(body(s1), self.trystack + [["builtins.BaseException!finally"]]):
                        eargs = (NONE, NONE, NONE) if oc.kind != "raise" else (("glob", oc.value[1]), oc.value, ("fresh", "tb"))
                        for s3, r3 in self.inline_call(exit_, v, eargs, (), s2, n):
                            if r3.kind == "raise":
                                yield s3, r3
                            elif oc.kind == "raise" and r3.kind == "return":
                                for s4, tv in self.split(r3.value, s3):
                                    yield s4, (NEXT if tv else oc)
                            else:
                                yield s3, oc
            return
        name = v[1][2] if v[0] == "call" and v[1][0] == "attr" else (v[1][1] if v[0] == "call" and v[1][0] == "glob" else show(v))
        s = st.copy()
        self.emit(s, "enter", name, base=v, node=n)
        excs = self._inject_types(None, name, True) if isinstance(n, ast.AsyncWith) else []
        for ex in excs:
            if s.injected < self.max_inject:
                sx = st.copy()
                sx.injected += 1
                yield sx, Outcome("raise", ("exc", ex, ("at", name)))
        if item.optional_vars is not None:
            gen = self.assign(item.optional_vars, ("enter", v), s, n)
        else:
            gen = [(s, NEXT)]
        for s1, oc1 in gen:
            for s2, oc in self._with_try(body(s1), self.trystack + [["builtins.BaseException!finally"]]):
                s2 = s2.copy()
                self.emit(s2, "exit", name, base=v, node=n, value=("const", oc.kind))
                yield s2, oc

    # defs ----------------------------------------------------------------
    def s_FunctionDef(self, n, st):
        key = next(self.counter)
        s = st.copy()
        s.env[n.name] = ("lam", key, n.name)
        self.closures[key] = Closure(n, s.env, self.fr)
        yield s, NEXT

    s_AsyncFunctionDef = s_FunctionDef

    def s_Import(self, n, st):
        s = st.copy()
        for a in n.names:
            s.env[a.asname or a.name.split(".")[0]] = ("glob", a.name if a.asname else a.name.split(".")[0])
        yield s, NEXT

    def s_ImportFrom(self, n, st):
        s = st.copy()
        base = self.p._rel(self.fr.module, n)
        for a in n.names:
            s.env[a.asname or a.name] = ("glob", self.p.resolve(f"{base}.{a.name}"))
        yield s, NEXT

    def s_Match(self, n, st):
        for s, v in self.ev(n.subject, st):
            if isinstance(v, Outcome):
                yield s, v
                continue
            yield from self._match(n.cases, v, s)

    def _match(self, cases, v, st):
        if not cases:
            yield st, NEXT
            return
        c = cases[0]
        def pat(p, s):
            if isinstance(p, ast.MatchValue):
                for s1, pv in self.ev(p.value, s):
                    yield from self.split(("cmp", "==", v, pv), s1)
            elif isinstance(p, ast.MatchSingleton):
                yield from self.split(("cmp", "is", v, const(p.value)), s)
            elif isinstance(p, ast.MatchOr):
                def rec(ps, s):
                    if not ps:
                        yield s, False
                        return
                    for s1, r in pat(ps[0], s):
                        if r:
                            yield s1, True
                        else:
                            yield from rec(ps[1:], s1)
                yield from rec(p.patterns, s)
            elif isinstance(p, ast.MatchAs) and p.pattern is None:
                s1 = s.copy()
                if p.name:
                    s1.env[p.name] = v
                yield s1, True
            else:
                yield from self.split(("truthy", ("fresh", next(self.counter))), s)
        for s, r in pat(c.pattern, st):
            if not r:
                yield from self._match(cases[1:], v, s)
                continue
            if c.guard is not None:
                for s1, g in self.cond(c.guard, s):
                    if isinstance(g, Outcome):
                        yield s1, g
                    elif g:
                        yield from self.block(c.body, s1)
                    else:
                        yield from self._match(cases[1:], v, s1)
            else:
                yield from self.block(c.body, s)

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            for s, v in self.cond(e.operand, st):
                yield s, (v if isinstance(v, Outcome) else not v)
            return
        if isinstance(e, ast.BoolOp):
            yield from self._cond_bool(isinstance(e.op, ast.And), e.values, st)
            return
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # a < b < c
            parts = []
            left = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.Compare(left=left, ops=[op], comparators=[r]))
                left = r
            yield from self._cond_bool(True, parts, st)
            return
        for s, t in self.ev(e, st):
            if isinstance(t, Outcome):
                yield s, t
            else:
                yield from self.split(t, s)

    def _cond_bool(self, is_and, values, st):
        if len(values) == 1:
            yield from self.cond(values[0], st)
            return
        for s, v in self.cond(values[0], st):
            if isinstance(v, Outcome):
                yield s, v
            elif v != is_and:
                yield s, v
            else:
                yield from self._cond_bool(is_and, values[1:], s)

    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            yield st, ("fresh", next(self.counter), type(e).__name__)
            return
        yield from m(e, st)

    def ev_list(self, es, st):
        if not es:
            yield st, ()
            return
        for s, v in self.ev(es[0], st):
            if isinstance(v, Outcome):
                yield s, v
                continue
            for s2, r in self.ev_list(es[1:], s):
                if isinstance(r, Outcome):
                    yield s2, r
                else:
                    yield s2, (v,) + r

    def e_Constant(self, e, st):
        yield st, const(e.value)

    def e_Name(self, e, st):
        if e.id in st.env:
            yield st, st.env[e.id]
            return
        r = self.p.resolve_name(self.fr.module, e.id, None)
        if r is None:
            yield st, ("glob", f"?{e.id}")
            return
        yield st, self.fold_global(r)

    def fold_global(self, q):
        """Module constants with literal (or constant-expression) values become constants."""
        b, _, n = q.rpartition(".")
        m = self.p.modules.get(b)
        if m is not None and n in m.assigns:
            key = (b, n)
            if key not in self.p.const_cache:
                v = self.p.consteval(m, m.assigns[n]) if self.p.consteval else UNFOLDED
                self.p.const_cache[key] = v if isinstance(v, (str, bytes, int, float)) or v is None else UNFOLDED
            v = self.p.const_cache[key]
            if v is not UNFOLDED:
                return const(v)
        return ("glob", q)

    def e_Attribute(self, e, st):
        for s, b in self.ev(e.value, st):
            if isinstance(b, Outcome):
                yield s, b
                continue
            yield from self.getattr_(b, e.attr, s, e)

    def getattr_(self, b, name, st, node):
        if b[0] == "glob":
            q = self.p.resolve(f"{b[1]}.{name}")
            c = self.p.classes.get(b[1])
            if c is not None and q not in self.p.classes and q not in self.p.funcs:
                k, v = self.p.find_attr(c, name)
                yield st, ("attr", b, name)
                return
            yield st, self.fold_global(q)
            return
        if b[0] == "call" and b[1] == ("glob", "builtins.type") and len(b[2]) == 1 and b[2][0][0] == "self":
            b = ("glob", b[2][0][1])
            yield st, ("attr", b, name)
            return
        ty = self.type_of(b)
        if ty:
            name = self.trivial_prop(ty, name)
        if (b, name) in st.heap:
            yield st, st.heap[(b, name)]
            return
        if b[0] == "const" and b[1] is None:
            pass
        if ty and ty in self.p.classes:
            f = self.p.find_method(self.p.classes[ty], name)
            if f is not None and f.is_property and self.want_inline(f):
                for s, r in self.inline_call(f, b, (), (), st, node):
                    if r.kind == "raise":
                        yield s, r
                    else:
                        yield s, (r.value if r.kind == "return" else NONE)
                return
        yield st, ("attr", b, name)

    def e_Subscript(self, e, st):
        for s, b in self.ev(e.value, st):
            if isinstance(b, Outcome):
                yield s, b
                continue
            for s2, k in self.ev(e.slice, s):
                if isinstance(k, Outcome):
                    yield s2, k
                    continue
                if ("idx", b, k) in s2.heap:
                    yield s2, s2.heap[("idx", b, k)]
                    continue
                if b[0] in ("tuple", "list") and k[0] == "const" and isinstance(k[1], int) and -len(b[1]) <= k[1] < len(b[1]) and not any(x[0] == "star" for x in b[1]):
                    yield s2, b[1][k[1]]
                    continue
                if b[0] == "dict" and k[0] != "slice":
                    hit = [v for kk, v in b[1] if kk == k]
                    if hit:
                        yield s2, hit[-1]
                        continue
                if isinstance(e.ctx, ast.Load) and k[0] != "slice":
                    known_in = s2.facts.get(("in", k, b))
                    if known_in is not True:
                        want = self.idx_raises or self._handles("builtins.KeyError") or self._handles("builtins.IndexError")
                        if want and s2.injected < self.max_inject + 1:
                            ex = "builtins.KeyError" if (self.idx_raises or self._handles("builtins.KeyError")) else "builtins.IndexError"
                            sx = s2.copy()
                            sx.injected += 1
                            self.emit(sx, "idxerr", "getitem", base=b, args=(k,), node=e, ok=False)
                            yield sx, Outcome("raise", ("exc", ex, ("at", "getitem")))
                # dunder getitem of a repo class
                ty = self.type_of(b)
                if ty in self.p.classes:
                    f = self.p.find_method(self.p.classes[ty], "__getitem__")
                    if f is not None and self.want_inline(f):
                        for s3, r in self.inline_call(f, b, (k,), (), s2, e):
                            yield s3, (r if r.kind == "raise" else (r.value if r.kind == "return" else NONE))
                        continue
                yield s2, ("idx", b, k)

    def _handles(self, exc):
        for ts in self.trystack:
            for t in ts:
                if t == exc or t == "builtins.LookupError":
                    return True
        return False

    def e_Slice(self, e, st):
        parts = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        for s, r in self.ev_list(parts, st):
            yield s, (r if isinstance(r, Outcome) else ("slice",) + r)

    def _seq(self, kind, e, st):
        for s, r in self.ev_list(e.elts, st):
            if isinstance(r, Outcome):
                yield s, r
                continue
            items = []
            for x in r:
                if x[0] == "star" and x[1][0] in ("tuple", "list"):
                    items.extend(x[1][1])
                else:
                    items.append(x)
            yield s, (kind, tuple(items))

    def e_Tuple(self, e, st):
        yield from self._seq("tuple", e, st)

    def e_List(self, e, st):
        yield from self._seq("list", e, st)

    def e_Set(self, e, st):
        yield from self._seq("set", e, st)

    def e_Dict(self, e, st):
        keys = [k if k is not None else ast.Constant("**") for k in e.keys]
        for s, ks in self.ev_list(keys, st):
            if isinstance(ks, Outcome):
                yield s, ks
                continue
            for s2, vs in self.ev_list(e.values, s):
                yield s2, (vs if isinstance(vs, Outcome) else ("dict", tuple(zip(ks, vs))))

    def e_Starred(self, e, st):
        for s, v in self.ev(e.value, st):
            yield s, (v if isinstance(v, Outcome) else ("star", v))

    def e_JoinedStr(self, e, st):
        vals = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        for s, r in self.ev_list(vals, st):
            if isinstance(r, Outcome):
                yield s, r
                continue
            out = []
            flat = []
            for x in r:
                flat.extend(x[1] if x[0] == "fstr" else (x,))
            for x in flat:
                if x[0] == "const" and out and out[-1][0] == "const":
                    out[-1] = const(str(out[-1][1]) + str(x[1]))
                else:
                    out.append(const(str(x[1])) if x[0] == "const" else x)
            if len(out) == 1 and out[0][0] == "const":
                yield s, out[0]
            else:
                yield s, ("fstr", tuple(out))

    def e_FormattedValue(self, e, st):
        yield from self.ev(e.value, st)

    _OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
            ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&",
            ast.BitXor: "^", ast.MatMult: "@"}

    def _op(self, op):
        return self._OPS[type(op)]

    def mkbin(self, op, a, b):
        if a[0] == "const" and b[0] == "const":
            try:
                v = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
                     "//": lambda x, y: x // y, "%": lambda x, y: x % y, "<<": lambda x, y: x << y,
                     ">>": lambda x, y: x >> y, "|": lambda x, y: x | y, "&": lambda x, y: x & y,
                     "^": lambda x, y: x ^ y, "/": lambda x, y: x / y,
                     "**": lambda x, y: x ** y if abs(y) < 128 else None}[op](a[1], b[1])
                return const(v)
            except Exception:
                pass
        if op == "+" and a[0] in ("list", "tuple") and a[0] == b[0]:
            return (a[0], a[1] + b[1])
        if op == "+" and "fstr" in (a[0], b[0]) and all(x[0] == "fstr" or x[0] == "const" and isinstance(x[1], str) for x in (a, b)):
            parts = []
            for x in (a, b):
                for y in (x[1] if x[0] == "fstr" else (x,)):
                    if parts and parts[-1][0] == "const" and y[0] == "const":
                        parts[-1] = const(str(parts[-1][1]) + str(y[1]))
                    else:
                        parts.append(y)
            return ("fstr", tuple(parts))
        if op in ("+", "*", "|", "&", "^") and not (op == "+" and (a[0] in ("list", "tuple", "fstr") or b[0] in ("list", "tuple", "fstr"))) and op != "+" and self._key(b) < self._key(a):
            a, b = b, a
        return ("bin", op, a, b)

    def e_BinOp(self, e, st):
        for s, a in self.ev(e.left, st):
            if isinstance(a, Outcome):
                yield s, a
                continue
            for s2, b in self.ev(e.right, s):
                yield s2, (b if isinstance(b, Outcome) else self.mkbin(self._op(e.op), a, b))

    def e_UnaryOp(self, e, st):
        for s, a in self.ev(e.operand, st):
            if isinstance(a, Outcome):
                yield s, a
            elif isinstance(e.op, ast.Not):
                yield s, (a[1] if a[0] == "not" and a[1][0] in ("cmp", "not", "boolop") else ("not", a))
            elif isinstance(e.op, ast.USub):
                yield s, (const(-a[1]) if a[0] == "const" and isinstance(a[1], (int, float)) else ("un", "-", a))
            elif isinstance(e.op, ast.Invert):
                yield s, (const(~a[1]) if a[0] == "const" and isinstance(a[1], int) else ("un", "~", a))
            else:
                yield s, a

    _CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
            ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

    def e_Compare(self, e, st):
        for s, vs in self.ev_list([e.left] + e.comparators, st):
            if isinstance(vs, Outcome):
                yield s, vs
                continue
            parts = []
            for i, op in enumerate(e.ops):
                parts.append(("cmp", self._CMP[type(op)], vs[i], vs[i + 1]))
            yield s, (parts[0] if len(parts) == 1 else ("boolop", "and", tuple(parts)))

    def e_BoolOp(self, e, st):
        op = "and" if isinstance(e.op, ast.And) else "or"
        if all(self._simple(v) for v in e.values[1:]):
            for s, vs in self.ev_list(e.values, st):
                yield s, (vs if isinstance(vs, Outcome) else ("boolop", op, vs))
            return
        yield from self._bool_value(op, e.values, st)

    def _bool_value(self, op, values, st):
        for s, t in self.ev(values[0], st):
            if isinstance(t, Outcome) or len(values) == 1:
                yield s, t
                continue
            for s2, v in self.split(t, s):
                if (op == "and") != v:
                    yield s2, t
                else:
                    yield from self._bool_value(op, values[1:], s2)

    def _simple(self, e):
        for n in ast.walk(e):
            if isinstance(n, (ast.Await, ast.Yield, ast.NamedExpr)):
                return False
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
                if nm not in PURE and nm not in PURE_METHODS:
                    return False
        return True

    def e_IfExp(self, e, st):
        for s, c in self.cond(e.test, st):
            if isinstance(c, Outcome):
                yield s, c
            else:
                yield from self.ev(e.body if c else e.orelse, s)

    def e_NamedExpr(self, e, st):
        for s, v in self.ev(e.value, st):
            if isinstance(v, Outcome):
                yield s, v
            else:
                s = s.copy()
                s.env[e.target.id] = v
                yield s, v

    def e_Await(self, e, st):
        if isinstance(e.value, ast.Call):
            yield from self.e_Call(e.value, st, awaited=True)
            return
        for s, v in self.ev(e.value, st):
            if isinstance(v, Outcome):
                yield s, v
                continue
            # awaiting a stored awaitable (future/task)
            yield from self._await_term(v, s, e)

    def _await_term(self, v, st, e):
        name = "await"
        for ex in self._inject_types(v, name, True):
            if st.injected < self.max_inject:
                sx = st.copy()
                sx.injected += 1
                self.emit(sx, "await", name, term=v, base=v, node=e, ok=False, awaited=True)
                yield sx, Outcome("raise", ("exc", ex, ("at", show(v))))
        s = st.copy()
        self.emit(s, "await", name, term=v, base=v, node=e, awaited=True)
        yield self._after_await(s), v

    def _after_await(self, s):
        if self.havoc_await:
            s.facts = {k: x for k, x in s.facts.items() if not _has_state(k)}
            s.heap = {}
        return s

    def e_Lambda(self, e, st):
        key = next(self.counter)
        self.closures[key] = Closure(e, st.env, self.fr)
        yield st, ("lam", key, "lambda")

    def e_Yield(self, e, st):
        if e.value is None:
            gen = [(st, NONE)]
        else:
            gen = self.ev(e.value, st)
        for s, v in gen:
            if isinstance(v, Outcome):
                yield s, v
                continue
            on_yield = self.frames[-1][1]
            if on_yield is None:
                s = s.copy()
                self.emit(s, "yield", "yield", value=v, node=e)
                for ex in self._inject_types(None, "yield", True):
                    if s.injected < self.max_inject:
                        sx = s.copy()
                        sx.injected += 1
                        yield sx, Outcome("raise", ("exc", ex, ("at", "yield")))
                yield s, ("yieldval", next(self.counter))
            else:
                for s2, oc in on_yield(s, v):
                    if oc.kind == "raise":
                        yield s2, oc
                    elif oc.kind == "cut":
                        yield s2, oc
                    else:
                        yield s2, NONE

    def e_YieldFrom(self, e, st):
        for s, v in self.ev(e.value, st):
            if isinstance(v, Outcome):
                yield s, v
                continue
            s = s.copy()
            self.emit(s, "yield", "yield from", value=v, node=e)
            yield s, ("yieldval", next(self.counter))

    # comprehensions -----------------------------------------------------
    def _comp(self, kind, elt, gens, st, e):
        s = st.copy()
        saved = dict(s.env)
        def rec(i, s, acc):
            if i == len(gens):
                for s2, v in self.ev_list(elt, s):
                    if isinstance(v, Outcome):
                        yield s2, v
                    else:
                        s2 = s2.copy()
                        s2.env = dict(saved)
                        yield s2, ("comp", kind, v if len(v) > 1 else v[0], tuple(acc))
                return
            g = gens[i]
            for s1, it in self.ev(g.iter, s):
                if isinstance(it, Outcome):
                    yield s1, it
                    continue
                # a comprehension over a pure copy/keys of a sequence stays symbolic
                for s2, oc in self.assign(g.target, ("elem", it, 0), s1, e):
                    if oc.kind != "next":
                        yield s2, oc
                        continue
                    for s3, ifs in self.ev_list(g.ifs, s2):
                        if isinstance(ifs, Outcome):
                            yield s3, ifs
                        else:
                            yield from rec(i + 1, s3, acc + [(it, ifs)])
        yield from rec(0, s, [])

    def e_ListComp(self, e, st):
        yield from self._comp("list", [e.elt], e.generators, st, e)

    def e_SetComp(self, e, st):
        yield from self._comp("set", [e.elt], e.generators, st, e)

    def e_GeneratorExp(self, e, st):
        yield from self._comp("gen", [e.elt], e.generators, st, e)

    def e_DictComp(self, e, st):
        yield from self._comp("dict", [e.key, e.value], e.generators, st, e)

    # calls ----------------------------------------------------------------
    def ev_callparts(self, e, st):
        """Evaluate callee and arguments: yields (state, (fterm, recv, callee, args, kwargs))."""
        f = e.func
        # super().method
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.fr.cls is not None:
            recv = self.fr.selfterm or ("fresh", "super")
            callee = self.p.find_method(self.fr.cls, f.attr, after=self.fr.func.cls) if self.fr.func.cls else None
            fterm = ("attr", ("super", recv), f.attr)
            gen = [(st, (fterm, recv, callee))]
        elif isinstance(f, ast.Attribute):
            def g():
                for s, b in self.ev(f.value, st):
                    if isinstance(b, Outcome):
                        yield s, b
                        continue
                    yield s, self.resolve_method(b, f.attr, s)
            gen = g()
        else:
            def g2():
                for s, t in self.ev(f, st):
                    if isinstance(t, Outcome):
                        yield s, t
                        continue
                    callee = self.p.funcs.get(t[1]) if t[0] == "glob" else None
                    recv = None
                    if callee is None and t[0] == "attr":
                        _, recv, callee = self.resolve_method(t[1], t[2], s)
                    yield s, (t, recv, callee)
            gen = g2()
        for s, r in gen:
            if isinstance(r, Outcome):
                yield s, r
                continue
            fterm, recv, callee = r
            for s2, av in self.ev_list(e.args, s):
                if isinstance(av, Outcome):
                    yield s2, av
                    continue
                args = []
                for x in av:
                    if x[0] == "star" and x[1][0] in ("tuple", "list"):
                        args.extend(x[1][1])
                    else:
                        args.append(x)
                for s3, kv in self.ev_list([k.value for k in e.keywords], s2):
                    if isinstance(kv, Outcome):
                        yield s3, kv
                        continue
                    kwargs = []
                    for k, v in zip(e.keywords, kv):
                        if k.arg is None and v[0] == "dict" and all(kk[0] == "const" for kk, _ in v[1]):
                            kwargs.extend((kk[1], vv) for kk, vv in v[1])
                        else:
                            kwargs.append((k.arg if k.arg is not None else "**", v))
                    yield s3, (fterm, recv, callee, tuple(args), tuple(kwargs))

    def resolve_method(self, b, name, st):
        if b[0] == "glob":
            q = self.p.resolve(f"{b[1]}.{name}")
            callee = self.p.funcs.get(q)
            if callee is None and b[1] in self.p.classes:
                callee = self.p.find_method(self.p.classes[b[1]], name)
                if callee is not None:
                    q = callee.qual
            recv = b if (callee is not None and callee.is_classmethod) else None
            if callee is not None and callee.cls is not None and callee.is_classmethod:
                return ("attr", b, name), b, callee
            return ("glob", q), recv, callee
        if (b, name) in st.heap:
            t = st.heap[(b, name)]
            return t, None, None
        ty = self.type_of(b)
        callee = None
        if ty in self.p.classes:
            callee = self.p.find_method(self.p.classes[ty], name)
            if callee is not None and callee.is_property:
                callee = None
            if callee is not None and callee.is_staticmethod:
                return ("attr", b, name), None, callee
        return ("attr", b, name), b, callee

    def e_Call(self, e, st, awaited=False):
        f = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
        if f in ("create_task", "ensure_future") and e.args:
            self.spawned.add(id(e.args[0]))
        for s, parts in self.ev_callparts(e, st):
            if isinstance(parts, Outcome):
                yield s, parts
                continue
            fterm, recv, callee, args, kwargs = parts
            yield from self.do_call(fterm, recv, callee, args, kwargs, s, e, awaited)

    def want_inline(self, f: Func):
        if f.qual in self.noinline or f.name in self.noinline:
            return False
        if len(self.frames) > self.max_depth:
            return False
        if sum(1 for fr, _ in self.frames if fr.func is f) >= 1:
            return False
        if f.is_abstract:
            return False
        if f.qual in self.inline or f.name in self.inline:
            return True
        if self.inline_if is not None and self.inline_if(f):
            return True
        if self.inline_all:
            return True
        return f.qual not in self.known

    def do_call(self, fterm, recv, callee, args, kwargs, st, node, awaited=False):
        # closures and partials
        if fterm[0] == "lam":
            yield from self._call_closure(fterm, args, kwargs, st, node)
            return
        if fterm[0] == "call" and fterm[1] in (("glob", "functools.partial"),) and fterm[2]:
            inner = fterm[2][0]
            a2, k2 = fterm[2][1:] + args, fterm[3] + kwargs
            c2 = self.p.funcs.get(inner[1]) if inner[0] == "glob" else None
            r2 = None
            if c2 is None and inner[0] == "attr":
                _, r2, c2 = self.resolve_method(inner[1], inner[2], st)
            yield from self.do_call(inner, r2, c2, a2, k2, st, node, awaited)
            return
        if callee is not None:
            term = ("call", fterm, args, kwargs, next(self.counter))
            yield from self.call_func(callee, recv, args, kwargs, st, node, term, awaited)
            return
        # setattr(obj, "name", value) is an attribute write
        if fterm == ("glob", "builtins.setattr") and len(args) == 3 and args[1][0] == "const":
            s = st.copy()
            self.emit(s, "setattr", args[1][1], base=args[0], value=args[2], node=node)
            s.heap[(args[0], args[1][1])] = args[2]
            yield s, NONE
            return
        if fterm == ("glob", "builtins.setattr") and len(args) == 3:
            s = st.copy()
            self.emit(s, "setattr", args[1], base=args[0], value=args[2], node=node)
            yield s, NONE
            return
        if fterm == ("glob", "builtins.getattr") and len(args) == 2 and args[1][0] == "const" and isinstance(args[1][1], str):
            yield from self.getattr_(args[0], args[1][1], st, node)
            return
        if fterm == ("glob", "typing.cast") and len(args) == 2:
            yield st, args[1]
            return
        # constructing a repo class
        name = fterm[1].split(".")[-1] if fterm[0] == "glob" else fterm[2] if fterm[0] == "attr" else "?"
        pure = (fterm[0] == "glob" and fterm[1].startswith("builtins.") and name in PURE) or (
            fterm[0] == "attr" and name in PURE_METHODS)
        # list(x)/tuple(x) copies of literals
        if fterm in (("glob", "builtins.list"), ("glob", "builtins.tuple")) and len(args) == 1 and args[0][0] in ("list", "tuple"):
            yield st, (name, args[0][1])
            return
        if fterm in (("glob", "builtins.list"), ("glob", "builtins.dict"), ("glob", "builtins.set"), ("glob", "builtins.tuple")) and not args and not kwargs:
            yield st, (name, ())
            return
        if name in MUTATORS and recv is not None and recv[0] in ("list", "set", "dict") and args:
            s = st.copy()
            if name in ("append", "add", "appendleft"):
                new = (recv[0], recv[1] + (args[0],))
            elif name == "insert" and len(args) > 1:
                new = (recv[0], (args[1],) + recv[1] if args[0] == const(0) else recv[1] + (args[1],))
            elif name in ("extend", "update") and recv[0] in ("list", "set"):
                x = args[0]
                new = (recv[0], recv[1] + (x[1] if x[0] in ("list", "tuple", "set") else (("star", x),)))
            elif name == "update" and args[0][0] == "dict":
                new = ("dict", recv[1] + args[0][1])
            else:
                new = recv
            self._rebind(s, recv, new)
            yield s, NONE
            return
        n = 0 if pure else next(self.counter)
        term = ("call", fterm, args, kwargs, n)
        yield from self._opaque(name, fterm, recv, None, args, kwargs, st, node, term, awaited, pure)

    def _opaque(self, name, fterm, recv, callee, args, kwargs, st, node, term, awaited, pure=False):
        excs = [] if pure and name in NORAISE_NAMES else self._inject_types(term, name, awaited, callee)
        for ex, why in excs if excs and isinstance(excs[0], tuple) else [(x, "inj") for x in excs]:
            limit = self.max_inject
            if st.injected < limit:
                sx = st.copy()
                sx.injected += 1
                self.emit(sx, "call", name, term=term, base=recv, callee=callee, args=args, kwargs=kwargs, node=node, ok=False, awaited=awaited)
                yield sx, Outcome("raise", ("exc", ex, ("at", name)))
        if pure:
            s = st
            if name not in NORAISE_NAMES:
                s = st.copy()
                self.emit(s, "call", name, term=term, base=recv, callee=callee, args=args, kwargs=kwargs, value=term, node=node, awaited=awaited)
            yield s, term
            return
        s = st.copy()
        self.emit(s, "call", name, term=term, base=recv, callee=callee, args=args, kwargs=kwargs, value=term, node=node, awaited=awaited)
        if awaited:
            s = self._after_await(s)
        elif recv is not None and name not in LOGGERS and recv[0] != "self":
            # a method call may change what is known about its receiver
            s.facts = {k: x for k, x in s.facts.items() if not _mentions(k, recv) or k[0] in ("is", "isinstance")}
        yield s, term

    def _inject_types(self, term, name, awaited, callee=None):
        if name in LOGGERS:
            return []
        if self.may_raise is not None:
            r = self.may_raise(term, name, awaited, callee)
            if r is not None:
                return list(r)
        out = []
        if self.handler_inject:
            for ts in self.trystack:
                for t in ts:
                    if t.endswith("!finally"):
                        t = ANYEXC
                    elif t in ("builtins.BaseException", "builtins.Exception"):
                        t = ANYEXC
                    elif t.endswith("CancelledError"):
                        if not awaited:
                            continue
                        t = CANCEL
                    if t not in out and not t.startswith("?"):
                        out.append(t)
        for t in self.inject:
            if t == CANCEL and not awaited:
                continue
            if self.inject_at is not None and not self.inject_at(term, name, awaited):
                continue
            if t not in out:
                out.append(t)
        return out

    def call_func(self, callee, recv, args, kwargs, st, node, term, awaited=False):
        # a coroutine handed to a task does not run here
        if self.want_inline(callee) and not callee.is_generator and not (callee.is_async and not awaited and id(node) in self.spawned):
            for s, r in self.inline_call(callee, recv, args, kwargs, st, node):
                if r.kind in ("raise", "cut"):
                    yield s, r
                elif r.kind == "return":
                    if awaited and not callee.is_async:
                        s = s.copy()
                        self.emit(s, "await", "await", term=r.value, base=r.value, node=node, awaited=True)
                        s = self._after_await(s)
                    yield s, r.value
                else:
                    yield s, NONE
            return
        yield from self._opaque(callee.name, term[1], recv, callee, args, kwargs, st, node, term, awaited)

    def bind(self, callee: Func, recv, args, kwargs):
        params = list(callee.params)
        env = {}
        if callee.cls is not None and not callee.is_staticmethod and params and callee.parent is None:
            p0 = params[0]
            if recv is not None:
                env[p0] = recv
                params = params[1:]
            elif callee.is_classmethod:
                env[p0] = ("glob", callee.cls.qual)
                params = params[1:]
        rest = []
        star = False
        for a in args:
            if a[0] == "star":
                star = True
                continue
            if params and not star:
                env[params.pop(0)] = a
            else:
                rest.append(a)
        extra = []
        dstar = False
        names = set(callee.params) | set(callee.kwonly)
        for k, v in kwargs:
            if k == "**":
                dstar = v
            elif k in names:
                env[k] = v
                if k in params:
                    params.remove(k)
            else:
                extra.append((k, v))
        a = callee.node.args
        if a.vararg:
            env[a.vararg.arg] = ("tuple", tuple(rest)) if not star else ("star", ("fresh", "args"))
            if star:
                env[a.vararg.arg] = args[-1][1] if args and args[-1][0] == "star" else ("fresh", "args")
        if a.kwarg:
            if dstar and not extra:
                env[a.kwarg.arg] = dstar
            else:
                env[a.kwarg.arg] = ("dict", tuple((const(k), v) for k, v in extra) + (((const("**"), dstar),) if dstar else ()))
        return env, (star or bool(dstar))

    def inline_call(self, callee, recv, args, kwargs, st, node, on_yield=None, keep_env=False):
        env, fuzzy = self.bind(callee, recv, args, kwargs)
        cls = callee.cls
        if recv is not None:
            ty = self.type_of(recv)
            if ty in self.p.classes and callee.cls is not None and self.p.is_subclass(ty, callee.cls.qual):
                cls = self.p.classes[ty]
        selfterm = recv
        fr = Frame(callee, callee.module, cls, selfterm)
        caller_env = st.env
        # defaults
        s0 = st.copy()
        s0.env = dict(env)
        # the caller's literal containers stay reachable: the callee may fill one it was given
        shared = {("@", k) if isinstance(k, str) else ("@", *k): k for k, v in caller_env.items() if isinstance(v, tuple) and v and v[0] in ("list", "set", "dict")}
        for h, k in shared.items():
            s0.env[h] = caller_env[k]
        missing = []
        for p, d in callee.defaults().items():
            if p not in s0.env:
                missing.append((p, d))
        self.frames.append((fr, on_yield))
        depth = len(self.frames)

        def run():
            s = s0
            for p, d in missing:
                if fuzzy:
                    s.env[p] = ("param", p, None)
                    continue
                for s1, v in self.ev(d, s):
                    s = s1
                    s.env[p] = v if not isinstance(v, Outcome) else ("fresh", p)
                    break
            for p in callee.params + callee.kwonly:
                if p not in s.env:
                    s.env[p] = ("param", p, None)
                elif s.env[p][0] in ("idx", "elem", "attr", "call") and self.type_of(s.env[p]) is None:
                    pass
            yield from self.block(callee.node.body, s)

        self.seen_funcs.add(callee.qual)
        for s, oc in self._framed(run(), (fr, on_yield)):
            if not keep_env:
                s = s.copy()
                env1 = dict(caller_env)
                for h, k in shared.items():
                    if h in s.env:
                        env1[k] = s.env[h]
                s.env = env1
            if oc.kind in ("break", "continue"):
                oc = NEXT
            yield s, oc

    def _call_closure(self, fterm, args, kwargs, st, node):
        c = self.closures[fterm[1]]
        if sum(1 for fr, _ in self.frames if getattr(fr.func, "node", None) is c.node) >= 1 or len(self.frames) > self.max_depth + 4:
            term = ("call", fterm, args, kwargs, next(self.counter))
            s = st.copy()
            self.emit(s, "call", fterm[2], term=term, args=args, kwargs=kwargs, value=term, node=node)
            yield s, term
            return
        env = dict(c.env)
        # free variables of a closure are looked up when it runs
        if c.frame is self.fr:
            env.update(st.env)
        if isinstance(c.node, ast.Lambda):
            a = c.node.args
            fr = Frame(c.frame.func, c.frame.module, c.frame.cls, c.frame.selfterm)
        else:
            a = c.node.args
            fn = Func(c.frame.module, None, c.node, f"{c.frame.func.qual}.<locals>.{c.node.name}")
            fr = Frame(fn, c.frame.module, c.frame.cls, c.frame.selfterm)
        names = [x.arg for x in a.posonlyargs + a.args]
        for p, v in zip(names, args):
            env[p] = v
        for k, v in kwargs:
            if k != "**":
                env[k] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        if a.vararg:
            env[a.vararg.arg] = ("tuple", tuple(args[len(names):]))
        s0 = st.copy()
        caller_env = st.env
        s0.env = env
        self.frames.append((fr, None))

        def run():
            s = s0
            for p, d in defaults.items():
                if p not in dict(zip(names, args)) and p not in dict(kwargs):
                    for s1, v in self.ev(d, s):
                        s = s1
                        s.env[p] = v if not isinstance(v, Outcome) else ("fresh", p)
                        break
            if isinstance(c.node, ast.Lambda):
                for s1, v in self.ev(c.node.body, s):
                    yield s1, (v if isinstance(v, Outcome) else Outcome("return", v))
            else:
                yield from self.block(c.node.body, s)

        for s, oc in self._framed(run(), (fr, None)):
            s = s.copy()
            new_env = dict(caller_env)
            s.env = new_env
            if oc.kind == "return":
                yield s, oc.value
            elif oc.kind in ("raise", "cut"):
                yield s, oc
            else:
                yield s, NONE


class _Box:
    """Opaque holder so that environments can sit inside terms without being compared."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def _as_load(t):
    t2 = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields}), t)
    t2.ctx = ast.Load()
    return t2


def _mentions(atom, loc):
    return any(x == loc for x in subterms(atom))


def _has_state(atom):
    return any(x[0] in ("attr", "idx") for x in subterms(atom) if x)
