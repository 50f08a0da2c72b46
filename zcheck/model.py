"""Program model of /repo/zigpy: modules, imports, classes (with MRO), functions.

Everything is read from source with `ast`; nothing in /repo is imported or run.
"""
from __future__ import annotations

import ast
import builtins
import os
import pathlib

from .canon import canonical

REPO = pathlib.Path(os.environ.get("ZCHECK_REPO", "/repo"))
PKG = "zigpy"


class AnalysisBroken(Exception):
    """An anchor the rules rely on is gone: neither pass nor violation."""


class Func:
    def __init__(self, module, cls, node, qual, parent=None):
        self.module, self.cls, self.node, self.qual, self.parent = module, cls, node, qual, parent
        self.name = node.name
        self.decorators = []
        for d in node.decorator_list:
            self.decorators.append(ast.unparse(d))
        names = {d.split("(")[0].split(".")[-1] for d in self.decorators}
        self.is_property = bool(names & {"property", "cached_property", "getter"})
        self.is_setter = any(d.endswith(".setter") for d in self.decorators)
        self.is_classmethod = "classmethod" in names
        self.is_staticmethod = "staticmethod" in names
        self.is_ctxmgr = bool(names & {"contextmanager", "asynccontextmanager"})
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_abstract = "abstractmethod" in names
        self.is_generator = any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node)
        )

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    def defaults(self):
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    def annotation(self, name):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                return x.annotation
        return None

    def __repr__(self):
        return f"<Func {self.qual}>"


def walk_own(node):
    """Walk a function body without descending into nested functions/classes/lambdas."""
    stack = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, module, node, qual):
        self.module, self.node, self.qual = module, node, qual
        self.name = node.name
        self.methods: dict[str, Func] = {}
        self.setters: dict[str, Func] = {}
        self.attrs: dict[str, ast.expr] = {}       # class-level assignments
        self.annots: dict[str, ast.expr] = {}      # class-level annotations
        self.order: list[str] = []                 # definition order of attrs/annots
        self.inner: dict[str, "Class"] = {}
        self._mro = None

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.is_pkg = path.name == "__init__.py"
        self.imports: dict[str, str] = {}
        self.stars: list[str] = []
        self.classes: dict[str, Class] = {}
        self.funcs: dict[str, Func] = {}
        self.assigns: dict[str, ast.expr] = {}
        self.annots: dict[str, ast.expr] = {}

    @property
    def relpath(self):
        return str(self.path.relative_to(REPO))


class Program:
    def __init__(self, root: pathlib.Path | None = None):
        self.root = root or REPO
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Class] = {}
        self.funcs: dict[str, Func] = {}
        self._resolve_cache = {}
        self.const_cache = {}
        self.consteval = None
        for path in sorted((self.root / PKG).rglob("*.py")):
            if "__pycache__" in path.parts:
                continue
            rel = path.relative_to(self.root).with_suffix("")
            parts = list(rel.parts)
            if parts[-1] == "__init__":
                parts = parts[:-1]
            src = path.read_text()
            try:
                tree = canonical(ast.parse(src, str(path)))
            except SyntaxError as e:
                raise AnalysisBroken(f"cannot parse {path}: {e}")
            self.modules[".".join(parts)] = Module(".".join(parts), path, tree, src)
        if len(self.modules) < 40:
            raise AnalysisBroken(f"only {len(self.modules)} modules found under {self.root}")
        for m in self.modules.values():
            self._scan_body(m, m.tree.body, None, m.name)

    # -- scanning ------------------------------------------------------
    def _scan_body(self, m, body, cls, prefix):
        for st in body:
            if isinstance(st, (ast.If,)):
                self._scan_body(m, st.body, cls, prefix)
                self._scan_body(m, st.orelse, cls, prefix)
            elif isinstance(st, ast.Try):
                self._scan_body(m, st.body, cls, prefix)
                for h in st.handlers:
                    self._scan_body(m, h.body, cls, prefix)
                self._scan_body(m, st.orelse, cls, prefix)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        top = a.name.split(".")[0]
                        m.imports.setdefault(top, top)
            elif isinstance(st, ast.ImportFrom):
                base = self._rel(m, st)
                for a in st.names:
                    if a.name == "*":
                        m.stars.append(base)
                    else:
                        m.imports[a.asname or a.name] = f"{base}.{a.name}"
            elif isinstance(st, ast.ClassDef):
                q = f"{prefix}.{st.name}"
                c = Class(m, st, q)
                self.classes[q] = c
                if cls is None:
                    m.classes[st.name] = c
                else:
                    cls.inner[st.name] = c
                    cls.order.append(st.name)
                self._scan_body(m, st.body, c, q)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f"{prefix}.{st.name}"
                f = Func(m, cls, st, q)
                if f.is_setter:
                    self.funcs[q + ".setter"] = f
                    if cls is not None:
                        cls.setters[st.name] = f
                    continue
                self.funcs[q] = f
                if cls is None:
                    m.funcs[st.name] = f
                else:
                    cls.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if cls is None:
                            m.assigns[t.id] = st.value
                        else:
                            cls.attrs[t.id] = st.value
                            cls.order.append(t.id)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                n = st.target.id
                if cls is None:
                    m.annots[n] = st.annotation
                    if st.value is not None:
                        m.assigns[n] = st.value
                else:
                    cls.annots[n] = st.annotation
                    cls.order.append(n)
                    if st.value is not None:
                        cls.attrs[n] = st.value

    def _rel(self, m, st):
        if not st.level:
            return st.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[: len(parts) - (st.level - 1)]
        if st.module:
            parts += st.module.split(".")
        return ".".join(parts)

    # -- name resolution -------------------------------------------------
    def resolve(self, dotted: str, _seen=None) -> str:
        """Canonical qualified name of a dotted path, following re-exports."""
        if dotted in self._resolve_cache:
            return self._resolve_cache[dotted]
        r = self._resolve(dotted, _seen or set())
        self._resolve_cache[dotted] = r
        return r

    def _resolve(self, dotted, seen):
        if dotted in seen:
            return dotted
        seen = seen | {dotted}
        if dotted in self.modules or dotted in self.classes or dotted in self.funcs:
            return dotted
        if "." not in dotted:
            return dotted
        base, name = dotted.rsplit(".", 1)
        base = self._resolve(base, seen)
        if base in self.modules:
            m = self.modules[base]
            if name in m.classes or name in m.funcs or name in m.assigns:
                # aliases: X = Y
                v = m.assigns.get(name)
                if v is not None and name not in m.classes and isinstance(v, (ast.Name, ast.Attribute)):
                    tgt = self.resolve_expr(m, v)
                    if tgt and tgt != f"{base}.{name}" and (tgt in self.classes or tgt in self.funcs):
                        return tgt
                return f"{base}.{name}"
            if f"{base}.{name}" in self.modules:
                return f"{base}.{name}"
            if name in m.imports:
                return self._resolve(m.imports[name], seen)
            for s in m.stars:
                r = self._resolve(f"{s}.{name}", seen)
                sb, _, sn = r.rpartition(".")
                if r in self.classes or r in self.funcs or r in self.modules or (
                    sb in self.modules and sn in self.modules[sb].assigns
                ):
                    return r
            return f"{base}.{name}"
        if base in self.classes:
            c = self.classes[base]
            for k in self.mro(c):
                if name in k.inner:
                    return k.inner[name].qual
                if name in k.methods:
                    return k.methods[name].qual
                if name in k.attrs:
                    v = k.attrs[name]
                    if isinstance(v, (ast.Name, ast.Attribute)):
                        tgt = self.resolve_expr(k.module, v, k)
                        if tgt in self.classes:
                            return tgt
                    return f"{k.qual}.{name}"
            return f"{base}.{name}"
        return f"{base}.{name}"

    def resolve_expr(self, m: Module, e: ast.expr, cls: Class | None = None):
        """Resolve a Name/Attribute expression at module (or class-body) level."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id, cls)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, cls)
            if b is None:
                return None
            return self.resolve(f"{b}.{e.attr}")
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value, cls)
        return None

    def resolve_name(self, m: Module, name: str, cls: Class | None = None):
        if cls is not None:
            if name in cls.inner:
                return cls.inner[name].qual
            if name in cls.attrs and isinstance(cls.attrs[name], (ast.Name, ast.Attribute)):
                v = cls.attrs[name]
                if not (isinstance(v, ast.Name) and v.id == name):
                    r = self.resolve_expr(m, v, None)
                    if r in self.classes:
                        return r
        if name in m.classes or name in m.funcs or name in m.assigns:
            return self.resolve(f"{m.name}.{name}")
        if name in m.imports:
            return self.resolve(m.imports[name])
        for s in m.stars:
            r = self.resolve(f"{s}.{name}")
            sb, _, sn = r.rpartition(".")
            if r in self.classes or r in self.funcs or r in self.modules or (
                sb in self.modules and sn in self.modules[sb].assigns
            ):
                return r
        if name in m.annots:
            return f"{m.name}.{name}"
        if hasattr(builtins, name):
            return f"builtins.{name}"
        return None

    # -- classes -----------------------------------------------------------
    def bases(self, c: Class):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Call):  # t.enum_factory(X) -> X as a base
                for a in b.args:
                    r = self.resolve_expr(c.module, a)
                    if r in self.classes:
                        out.append(self.classes[r])
                continue
            r = self.resolve_expr(c.module, b)
            if r in self.classes and r != c.qual:
                out.append(self.classes[r])
        return out

    def base_names(self, c: Class):
        out = set()
        for k in self.mro(c):
            out.add(k.qual)
            for b in k.node.bases:
                r = self.resolve_expr(k.module, b) if not isinstance(b, ast.Call) else None
                if r:
                    out.add(r)
        return out

    def mro(self, c: Class):
        if c._mro is not None:
            return c._mro
        c._mro = [c]  # recursion guard

        def merge(seqs):
            res = []
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return res
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                res.append(cand)
                seqs = [[x for x in t if x is not cand] for t in seqs]

        bs = self.bases(c)
        c._mro = [c] + merge([list(self.mro(b)) for b in bs] + [list(bs)])
        return c._mro

    def is_subclass(self, qual: str, base: str) -> bool:
        if qual == base:
            return True
        c = self.classes.get(qual)
        return bool(c) and base in self.base_names(c)

    def subclasses(self, base: str):
        return [c for c in self.classes.values() if c.qual != base and base in self.base_names(c)]

    def find_method(self, c: Class, name: str, after: Class | None = None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for k in mro:
            if name in k.methods:
                return k.methods[name]
            if name in k.attrs:
                v = k.attrs[name]
                if isinstance(v, ast.Name) and v.id in k.methods:
                    return k.methods[v.id]
                return None
        return None

    def find_setter(self, c: Class, name: str):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def find_attr(self, c: Class, name: str):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None, None

    # -- anchors -----------------------------------------------------------
    def func(self, qual: str) -> Func:
        f = self.funcs.get(qual)
        if f is None and "." in qual:
            # inherited method of a class
            c, _, n = qual.rpartition(".")
            if c in self.classes:
                f = self.find_method(self.classes[c], n)
        if f is None:
            raise AnalysisBroken(f"anchor function {qual} not found")
        return f

    def cls(self, qual: str) -> Class:
        c = self.classes.get(qual)
        if c is None:
            r = self.resolve(qual)
            c = self.classes.get(r)
        if c is None:
            raise AnalysisBroken(f"anchor class {qual} not found")
        return c

    def module(self, name: str) -> Module:
        if name not in self.modules:
            raise AnalysisBroken(f"anchor module {name} not found")
        return self.modules[name]
