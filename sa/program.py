"""Resolved program model of the analysed package (syntax trees, scopes, classes, imports)."""
from __future__ import annotations
import ast
import builtins
import os


class AnalysisBroken(Exception):
    """The analysed code no longer has the shape the analysis is anchored in."""


EXCLUDED = ("prepare_explanations",)


class Module:
    def __init__(self, name, path, src, tree, is_pkg):
        self.name, self.path, self.src, self.tree, self.is_pkg = name, path, src, tree, is_pkg
        self.names = {}  # top level name -> list of binding nodes/imports
        self.relpath = path


class Func:
    def __init__(self, qual, node, module, cls, parent):
        self.qual, self.node, self.module, self.cls, self.parent = qual, node, module, cls, parent
        self.locals = None
        self.globals_decl = set()
        self.nonlocals = set()

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def is_generator(self):
        if not hasattr(self, "_gen"):
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(self.node))
        return self._gen

    def decorators(self):
        return getattr(self.node, "decorator_list", [])

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    def __init__(self, qual, node, module, parent):
        self.qual, self.node, self.module, self.parent = qual, node, module, parent
        self.methods = {}
        self.bases = []  # quals (repo) or dotted ext

    @property
    def name(self):
        return self.node.name


def own_nodes(node):
    """Nodes of a function/module body excluding nested functions/classes (lambdas excluded too)."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


def all_nodes(node):
    return ast.walk(node)


class Program:
    def __init__(self, root, pkg="edulint"):
        self.root, self.pkg = root, pkg
        self.modules, self.funcs, self.classes = {}, {}, {}
        self.func_of_node = {}
        self.class_of_node = {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"no package directory {base}")
        for dp, dns, fns in os.walk(base):
            dns[:] = sorted(d for d in dns if d != "__pycache__" and d not in EXCLUDED)
            for fn in sorted(fns):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dp, fn)
                rel = os.path.relpath(path, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(path, encoding="utf-8") as f:
                    src = f.read()
                try:
                    tree = ast.parse(src, filename=rel)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{rel} does not parse: {e}")
                m = Module(name, path, src, tree, is_pkg)
                m.relpath = rel
                self.modules[name] = m
        for m in self.modules.values():
            self._index(m)

    # ---------------------------------------------------------------- indexing
    def _index(self, m):
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                c.parent = n
            n.mod_ = m
        m.tree.parent = None

        def visit(node, prefix, cls, parent_fn):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = f"{prefix}.{n.name}"
                    base_q, k = q, 2
                    while q in self.funcs:
                        q = f"{base_q}#{k}"
                        k += 1
                    f = Func(q, n, m, cls, parent_fn)
                    self.funcs[q] = f
                    self.func_of_node[n] = f
                    if cls is not None and parent_fn is cls.parent:
                        cls.methods.setdefault(n.name, f)
                        if k > 2:
                            cls.methods[n.name] = f
                    for d in n.decorator_list:
                        visit_expr(d, prefix, cls, parent_fn)
                    visit(n, q, None, f)
                elif isinstance(n, ast.Lambda):
                    q = f"{prefix}.<lambda@{n.lineno}:{n.col_offset}>"
                    f = Func(q, n, m, None, parent_fn)
                    self.funcs[q] = f
                    self.func_of_node[n] = f
                    visit(n, q, None, f)
                elif isinstance(n, ast.ClassDef):
                    q = f"{prefix}.{n.name}"
                    c = Class(q, n, m, parent_fn)
                    self.classes[q] = c
                    self.class_of_node[n] = c
                    visit(n, q, c, parent_fn)
                else:
                    visit(n, prefix, cls, parent_fn)

        def visit_expr(e, *a):
            pass

        visit(m.tree, m.name, None, None)
        for st in self._flat_toplevel(m.tree.body):
            self._bind_stmt(m, st)

    def _flat_toplevel(self, body):
        for s in body:
            yield s
            if isinstance(s, ast.If):
                if _is_type_checking(s.test):
                    # static-only names; run-time branch is the else
                    yield from self._flat_toplevel(s.orelse)
                else:
                    yield from self._flat_toplevel(s.body)
                    yield from self._flat_toplevel(s.orelse)
            elif isinstance(s, ast.Try):
                for b in (s.body, *[h.body for h in s.handlers], s.orelse, s.finalbody):
                    yield from self._flat_toplevel(b)
            elif isinstance(s, ast.With):
                yield from self._flat_toplevel(s.body)

    def _bind_stmt(self, m, s):
        add = lambda name, v: m.names.setdefault(name, []).append(v)
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    add(a.asname, ("module", a.name))
                else:
                    add(a.name.split(".")[0], ("module", a.name.split(".")[0]))
        elif isinstance(s, ast.ImportFrom):
            base = self.abs_import(m, s)
            for a in s.names:
                add(a.asname or a.name, ("from", base, a.name))
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            add(s.name, ("def", s))
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        add(n.id, ("assign", s))
        elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
            if isinstance(s.target, ast.Name) and (getattr(s, "value", None) is not None):
                add(s.target.id, ("assign", s))

    def abs_import(self, m, s):
        if s.level == 0:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (s.level - 1)]
        if s.module:
            parts.append(s.module)
        return ".".join(parts)

    # ---------------------------------------------------------------- resolution
    def resolve_global(self, m, name, _seen=None):
        """-> ('func', Func) | ('class', Class) | ('module', name) | ('ext', dotted) | ('var', Module, name) | None"""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        b = m.names.get(name)
        if b is None:
            sub = f"{m.name}.{name}"
            if sub in self.modules:
                return ("module", sub)
            if hasattr(builtins, name):
                return ("ext", f"builtins.{name}")
            return None
        b = b[-1] if not any(x[0] == "def" for x in b) else [x for x in b if x[0] == "def"][-1]
        if b[0] == "module":
            return ("module", b[1]) if b[1] in self.modules else ("ext", b[1])
        if b[0] == "from":
            base, n = b[1], b[2]
            if base in self.modules:
                r = self.resolve_global(self.modules[base], n, _seen)
                if r is not None and not (r[0] == "ext" and r[1] == f"builtins.{n}" and n not in self.modules[base].names):
                    return r
                if f"{base}.{n}" in self.modules:
                    return ("module", f"{base}.{n}")
                return ("ext", f"{base}.{n}")
            if f"{base}.{n}" in self.modules:
                return ("module", f"{base}.{n}")
            return ("ext", f"{base}.{n}")
        if b[0] == "def":
            n = b[1]
            if isinstance(n, ast.ClassDef):
                return ("class", self.class_of_node[n])
            return ("func", self.func_of_node[n])
        return ("var", m, name)

    def resolve_expr(self, m, e, local_names=()):
        """Resolve Name/Attribute chains that denote globals (no local type inference)."""
        if isinstance(e, ast.Name):
            if e.id in local_names:
                return None
            return self.resolve_global(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, local_names)
            if b is None:
                return None
            return self.resolve_attr(b, e.attr)
        return None

    def resolve_attr(self, b, attr):
        if b[0] == "module":
            return self.resolve_global(self.modules[b[1]], attr)
        if b[0] == "ext":
            return ("ext", f"{b[1]}.{attr}")
        if b[0] == "class":
            f = self.find_method(b[1], attr)
            if f is not None:
                return ("func", f)
            return ("classattr", b[1], attr)
        return None

    def class_bases(self, c):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            r = self.resolve_expr(c.module, b)
            if r is None:
                continue
            out.append(r)
        return out

    def mro(self, c, _seen=()):
        """Linearised repo classes (approximate), then ext dotted names as strings."""
        out = [c]
        for r in self.class_bases(c):
            if r[0] == "class" and r[1] not in out and r[1] not in _seen:
                out.extend(x for x in self.mro(r[1], _seen + (c,)) if x not in out)
            elif r[0] == "ext":
                out.append(r[1])
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.methods:
                return k.methods[name]
        return None

    def is_subclass_ext(self, c, dotted_suffixes):
        return any(isinstance(k, str) and k.endswith(tuple(dotted_suffixes)) for k in self.mro(c))

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken(f"module {name} vanished")
        return self.modules[name]

    def func(self, qual):
        if qual not in self.funcs:
            raise AnalysisBroken(f"function {qual} vanished")
        return self.funcs[qual]

    def enclosing_func(self, node):
        n = getattr(node, "parent", None)
        while n is not None:
            if n in self.func_of_node:
                return self.func_of_node[n]
            n = getattr(n, "parent", None)
        return None

    def enclosing_class(self, node):
        n = getattr(node, "parent", None)
        while n is not None:
            if n in self.class_of_node:
                return self.class_of_node[n]
            n = getattr(n, "parent", None)
        return None

    def where(self, node):
        m = getattr(node, "mod_", None)
        return f"{m.relpath if m else '?'}:{getattr(node, 'lineno', 0)}"


def _is_type_checking(test):
    return (isinstance(test, ast.Name) and test.id == "TYPE_CHECKING") or (
        isinstance(test, ast.Attribute) and test.attr == "TYPE_CHECKING"
    )


def func_locals(fn_node):
    """(local names, global decls, nonlocal decls) of a function node"""
    locs, gl, nl = set(), set(), set()
    a = fn_node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        locs.add(x.arg)
    if a.vararg:
        locs.add(a.vararg.arg)
    if a.kwarg:
        locs.add(a.kwarg.arg)
    body = fn_node.body if isinstance(fn_node.body, list) else [fn_node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            locs.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            locs.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                locs.add(al.asname or al.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            locs.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            locs.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return locs - gl - nl, gl, nl
