"""Every name refers to the variable Python resolves it to.

Small programs with every way of binding a name, every place it can be used and every arrangement of scopes are built as
symbolic syntax trees; the construction of the graph and the collection of variable events are interpreted on them, and
the variable, scope and kind of each recorded event are compared with Python's rules for names."""
import ast
from ..absint import Obj, const
from .K07 import session, Graph, indent, V

MIN = {"resolved": 1500, "collected": 400, "kind": 1500, "order": 60, "placed": 1500}
LISTENER = "edulint.linting.analyses.variable_scope.VarEventsAnalysis"
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
FIELDS = {f for c in vars(ast).values() if isinstance(c, type) and issubclass(c, ast.AST) for f in c._fields} | {"decorators"}
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
SCOPED = ("Module", "FunctionDef", "AsyncFunctionDef", "ClassDef", "Lambda", "GeneratorExp", "ListComp", "SetComp", "DictComp")

BINDS = {
    "assignment": "n = 1", "chained assignment": "m = n = 1", "tuple": "(m, n) = q", "nested tuple": "m, [n, o] = q", "starred": "m, *n = q", "annotated": "n: t = 1", "annotation": "n: t",
    "for": "for n in q:\n    pass", "for tuple": "for m, n in q:\n    pass", "async for": "async for n in q:\n    pass", "with": "with q as n:\n    pass", "with tuple": "with q as (m, n):\n    pass", "async with": "async with q as n:\n    pass",
    "except": "try:\n    q\nexcept t as n:\n    pass", "capture": "match q:\n    case n:\n        pass", "sequence pattern": "match q:\n    case [m, n]:\n        pass", "star pattern": "match q:\n    case [m, *n]:\n        pass",
    "mapping pattern": "match q:\n    case {'k': n}:\n        pass", "rest pattern": "match q:\n    case {'k': m, **n}:\n        pass", "as pattern": "match q:\n    case [m] as n:\n        pass", "class pattern": "match q:\n    case t(n, k=m):\n        pass",
    "import": "import n", "import as": "import m as n", "import of submodule": "import n.m", "from import": "from m import n", "from import as": "from m import o as n", "from import several": "from m import o, n",
    "def": "def n():\n    pass", "async def": "async def n():\n    pass", "class": "class n:\n    pass", "walrus": "(n := 1)", "walrus in comprehension": "[(n := m) for m in q]", "walrus in condition": "if (n := q):\n    pass",
    "nested def": "if q:\n    def n():\n        pass", "nested class": "if q:\n    class n:\n        pass", "branch": "if q:\n    n = 1", "loop": "while q:\n    n = 1", "deleted": "n = 1\ndel n", "deleted in branch": "n = 1\nif q:\n    del n",
    "augmented": "n = 1\nn += 1", "twice": "n = 1\nn = 2",
}
USES = {
    "expression": "n", "argument": "g(n)", "keyword argument": "g(k=n)", "star argument": "g(*n, **n)", "callee": "n()", "attribute": "n.a", "method": "n.f()", "f-string": "f'{n!r:>{n}}'", "decorator": "@n\ndef h():\n    pass",
    "decorator call": "@g(n)\nclass H:\n    pass", "default": "def h(a, b=n):\n    pass", "keyword default": "def h(a, *, b=n, c):\n    pass", "annotation of argument": "def h(a: n, /, b: n, *c: n, d: n, **e: n):\n    pass", "return annotation": "def h() -> n:\n    pass",
    "base": "class H(n):\n    pass", "class keyword": "class H(k=n):\n    pass", "lambda": "h = lambda a: a + n", "lambda default": "h = lambda a=n: a", "lambda keyword default": "h = lambda *, a=n: a", "element": "[n for a in q]", "condition": "{a for a in q if n}",
    "first iterable": "[a for a in n]", "second iterable": "[a for a in q for b in n]", "key and value": "{n: n for a in q}", "generator": "g(n + a for a in n if n)", "nested comprehension": "[[n for b in a] for a in q]", "subscript": "n[0]", "index": "q[n]",
    "slice": "q[n:n]", "await": "await n", "display": "[n, {n: n}, (n, *n)]", "test": "if n:\n    pass\nelif n:\n    pass", "while": "while n:\n    pass", "for": "for a in n:\n    pass", "with": "with n as a, n:\n    pass", "return": "return n", "yield": "yield n",
    "augmented value": "a = 1\na += n", "augmented attribute": "q.a += n", "annotated value": "a: t = n", "annotation": "a: n = 1", "assert": "assert n, n", "raise": "raise n from n", "deleted subscript": "del n[0], q[n]", "deleted attribute": "del n.a, q[n].b", "stored subscript": "n[0] = 1",
    "stored attribute": "n.a = 1", "stored in tuple": "n.a, n[0] = q", "stored in list": "[n.a, (n[0], *n[1])] = q", "loop target item": "for n[0], m in q:\n    pass", "with target item": "with q as n.a[0]:\n    pass", "deleted in tuple": "del (n[0], n.a), q[0]", "subject": "match n:\n    case 1:\n        pass", "guard": "match q:\n    case 1 if n:\n        pass", "value pattern": "match q:\n    case n.a:\n        pass", "class of pattern": "match q:\n    case n():\n        pass",
    "handler": "try:\n    q\nexcept n:\n    pass", "handlers": "try:\n    q\nexcept (n, t):\n    pass", "in function": "def h(a):\n    return n", "in method": "class H:\n    def h(self):\n        return n", "in class": "class H:\n    a = n", "in nested function": "def h():\n    def i():\n        return n\n    return i",
    "comparison": "0 < n < n", "logical": "n and not n or -n", "conditional": "n if n else n", "augmented target": "n += 1", "mutation": "n.append(1)\nn.clear()\nn.extend(q)\nn.a.insert(0, n)\nq.remove(n.pop())", "mutations": "n[0].reverse()\nn.sort(key=n.f)\nn.add(n)\nn.update(q)\nn.a[0].popitem()\nn.symmetric_difference_update(n)", "pure method": "n.copy().index(n.get(q))\nn.count(1)", "deep mutation": "n.a[0].b = 1", "loop target": "for n.a in q:\n    pass", "with target": "with q as n.a:\n    pass",
}
SCOPES = {      # {B} binds, {U} uses
    "bound before": "async def f(q, t):\n{B}\n{U}",
    "bound later in loop": "async def f(q, t):\n    while q:\n        if q.z:\n{UUU}\n{BB}",
    "global": "q = t = 0\nasync def f(q, t):\n{U}\nasync def s(q, t):\n    global n\n{B}",
    "outer function": "async def f(q, t):\n{B}\n    async def s(q):\n{UU}\n    return s",
    "outer function later": "async def f(q, t):\n    async def s(q):\n{UU}\n    s()\n{B}",
    "hidden by class": "n = 0\nclass C:\n    async def s(self, q, t):\n{UU}\n    q = t = 0\n    n = 0",
    "hides global": "n = 0\nasync def f(q, t):\n    if q:\n{UU}\n{B}",
    "nonlocal": "n = 0\nasync def f(q, t):\n    n = 0\n    def g():\n        async def h(q):\n            nonlocal n\n{UUU}\n{BBB}\n        return h\n    return g",
    "undefined here": "class C:\n    n = 0\nasync def f(q, t):\n{U}",
    "argument": "n = 0\nasync def f(q, t, n):\n{U}", "star arguments": "async def f(q, t, *n, **m):\n{U}\n    m", "keyword argument": "async def f(q, t, /, m, *, n=q):\n{U}",
}
# the name is read and bound by one statement
BOTH = ["n = n + 1", "n, m = n, n", "n += n", "(n := n + 1)", "n: t = n", "[n := n for a in n if n]", "n = (n := n)", "g(n, n := n, n)", "@n\ndef n(a: n, b=n, *, c=n) -> n:\n    return n", "@n\nclass n(n, k=n):\n    n = n", "n = lambda n=n: n", "for n in n:\n    n",
        "with n as n:\n    n", "n = [n for n in n]", "if q:\n    @n\n    def n(a: n = n):\n        return n", "if q:\n    @n\n    class n(n):\n        n", "n[n] = n", "n = n.a = n", "n.a, n = n", "n = n\ndel n, m", "while (n := n + 1) < n:\n    n", "n = {n: n := n}" , "n = {(n := n): n for a in n}", "n = n if (n := n) else n", "@n\nasync def n(a=lambda: n):\n    pass"]
MUTATING = {"append", "clear", "extend", "insert", "pop", "remove", "reverse", "sort", "add", "update", "popitem", "symmetric_difference_update"}
# both sides vary over each other's plainest form
PLAIN = ("assignment", "expression")


def programs():
    for name, text in SCOPES.items():
        for b, bind in BINDS.items():
            if "{B" not in text and b != "assignment" or name in ("global", "nonlocal") and b in ("annotated", "annotation"):
                continue
            for u, use in USES.items():
                if b not in PLAIN and u not in PLAIN:
                    continue
                t = text
                for k in (3, 2, 1):
                    pad = "    " * k
                    t = t.replace("{" + "B" * k + "}", "\n".join(pad + x for x in bind.split("\n"))).replace("{" + "U" * k + "}", "\n".join(pad + x for x in use.split("\n")))
                yield f"{b} / {u} / {name}", t
    for b in BOTH:
        body = "\n".join("    " + x for x in b.split("\n"))
        yield f"both {b} / function", f"def f(q, t, n, m):\n{body}\n    n"
        yield f"both {b} / class", f"n = q = t = m = 0\nclass C:\n{body}\n    n"
        yield f"both {b} / module", f"n = q = t = m = 0\n{b}\nn"
    for b in ("n = 1", "def n():\n    pass", "import n", "for n in m:\n    pass", "(n := 1)"):
        yield f"module {b.split()[0]}", f"{b}\nn\nclass C:\n    n\n    def f(self):\n        return n"


class Scope:
    def __init__(self, node, parent):
        self.node, self.parent, self.bound, self.globals, self.nonlocals = node, parent, set(), set(), set()

    def resolve(self, name):
        s = self
        if name in self.globals:
            while s.parent is not None:
                s = s.parent
            return s if name in s.bound else None
        if name in self.nonlocals:
            s = self.parent
        while s is not None:
            if name in s.bound and name not in s.nonlocals and (s is self or not isinstance(s.node, ast.ClassDef)):
                return s
            s = s.parent
        return None

    def local(self):
        s = self
        while isinstance(s.node, COMP):
            s = s.parent
        return s

    def home(self, name):
        """the scope a binding of the name in this one belongs to"""
        s = self
        while s.parent is not None and name in s.globals:
            s = s.parent
        while s.parent is not None and name in self.globals:
            s = s.parent
        return s


class Names:
    """occurrences of names with the scope each is looked up in"""

    def __init__(self, tree):
        self.occ = []       # (what, name, scope, kinds)
        self.scopes = []
        self.module = self.scope(tree, None)
        self.block(tree.body, self.module)

    def scope(self, node, parent):
        self.scopes.append(Scope(node, parent))
        return self.scopes[-1]

    def bind(self, what, name, scope, kind=("ASSIGN", "REASSIGN")):
        scope.home(name).bound.add(name)
        self.occ.append((what, name, scope, [kind]))

    def block(self, xs, scope):
        for x in xs:
            self.visit(x, scope)

    def base(self, e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        return e if isinstance(e, ast.Name) else None

    def visit(self, e, scope):
        if isinstance(e, (list, tuple)):
            return self.block(e, scope)
        if not isinstance(e, ast.AST):
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.occ.append((e, e.id, scope, [("READ",)]))
            else:
                self.bind(e, e.id, scope, ("DELETE",) if isinstance(e.ctx, ast.Del) else ("ASSIGN", "REASSIGN"))
            return
        if isinstance(e, (ast.Attribute, ast.Subscript)) and not isinstance(e.ctx, ast.Load):
            b = self.base(e)
            self.block(list(ast.iter_child_nodes(e)), scope)
            if b is not None:
                next(o for o in self.occ if o[0] is b)[3].append(("MODIFY",))
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in MUTATING and self.base(e.func) is not None:
            self.block(list(ast.iter_child_nodes(e)), scope)
            return next(o for o in self.occ if o[0] is self.base(e.func))[3].append(("MODIFY",))
        if isinstance(e, ast.AugAssign) and isinstance(e.target, ast.Name):
            self.visit(e.value, scope)
            self.bind(e.target, e.target.id, scope)
            self.occ[-1][3].append(("READ",))
            return
        if isinstance(e, (ast.Assign, ast.AnnAssign)):
            return self.block([e.value, *(e.targets if isinstance(e, ast.Assign) else [e.annotation, e.target])], scope)
        if isinstance(e, (ast.For, ast.AsyncFor)):
            return self.block([e.iter, e.target, *e.body, *e.orelse], scope)
        if isinstance(e, FUNC):
            a = e.args
            every = [*a.posonlyargs, *a.args, *a.kwonlyargs, *[x for x in (a.vararg, a.kwarg) if x is not None]]
            self.block([*e.decorator_list, *a.defaults, *[d for d in a.kw_defaults if d is not None], *[x.annotation for x in every if x.annotation is not None], *([e.returns] if e.returns is not None else [])], scope)
            self.bind(e, e.name, scope)
            s = self.scope(e, scope)
            for x in every:
                self.bind((a, x.arg), x.arg, s)
            return self.block(e.body, s)
        if isinstance(e, ast.Lambda):
            self.block([*e.args.defaults, *[d for d in e.args.kw_defaults if d is not None]], scope)
            s = self.scope(e, scope)
            for x in [*e.args.posonlyargs, *e.args.args, *e.args.kwonlyargs]:
                self.bind((e.args, x.arg), x.arg, s)
            return self.visit(e.body, s)
        if isinstance(e, ast.ClassDef):
            self.block([*e.decorator_list, *e.bases, *e.keywords], scope)
            self.bind(e, e.name, scope)
            return self.block(e.body, self.scope(e, scope))
        if isinstance(e, COMP):
            self.visit(e.generators[0].iter, scope)
            s = self.scope(e, scope)
            for i, g in enumerate(e.generators):
                self.visit(g.target, s)
                if i:
                    self.visit(g.iter, s)
                self.block(g.ifs, s)
            return self.block([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt], s)
        if isinstance(e, ast.NamedExpr):
            self.visit(e.value, scope)
            return self.bind(e.target, e.target.id, scope.local())
        if isinstance(e, (ast.Import, ast.ImportFrom)):
            for x in e.names:
                self.bind(e, x.asname or (x.name.split(".")[0] if isinstance(e, ast.Import) else x.name), scope)
            return
        if isinstance(e, ast.Global):
            return scope.globals.update(e.names)
        if isinstance(e, ast.Nonlocal):
            return scope.nonlocals.update(e.names)
        if isinstance(e, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and e.name is not None:
            self.bind((e, e.name), e.name, scope)
        if isinstance(e, ast.MatchMapping) and e.rest is not None:
            self.bind((e, e.rest), e.rest, scope)
        self.block(list(ast.iter_child_nodes(e)), scope)


def kind_of(av):
    return str(av[-1] if av[0] != "c" else av[2]).split(".")[-1]


def up(it, st, o):
    out = [o]
    while True:
        p = next(iter(it.obj(st, o).fields["parent"]))
        if p[0] != "o":
            return out
        o = p[1]
        out.append(o)


def judge(ctx, it, t, cls, name, text):
    where = ctx.prog.find_method(ctx.prog.classes[LISTENER], "collect")
    t.reset()
    it.steps = 0
    tree = ast.parse(text)
    names = Names(tree)
    module = t.build(tree)
    st = t.st.copy()
    node = {t.src[o]: o for o in t.src}

    def oid(what):
        if isinstance(what, tuple):
            return next(iter(t.bounds[id(what[0]), what[1]]))[1]
        return node[what]
    locals_ = {}
    for what, n, scope, kinds in names.occ:
        if kinds[0] != ("READ",):
            s = scope.home(n)
            locals_.setdefault(s.node, {}).setdefault(n, []).append(("o", oid(what)))
    it.scope_locals = {node[s]: d for s, d in locals_.items()}
    visitor = it.alloc(st, Obj("inst", V, {}), where.node, "visitor")
    init = ctx.prog.find_method(cls, "__init__")
    if init is not None:
        _, st, _ = it.run(init, [visitor], st=st)
    _, st, exc = it.run(ctx.prog.find_method(cls, "visit_module"), [visitor, module], st=st)
    if not exc and not st.dead:
        _, st, exc = it.run(ctx.prog.find_method(ctx.prog.classes[LISTENER], "collect"), [module], st=st)
    if not ctx.expect(not exc and not st.dead, "collected", name, where, f"collecting the variable events of a program fails with {', '.join(sorted(exc)) or 'an error'}:\n{text}", name):
        return
    g = Graph(t, it, st)
    events, lists = {}, []
    for o in t.src:
        loc = g.field(("o", o), "cfg_loc")
        if loc is None or g.field(loc, "node") != ("o", o):
            continue
        d = it.obj(st, g.field(g.field(loc, "var_events"), "var_events")[1])
        for l in d.layers:
            if l[0] != "kv" or len(l[2]) != 1:
                return ctx.bad("collected", name, where, f"the events of {t.kind[o]} are not determined:\n{text}")
            lists.append([])
            for e in g.items(next(iter(l[2]))) or [None]:
                var, n, kind = g.field(e, "var"), g.field(e, "node"), g.field(e, "type")
                if var is None or n is None or kind is None:
                    return ctx.bad("collected", name, where, f"the events of {t.kind[o]} are not determined:\n{text}")
                lists[-1].append((n[1], kind_of(kind)))
                events.setdefault(n[1], []).append((g.field(var, "name"), g.field(var, "scope"), kind, o))
    for what, n, scope, kinds in names.occ:
        s = scope.resolve(n)
        got = [e for e in events.get(oid(what), ()) if e[0] is not None and e[0][0] == "c" and e[0][2] == n]
        owners = {e[1] for e in got}
        want = {("o", node[s.node])} if s is not None else set()
        key = f"{name}:{n}:{getattr(what, 'lineno', 0) if not isinstance(what, tuple) else what[1]}"
        line = f"line {getattr(what, 'lineno', '?')}" if not isinstance(what, tuple) else "its binding"

        def says(xs):
            return ", ".join(sorted((getattr(t.src.get(x[1]), "name", None) or t.kind.get(x[1], "?")) if x is not None else "?" for x in xs)) or "no variable"
        if got:
            spots = {e[3] for e in got}
            inner = [x for x in up(it, st, oid(what)) if "cfg_loc" in it.obj(st, x).fields]
            here = node.get(what[0]) if isinstance(what, tuple) and isinstance(what[0], ast.arguments) else None
            here = here if here is not None and "cfg_loc" in it.obj(st, here).fields else inner[0] if inner else None
            ctx.expect(spots == {here}, "placed", key, where, f"what happens to '{n}' at {line} is recorded at {says(('o', x) for x in spots)} instead of {says([('o', here)])}:\n{text}", name)
        if ctx.expect(owners == want, "resolved", key, where, f"'{n}' at {line} belongs to {says(want)} but is taken for a variable of {says(owners)}:\n{text}", name) and s is not None:
            have = {kind_of(e[2]) for e in got}
            bad = [k for k in kinds if not have & set(k)] or [h for h in have if h in ("ASSIGN", "REASSIGN", "DELETE", "MODIFY") and not any(h in k for k in kinds)]
            ctx.expect(not bad, "kind", key, where, f"'{n}' at {line} is recorded as {', '.join(sorted(have))} instead of {', '.join('/'.join(k) for k in kinds)}:\n{text}", name)
    turn = {}
    for i, (what, n, scope, kinds) in enumerate(names.occ):
        turn.setdefault(oid(what), i)
    bind = ("ASSIGN", "REASSIGN", "DELETE")
    for xs in lists:
        if len(xs) < 2 or not any(k in bind for _, k in xs):
            continue
        wrong = [(a, b) for i, (a, k) in enumerate(xs) for b, h in xs[i + 1:] if (k in bind or h in bind) and a in turn and b in turn and (turn[a] > turn[b] or a == b and k in bind and h == "READ")
                 and not (k == "READ" and isinstance(getattr(t.src[a], "ctx", None), ast.Store))]
        ctx.expect(not wrong, "order", f"{name}:{turn.get(xs[0][0])}", where, f"{', '.join(sorted({t.text(frozenset([('o', o)])) or t.kind[o] for w in wrong for o in w}))}: the events of a name read and bound by one statement are not in the order in which they happen:\n{text}", name)


def prepare(ctx):
    it, t, cls = session(ctx)
    it.max_depth = 100
    old = it.on_attr

    def node(a):
        x = next(iter(a)) if len(a) == 1 else None
        return x[1] if x is not None and x[0] == "o" and t.oid(x) is not None else None

    def ancestors(i, a, k, st, n, fr):
        o = node(a[0])
        return i.alloc(st, Obj("iter", segs=tuple(("1", frozenset([("o", x)])) for x in up(i, st, o)[1:])), n, ("ancestors", o)) if o is not None else None

    def root(i, a, k, st, n, fr):
        o = node(a[0])
        return frozenset([("o", up(i, st, o)[-1])]) if o is not None else None

    def on_attr(i, x, attr, st, n):
        if attr == "locals" and x[0] == "o" and x[1] in t.src:
            d = i.scope_locals.get(x[1], {})
            return i.alloc(st, Obj("dict", layers=tuple(("kv", const(k), i.alloc(st, Obj("list", segs=tuple(("1", frozenset([v])) for v in vs)), n, ("local", x[1], k))) for k, vs in d.items())), n, ("locals", x[1]))
        return old(i, x, attr, st, n)

    def hasattr_(i, a, k, st, n, fr):
        o, name = node(a[0]), next(iter(a[1]))
        return const(name[2] in i.obj(st, o).fields) if o is not None and name[0] == "c" else None

    def getattr_(i, a, k, st, n, fr):
        o = node(a[0])
        if o is None or len(a) != 3 or next(iter(a[1]))[0] != "c":
            return None
        name = next(iter(a[1]))[2]      # a field only other kinds of nodes have
        return i.obj(st, o).fields.get(name, a[2] if name in FIELDS else None)

    def scope(i, a, k, st, n, fr):
        o = node(a[0])
        for x in [] if o is None else up(i, st, o):
            if t.kind[x] in SCOPED:
                return frozenset([("o", x)])
        return None
    it.stubs["builtins.hasattr"], it.stubs["builtins.getattr"], it.stubs[".scope"] = hasattr_, getattr_, scope
    it.stubs[".node_ancestors"], it.stubs[".root"], it.on_attr, it.scope_locals = ancestors, root, on_attr, {}
    return it, t, cls


def check(ctx):
    it, t, cls = prepare(ctx)
    for name, text in programs():
        try:
            compile(text, name, "exec")
        except SyntaxError:
            continue
        judge(ctx, it, t, cls, name, text)
    ctx.absorb(it)
