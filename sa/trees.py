"""Pieces of an analysed program's syntax tree for the abstract interpreter.

A tree is built from an expression whose names stand for arbitrary expressions (only their identity is known) and whose
names that start with _K stand for arbitrary constants, so that what a function does with a tree is decided for all
programs of that shape."""
from __future__ import annotations
import ast
from .absint import State, Obj, C, EMPTY, const

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>",
       ast.BitOr: "|", ast.BitXor: "^", ast.BitAnd: "&", ast.MatMult: "@", ast.UAdd: "+", ast.USub: "-", ast.Not: "not", ast.Invert: "~", ast.And: "and", ast.Or: "or",
       ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BASES = {"BinOp": ["OperatorNode"], "UnaryOp": ["OperatorNode"], "Name": ["LookupMixIn", "NoChildrenNode"], "Const": ["NoChildrenNode"], "If": ["Statement", "MultiLineBlockNode", "MultiLineWithElseBlockNode"],
         "While": ["Statement", "MultiLineBlockNode", "MultiLineWithElseBlockNode"], "Return": ["Statement"], "Assign": ["Statement", "AssignTypeNode"], "Expr": ["Statement"],
         "For": ["Statement", "AssignTypeNode", "MultiLineBlockNode", "MultiLineWithElseBlockNode"], "AsyncFor": ["For", "Statement", "AssignTypeNode", "MultiLineBlockNode", "MultiLineWithElseBlockNode"],
         "With": ["Statement", "AssignTypeNode", "MultiLineBlockNode", "MultiLineWithElseBlockNode"], "AsyncWith": ["With", "Statement", "AssignTypeNode", "MultiLineBlockNode", "MultiLineWithElseBlockNode"],
         "Try": ["Statement", "MultiLineBlockNode", "MultiLineWithElseBlockNode"], "TryStar": ["Statement", "MultiLineBlockNode", "MultiLineWithElseBlockNode"],
         "ExceptHandler": ["Statement", "AssignTypeNode", "MultiLineBlockNode"], "Match": ["Statement", "MultiLineBlockNode"], "MatchCase": ["MultiLineBlockNode"], "MatchAs": ["Pattern", "AssignTypeNode"],
         "MatchStar": ["Pattern", "AssignTypeNode"], "MatchMapping": ["Pattern", "AssignTypeNode"], "MatchValue": ["Pattern"], "MatchSequence": ["Pattern"], "MatchOr": ["Pattern"], "MatchClass": ["Pattern"], "MatchSingleton": ["Pattern"],
         "FunctionDef": ["Statement", "MultiLineBlockNode", "LocalsDictNodeNG"], "AsyncFunctionDef": ["FunctionDef", "Statement", "MultiLineBlockNode", "LocalsDictNodeNG"], "ClassDef": ["Statement", "LocalsDictNodeNG"],
         "Module": ["LocalsDictNodeNG"], "Lambda": ["LocalsDictNodeNG"], "Arguments": ["AssignTypeNode"], "AssignName": ["LookupMixIn", "NoChildrenNode"], "Break": ["Statement", "NoChildrenNode"], "Continue": ["Statement", "NoChildrenNode"],
         "Raise": ["Statement"], "Pass": ["Statement", "NoChildrenNode"], "AnnAssign": ["Statement", "AssignTypeNode"], "AugAssign": ["Statement", "AssignTypeNode", "OperatorNode"], "NamedExpr": ["AssignTypeNode"],
         "DelName": ["LookupMixIn", "NoChildrenNode"], "DelAttr": [], "AssignAttr": [], "Decorators": [], "Keyword": [], "Global": ["Statement", "NoChildrenNode"], "Nonlocal": ["Statement", "NoChildrenNode"], "Assert": ["Statement"],
         "ListComp": ["ComprehensionScope", "LocalsDictNodeNG"], "SetComp": ["ComprehensionScope", "LocalsDictNodeNG"], "DictComp": ["ComprehensionScope", "LocalsDictNodeNG"], "GeneratorExp": ["ComprehensionScope", "LocalsDictNodeNG"],
         "Starred": [], "Comprehension": ["AssignTypeNode"], "TypeAlias": ["Statement", "AssignTypeNode"], "TypeVar": ["AssignTypeNode"], "ParamSpec": ["AssignTypeNode"], "TypeVarTuple": ["AssignTypeNode"],
         "Import": ["Statement"], "ImportFrom": ["Statement"], "Delete": ["Statement", "AssignTypeNode"],
         "List": ["BaseContainer"], "Tuple": ["BaseContainer"], "Set": ["BaseContainer"]}
NODES = ("astroid.nodes.", "astroid.node_classes.", "astroid.nodes.node_classes.")


def short(name):
    for p in NODES:
        if name.startswith(p):
            return name[len(p):]
    return name[8:] if name.startswith("astroid.") and name[8:9].isupper() else None


class Trees:
    def __init__(self, ctx, it, st):
        self.ctx, self.it, self.st = ctx, it, st
        self.n = 0
        self.src = {}       # object id -> ast node
        self.kind = {}
        self.kids = {}
        self.bounds = {}    # (id of ast node, name) -> name bound by it
        self.install()

    # ------------------------------------------------------------------ building
    def reset(self):
        """forget all trees built so far"""
        self.st = State()
        self.n = 0
        self.src, self.kind, self.kids, self.bounds = {}, {}, {}, {}

    def new(self, kind, src, kids=(), **fields):
        self.n += 1
        where = self.ctx.prog.modules["edulint.edulint"].tree.body[0]
        av = self.it.alloc(self.st, Obj("inst", "astroid.nodes." + kind, fields), where, ("tree", self.n))
        oid = next(iter(av))[1]
        self.src[oid], self.kind[oid], self.kids[oid] = src, kind, [k for k in kids if k is not None]
        o = self.st.heap[oid]
        o.fields.setdefault("parent", const(None))
        o.fields.setdefault("lineno", const(1))
        for k in kids:
            if k is not None:
                self.st.heap[next(iter(k))[1]].fields["parent"] = av
        return av

    def seq(self, kind, avs):
        self.n += 1
        where = self.ctx.prog.modules["edulint.edulint"].tree.body[0]
        return self.it.alloc(self.st, Obj(kind, segs=tuple(("1", a) for a in avs)), where, ("treeseq", self.n))

    def expr(self, text):
        return self.build(ast.parse(text, mode="eval").body)

    def stmt(self, text):
        return self.build(ast.parse(text).body[0])

    def build(self, e):
        if isinstance(e, (list, tuple)):
            return [self.build(x) for x in e]
        if e is None:
            return const(None)
        b = self.build
        if isinstance(e, ast.Name):
            if e.id.startswith("_K"):
                return self.new("Const", e, value=frozenset([("s", e.id)]))     # an arbitrary constant
            return self.new("Name", e, name=const(e.id))
        if isinstance(e, ast.Constant):
            return self.new("Const", e, value=const(e.value))
        if isinstance(e, ast.BinOp):
            l, r = b(e.left), b(e.right)
            return self.new("BinOp", e, [l, r], op=const(OPS[type(e.op)]), left=l, right=r)
        if isinstance(e, ast.UnaryOp):
            x = b(e.operand)
            return self.new("UnaryOp", e, [x], op=const(OPS[type(e.op)]), operand=x)
        if isinstance(e, ast.BoolOp):
            xs = [b(x) for x in e.values]
            return self.new("BoolOp", e, xs, op=const(OPS[type(e.op)]), values=self.seq("list", xs))
        if isinstance(e, ast.Compare):
            l, xs = b(e.left), [b(x) for x in e.comparators]
            ops = [self.seq("tuple", [const(OPS[type(o)]), x]) for o, x in zip(e.ops, xs)]
            return self.new("Compare", e, [l, *xs], left=l, ops=self.seq("list", ops))
        if isinstance(e, ast.Call):
            f, xs, ks = b(e.func), [b(x) for x in e.args], [b(x) for x in e.keywords]
            return self.new("Call", e, [f, *xs, *ks], func=f, args=self.seq("list", xs), keywords=self.seq("list", ks))
        if isinstance(e, ast.Attribute):
            x = b(e.value)
            return self.new("Attribute", e, [x], expr=x, attrname=const(e.attr))
        if isinstance(e, ast.Subscript):
            x, i = b(e.value), b(e.slice)
            return self.new("Subscript", e, [x, i], value=x, slice=i, ctx=frozenset([("ext", "astroid.const.Context." + type(e.ctx).__name__)]))
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            xs = [b(x) for x in e.elts]
            return self.new(type(e).__name__, e, xs, elts=self.seq("list", xs))
        if isinstance(e, ast.IfExp):
            t, x, y = b(e.test), b(e.body), b(e.orelse)
            return self.new("IfExp", e, [t, x, y], test=t, body=x, orelse=y)
        if isinstance(e, (ast.If, ast.While)):
            t, x, y = b(e.test), [b(s) for s in e.body], [b(s) for s in e.orelse]
            return self.new(type(e).__name__, e, [t, *x, *y], test=t, body=self.seq("list", x), orelse=self.seq("list", y))
        if isinstance(e, ast.Return):
            x = b(e.value) if e.value is not None else None
            return self.new("Return", e, [x], value=x if x is not None else const(None))
        if isinstance(e, ast.Expr):
            x = b(e.value)
            return self.new("Expr", e, [x], value=x)
        if isinstance(e, (ast.Pass, ast.Break, ast.Continue)):
            return self.new(type(e).__name__, e)
        r = self.compound(e)
        if r is not None:
            return r
        raise NotImplementedError(type(e).__name__)

    def target(self, e, kind="Assign"):
        """what is assigned to or deleted: names become AssignName, DelName, attributes AssignAttr, DelAttr"""
        if isinstance(e, ast.Name):
            return self.new(kind + "Name", e, name=const(e.id))
        if isinstance(e, (ast.Tuple, ast.List)):
            xs = [self.target(x, kind) for x in e.elts]
            return self.new(type(e).__name__, e, xs, elts=self.seq("list", xs))
        if isinstance(e, ast.Starred):
            x = self.target(e.value, kind)
            return self.new("Starred", e, [x], value=x)
        if isinstance(e, ast.Attribute):
            x = self.build(e.value)
            return self.new(kind + "Attr", e, [x], expr=x, attrname=const(e.attr))
        return self.build(e)

    def bound(self, e, name):
        if name is None:
            return None
        self.bounds[id(e), name] = self.new("AssignName", ast.copy_location(ast.Name(name, ast.Store()), e), name=const(name))
        return self.bounds[id(e), name]

    def decorators(self, e):
        xs = [self.build(d) for d in e.decorator_list]
        return self.new("Decorators", e, xs, nodes=self.seq("list", xs)) if xs else None

    def opt(self, e):
        return None if e is None else self.build(e)

    def compound(self, e):
        b, o = self.build, lambda x: x if x is not None else const(None)
        kind = type(e).__name__
        if isinstance(e, ast.Module):
            x = [b(s) for s in e.body]
            return self.new("Module", e, x, body=self.seq("list", x), name=const("m"))
        if isinstance(e, (ast.For, ast.AsyncFor)):
            t, i, x, y = self.target(e.target), b(e.iter), [b(s) for s in e.body], [b(s) for s in e.orelse]
            return self.new(kind, e, [t, i, *x, *y], target=t, iter=i, body=self.seq("list", x), orelse=self.seq("list", y))
        if isinstance(e, (ast.With, ast.AsyncWith)):
            items = [(b(i.context_expr), self.target(i.optional_vars) if i.optional_vars is not None else None) for i in e.items]
            x = [b(s) for s in e.body]
            return self.new(kind, e, [v for i in items for v in i] + x, items=self.seq("list", [self.seq("tuple", [i, o(v)]) for i, v in items]), body=self.seq("list", x))
        if isinstance(e, (ast.Try, ast.TryStar)):
            w, x, y, z = ([b(s) for s in p] for p in (e.body, e.handlers, e.orelse, e.finalbody))
            return self.new(kind, e, [*w, *x, *y, *z], body=self.seq("list", w), handlers=self.seq("list", x), orelse=self.seq("list", y), finalbody=self.seq("list", z))
        if isinstance(e, ast.ExceptHandler):
            t, n, x = self.opt(e.type), self.bound(e, e.name), [b(s) for s in e.body]
            return self.new(kind, e, [t, n, *x], type=o(t), name=o(n), body=self.seq("list", x))
        if isinstance(e, ast.Match):
            s, x = b(e.subject), [b(c) for c in e.cases]
            return self.new(kind, e, [s, *x], subject=s, cases=self.seq("list", x))
        if isinstance(e, ast.match_case):
            p, g, x = b(e.pattern), self.opt(e.guard), [b(s) for s in e.body]
            return self.new("MatchCase", e, [p, g, *x], pattern=p, guard=o(g), body=self.seq("list", x))
        if isinstance(e, ast.MatchAs):
            p, n = self.opt(e.pattern), self.bound(e, e.name)
            return self.new(kind, e, [p, n], pattern=o(p), name=o(n))
        if isinstance(e, ast.MatchStar):
            n = self.bound(e, e.name)
            return self.new(kind, e, [n], name=o(n))
        if isinstance(e, ast.MatchMapping):
            x, y, n = [b(k) for k in e.keys], [b(p) for p in e.patterns], self.bound(e, e.rest)
            return self.new(kind, e, [*x, *y, n], keys=self.seq("list", x), patterns=self.seq("list", y), rest=o(n))
        if isinstance(e, (ast.MatchSequence, ast.MatchOr)):
            x = [b(p) for p in e.patterns]
            return self.new(kind, e, x, patterns=self.seq("list", x))
        if isinstance(e, ast.MatchClass):
            c, x, y = b(e.cls), [b(p) for p in e.patterns], [b(p) for p in e.kwd_patterns]
            return self.new(kind, e, [c, *x, *y], cls=c, patterns=self.seq("list", x), kwd_attrs=self.seq("list", [const(k) for k in e.kwd_attrs]), kwd_patterns=self.seq("list", y))
        if isinstance(e, ast.MatchValue):
            x = b(e.value)
            return self.new(kind, e, [x], value=x)
        if isinstance(e, ast.arguments):
            xs = [self.bound(e, a.arg) for a in [*e.posonlyargs, *e.args, *e.kwonlyargs]]
            v, k, ds = *(self.bound(e, a.arg if a is not None else None) for a in (e.vararg, e.kwarg)), [b(d) for d in e.defaults]
            n = len(e.posonlyargs), len(e.posonlyargs) + len(e.args)
            ks = [self.opt(d) for d in e.kw_defaults]
            notes = [self.opt(a.annotation) for a in [*e.posonlyargs, *e.args, *e.kwonlyargs]]
            w, z = (self.opt(a.annotation) if a is not None else None for a in (e.vararg, e.kwarg))
            lists = {f: self.seq("list", [o(x) for x in xs]) for f, xs in (("posonlyargs_annotations", notes[:n[0]]), ("annotations", notes[n[0]:n[1]]), ("kwonlyargs_annotations", notes[n[1]:]), ("kw_defaults", ks))}
            return self.new("Arguments", e, [*xs, v, k, *ds, *ks, *notes, w, z], posonlyargs=self.seq("list", xs[:n[0]]), args=self.seq("list", xs[n[0]:n[1]]), kwonlyargs=self.seq("list", xs[n[1]:]), arguments=self.seq("list", [x for x in [*xs, v, k] if x is not None]),
                            vararg_node=o(v), kwarg_node=o(k), vararg=const(e.vararg.arg if e.vararg else None), kwarg=const(e.kwarg.arg if e.kwarg else None), defaults=self.seq("list", ds),
                            varargannotation=o(w), kwargannotation=o(z), **lists)
        if isinstance(e, ast.Lambda):
            a, x = b(e.args), b(e.body)
            return self.new(kind, e, [a, x], args=a, body=x, name=const("<lambda>"))
        if isinstance(e, (ast.FunctionDef, ast.AsyncFunctionDef)):
            d, a, r, x = self.decorators(e), b(e.args), self.opt(e.returns), [b(s) for s in e.body]
            f = self.new(kind, e, [d, a, r, *x], name=const(e.name), args=a, returns=o(r), body=self.seq("list", x), decorators=o(d))
            for field in ("vararg_node", "kwarg_node"):      # as astroid has it
                for t in self.st.heap[next(iter(a))[1]].fields[field]:
                    if t[0] == "o":
                        self.st.heap[t[1]].fields["parent"] = f
            return f
        if isinstance(e, ast.ClassDef):
            d, bs, ks, x = self.decorators(e), [b(y) for y in e.bases], [b(y) for y in e.keywords], [b(s) for s in e.body]
            return self.new(kind, e, [d, *bs, *ks, *x], name=const(e.name), body=self.seq("list", x), bases=self.seq("list", bs), keywords=self.seq("list", ks), decorators=o(d))
        if isinstance(e, ast.keyword):
            x = b(e.value)
            return self.new("Keyword", e, [x], arg=const(e.arg), value=x)
        if isinstance(e, (ast.Import, ast.ImportFrom)):
            return self.new(kind, e, names=self.seq("list", [self.seq("tuple", [const(a.name), const(a.asname)]) for a in e.names]), modname=const(getattr(e, "module", None)))
        if isinstance(e, (ast.Global, ast.Nonlocal)):
            return self.new(kind, e, names=self.seq("list", [const(n) for n in e.names]))
        if isinstance(e, ast.Delete):
            xs = [self.target(t, "Del") for t in e.targets]
            return self.new(kind, e, xs, targets=self.seq("list", xs))
        if isinstance(e, (ast.Starred, ast.Await, ast.Yield, ast.YieldFrom)):
            x = self.opt(e.value)
            return self.new(kind, e, [x], value=o(x))
        if isinstance(e, ast.Slice):
            xs = [self.opt(x) for x in (e.lower, e.upper, e.step)]
            return self.new(kind, e, xs, lower=o(xs[0]), upper=o(xs[1]), step=o(xs[2]))
        if isinstance(e, ast.Dict):
            xs = [self.seq("tuple", [b(k), b(v)]) for k, v in zip(e.keys, e.values)]
            return self.new(kind, e, [y for x in xs for _, y in self.st.heap[next(iter(x))[1]].segs], items=self.seq("list", xs))
        if isinstance(e, ast.JoinedStr):
            xs = [b(x) for x in e.values]
            return self.new(kind, e, xs, values=self.seq("list", xs))
        if isinstance(e, ast.FormattedValue):
            x, y = b(e.value), self.opt(e.format_spec)
            return self.new(kind, e, [x, y], value=x, format_spec=o(y))
        if isinstance(e, ast.Assert):
            x, y = b(e.test), self.opt(e.msg)
            return self.new(kind, e, [x, y], test=x, fail=o(y))
        if isinstance(e, ast.DictComp):
            x, y, gs = b(e.key), b(e.value), [b(g) for g in e.generators]
            return self.new(kind, e, [x, y, *gs], key=x, value=y, generators=self.seq("list", gs))
        if isinstance(e, ast.Raise):
            x, y = self.opt(e.exc), self.opt(e.cause)
            return self.new(kind, e, [x, y], exc=o(x), cause=o(y))
        if isinstance(e, ast.Assign):
            xs, v = [self.target(t) for t in e.targets], b(e.value)
            return self.new(kind, e, [*xs, v], targets=self.seq("list", xs), value=v)
        if isinstance(e, ast.AnnAssign):
            t, a, v = self.target(e.target), b(e.annotation), self.opt(e.value)
            return self.new(kind, e, [t, a, v], target=t, annotation=a, value=o(v))
        if isinstance(e, ast.AugAssign):
            t, v = self.target(e.target), b(e.value)
            return self.new(kind, e, [t, v], target=t, op=const(OPS[type(e.op)] + "="), value=v)
        if isinstance(e, ast.NamedExpr):
            t, v = self.target(e.target), b(e.value)
            return self.new(kind, e, [t, v], target=t, value=v)
        if isinstance(e, ast.comprehension):
            t, i, xs = self.target(e.target), b(e.iter), [b(x) for x in e.ifs]
            return self.new("Comprehension", e, [t, i, *xs], target=t, iter=i, ifs=self.seq("list", xs))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            x, gs = b(e.elt), [b(g) for g in e.generators]
            return self.new(kind, e, [x, *gs], elt=x, generators=self.seq("list", gs))
        if isinstance(e, ast.TypeAlias):
            n, ps, v = self.target(e.name), [b(p) for p in e.type_params], b(e.value)
            return self.new(kind, e, [n, *ps, v], name=n, type_params=self.seq("list", ps), value=v)
        if isinstance(e, (ast.TypeVar, ast.ParamSpec, ast.TypeVarTuple)):
            n = self.bound(e, e.name)
            return self.new(kind, e, [n], name=n)
        return None

    # ------------------------------------------------------------------ questions about trees
    def oid(self, t):
        return t[1] if t[0] == "o" and t[1] in self.src else None

    def text(self, av):
        t = next(iter(av)) if len(av) == 1 else None
        o = self.oid(t) if t is not None else None
        return ast.unparse(self.src[o]) if o is not None else None

    def isinst(self, oid, name):
        k = short(name)
        if k is None:
            return False if not name.startswith("astroid.") else None
        return k in (self.kind[oid], "NodeNG", *BASES.get(self.kind[oid], []))

    def install(self):
        s = self.it.stubs

        def isinst(i, a, k, st, n, fr):
            if len(a) != 2:
                return None
            types = []
            for t in a[1]:
                o = i.obj(st, t[1]) if t[0] == "o" else None
                types += [x for _, v in o.segs for x in v] if o is not None else [t]
            if not a[0] or not all(t[0] in ("cls", "ext") for t in types):
                return None
            vals = set()
            for t in a[0]:
                o = self.oid(t)
                if o is None:
                    if any(short(x[1]) for x in types) and t[0] in ("c", "pre") or t[0] == "o" and i.obj(st, t[1]) is not None and i.obj(st, t[1]).kind != "inst":
                        if all(short(x[1]) for x in types):
                            vals.add(False)
                            continue
                    return None
                rs = [self.isinst(o, x[1]) for x in types]
                if None in rs and True not in rs:
                    return None
                vals.add(True in rs)
            return const(vals.pop()) if len(vals) == 1 else const(True) | const(False)

        def typ(i, a, k, st, n, fr):
            if len(a) != 1 or not all(self.oid(t) is not None for t in a[0]):
                return None
            return frozenset(("ext", "astroid.nodes." + self.kind[self.oid(t)]) for t in a[0])

        def as_string(i, a, k, st, n, fr):
            x = self.text(a[0])
            return const(x) if x is not None else None

        def children(i, a, k, st, n, fr):
            t = next(iter(a[0])) if len(a[0]) == 1 else None
            o = self.oid(t) if t is not None else None
            return i.alloc(st, Obj("list", segs=tuple(("1", x) for x in self.kids[o])), n, ("kids", o)) if o is not None else None

        def has_elif(i, a, k, st, n, fr):
            t = next(iter(a[0])) if len(a[0]) == 1 else None
            o = self.oid(t) if t is not None else None
            if o is None:
                return None
            e = getattr(self.src[o], "orelse", [])
            return const(len(e) == 1 and isinstance(e[0], ast.If))

        s["builtins.isinstance"], s["builtins.type"] = isinst, typ
        s[".as_string"], s[".get_children"], s[".has_elif_block"] = as_string, children, has_elif

    def same(self, *names):
        """functions that compare trees: equal if written the same"""
        def cmp(i, a, k, st, n, fr):
            if len(a) < 2:
                return None
            x, y = self.text(a[0]), self.text(a[1])
            return const(x == y) if x is not None and y is not None else const(True) | const(False)
        for n in names:
            self.it.stubs[n] = cmp
