"""Where the arbitrary iteration order of a set decides a text or a choice (flow-insensitive types of set-valued expressions)."""
import ast
import re

from .program import own_nodes

SETS = re.compile(r"^(typing\.)?(Set|set|FrozenSet|frozenset|AbstractSet|MutableSet)\b")
DICTS = re.compile(r"^(?:typing\.)?(?:Default)?[Dd]ict\[[^,\[]*, (.*)\]$")
SEQS = re.compile(r"^(?:typing\.)?(?:[Ll]ist|Iterable|Iterator|Generator|Sequence)\[(.*)\]$")
U, SEQ = "set", "seq"       # a set; a sequence in the order of a set


def annotated(e):
    if e is None:
        return None
    t = ast.unparse(e) if not isinstance(e, str) else e
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        t = e.value
    m = re.match(r"^(?:typing\.)?Optional\[(.*)\]$", t)
    if m:
        return annotated(m.group(1))
    if SETS.match(t):
        return U
    for rx in (DICTS, SEQS):
        m = rx.match(t)
        if m:
            i = annotated(m.group(1).split(", None")[0])
            return ("of", i) if i else None
    return None


class Order:
    def __init__(self, prog, funcs):
        self.p, self.funcs = prog, list(funcs)
        self.attrs, self.rets, self.params, self.envs = {}, {}, {}, {}
        self.sites = 0
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and annotated(n.returns):
                    self.rets[n.name] = annotated(n.returns)
                if isinstance(n, ast.AnnAssign) and annotated(n.annotation) and isinstance(n.target, ast.Attribute):
                    self.attrs[n.target.attr] = annotated(n.annotation)
        for _ in range(3):
            for f in self.funcs:
                self.infer(f)

    def infer(self, f):
        env, p = {}, f.parent
        while p is not None:
            for k, v in self.envs.get(getattr(p, "qual", None), {}).items():
                env.setdefault(k, v)
            p = p.parent
        a = f.node.args
        own = {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                own.add(n.id)
        for n in own:
            env.pop(n, None)
        env.update(self.params.get(f.qual, {}))
        for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]:
            if annotated(x.annotation):
                env[x.arg] = annotated(x.annotation)
        for _ in range(3):
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.bind(t, self.typ(n.value, env), env)
                elif isinstance(n, ast.NamedExpr):
                    self.bind(n.target, self.typ(n.value, env), env)
                elif isinstance(n, ast.AnnAssign):
                    self.bind(n.target, annotated(n.annotation) or (n.value is not None and self.typ(n.value, env)) or None, env)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    t = self.typ(n.iter, env)
                    if isinstance(t, tuple):
                        if t[0] == "items":
                            if isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2:
                                self.bind(n.target.elts[1], t[1], env)
                        else:
                            self.bind(n.target, t[1], env)
                elif isinstance(n, ast.Return) and n.value is not None:
                    t = self.typ(n.value, env)
                    if t:
                        self.rets.setdefault(f.name, t)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    r = self.p.resolve_expr(f.module, n.func)
                    if r and r[0] in ("func", "fn") and hasattr(r[1], "node"):
                        for prm, av in zip(r[1].node.args.args, n.args):
                            t = self.typ(av, env)
                            if t:
                                self.params.setdefault(r[1].qual, {}).setdefault(prm.arg, t)
        self.envs[f.qual] = env

    def bind(self, t, ty, env):
        if isinstance(t, ast.Name):
            if ty is None:
                if env.get(t.id) == SEQ:
                    env.pop(t.id)       # may be put in order on some path: no claim
                    env[t.id] = None
            elif env.get(t.id, ty) is not None:
                env[t.id] = ty
        elif isinstance(t, ast.Attribute) and ty and ty != SEQ:
            self.attrs.setdefault(t.attr, ty)

    def typ(self, e, env):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return U
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Attribute):
            return self.attrs.get(e.attr)
        if isinstance(e, ast.NamedExpr):
            return self.typ(e.value, env)
        if isinstance(e, ast.BinOp):
            a, b = self.typ(e.left, env), self.typ(e.right, env)
            if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)) and U in (a, b):
                return U
            if isinstance(e.op, ast.Add) and SEQ in (a, b):
                return SEQ
        if isinstance(e, ast.IfExp):
            return self.typ(e.body, env) or self.typ(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            return next((t for t in (self.typ(v, env) for v in e.values) if t), None)
        if isinstance(e, ast.Subscript):
            t = self.typ(e.value, env)
            return t[1] if isinstance(t, tuple) and t[0] == "of" else SEQ if t == SEQ and isinstance(e.slice, ast.Slice) else None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            if len(e.generators) >= 1 and any(self.typ(g.iter, env) in (U, SEQ) for g in e.generators):
                return SEQ
            i = self.typ(e.elt, env)
            return ("of", i) if i else None
        if isinstance(e, ast.DictComp):
            i = self.typ(e.value, env)
            return ("of", i) if i else None
        if isinstance(e, (ast.Dict, ast.List, ast.Tuple)):
            if not isinstance(e, ast.Dict) and any(isinstance(v, ast.Starred) and self.typ(v.value, env) in (U, SEQ) for v in e.elts):
                return SEQ
            xs = e.values if isinstance(e, ast.Dict) else e.elts
            i = next((t for t in (self.typ(v, env) for v in xs) if t), None) if not isinstance(e, ast.Tuple) else None
            return ("of", i) if i else None
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name):
                if fn.id in ("set", "frozenset"):
                    return U
                if fn.id in ("list", "tuple", "iter", "reversed", "map", "filter", "enumerate", "zip") and any(self.typ(a, env) in (U, SEQ) for a in e.args):
                    return SEQ
                if fn.id == "defaultdict" and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == "set":
                    return ("of", U)
                return self.rets.get(fn.id)
            if isinstance(fn, ast.Attribute):
                t = self.typ(fn.value, env)
                if t == U and fn.attr in ("union", "intersection", "difference", "copy", "symmetric_difference"):
                    return U
                if t == SEQ and fn.attr == "copy":
                    return SEQ
                if isinstance(fn.value, ast.Name) and fn.value.id in ("set", "frozenset"):
                    return U
                if isinstance(t, tuple) and t[0] == "of":
                    if fn.attr in ("get", "pop", "setdefault"):
                        return t[1]
                    if fn.attr == "values":
                        return t
                    if fn.attr == "items":
                        return ("items", t[1])
                return self.rets.get(fn.attr) if fn.attr not in ("get", "pop", "copy", "update", "add", "values", "items") else None
        return None

    def findings(self, f):
        """(node, what) where an arbitrary order becomes visible"""
        env = self.envs[f.qual]
        single = self.singletons(f)
        parents = {c: n for n in own_nodes(f.node) for c in ast.iter_child_nodes(n)}

        def arb(e, only=None):
            t = self.typ(e, env)
            if t in (U, SEQ):
                self.sites += 1
            base = e
            while True:
                if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id in ("list", "tuple", "iter", "sorted") and base.args:
                    base = base.args[0]
                else:
                    break
            return t in ((U, SEQ) if only is None else only) and ast.unparse(base) not in single

        def logged(n):
            while n is not None:
                if isinstance(n, ast.Call):
                    s = ast.unparse(n.func)
                    if s.startswith(("logger.", "logging.", "warnings.")) or s == "print" or ".opt(" in s:
                        return True
                if isinstance(n, (ast.Raise, ast.Assert)):
                    return True
                n = parents.get(n)
            return False
        for n in own_nodes(f.node):
            what = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr == "join" and n.args and arb(n.args[0]):
                    what = f"the text {ast.unparse(n)} joins the elements of a set in arbitrary order"
                elif n.func.attr == "format" and any(arb(a) for a in n.args):
                    what = f"the text {ast.unparse(n)} spells out a set in arbitrary order"
                elif n.func.attr == "pop" and not n.args and arb(n.func.value, (U,)):
                    if not isinstance(parents.get(n), ast.Expr) and not self.drained(f, n, parents):
                        what = f"{ast.unparse(n)} takes an arbitrary element"
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                if n.func.id in ("str", "repr") and n.args and arb(n.args[0]):
                    what = f"the text {ast.unparse(n)} spells out a set in arbitrary order"
                elif n.func.id == "next" and n.args and arb(n.args[0], (SEQ,)) and not isinstance(n.args[0], (ast.GeneratorExp, ast.Name)):
                    what = f"{ast.unparse(n)} picks an arbitrary element"
                elif n.func.id in ("sorted", "min", "max"):
                    what = self.key(n)
            elif isinstance(n, ast.FormattedValue) and arb(n.value):
                what = f"a text spells out {ast.unparse(n.value)} in arbitrary order"
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice) and arb(n.value, (SEQ,)):
                what = f"{ast.unparse(n)} picks an arbitrary element"
            elif isinstance(n, ast.For) and arb(n.iter):
                what = self.picks(n, parents)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort":
                what = self.key(n)
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                r = self.p.resolve_expr(f.module, n)
                if r and r[0] == "ext" and str(r[1]).split(".")[0] in ("random", "secrets", "uuid") and "." in str(r[1]):
                    what = f"{ast.unparse(n)} is random"
            if what and not logged(n):
                yield n, what

    @staticmethod
    def drained(f, n, parents):
        """the whole set is worked off: the loop around goes on while anything is left"""
        s = ast.unparse(n.func.value)
        x = n
        while x in parents:
            x = parents[x]
            if isinstance(x, ast.While) and re.search(rf"(?<![\w.]){re.escape(s)}(?![\w.])", ast.unparse(x.test)):
                return True
        return False

    @staticmethod
    def key(call):
        for k in call.keywords:
            if k.arg == "key":
                for x in ast.walk(k.value):
                    if isinstance(x, ast.Name) and x.id in ("id", "hash"):
                        return f"{ast.unparse(call)} sorts by {x.id}, which differs from run to run"
        return None

    @staticmethod
    def singletons(f):
        """expressions that are somewhere required to have a single element"""
        out = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == "len" and n.left.args:
                if isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value in (1, 2):
                    out.add(ast.unparse(n.left.args[0]))
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Tuple, ast.List)) and len(n.targets[0].elts) == 1:
                out.add(ast.unparse(n.value))
        return out

    @staticmethod
    def picks(loop, parents):
        """a loop over a set that gives the element it happens to stop at"""
        names = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
        inner = []

        def visit(n, nested):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(c, ast.Return) and c.value is not None and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(c.value)):
                    inner.append(c)
                visit(c, nested or isinstance(c, (ast.For, ast.While)))
        for s in loop.body:
            visit(ast.Module([s], []), False)
        if inner:
            return f"`{ast.unparse(inner[0])}` gives whichever element of {ast.unparse(loop.iter)} is met first"
        return None
