"""Every operator of the analysed program is given its own Python meaning."""
import ast
import itertools
from fractions import Fraction
from ..absint import State, Obj, C, const
from ..trees import Trees
from . import _edl as E

MIN = {"evaluate": 24, "negate": 300, "table": 2, "mirror": 4, "solver": 40}
U = "edulint.linting.analyses.utils."
Z = "edulint.linting.analyses.z3_analysis."
BINARY = {"+": "Add", "-": "Sub", "*": "Mult", "/": "Div", "//": "FloorDiv", "%": "Mod", "**": "Pow", "<<": "LShift", ">>": "RShift", "|": "BitOr", "^": "BitXor", "&": "BitAnd"}
COMPARE = {"<": "Lt", "<=": "LtE", ">": "Gt", ">=": "GtE", "==": "Eq", "!=": "NotEq", "is": "Is", "is not": "IsNot"}
UNARY = {"+": "UAdd", "-": "USub", "not": "Not", "~": "Invert"}
FUNCTIONS = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow", "lshift": "LShift", "rshift": "RShift", "or_": "BitOr", "xor": "BitXor", "and_": "BitAnd",
             "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq", "is_": "Is", "is_not": "IsNot", "pos": "UAdd", "neg": "USub", "not_": "Not", "invert": "Invert", "inv": "Invert"}
NEGATION = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "==", "is": "is not", "is not": "is", "in": "not in", "not in": "in", "and": "or", "or": "and", "True": "False", "False": "True"}
MIRROR = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
STRICT = {"<": "<=", "<=": "<", ">": ">=", ">=": ">"}
ALL = {*BINARY, *COMPARE, *UNARY, "in", "not in", "and", "or", "@"}

CONDITIONS = ["p", "q", "not p", "not q", "not not p", "p and q", "p or q", "not p and not q", "not p or not q", "not (p and q)", "not (p or q)", "q and p", "p and not q", "not p or q",
              "p and q and r", "not p or not q or not r", "not p or not q", "a < b", "a <= b", "a > b", "a >= b", "b < a", "b > a", "not a < b", "not a >= b", "a == b", "a != b", "not a == b", "a is b", "a is not b",
              "a < b < c", "a >= b >= c", "a < b <= c", "a >= b > c", "a == b == c", "a != b != c", "not a < b < c", "a in (b, c)", "a not in (b, c)", "not a in (b, c)", "a < b and b < c", "a >= b or b >= c", "a >= b and b >= c",
              "a < b or p", "a >= b and not p", "a >= b or not p", "a % 2 == 0", "a % 2 == 1", "a % 2 != 0", "a % 2 != 1", "0 == a % 2", "1 == a % 2", "a % 2 == b", "a % 2 != b", "a % 2 == 2", "a % 2 == b % 2", "a % 2 != b % 2",
              "b % 2 == 0", "b % 2 == 1", "a % 3 == 0", "a % 3 == 1", "a % 2 == -1", "a < 2", "a >= 2", "a <= 2", "a > 2", "a < 3", "2 > a", "(a < b) == c", "(a >= b) == c", "(a >= b) != c", "(a < b) != c", "not (a == b or p)", "a != b and not p"]
SOLVER = ["x < y", "x <= y", "x == y", "x != y", "x > y", "x >= y", "x + y", "x - y", "x * y", "-x", "+x", "x + y < 2", "x - y < 2", "y - x <= 1", "x * y == 2", "not x", "not x < y", "x and y", "x or y", "x < 1 and y < 1", "x < 1 or y < 1",
          "x and not y", "not x or y", "abs(x) < 2", "abs(x) == y", "-x < y", "+x < y", "x // 2 == 1", "x // 3 == y", "x // -2 == 1", "x // -2 == -1", "x % 2 == 1", "x % 3 == 2", "x % -2 == -1", "x % -3 == 1", "x % 1 == 0", "x / 2 > 1", "x / -2 > 1",
          "x / 2 == 1", "x / 4 < y", "3 < x", "x < 1.5", "x == True", "True and x", "x < y and y < 2 or x == 3", "not (x < y or y < 2)", "x - 1 - y == 0", "2 * x - y > 1", "x // 2 + y % 2 == 1", "not x % 2", "x % 2", "x // 2", "x < y < 2", "x in (y,)", "x is y", "x | y",
          "x & y", "x ^ y", "x << 1", "x >> 1", "~x", "x ** 2 == 4", "x // 0 == 1", "x % 0 == 1", "-(-x) == y", "--x > 0", "x + 0.5 > y"]
VALUES = (-3, -2, -1, 0, 1, 2, 3)


def session(ctx):
    it = ctx.interp(unknown_raises=None)
    it.concrete = True
    it.max_rec = 8
    it.not_none = lambda t: t[0] == "s" and str(t[1]).startswith("Z:") or t[0] == "op" or t[0] == "call" and str(t[1]).startswith("z3.")
    it.stubs["edulint.linting.analyses._z3.z3"] = frozenset([("ext", "z3")])
    it.stubs["z3.is_int"] = lambda i, a, k, st, n, fr: const(True)
    t = Trees(ctx, it, State())
    t.same(U + "are_identical", U + "have_same_value")
    return it, t


def check(ctx):
    it, t = session(ctx)
    evaluate(ctx, it, t)
    negate(ctx)
    tables(ctx)
    mirror(ctx, it, t)
    solver(ctx, it, t)
    ctx.absorb(it)


def meaning(t):
    """an operation on constants -> (operation, operands)"""
    if t[0] == "call" and str(t[1]).startswith(("operator.", "_operator.")):
        return FUNCTIONS.get(t[1].split(".")[-1], t[1]), tuple(t[2])
    if t[0] == "op" and t[1] == "not" and len(t[2]) == 1 and next(iter(t[2]))[0] == "op":
        op, *args = meaning(next(iter(t[2])))
        return {"Eq": "NotEq", "Is": "IsNot", "In": "NotIn"}.get(op, "Not" + op), *args
    if t[0] == "op":
        return {"not": "Not"}.get(t[1], t[1][3:] if t[1].startswith("cmp") else t[1]), tuple(t[2:])
    return None, ()


def evaluate(ctx, it, t):
    f = ctx.prog.func(U + "get_const_value")
    L, R = frozenset([("s", "_KL")]), frozenset([("s", "_KR")])
    cases = [(f"_KL {op} _KR", name, (L, R)) for op, name in {**BINARY, **COMPARE}.items()] + [(f"{op} _KL", name, (L,)) for op, name in UNARY.items()]
    for text, name, args in cases:
        av, st, exc = it.run(f, [t.expr(text)], st=t.st.copy())
        got = {meaning(x) for x in av if x != C(None)}
        ctx.expect(got == {(name, args)} and not exc, "evaluate", text, f, f"a constant expression '{text}' is evaluated as {sorted(map(str, got))}", text)
    for op, fold in (("and", lambda x, y: x and y), ("or", lambda x, y: x or y)):
        for vals in itertools.product((0, 1, 5), repeat=3):
            for n in (2, 3):
                v = vals[:n]
                text = f" {op} ".join(map(str, v))
                want = eval(text)
                av, st, exc = it.run(f, [t.expr(text)], st=t.st.copy())
                ctx.expect(av in (const(want), const(None)) and not exc, "evaluate", text, f, f"a constant expression '{text}' is evaluated as {sorted(map(str, av))}", text)


def models(text):
    for a, b, c, p, q, r in itertools.product((-1, 0, 1, 2, 3), (-1, 0, 1, 2), (0, 1, 2), (False, True), (False, True), (False, True)):
        yield {"a": a, "b": b, "c": c, "p": p, "q": q, "r": r}


def truths(text, cache={}):
    if text not in cache:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = compile(text, "condition", "eval")
        cache[text] = tuple(bool(eval(code, {}, m)) for m in models(text))
    return cache[text]


def negate(ctx):
    """two conditions are taken for complementary only if they are"""
    f = ctx.prog.func(U + "is_negation")

    def ask(it, t, x, y, neg):
        t.reset()
        a, b = t.expr(x), t.expr(y)
        av, st, exc = it.run(f, [a, b, const(neg)], st=t.st)
        return av, it.truth(av, st), exc
    it = None
    for x, y in itertools.product(CONDITIONS, repeat=2):
        if y == CONDITIONS[0]:
            if it is not None:
                ctx.absorb(it)
            it, t = session(ctx)
        complement = all(u != v for u, v in zip(truths(x), truths(y)))
        same = truths(x) == truths(y)
        for neg, right in ((False, complement), (True, same)):
            av, yes, exc = ask(it, t, x, y, neg)
            ctx.expect(not exc and (right or yes is False), "negate", f"{x} / {y} / {neg}", f, f"'{x}' and '{y}' are taken for {'equal' if neg else 'complementary'}, which they are not{' ' + str(sorted(exc)) if exc else ''}", f"{x} / {y} / {neg}")
    for op in ("<", "<=", ">", ">=", "==", "!=", "is", "is not", "in", "not in", "and", "or"):
        for op2, neg in ((NEGATION[op], False), (op, True)):
            x, y = f"p {op} q", f"not p {op2} not q" if op in ("and", "or") and not neg else f"p {op2} q"
            av, yes, exc = ask(it, t, x, y, neg)
            ctx.expect(av == const(True) and not exc, "negate", f"{op}:{neg}", f, f"'{x}' and '{y}' are not recognised as {'equal' if neg else 'complementary'}", f"{x} / {y}: {neg}")
    ctx.absorb(it)


def tables(ctx):
    """a table from operators to operators is one of: negation, mirror image, change of strictness, identity"""
    n = 0
    for m in ctx.prog.modules.values():
        for d in ast.walk(m.tree):
            if not isinstance(d, ast.Dict) or len(d.keys) < 2:
                continue
            ks = [k.value if isinstance(k, ast.Constant) else None for k in d.keys]
            vs = [v.value if isinstance(v, ast.Constant) else None for v in d.values]
            if not all(isinstance(x, str) and x in ALL for x in ks + vs):
                continue
            n += 1
            fits = [name for name, ref in (("negation", NEGATION), ("mirror image", MIRROR), ("change of strictness", STRICT), ("identity", {k: k for k in ALL})) if all(ref.get(k) == v for k, v in zip(ks, vs))]
            ctx.expect(bool(fits), "table", f"{m.name}:{sorted(ks)}", d, f"a table of operators maps {[k + ' to ' + v for k, v in zip(ks, vs) if NEGATION.get(k) != v] if NEGATION.get(ks[0]) == vs[0] else [k + ' to ' + v for k, v in zip(ks, vs) if MIRROR.get(k) != v]}", f"{m.name}: {', '.join(fits)}")


def mirror(ctx, it, t):
    """a comparison with a constant on its left is read as one with the constant on its right"""
    c = next((c for c in ctx.prog.classes.values() if "_get_node_comparator_const_value" in c.methods), None)
    if c is None:
        ctx.ok("mirror", "no function reads comparisons with constants")
        return
    f = ctx.prog.find_method(c, "_get_node_comparator_const_value")
    for op in ("<", "<=", ">", ">="):
        for text, want in ((f"x {op} 5", op), (f"5 {op} x", MIRROR[op])):
            tree = t.expr(text)
            st = t.st.copy()
            slf = E.inst(it, st, f.node, c.qual)
            av, st, exc = it.run(f, [slf, tree] if len(f.params()) == 2 else [tree], st=st)
            segs = [tuple(v for _, v in o.segs) for x in av if x[0] == "o" for o in [it.obj(st, x[1])] if o.kind == "tuple"]
            ok = bool(segs) and not exc and all(len(s) == 3 and t.text(s[0]) == "x" and s[1] == const(want) and s[2] == const(5) for s in segs)
            ctx.expect(ok, "mirror", text, f, f"'{text}' is read as {[(t.text(s[0]), *(sorted(map(str, v)) for v in s[1:])) for s in segs]}", text)


# ---------------------------------------------------------------------- the solver's formulas
class Unknown(Exception):
    pass


def div(a, b):
    if b == 0:
        raise Unknown
    if isinstance(a, int) and isinstance(b, int):
        r = a % abs(b)
        return (a - r) // b
    return Fraction(a) / Fraction(b)


def value(it, st, t, env):
    """what a formula built for the solver means (SMT-LIB arithmetic) for given values of the variables"""
    def one(av):
        ts = [x for x in av if x != C(None)]
        if len(ts) != 1:
            raise Unknown
        return value(it, st, ts[0], env)
    if t[0] == "s" and str(t[1]).startswith("Z:"):
        return env[t[1][2:]]
    if t[0] == "c":
        return Fraction(t[2]) if isinstance(t[2], float) else t[2]
    if t[0] == "op":
        n, xs = t[1], [one(x) for x in t[2:] if isinstance(x, frozenset)]
        if n == "Mod":
            if not all(type(x) is int for x in xs) or xs[1] == 0:
                raise Unknown
            return xs[0] % abs(xs[1])
        table = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": div, "FloorDiv": None, "USub": lambda a: -a, "UAdd": lambda a: a, "not": lambda a: not a, "cmpEq": lambda a, b: a == b,
                 "cmpLt": lambda a, b: a < b, "cmpLtE": lambda a, b: a <= b, "cmpGt": lambda a, b: a > b, "cmpGtE": lambda a, b: a >= b, "Pow": lambda a, b: a ** b}
        if table.get(n) is None:
            raise Unknown
        return table[n](*xs)
    if t[0] == "call" and isinstance(t[1], str):
        n = t[1].split(".")[-1]
        xs = []
        for a in t[2]:
            o = [it.obj(st, x[1]) for x in a if x[0] == "o"]
            xs += [one(v) for s in o for k, v in s.segs] if o and all(s is not None and s.kind in ("list", "tuple") for s in o) else [one(a)]
        if n == "And":
            return all(xs)
        if n == "Or":
            return any(xs)
        if n == "Not" and len(xs) == 1:
            return not xs[0]
        if n == "Implies" and len(xs) == 2:
            return not xs[0] or xs[1]
        if n == "Abs":
            return abs(xs[0])
        if n == "If" and len(xs) == 3:
            return xs[1] if xs[0] else xs[2]
        if n in ("IntVal", "BoolVal", "ToReal", "int"):
            return xs[0]
        if n in ("RealVal", "float"):
            return Fraction(xs[0])
    raise Unknown


def solver(ctx, it, t):
    f = ctx.prog.func(Z + "convert_condition_to_z3_expression")
    init = ctx.prog.func(Z + "initialize_variables")
    for text in SOLVER:
        tree = t.expr(text)
        st = t.st.copy()
        # is such a condition accepted at all, when its variables are integers?
        names = {n.id for n in ast.walk(ast.parse(text)) if isinstance(n, ast.Name)} - {"abs"}
        made = {ast.unparse(n) for n in ast.walk(ast.parse(text)) if isinstance(n, ast.BinOp)}      # variables made up for whole operations
        d = it.alloc(st, Obj("dict", layers=tuple(("kv", const(x), frozenset([("s", "Z:" + x)])) for x in sorted(names))), f.node, "vars")
        it.stubs["edulint.linting.analyses.types.guess_type"] = lambda i, a, k, s, n, fr: frozenset([("s", "INT")])
        it.stubs[".has_only"] = lambda i, a, k, s, n, fr: const(True)
        ok, st, exc0 = it.run(init, [tree, d, const(False), const(None)], st=st)
        if it.truth(ok, st) is False:
            ctx.ok("solver", f"{text}: not given to the solver")
            continue
        d = it.alloc(st, Obj("dict", layers=tuple(("kv", const(x), frozenset([("s", "Z:" + x)])) for x in sorted(names | made))), f.node, "vars")
        av, st, exc = it.run(f, [tree, d, const(None)], st=st)
        terms = set()
        for x in av:
            o = it.obj(st, x[1]) if x[0] == "o" else None
            if o is not None and o.kind == "tuple" and o.segs:
                terms |= {y for y in o.segs[0][1] if y != C(None)}
        bad = None
        decided = 0
        for vals in itertools.product(VALUES, repeat=len(names)):
            env = dict(zip(sorted(names), vals))
            try:
                want = bool(eval(text, {"abs": abs}, dict(env)))
                env = {**env, **{m: eval(m, {"abs": abs}, dict(env)) for m in made}}
            except (ZeroDivisionError, ValueError):
                continue
            for y in terms:
                try:
                    got = bool(value(it, st, y, env))
                except (Unknown, TypeError):
                    continue
                decided += 1
                if got != want:
                    bad = bad or (env, got, want)
        ctx.expect(bad is None and not exc and not exc0, "solver", text, f, f"'{text}' is given to the solver as a formula that is {bad[1]} for {bad[0]} where Python says {bad[2]}" if bad else f"'{text}' makes {sorted({**exc, **exc0})} escape",
                   f"{text}: {decided} values of its formula")
