"""Evaluating constants in analysed code cannot crash or diverge."""
import ast
import itertools
import math
import warnings
from ..absint import State, Obj, C, const
from .K10 import session, meaning, U, BINARY, COMPARE, UNARY, FUNCTIONS

Z = "edulint.linting.analyses.z3_analysis."
SOLVER = (Z + "initialize_variables", Z + "convert_condition_to_z3_expression")
OPERANDS = (None, True, 0, 1, 2, -1, 1.5, 0.0, "a", b"a", 1j, 10 ** 400)
MIN = {"solver": 300, "contain": 80, "unknown": 6, "cost": 20, "agree": 40, "use": 30}
FAILURES = ("ValueError", "TypeError", "ZeroDivisionError", "OverflowError", "KeyError")
COSTLY = ["2 ** 1000000000", "3 ** 3 ** 3 ** 3", "2 ** 2 ** 2 ** 2 ** 2 ** 2", "-2 ** 1000000000", "(-2) ** 1000000000", "True ** 1000000000 + 2 ** 1000000000", "1 << 1000000000", "True << 1000000000", "-1 << 1000000000", "'a' * 1000000000", "1000000000 * 'a'", "b'a' * 1000000000",
          "1000000000 * b'a'", "'%999999999d' % 1", "b'%999999999d' % 1", "'a' * 1000 * 1000 * 1000", "1 + (1 << 1000000000)", "not 2 ** 1000000000", "2 ** 1000000000 < 5", "0 or 2 ** 1000000000", "1000000 ** 1000000", "(1 << 1000) ** 1000000"]
EXACT = ["1 + 2", "7 - 9", "3 * 4", "7 // 2", "-7 // 2", "7 // -2", "7 % 3", "-7 % 3", "7 % -3", "7 / 2", "2 ** 3", "2 ** -1", "2 ** 0.5", "1 << 3", "13 >> 1", "6 & 3", "6 | 3", "6 ^ 3", "~5", "-5", "+5", "not 5", "not 0", "-(-5)", "- True", "True + True", "'a' + 'b'",
         "'ab' * 2", "2 * 'ab'", "1 / 0", "1 // 0", "1 % 0", "0.0 ** -1", "0 ** -1", "1 << -1", "1 >> -1", "'a' + 1", "1 + 'a'", "1 < 'a'", "'a' < 1", "1.5 << 1", "None + 1", "-None", "-'a'", "~1.5", "not 'a'", "1 < 2", "2 <= 2", "3 > 4", "3 >= 3", "3 == 3.0", "3 != 3",
         "1 < 2 < 3", "1 is None", "1 and 0 and 5", "0 or 0 or 5", "1 and 2", "0 or ''", "'a' and 'b'", "1 + 2 * 3 - 4 // 2", "(1 + 2) * (3 - 4)", "1 and 1 / 0", "'a' 'b'", "1 - 1.5", "1j + 1", "1j // 1", "b'a' + b'b'", "b'a' + 'b'", "x + 1", "1 + x", "x and 0", "0 and x", "x or 1", "-x", "not x",
         "1 if x else 2", "x[0]", "x.y", "x(1)", "[1] * 2", "[1] + [2]", "(1,) * 2", "{1} | {2}", "x < 1", "1 < x", "1 in (1, 2)", "1 not in (1, 2)", "1 @ 2", "x @ 1"]
VALUES = (None, 0, 1, 2, 3, -1, 65, 10 ** 400, 1.5, 0.0, "zz", "a", b"a", 1j, ...)
SMALL = (None, 1, -1, "a", 1.5)


def check(ctx):
    f = ctx.prog.func(U + "get_const_value")
    contain(ctx, f)
    it, t = session(ctx)
    n = it.max_rec
    it.max_rec = 16
    for text in COSTLY:
        av, st, exc = it.run(f, [t.expr(text)], st=t.st.copy())
        ctx.expect(av == const(None) and not exc or all(x[0] == "c" for x in av) and not exc, "cost", text, f, f"the constant '{text}' is computed: {sorted(map(str, av))[:2]}"[:300], text)
    for text in EXACT:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                want = eval(text, {}, {})
            except Exception:
                want = None
        want = None if isinstance(want, (list, set, tuple)) else want
        av, st, exc = it.run(f, [t.expr(text)], st=t.st.copy())
        ctx.expect(not exc and (av <= {C(want), C(None)}), "agree", text, f, f"the constant '{text}' is evaluated as {sorted(map(str, av))}{' ' + str(sorted(exc)) if exc else ''}", text)
    it.max_rec = n
    ctx.absorb(it)
    use(ctx)
    solver(ctx)


def contain(ctx, f):
    """failures of the operators on constants yield 'unknown'"""
    for failure in FAILURES:
        it, t = session(ctx)

        def fail(i, a, k, st, n, fr, failure=failure):
            i.raise_exc(failure, st, n, "", fr)
            st.dead = True
            return frozenset()
        for x in FUNCTIONS:
            it.stubs["operator." + x] = fail
        for text in [f"_KL {op} _KR" for op in {**BINARY, **COMPARE}] + [f"{op} _KL" for op in UNARY]:
            av, st, exc = it.run(f, [t.expr(text)], st=t.st.copy())
            ctx.expect(not exc, "contain", f"{text}: {failure}", f, f"{sorted(exc)} while evaluating the constant '{text}' escapes", f"{text}: {failure}")
    it, t = session(ctx)
    for text in ("_KL @ _KR", "_KL in _KR", "_KL not in _KR", "_KL < _KR < _KL", "_KL + x", "x + _KR", "x", "x[_KL]", "x(_KL)", "[_KL]", "-x", "not x", "x and _KL"):
        av, st, exc = it.run(f, [t.expr(text)], st=t.st.copy())
        ctx.expect(av == const(None) and not exc, "unknown", text, f, f"'{text}' is evaluated as {sorted(map(str, av))}{' ' + str(sorted(exc)) if exc else ''} instead of 'unknown'", text)


def users(ctx):
    """functions that look at the values of constants of the analysed program"""
    out = {}
    for q, f in ctx.prog.funcs.items():
        if not q.startswith("edulint.linting.") or q in (U + "get_const_value", U + "get_const_value_rec"):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "get_const_value" or isinstance(n, ast.Attribute) and n.attr == "value" and isinstance(n.ctx, ast.Load) and "Const" in ast.dump(f.node):
                out[q] = f
    return [f for q, f in sorted(out.items()) if not any(q != o and q.startswith(o + ".") for o in out)]


def carries(av):
    return any(t[0] == "c" and t[2] in VALUES and not isinstance(t[2], bool) for t in av)


def use(ctx):
    """whatever constants are in the analysed program, using their values does not fail"""
    us = users(ctx)
    inside = {f.qual for f in us}

    def opaque(g, args, kw):
        return g.qual in SOLVER or not any(g.qual == q or g.qual.startswith(q + ".") for q in inside) and not any(map(carries, [*args, *kw.values()]))
    for f in us:
        if f.qual in SOLVER:
            continue
        found = {}
        runs, seen = 0, set()
        todo = [((v, v), v, (0, 1)) for v in VALUES]
        while todo:
            values, direct, pattern = todo.pop(0)
            (n, m), errs = once(ctx, f, values, direct, pattern, opaque)
            runs += 1
            found.update({k: v for k, v in errs.items() if k not in found})
            if n + m == 0:
                break
            for want, more in ((n > 1, [(p, p[0], (0, 1)) for p in itertools.product(VALUES, repeat=2)]), (n > 2, [(p, p[0], (0, 0, 1)) for p in itertools.product(VALUES, repeat=2)]),
                               (n > 0 and m > 0, [((u, v), w, pat) for u in SMALL for v in SMALL for w in VALUES for pat in ((0, 1), (0, 0, 1))])):
                if want and (more[0][2], len(more)) not in seen:
                    seen.add((more[0][2], len(more)))
                    todo += more
        for (e, text), (msg, vals, g) in found.items():
            ctx.bad("use", f"{f.qual}:{e}:{text}", g or f, f"{msg} raises {e} when constants of the analysed program are {vals}: {text}")
        if not found:
            ctx.ok("use", f"{f.qual}: {runs} combinations of constants")


def once(ctx, f, values, direct, pattern, opaque):
    it = ctx.interp(unknown_raises=None)
    it.concrete = True
    it.max_rec = 1
    it.opaque = opaque
    order, read = [], set()

    def pick(key):
        if key not in order:
            order.append(key)
        return const(values[pattern[min(order.index(key), len(pattern) - 1)]])

    def value_of(i, a, k, st, n, fr):
        return a[0] if a and all(x[0] == "c" for x in a[0]) else pick(a[0])

    def on_attr(i, t, attr, st, node):
        if attr != "value" or t[0] in ("o", "c", "mod", "cls", "ext", "enum"):
            return None
        for av, pos in st.facts:
            o = next(iter(av))
            if pos and len(av) == 1 and o[0] == "op" and o[1] == "isinstance" and o[2] == frozenset([t]) and all(str(c[1]).endswith(".Const") for c in o[3]):
                read.add(t)
                return const(direct)
        return None
    it.stubs[U + "get_const_value"] = value_of
    it.on_attr = on_attr
    st = State()
    args = [frozenset([("s", p)]) for p in f.params()]
    if f.cls is not None and args:
        args[0] = it.alloc(st, Obj("inst", f.cls.qual if hasattr(f.cls, "qual") else f.cls, {}), f.node, "self")
    av, st, exc = it.run(f, args, st=st)
    ctx.absorb(it)
    errs = {}
    for e, (_, origins) in exc.items():
        for node, msg, stack, g in origins.values():
            if msg.endswith(" on constants"):
                errs[e, ast.unparse(node)] = (msg[:-13], (values[:len(order)], direct) if read else values[:len(order)], g)
    return (len(order), len(read)), errs


def solver(ctx):
    """what is accepted for the solver is handed to it without failing"""
    init, conv = (ctx.prog.func(q) for q in SOLVER)
    it, t = session(ctx)
    it.stubs["edulint.linting.analyses.types.guess_type"] = lambda i, a, k, s, n, fr: frozenset([("s", "INT")])
    it.stubs[".has_only"] = lambda i, a, k, s, n, fr: const(True)
    bad = set()

    def z3_call(name):
        def stub(i, a, k, st, n, fr):
            if any(x == const(None) or any(y[0] == "c" and isinstance(y[2], float) and not math.isfinite(y[2]) for y in x) for x in a):
                bad.add(f"z3.{name} of {' and '.join(str(next(iter(x))[2]) for x in a if len(x) == 1 and next(iter(x))[0] == 'c')}")
            return frozenset([("call", "z3." + name, tuple(a))])
        return stub
    for name in ("Abs", "Not", "IntVal", "RealVal", "BoolVal", "Implies", "If", "ToReal"):
        it.stubs["z3." + name] = z3_call(name)

    def nones(t):
        """operations with None or an infinity in a formula"""
        if isinstance(t, frozenset):
            return any(map(nones, t))
        if t[0] == "op":
            return any(isinstance(x, frozenset) and (x == const(None) or any(y[0] == "c" and isinstance(y[2], float) and not math.isfinite(y[2]) for y in x) or nones(x)) for x in t[2:])
        return t[0] == "call" and any(map(nones, t[2]))
    texts = [f"x {op} {v!r} < y" for op in BINARY for v in OPERANDS] + [f"{v!r} {op} x < y" for op in BINARY for v in OPERANDS] + [f"x {op} {v!r}" for op in (*BINARY, *COMPARE) for v in OPERANDS] + [f"{op} {v!r} < x" for op in UNARY if op != "not" for v in OPERANDS] \
        + [f"x {op} 1e999 < y" for op in BINARY] + [f"x {op} -1e999" for op in COMPARE] + [f"abs({e}) < y" for e in ("1e999", "x % 1", "x // -2", "x % 2", "x // 0", "x / 0", "-1e999", "None", "'a'")] + [f"not {e} and x < y" for e in ("1e999", "x % 1", "x // -2", "'a'")] \
        + [f"x {op} (3 - 3) < y" for op in BINARY] + [f"x {op} (10 ** 400) < y" for op in BINARY] + [f"x {op} -y < y" for op in BINARY] + [f"x {op} (1 / 3) < y" for op in BINARY]
    for text in texts:
        tree = t.expr(text)
        st = t.st.copy()
        subs = {ast.unparse(n) for n in ast.walk(ast.parse(text)) if isinstance(n, (ast.BinOp, ast.Name))}
        d = it.alloc(st, Obj("dict", layers=tuple(("kv", const(x), frozenset([("s", "Z:" + x)])) for x in sorted(subs))), init.node, "vars")
        bad.clear()
        ok, st, exc = it.run(init, [tree, d, const(False), const(None)], st=st)
        if it.truth(ok, st) is not False:
            av, st, exc2 = it.run(conv, [tree, d, const(None)], st=st)
            exc = {**exc, **exc2}
            for x in av:
                o = it.obj(st, x[1]) if x[0] == "o" else None
                if o is not None and o.kind == "tuple" and o.segs and nones(o.segs[0][1]):
                    bad.add("an operation with a number it cannot represent")
        fails = sorted({e for e, (_, o) in exc.items() for n, m, s, g in o.values() if m.endswith(" on constants")} | bad)
        ctx.expect(not fails, "solver", text, conv, f"'{text}' is handed to the solver with {', '.join(fails)}", text)
    ctx.absorb(it)
