"""Linting a file does not depend on the files linted before it."""
import ast

from ._points import points, checkers, callbacks, made_in, words

MIN = {"lasting": 150, "reached": 300}
FIRST = ("process_module", "process_tokens", "visit_module", "leave_module")


def check(ctx):
    P = points(ctx)
    for (what, ph) in P.reached:
        if what[0] == "fun" and ph in ("A", "C"):
            ctx.ok("reached")
    for r in P.sites.values():
        if r["phase"] == "M":
            continue
        if r["objs"] == {("ext", "sys")} and r["field"] in ("stdout", "stderr"):
            continue        # whether the streams are restored is decided by L01
        bad = {o for o in r["objs"] if lasts(P, o) and not fresh(P, o, r) and not renewed(ctx, P, o, r)}
        f = r["where"].split(".")[-1]
        ctx.expect(not bad, "lasting", f"{r['where']}:{r['field']}", r["node"],
                   f"{f} changes what outlives the file that is linted ({r['how']}{' of ' + r['field'] if r['field'] != '[]' else ''}): {', '.join(sorted(words(P, o) for o in bad)[:3])}",
                   f"{f}: {r['how']} of {r['field']}")


def lasts(P, o):
    return o[0] in ("mod", "cls", "ext") or o[0] == "fn" or made_in(o) == "M"


def fresh(P, o, r):
    """an object a remembering function has just made itself (what it returns is kept, so nobody else may change it)"""
    n = P.origin.get(o)
    f = P.p.enclosing_func(n) if n is not None else None
    if f is not None and any(n is x for d in f.node.args.defaults + f.node.args.kw_defaults if d is not None for x in ast.walk(d)):
        f = None            # a default value is made once
    if o[0] == "fn" and P.p.funcs[o[1]].parent is not None and (("fun", P.p.funcs[o[1]].parent.qual), "M") not in P.reached:
        return True         # a function made anew at each call
    return f is not None and f.qual == r["where"]


def renewed(ctx, P, o, r):
    """the state of a check that is set anew whenever a file is begun (or ended)"""
    if o[0] == "inst":
        return any(o[3] == q and resets(ctx, c, r["field"]) for q, c in checkers(ctx.prog).items())
    for q, c in checkers(ctx.prog).items():
        for i in P.instances:
            if i[3] == q:
                for k in P.fields.get(i, ()):
                    if o in P.pts[k] and resets(ctx, c, k[1]):
                        return True
    return False


def resets(ctx, c, attr):
    cb = callbacks(ctx.prog, c)
    if not any((isinstance(n, ast.Constant) and n.value == attr) or isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load) and not called_only(n) for m in ctx.prog.modules.values() for n in ast.walk(m.tree)):
        return True         # never consulted
    if all(begins(ctx, c, f, attr) for f in cb.values() if attr in mentions(ctx, c, f)):
        return True
    return any(n in cb and sets(ctx, cb[n], attr, 0) for n in FIRST)


def called_only(n):
    """X.attr.append(…) as a statement: filled, not consulted"""
    p = getattr(n, "parent", None)
    return isinstance(p, ast.Attribute) and isinstance(getattr(p, "parent", None), ast.Call) and isinstance(getattr(p.parent, "parent", None), ast.Expr)


def mentions(ctx, c, f, seen=()):
    """the attributes a method and the methods it calls on the same object mention"""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute):
            out.add(n.attr)
            g = ctx.prog.find_method(c, n.attr)
            if g is not None and g not in seen and g is not f:
                out |= mentions(ctx, c, g, (*seen, f))
    return out


def begins(ctx, c, f, attr):
    """whether a callback gives the attribute a new value before anything else it does with it"""
    for s in f.node.body:
        here = {n.attr for n in ast.walk(s) if isinstance(n, ast.Attribute)}
        if attr not in here and not any(attr in mentions(ctx, c, g) for g in (ctx.prog.find_method(c, a) for a in here) if g is not None):
            continue
        ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []
        me = f.params()[0] if f.params() else "self"
        vals = {n.attr for n in ast.walk(s.value) if isinstance(n, ast.Attribute)} | {n.value for n in ast.walk(s.value) if isinstance(n, ast.Constant) and isinstance(n.value, str)} if ts else set()
        return any(isinstance(t, ast.Attribute) and t.attr == attr and ast.unparse(t.value) == me for t in ts) and attr not in vals \
            and not any(attr in mentions(ctx, c, g) for g in (ctx.prog.find_method(c, a) for a in vals) if g is not None)
    return True


def sets(ctx, f, attr, depth):
    """whether a method certainly gives the attribute a value not depending on the former one"""
    me = f.params()[0] if f.params() else "self"
    for s in f.node.body:
        for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []):
            for x in t.elts if isinstance(t, ast.Tuple) else [t]:
                if isinstance(x, ast.Attribute) and x.attr == attr and ast.unparse(x.value) == me:
                    return not any(isinstance(n, ast.Attribute) and n.attr == attr for n in ast.walk(s.value))
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
            fn = s.value.func
            if fn.attr == "clear" and isinstance(fn.value, ast.Attribute) and fn.value.attr == attr and ast.unparse(fn.value.value) == me:
                return True
            if ast.unparse(fn.value) == me and depth < 2 and f.cls is not None:
                g = ctx.prog.find_method(f.cls, fn.attr)
                if g is not None and sets(ctx, g, attr, depth + 1):
                    return True
        if isinstance(s, (ast.Return, ast.If, ast.For, ast.While, ast.Try, ast.With)) and any(isinstance(n, ast.Return) for n in ast.walk(s)):
            return False
    return False
