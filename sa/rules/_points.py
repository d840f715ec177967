"""The points-to analysis of the package as the checks K06 and K09 use it."""
from ..points import Points, N, L


def node_class(n):
    return n.startswith("astroid.") and n.split(".")[-1][:1].isupper()


def checkers(p):
    return {q: c for q, c in p.classes.items() if any(isinstance(b, str) and b.endswith("Checker") for b in p.mro(c))}


def callbacks(p, c):
    """the methods pylint calls for each file"""
    out = {}
    for k in p.mro(c):
        for n, f in getattr(k, "methods", {}).items():
            if n.startswith(("visit_", "leave_", "process_")):
                out.setdefault(n, f)
    return out


def points(ctx):
    p = ctx.prog
    entries = [(p.func("edulint.linting.analyses.patcher.run_analyses"), "A", [{N}], None)]
    for q, c in checkers(p).items():
        for f in callbacks(p, c).values():
            entries.append((f, "C", [{N}], lambda P, q=q: {o for o in P.instances if o[3] == q}))
    for q in ("edulint.linting.linting.lint_many", "edulint.config.config.get_config_many"):
        if q in p.funcs:
            entries.append((p.funcs[q], "C", [], None))
    register = [f for f in p.funcs.values() if f.name == "register" and f.cls is None and f.parent is None]
    P = Points(p, entries, node_class, register)
    ctx.funcs |= {w[1] for w, ph in P.reached if w[0] == "fun"}
    ctx.calls += P.calls
    ctx.count("functions in phases", len(P.reached))
    ctx.count("points-to facts", sum(len(v) for v in P.pts.values()))
    ctx.count("passes", P.passes)
    return P


def made_in(o):
    """the phase an object was made in"""
    return o[2] if len(o) > 2 and o[0] not in ("bm",) else None


def words(P, o):
    if o == N:
        return "a node of the syntax tree"
    if o == L:
        return "a collection of the syntax tree"
    if o[0] in ("mod", "cls", "fn", "ext"):
        return {"mod": "the module ", "cls": "the class ", "fn": "the function ", "ext": ""}[o[0]] + o[1]
    what = f"an instance of {o[3].split('.')[-1]}" if o[0] == "inst" else f"a {o[0]}"
    return f"{what} made at {':'.join(o[1].split(':')[:2])}"
