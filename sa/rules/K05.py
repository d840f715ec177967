"""The solver is used only for checks documented as requiring it."""
import ast
from ._checks import Checks
from ..absint import const, EMPTY
from ..program import all_nodes, _is_type_checking

MIN = {"guarded-import": 1, "no-import-time-use": 2, "not-reached": 25, "stand-in-fails": 2, "failure-propagates": 1}
MARK = "REQUIRES Z3"
CATCHES = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}


def solver_checks(ctx, ck=None):
    ck = ck or Checks(ctx)
    out = {d for d in ck.by_id.values() if MARK in " ".join(d.desc.split())}
    ctx.need(len(out) >= 5, "the checks documented as requiring the solver were not found")
    return {x for d in out for x in (d.code, d.symbol)}


def type_checking_only(ctx, node):
    """inside an `if TYPE_CHECKING:` body"""
    n, prev = getattr(node, "parent", None), node
    while n is not None:
        if isinstance(n, ast.If) and _is_type_checking(n.test) and prev in n.body:
            return True
        n, prev = getattr(n, "parent", None), n
    return False


def handler_names(h):
    if h.type is None:
        return {"BaseException"}
    es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else "?" for e in es}


def guards(node):
    """names of exceptions that are caught around node (in the same scope) by handlers that do not raise again"""
    out = set()
    n, prev = getattr(node, "parent", None), node
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        if isinstance(n, ast.Try) and prev in n.body:
            for h in n.handlers:
                if not any(isinstance(x, ast.Raise) for x in ast.walk(h)):
                    out |= handler_names(h)
        if isinstance(n, ast.With):
            for i in n.items:
                c = i.context_expr
                if isinstance(c, ast.Call) and (getattr(c.func, "id", "") == "suppress" or getattr(c.func, "attr", "") == "suppress"):
                    for a in c.args:
                        out.add(getattr(a, "id", getattr(a, "attr", "?")))
        n, prev = getattr(n, "parent", None), n
    return out


def import_time_nodes(m):
    """nodes evaluated when the module is imported"""
    lazy = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)
    out = []

    def fn(n):
        for d in getattr(n, "decorator_list", []):
            go(d)
        a = n.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            go(d)
        if not lazy and not isinstance(n, ast.Lambda):
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                if x.annotation is not None:
                    go(x.annotation)
            if n.returns is not None:
                go(n.returns)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return fn(n)
        if isinstance(n, ast.If) and _is_type_checking(n.test):
            for s in n.orelse:
                go(s)
            return
        out.append(n)
        for k, v in ast.iter_fields(n):
            if lazy and k == "annotation":
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST):
                    go(x)

    for s in m.tree.body:
        go(s)
    return out


def check(ctx):
    ck = Checks(ctx)
    solver = solver_checks(ctx, ck)
    prog = ctx.prog
    # where the solver module itself enters
    sources = []  # (module, local name)
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                mods = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module or ""]
                if not any(x.split(".")[0] == "z3" and not (isinstance(n, ast.ImportFrom) and n.level) for x in mods):
                    continue
                if type_checking_only(ctx, n):
                    continue
                g = guards(n)
                ctx.expect(bool(g & CATCHES), "guarded-import", f"{m.name}:{'fn' if prog.enclosing_func(n) else 'module'}", n,
                           f"{m.name} imports the solver without handling its absence: importing EduLint fails when it is not installed", m.name)
                for a in n.names:
                    sources.append((m, a.asname or a.name.split(".")[0]))
    ctx.need(sources, "no import of the solver found")
    names = {(m.name, x) for m, x in sources}

    def is_solver(m, name, seen=()):
        """does this module-level name refer to the solver (or its stand-in)?"""
        if (m.name, name) in names:
            return True
        if (m.name, name) in seen:
            return False
        r = prog.resolve_global(m, name)
        return bool(r and r[0] == "var" and (r[1].name, r[2]) in names) or bool(r and r[0] == "ext" and r[1].split(".")[0] == "z3")

    # nothing touches it at import time
    for m in prog.modules.values():
        for n in import_time_nodes(m):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and is_solver(m, n.value.id):
                g = guards(n)
                ctx.expect(bool(g & (CATCHES - {"ImportError", "ModuleNotFoundError"} | {"AttributeError"})) and (m.name, n.value.id) in names
                           and bool(g & CATCHES), "no-import-time-use", f"{m.name}:{ast.unparse(n)}", n,
                           f"{ast.unparse(n)} is evaluated when {m.name} is imported: EduLint cannot be imported without the solver", ast.unparse(n))
        if m.name.startswith("edulint.linting") and any(is_solver(m, x) for x in m.names):
            ctx.ok("no-import-time-use", f"{m.name}: import-time expressions")
    # no other check reaches it
    others = {x for x in ck.by_id if x not in solver}
    watch = {(m.name, x): "solver" for m, x in sources}
    reached_with = 0
    for c, n, f, req in ck.visits:
        ctx.count("visits")
        ids = {ck.by_id[x].symbol for x, _ in req if x in ck.by_id} if req is not None else None
        if ids is not None and ids and ids <= solver:
            ctx.ok("not-reached", f"{c.name}.{n}: carried out only for checks requiring the solver")
            continue
        pe, ev = ck.run(c, n, f, enabled=others, watch=watch)
        hits = [e for e in ev if e.kind == "solver"]
        for e in hits:
            ctx.bad("not-reached", f"{c.name}.{n}:{e.func.qual if e.func else ''}", e.node,
                    f"the solver is used here although no check documented as requiring it is enabled: "
                    f"{ck.path(pe, e.func.qual, f.qual) if e.func else ''}")
        if not hits:
            ctx.ok("not-reached", f"{c.name}.{n}")
    for c, n, f, req in ck.visits:
        pe, ev = ck.run(c, n, f, watch=watch)
        reached_with += any(e.kind == "solver" for e in ev)
    ctx.need(reached_with >= 1, "no use of the solver found even with every check enabled: the analysis is blind")
    # the stand-in
    stand = []
    for m, x in sources:
        for kind, s in [(b[0], b[1]) for b in m.names.get(x, [])]:
            if kind == "assign" and isinstance(s, ast.Assign) and isinstance(s.value, ast.Call):
                r = prog.resolve_expr(m, s.value.func)
                if r and r[0] == "class":
                    stand.append(r[1])
    ctx.need(stand, "stand-in for the missing solver not found")
    codes = set()
    for cl in stand:
        f = prog.find_method(cl, "__getattr__") or prog.find_method(cl, "__getattribute__")
        if not ctx.expect(f is not None, "stand-in-fails", cl.name, cl.node, f"{cl.name} does not intercept uses of the missing solver", cl.name):
            continue
        it = ctx.interp(unknown_raises=None)
        av, st, exc = it.run(f, [frozenset([("s", "SELF")]), frozenset([("s", "NAME")])])
        ctx.absorb(it)
        ctx.expect(st.dead and set(exc) == {"SystemExit"}, "stand-in-fails", f"{cl.name}:exit", f,
                   f"using the missing solver must end the run, but {cl.name} can return normally or raise {sorted(map(str, exc))}", "exits")
        for e in it.events:
            if e.kind == "call" and e.name == "sys.exit":
                codes |= {t[2] if t[0] == "c" else "?" for t in (e.args[0] if e.args else [("c", "int", 0)])}
                hint = any(n.startswith("loguru.logger.") and n.rsplit(".", 1)[1] in ("critical", "error", "warning") for n in e.done if isinstance(n, str))
                ctx.expect(hint, "stand-in-fails", f"{cl.name}:hint", e.node, "the run ends without telling that the solver is not installed", "hint")
    ctx.need(codes, "no exit of the stand-in found")
    for code in sorted(codes, key=str):
        ctx.need(code != "?", "exit code of the stand-in is not a constant")
        it = ctx.interp(unknown_raises=None)

        def run(itp, args, kw, st, node, fr):
            itp.raise_exc("SystemExit", st, node, "the solver is missing", fr)
            st.dead = True
            return EMPTY
        it.stubs["pylint.lint.Run"] = run
        it.exc_attrs["code"] = const(code)
        f = prog.func("edulint.linting.linting.lint_pylint")
        av, st, exc = it.run(f, [frozenset([("s", "FILES")]), frozenset([("s", "CONFIG")])])
        ctx.need(any(e.kind == "call" and e.name == "pylint.lint.Run" for e in it.events), "lint_pylint does not run pylint.lint.Run")
        ctx.absorb(it)
        ctx.expect(st.dead, "failure-propagates", f"exit {code}", f,
                   f"when the missing solver ends Pylint with status {code}, lint_pylint still returns a result", f"status {code}")
