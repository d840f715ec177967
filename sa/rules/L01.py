"""Standard streams are restored whatever happens while linting."""
import ast
from ..absint import show, EMPTY

MIN = {"restored-at-exit": 8, "original-while-processing": 2}
STREAMS = ("stdout", "stderr", "stdin")


def stream(st, name):
    o = st.heap.get(("extattr", ("ext", "sys"))) or st.heap.get(("extattr", ("mod", "sys")))
    return o.fields.get(name) if o is not None else None


def original(av, name):
    return av is None or all(t in (("ext", "sys." + name), ("attr", ("ext", "sys"), name)) for t in av)


def assigners(prog):
    """functions that assign to one of the interpreter's standard streams"""
    out = []
    for f in prog.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in STREAMS:
                r = prog.resolve_expr(f.module, n.value)
                if r is not None and r[0] in ("ext", "mod") and r[1] == "sys":
                    out.append(f)
                    break
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                out.append(f)
                break
    return out


def analyse(ctx, f):
    it = ctx.interp(unknown_raises="ANY")
    seen = {}

    def processing(name, ret):
        def stub(itp, args, kw, st, node, fr):
            for s in STREAMS:
                v = stream(st, s)
                seen.setdefault((name, s), []).append((original(v, s), v, node))
            for e in (("json.decoder.JSONDecodeError",) if name == "json.loads" else ()):
                itp.raise_exc(e, st, node, "malformed", fr)
            return ret(args)
        return stub

    it.stubs["json.loads"] = processing("json.loads", lambda a: frozenset([("call", "json.loads", tuple(a))]))
    it.stubs["edulint.linting.overrides.get_overriders"] = processing("get_overriders", lambda a: frozenset([("s", "OVERRIDERS")]))
    n = len(f.node.args.posonlyargs + f.node.args.args)
    av, st, exc = it.run(f, [frozenset([("s", f"ARG{i}")]) for i in range(n)])
    ctx.absorb(it)
    exits = [("returns", st)] if not st.dead else []
    exits += [("raises " + str(k), s) for k, (s, _) in exc.items()]
    for how, s in exits:
        for name in STREAMS:
            v = stream(s, name)
            origin = "" if how == "returns" else " (raised at " + ", ".join(
                sorted({ctx.where(o[0]) for o in exc[how.split(' ', 1)[1]][1].values()})[:4] if how.split(' ', 1)[1] in exc else []) + ")"
            ctx.expect(original(v, name), "restored-at-exit", f"{f.name}:{how}:{name}", f,
                       f"{f.name} {how}{origin} with sys.{name} being {show(v or EMPTY)} instead of the stream it found", f"{f.name} {how}: sys.{name}")
    for (what, name), obs in seen.items():
        bad = [(v, node) for ok, v, node in obs if not ok]
        ctx.expect(not bad, "original-while-processing", f"{what}:{name}", bad[0][1] if bad else f,
                   f"{what} runs while sys.{name} is {show(bad[0][0]) if bad else ''}", f"{what} with original sys.{name}")
    return it


def check(ctx):
    done = set()
    entry = ctx.prog.func("edulint.linting.linting.lint_many")
    it = analyse(ctx, entry)
    done |= it.funcs_analysed
    fs = assigners(ctx.prog)
    ctx.count("functions_assigning_standard_streams", len(fs))
    for f in fs:
        # a function that is only a part of the redirection is judged in its callers
        if f.qual not in done:
            analyse(ctx, f)
