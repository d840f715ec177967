"""Shared builders for the rules about what becomes of the linters' results."""
from . import _edl as E
from ._edl import S

PROBLEM = "edulint.linting.problem.Problem"
OVER = "edulint.linting.overrides.get_overriders"
TWEAK = "edulint.linting.tweakers.get_tweakers"
TEXT = frozenset([("pre", "{", ("s", "OUTPUT"))])      # some non-empty output

# what each linter's JSON output says about a message, and the field of a problem it belongs in
PYLINT = {"line": "line", "column": "column", "messageId": "code", "message": "text", "endLine": "end_line", "endColumn": "end_column", "symbol": "symbol"}
FLAKE8 = {"line_number": "line", "column_number": "column", "code": "code", "text": "text"}
OTHER = {"PYLINT": ["type", "confidence", "module", "obj", "absolutePath"], "FLAKE8": ["physical_line"]}


def fields(ctx):
    import ast
    c = ctx.prog.classes[PROBLEM]
    return [n.target.id for n in c.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]


def problem(ctx, it, st, node, tag, **over):
    """a problem all of whose fields are known by label only"""
    return E.inst(it, st, node, PROBLEM, tag, **{**{k: S(f"{tag}.{k}") for k in fields(ctx)}, **over})


def problems(it, st, av):
    """[(kind, fields)] of the problems in a sequence, or None; kind "1": certainly there"""
    seqs = []
    for t in sorted(av, key=str):
        o = it.obj(st, t[1]) if t[0] == "o" else None
        if o is None:
            return None
        seqs.append([(k if len(v) == 1 else "*", x) for k, v in o.segs for x in sorted(v, key=str)])
    if not seqs:
        return None
    best = max(seqs, key=len)
    out = []
    for k, t in best:
        o = it.obj(st, t[1]) if t[0] == "o" else None
        sure = k == "1" and all(("1", t) in s for s in seqs)
        out.append(("1" if sure else "*", o.fields if o is not None and o.cls == PROBLEM else None))
    return out


def pylint_msg(i, **over):
    return {**{k: S(f"{k}#{i}") for k in [*PYLINT, *OTHER["PYLINT"]]}, "path": "a.py", **over}


def flake8_msg(i, **over):
    return {**{k: S(f"{k}#{i}") for k in [*FLAKE8, *OTHER["FLAKE8"]]}, "filename": "a.py", **over}


class Linted:
    """lint_pylint / lint_flake8 interpreted for a given JSON output of the linter"""

    def __init__(self, ctx, name, data, files=("a.py",), fs=None, enablers=None, code=None):
        f = self.f = ctx.prog.func(E.LINT + "." + name)
        it = self.it = ctx.interp(unknown_raises=None)
        it.generic, it.fs, it.keep_sorted = True, fs, True
        st = it.new_state()
        self.runs, self.parsed = [], []

        def run(itp, args, kw, s, node, fr):
            self.runs.append((args, kw, s.copy(), node))
            return S("RUN")

        def loads(itp, args, kw, s, node, fr):
            self.parsed.append((args[0] if args else None, node))
            return E.build(itp, s, node, data, "json")
        it.stubs["._run"] = it.stubs[".run"] = it.stubs["pylint.lint.Run"] = run
        it.stubs["json.loads"] = loads
        made = []

        def stream(itp, args, kw, s, node, fr):
            made.append(node)
            return S(f"STREAM{len(made)}")
        it.stubs["io.StringIO"] = stream
        it.stubs[".getvalue"] = lambda i, a, k, s, n, fr: frozenset([("pre", "{", ("call", "written", (a[0],)))])
        en = E.build(it, st, f.node, enablers or {}, "en")
        cfg = E.immutable(ctx, it, st, f.node, {}, enablers=en)
        av, st, exc = it.run(f, [E.build(it, st, f.node, list(files), "files"), cfg], st=st)
        ctx.absorb(it)
        self.av, self.st, self.exc = av, st, exc
        self.problems = problems(it, st, av)
