"""Every reported problem carries the linter's own values in the right fields."""
from ..absint import show, NONE
from ..paths import FS
from . import _edl as E
from . import _lint as P
from ._edl import S

MIN = {"fields": 40, "source": 5, "enabled-by": 9, "same-file": 30, "unaltered": 25}
LINTERS = {"PYLINT": ("lint_pylint", P.PYLINT, P.pylint_msg, lambda ms: {"messages": ms, "statistics": {}}),
           "FLAKE8": ("lint_flake8", P.FLAKE8, P.flake8_msg, lambda ms: {"a.py": ms})}


def check(ctx):
    ctx.need(set(P.PYLINT.values()) | {"path", "source", "enabled_by"} <= set(P.fields(ctx)), "a problem has other fields than those known here")
    fields(ctx)
    enabled(ctx)
    same_file(ctx)
    afterwards(ctx)
    edulint(ctx)


def fields(ctx):
    for linter, (name, table, msg, wrap) in LINTERS.items():
        r = P.Linted(ctx, name, wrap([msg(1), msg(2), msg(3)]))
        ctx.need(r.problems and len(r.problems) == 3 and all(f is not None for _, f in r.problems), f"{name} does not give a problem for each message of its linter")
        for i, (_, f) in enumerate(r.problems, 1):
            where = r.f
            ctx.expect(f["source"] == E.linter(linter), "source", f"{linter}:{i}", where, f"a message of {linter.lower()} is reported with {show(f['source'])} as its source", f"{linter} message")
            for key, field in table.items():
                got = f.get(field, frozenset())
                ctx.expect(got == S(f"{key}#{i}"), "fields", f"{linter}:{field}:{i}", where,
                           f"{field} of a problem reported by {linter.lower()} is {show(got)} instead of the message's own {key}", f"{linter} {field} is {key}")
            for field in set(P.PYLINT.values()) - set(table.values()):
                got = f.get(field, NONE)
                ctx.expect(got == NONE, "fields", f"{linter}:{field}:{i}", where, f"{field} of a problem reported by {linter.lower()}, which gives none, is {show(got)}", f"{linter} has no {field}")
    # absent end positions stay absent
    r = P.Linted(ctx, "lint_pylint", {"messages": [P.pylint_msg(1, endLine=None, endColumn=None), P.pylint_msg(2, line=0, column=0, endLine=0, endColumn=0)]})
    ctx.need(r.problems and len(r.problems) == 2, "lint_pylint loses messages without end positions")
    for (_, f), want in zip(r.problems, (NONE, E.const(0))):
        for field in ("end_line", "end_column"):
            ctx.expect(f[field] == want, "fields", f"{field}:{show(want)}", r.f, f"{field} given as {show(want)} becomes {show(f[field])}", f"{field} {show(want)}")
    for field in ("line", "column"):
        got = r.problems[1][1][field]
        ctx.expect(got == E.const(0), "fields", f"{field}:0", r.f, f"{field} given as 0 becomes {show(got)}", f"{field} 0")


def enabled(ctx):
    for linter, (name, table, msg, wrap) in LINTERS.items():
        code = "messageId" if linter == "PYLINT" else "code"
        cases = [("code", {"C1": S("BY-CODE")}, {code: "C1", "symbol": "sym1"}, {"BY-CODE"}), ("none", {"C2": S("BY-OTHER"), "sym2": S("BY-OTHER2")}, {code: "C1", "symbol": "sym1"}, set()),
                 ("text", {"T": S("BY-TEXT"), "a.py": S("BY-PATH"), "O": S("BY-OBJ")}, {code: "C1", "symbol": "sym1", "message": "T", "text": "T", "obj": "O"}, set())]
        if linter == "PYLINT":
            cases += [("symbol", {"sym1": S("BY-SYM")}, {code: "C1", "symbol": "sym1"}, {"BY-SYM"}), ("both", {"sym1": S("BY"), "C1": S("BY")}, {code: "C1", "symbol": "sym1"}, {"BY"}),
                      ("next", {"sym1": S("BY-SYM"), "C2": S("BY-CODE")}, {code: "C2", "symbol": "sym2"}, {"BY-CODE"})]
        for what, en, over, want in cases:
            over = {k: v for k, v in over.items() if k in (*table, *P.OTHER[linter])}
            r = P.Linted(ctx, name, wrap([msg(1, **over)]), enablers=en)
            ctx.need(r.problems and len(r.problems) == 1 and r.problems[0][1], f"{name} does not give one problem for one message")
            got = r.problems[0][1]["enabled_by"]
            ok = got == (S(next(iter(want))) if want else NONE)
            ctx.expect(ok, "enabled-by", f"{linter}:{what}", r.f, f"a message of {linter.lower()} whose {what if want else 'code and symbol'} {'is' if want else 'are not'} recorded as enabled by a configuration is reported as enabled by {show(got)}", f"{linter}: by {what}")


PLACES = [("/r/w", ["f.py"], "/r/w/f.py"), ("/r/w", ["p/q/f.py"], "/r/w/p/q/f.py"), ("/r/w", ["/r/w/p/f.py"], "/r/w/p/f.py"), ("/r/w", ["../o/f.py"], "/r/o/f.py"), ("/r/w", ["/x/y/f.py"], "/x/y/f.py"),
          ("/r/w", ["p"], "/r/w/p/q/f.py"), ("/r/w", ["."], "/r/w/p/f.py"), ("/r/w", [".."], "/r/o/f.py"), ("/r/w", ["/r"], "/r/o/d/f.py"), ("/r/w", ["./p/../f.py"], "/r/w/f.py"),
          ("/r/w", ["a.py", "p", "../o"], "/r/o/z/f.py"), ("/r/w", ["/x/y", "p/f.py"], "/r/w/p/f.py"), ("/r/w/p/q", ["../../../o/f.py"], "/r/o/f.py"), ("/r/w", ["../w/p"], "/r/w/p/f.py"), ("/r/w", ["../wx/f.py"], "/r/wx/f.py"),
          ("/", ["x/f.py"], "/x/f.py"), ("/r/w", ["p", "pp"], "/r/w/pp/f.py"), ("/r/w", ["Dir", "x y/A B.py"], "/r/w/x y/A B.py"), ("/r/w", ["Dir"], "/r/w/Dir/S/F.PY")]


def same_file(ctx):
    """the path of a problem denotes the file its linter found it in"""
    for cwd, args, target in PLACES:
        fs = FS(cwd, {target, cwd.rstrip("/") + "/a.py"})
        forms = {target, P_rel(target, cwd)}
        for form in sorted(forms):
            for linter, (name, table, msg, wrap) in LINTERS.items():
                key = "path" if linter == "PYLINT" else "filename"
                r = P.Linted(ctx, name, wrap([msg(1, **{key: form})]), files=args, fs=fs)
                got = r.problems[0][1]["path"] if r.problems and r.problems[0][1] else frozenset()
                val = E.cval(got)
                ok = val is not None and isinstance(val, str) and fs.abs(val) == target
                ctx.expect(ok, "same-file", f"{linter}:{cwd}:{args}:{form}", r.f,
                           f"a message of {linter.lower()} about {form}, linted as {', '.join(args)} in {cwd}, is reported for {show(got)}", f"{linter}: {form} as {args}")


def P_rel(target, cwd):
    import posixpath
    return posixpath.relpath(target, cwd)


def afterwards(ctx):
    """between the conversion of a linter's messages and the end of the run only texts change"""
    it, st, av, f, src = through(ctx, S("TR"), S("OV"), S("TW"))
    got = P.problems(it, st, av)
    ctx.need(got and all(x is not None for _, x in got), "the problems of a run are not known to come from its linters")
    names = P.fields(ctx)
    for _, fl in got:
        tags = {tag for tag in src if fl.get("code") == S(tag + ".code") or fl.get("line") == S(tag + ".line")}
        tag = sorted(tags)[0] if tags else None
        for n in names:
            if n != "text":
                ctx.expect(tag is not None and len(tags) == 1 and fl.get(n) == S(f"{tag}.{n}"), "unaltered", f"{tag}.{n}", f,
                           f"{n} of a problem of {tag} is {show(fl.get(n, frozenset()))} at the end of the run, not what the linter gave", f"{tag}: {n} kept")


def through(ctx, tr, ov, tw, n=1, groups=("a.py",), cfgs=None, entry="_check_code"):
    """a run with labelled problems from each linter; -> (interpreter, state, problems, function, tags)"""
    it = ctx.interp(unknown_raises=None)
    it.generic = it.keep_sorted = True
    st = it.new_state()
    src = []

    def linter(name):
        def stub(i, a, k, s, node, fr):
            g = E.py(i, s, a[0])
            tags = [f"{name}:{'+'.join(g) if g else '?'}:{j}" for j in range(n)]
            src.extend(t for t in tags if t not in src)
            return E.lst(i, s, node, *[P.problem(ctx, i, s, node, t) for t in tags], tag=name + str(g))
        return stub
    for x in ("edulint", "flake8", "pylint"):
        it.stubs[E.LINT + ".lint_" + x] = linter(x)

    def given(x, tag):
        return (lambda i, a, k, s, node, fr: E.build(i, s, node, x, tag)) if isinstance(x, dict) else E.giving(x)
    it.stubs[P.OVER], it.stubs[P.TWEAK] = given(ov, "ov"), given(tw, "tw")
    it.stubs["os.path.abspath"] = E.giving(S("ABS"))
    node = ctx.prog.func(E.LINT + ".lint_many").node
    parts = []
    for i, g in enumerate(groups):
        c = E.immutable(ctx, it, st, node, (cfgs or {}).get(g, {"NO_FLAKE8": E.const(False)}), tag=g)
        parts.append(it.mk_tuple(st, [E.build(it, st, node, g.split("+"), "g" + g), c, E.build(it, st, node, tr, "tr" + g) if isinstance(tr, dict) else tr]))
    part = E.lst(it, st, node, *parts, tag="part")
    if entry == "lint_many":
        f = ctx.prog.func(E.LINT + ".lint_many")
        av, st, _ = it.run(f, [part], st=st)
    else:
        f = ctx.prog.func("edulint.edulint._check_code")
        it.stubs[E.CONF + ".get_config_many"] = E.giving(part)
        it.stubs["os.path.exists"] = E.giving(E.const(True))
        av, st, _ = it.run(f, [E.build(it, st, node, list(groups), "names"), E.build(it, st, node, [], "opts"), S("PARSES")], st=st)
        out = frozenset()
        for t in av:
            o = it.obj(st, t[1]) if t[0] == "o" else None
            if o is not None and o.kind == "tuple" and len(o.segs) == 2:
                out |= o.segs[1][1]
        av = out
    ctx.absorb(it)
    return it, st, av, f, src


def edulint(ctx):
    f = ctx.prog.func(E.LINT + ".lint_edulint")
    it = ctx.interp(unknown_raises=None)
    it.generic = it.keep_sorted = True
    it.fs = FS("/r/w", {"/r/w/P/f.py", "/r/w/a.py"})
    st = it.new_state()
    cfg = E.immutable(ctx, it, st, f.node, {"IGNORE_INFILE_CONFIG_FOR": E.lst(it, st, f.node, E.const("flake8"), tag="ign")})
    it.stubs["edulint.linting.nonparsing_checkers.report_infile_config"] = lambda i, a, k, s, n, fr: E.lst(
        i, s, n, *[P.problem(ctx, i, s, n, f"own:{j}", path=E.const(p)) for j, p in enumerate(("P/f.py", "/r/w/a.py"))], tag="own")
    av, st, _ = it.run(f, [E.build(it, st, f.node, ["P", "/r/w/a.py"], "files"), cfg], st=st)
    ctx.absorb(it)
    got = P.problems(it, st, av)
    ctx.need(got is not None and len(got) == 2 and all(x for _, x in got), "lint_edulint does not give every problem found")
    for j, (_, fl) in enumerate(got):
        for n in P.fields(ctx):
            if n == "path":
                v = E.cval(fl[n])
                ctx.expect(isinstance(v, str) and it.fs.abs(v) == ("/r/w/P/f.py", "/r/w/a.py")[j], "same-file", f"own:{j}", f, f"a problem EduLint found itself is reported for {show(fl[n])}", "own problem's path")
            else:
                ctx.expect(fl.get(n) == S(f"own:{j}.{n}"), "unaltered", f"own:{j}.{n}", f, f"{n} of a problem EduLint found itself becomes {show(fl.get(n, frozenset()))}", f"own: {n}")
