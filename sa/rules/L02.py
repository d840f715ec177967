"""A failed run is never reported as a clean result."""
import ast
from ..absint import show, Obj, EMPTY, NONE, FALSE, C
from ..view import reach, objs

MIN = {"failure-status": 4, "status-matches-result": 2, "failure-escapes": 6, "linter-status": 8, "no-silent-group": 1}
PKG = "edulint.linting.linting"
CLI = "edulint.edulint"
LINTER = "edulint.linters.Linter"
EXCS = ("EXC?", "edulint.config.file_config.InvalidConfigFile", "TimeoutError", "json.decoder.JSONDecodeError",
        "edulint.linting.linting.EduLintLinterFailedException", "AssertionError", "OSError", "KeyboardInterrupt")


def raising(cls):
    def stub(it, args, kw, st, node, fr):
        it.raise_exc(cls, st, node, "injected", fr)
        st.dead = True
        return EMPTY
    return stub


def giving(av):
    return lambda it, args, kw, st, node, fr: av if isinstance(av, frozenset) else av(it, args, st, node)


def consts(av):
    return sorted({t[2] if t[0] == "c" else show(frozenset([t])) for t in av}, key=str)


def bad_status(av):
    """a value that is (or may be) one of the statuses meaning the run was completed"""
    return not av or any(not (t[0] == "c" and isinstance(t[2], int) and not isinstance(t[2], bool) and t[2] not in (0, 1) and 0 < t[2] < 256) for t in av)


def check(ctx):
    prog = ctx.prog
    command(ctx, prog)
    entry(ctx, prog)
    toplevel(ctx, prog)
    linters(ctx, prog)
    groups(ctx, prog)


def command(ctx, prog):
    """status of the check command for: failure, no problem, some problem"""
    f = prog.func(CLI + ".check_and_print")
    core = CLI + "._check_code"

    def run(res, exc=None):
        it = ctx.interp(unknown_raises=None)
        it.stubs[core] = raising(exc) if exc else giving(res)
        it.stubs[CLI + ".to_json"] = giving(frozenset([("s", "JSON")]))
        st = it.new_state()
        av, st, ex = it.run(f, [frozenset([("s", "ARGS")]), frozenset([("s", "PARSES")])], st=st)
        ctx.absorb(it)
        return av, st, ex, any(e.kind == "enter" and e.name == core or e.kind == "call" and e.name == core for e in it.events)

    av, st, ex, called = run(NONE)
    ctx.need(called, "check_and_print does not reach _check_code")
    ctx.expect(not st.dead and not bad_status(av), "failure-status", "check_and_print:failed", f,
               f"when linting failed the check command's status is {consts(av)}, which means that linting was completed", f"failed run: status {consts(av)}")

    def result(probs):
        def make(it, args, st, node):
            lst = it.alloc(st, Obj("list", segs=probs), node, "problems")
            return it.mk_tuple(st, [frozenset([("s", "CONFIGS")]), lst])
        return make

    P = frozenset([("s", "PROBLEM")])
    for what, segs, want in (("no problem", (), 0), ("one problem", (("1", P),), 1), ("several problems", (("1", P), ("1", P)), 1)):
        av, st, ex, _ = run(result(segs))
        ctx.expect(not st.dead and av == frozenset([C(want)]), "status-matches-result", "check_and_print:" + what.split()[0], f,
                   f"with {what} found the check command's status is {consts(av)} instead of {want}", f"{what}: status {want}")
    for e in EXCS:
        av, st, ex, _ = run(None, e)
        ctx.expect(st.dead or not bad_status(av), "failure-status", "check_and_print:" + e, f,
                   f"when linting raises {e} the check command still returns status {consts(av)}", f"{e} is not turned into a completed status")


def entry(ctx, prog):
    """_check_code gives either everything or a failure"""
    f = prog.func(CLI + "._check_code")
    cfg, many = "edulint.config.config.get_config_many", PKG + ".lint_many"

    def run(stubs):
        it = ctx.interp(unknown_raises=None)
        it.stubs.update({cfg: giving(frozenset([("s", "CONFIGS")])), many: giving(frozenset([("s", "PROBLEMS")])),
                         "edulint.config.config.get_cmd_args": giving(frozenset([("s", "CMD")]))})
        it.stubs.update(stubs)
        av, st, ex = it.run(f, [frozenset([("s", "FILES")]), frozenset([("s", "OPTS")]), frozenset([("s", "PARSES")])])
        ctx.absorb(it)
        return it, av, st, ex

    # a path that does not exist: at least one element of FILES
    it, av, st, ex = run({"os.path.exists": giving(FALSE)})
    tested = [e for e in it.events if e.kind == "call" and e.name in ("os.path.exists", "os.path.lexists", ".exists")]
    ctx.expect(bool(tested) and any(("elem", ("s", "FILES")) in reach(it, st, e.args[0] if e.args else (e.recv or EMPTY)) for e in tested),
               "failure-escapes", "_check_code:missing-path-tested", f, "the given paths are not all tested for existence", "existence of every given path")
    # all given paths are missing: the element loop runs at least once
    def run_missing():
        it = ctx.interp(unknown_raises=None)
        it.stubs.update({cfg: giving(frozenset([("s", "CONFIGS")])), many: giving(frozenset([("s", "PROBLEMS")])),
                         "edulint.config.config.get_cmd_args": giving(frozenset([("s", "CMD")]))})
        st = it.new_state()
        X, M = frozenset([("s", "PRESENT")]), frozenset([("s", "MISSING")])

        def exists(itp, args, kw, s, node, fr):
            a = args[0] if args else EMPTY
            return FALSE if ("s", "MISSING") in reach(itp, s, a) and ("s", "PRESENT") not in reach(itp, s, a) else \
                frozenset([C(True)]) if ("s", "MISSING") not in reach(itp, s, a) else frozenset([C(True), C(False)])
        for n in ("os.path.exists", "os.path.lexists", ".exists", "os.path.isfile", "os.path.isdir", ".is_file", ".is_dir"):
            it.stubs[n] = exists
        files = it.alloc(st, Obj("list", segs=(("*", X), ("1", M), ("*", X))), f.node, "files")
        av, st, ex = it.run(f, [files, frozenset([("s", "OPTS")]), frozenset([("s", "PARSES")])], st=st)
        ctx.absorb(it)
        return av, st
    av, st = run_missing()
    ctx.expect(st.dead or av == NONE, "failure-escapes", "_check_code:missing-path", f,
               f"with a path that does not exist among those given, linting continues and {show(av)} is returned as the result", "missing path")
    # anything raised while configuring or linting
    for where, q in (("configuring", cfg), ("linting", many)):
        for e in EXCS:
            _, av, st, ex = run({q: raising(e)})
            ctx.expect(st.dead or av == NONE, "failure-escapes", f"_check_code:{where}:{e}", f,
                       f"when {where} raises {e}, _check_code returns {show(av)} as if it had finished", f"{e} while {where}")
    # the public entry point and the one for a single file pass the outcome on
    g = prog.func(CLI + ".check_code")
    it = ctx.interp(unknown_raises=None)
    it.stubs[CLI + "._check_code"] = giving(frozenset([("s", "OUTCOME")]))
    av, st, ex = it.run(g, [frozenset([("s", "FILES")]), frozenset([("s", "OPTS")])])
    ctx.absorb(it)
    ctx.expect(not st.dead and av == frozenset([("s", "OUTCOME")]), "failure-escapes", "check_code:outcome", g,
               f"check_code returns {show(av)} instead of the outcome of linting", "outcome passed on")
    it = ctx.interp(unknown_raises=None)
    it.stubs[CLI + "._check_code"] = raising("EXC?")
    av, st, ex = it.run(g, [frozenset([("s", "FILES")]), frozenset([("s", "OPTS")])])
    ctx.expect(st.dead or av == NONE, "failure-escapes", "check_code:error", g, f"check_code returns {show(av)} although linting raised", "error passed on")


def catch_default(prog, f):
    """status a surrounding logger.catch gives when the function raises; None when nothing catches"""
    for d in f.decorators():
        e = d.func if isinstance(d, ast.Call) else d
        r = prog.resolve_expr(f.module, e)
        if r is not None and r[0] == "ext" and r[1].endswith("logger.catch"):
            if not isinstance(d, ast.Call):
                return EMPTY, d
            kw = {k.arg: k.value for k in d.keywords}
            if "reraise" in kw and not (isinstance(kw["reraise"], ast.Constant) and not kw["reraise"].value):
                return None, d
            if d.args or "exception" in kw:
                x = d.args[0] if d.args else kw["exception"]
                rx = prog.resolve_expr(f.module, x)
                if not (rx and rx[0] == "ext" and rx[1] in ("builtins.Exception", "builtins.BaseException")) and \
                        not (isinstance(x, ast.Name) and x.id in ("Exception", "BaseException")):
                    return None, d
            v = kw.get("default")
            return (frozenset([C(v.value)]) if isinstance(v, ast.Constant) else (frozenset([C(None)]) if v is None else v)), d
    return None, f.node


def toplevel(ctx, prog):
    f = prog.func(CLI + ".main")

    def run(stub):
        it = ctx.interp(unknown_raises=None)
        it.stubs[CLI + ".check_and_print"] = stub
        for n in ("setup_logger", "check_for_updates"):
            it.stubs[CLI + "." + n] = giving(NONE)
        it.stubs["edulint.explanations.update_explanations"] = giving(NONE)
        it.stubs[CLI + ".print_message_explanations"] = giving(frozenset([C(0)]))
        it.stubs[CLI + ".setup_argparse"] = giving(lambda it, args, st, node: it.alloc(
            st, Obj("inst", None, {"command": frozenset([C("check")])}), node, "args"))
        av, st, ex = it.run(f, [])
        ctx.absorb(it)
        return it, av, st, ex

    it, av, st, ex = run(giving(frozenset([("s", "STATUS")])))
    ctx.expect(not st.dead and av == frozenset([("s", "STATUS")]), "failure-status", "main:passes-status", f,
               f"for the check command main returns {show(av)} instead of the status of the check command", "status passed on")
    it, av, st, ex = run(raising("EXC?"))
    if st.dead:
        d, node = catch_default(prog, f)
        if isinstance(d, ast.AST):
            x = ctx.fold.glob(f.module.name, d.id) if isinstance(d, ast.Name) else None
            d = frozenset([C(x)]) if isinstance(x, int) else None
        ctx.expect(d is not None and not bad_status(d), "failure-status", "main:unexpected", node,
                   f"an unexpected error leaves main with status {consts(d) if d else '1 (uncaught exception)'}, which means that linting was completed",
                   "unexpected error: " + str(consts(d) if d else None))
    else:
        ctx.expect(not bad_status(av), "failure-status", "main:unexpected", f,
                   f"an unexpected error makes main return {consts(av)}, which means that linting was completed", "unexpected error")
    # running as a module uses main's status
    m = prog.modules.get("edulint.__main__")
    ctx.need(m is not None, "edulint.__main__ vanished")
    uses = [n for n in ast.walk(m.tree) if isinstance(n, ast.Call) and getattr((prog.resolve_expr(m, n.func) or (0, 0))[1], "qual", None) == CLI + ".main"]
    ok = bool(uses)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Expr) and n.value in uses:
            ok = False
    ctx.expect(ok, "failure-status", "__main__:status", "edulint/__main__.py", "running the package as a module ignores main's status", "module run exits with main's status")


def enum(n):
    return frozenset([("enum", LINTER, n)])


def ints(func):
    out = {0, 1, 2, 32}
    for n in ast.walk(func.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            out |= {n.value - 1, n.value, n.value + 1}
    return sorted(out)


def linters(ctx, prog):
    pr = prog.func(PKG + ".process_results")
    # one representative per region the compared constants split the statuses into
    fails = {"FLAKE8": lambda c: c not in (0, 1), "PYLINT": lambda c: c == 32}
    for linter, fail in fails.items():
        for code in ints(pr):
            it = ctx.interp(unknown_raises=None)
            av, st, ex = it.run(pr, [enum(linter), frozenset([C(code)]), frozenset([("s", "OUT")]), frozenset([("s", "ERR")]),
                                     frozenset([("s", "GETTER")]), frozenset([("s", "CONV")]), frozenset([("s", "EN")])])
            ctx.absorb(it)
            if fail(code):
                ctx.expect(st.dead, "linter-status", f"{linter}:{code}", pr,
                           f"{linter.lower()} ending with status {code} is taken as a completed run", f"{linter} {code} is a failure")
            elif code in (0, 1):
                ctx.expect(not st.dead, "linter-status", f"{linter}:{code}", pr,
                           f"{linter.lower()} ending with status {code} is taken as a failure", f"{linter} {code} is a completed run")
    # output that cannot be parsed
    it = ctx.interp(unknown_raises=None)
    it.stubs["json.loads"] = raising("json.decoder.JSONDecodeError")
    av, st, ex = it.run(pr, [enum("PYLINT"), frozenset([C(0)]), frozenset([("s", "OUT")]), frozenset([("s", "ERR")]),
                             frozenset([("s", "GETTER")]), frozenset([("s", "CONV")]), frozenset([("s", "EN")])])
    rets = [o for _, o in objs(it, st, av)]
    ctx.expect(bool(ex) and (st.dead or all(o.kind == "list" and not o.segs for o in rets) and av), "failure-escapes", "process_results:unparsable", pr,
               f"when the output of a linter cannot be parsed, {show(av)} is returned", "unparsable output")
    # what happens to the linter's own exceptions
    for name, targets, linter in (("lint_flake8", ("flake8.main.application.Application",), "FLAKE8"), ("lint_pylint", ("pylint.lint.Run",), "PYLINT")):
        f = prog.func(PKG + "." + name)
        for e in ("KeyboardInterrupt", "EXC?", "OSError", "AssertionError", "SystemExit"):
            it = ctx.interp(unknown_raises=None)
            got = []

            def results(itp, args, kw, st, node, fr, got=got):
                got.append(list(args) + list(kw.values()))
                return frozenset([("s", "RESULT")])
            it.stubs[PKG + ".process_results"] = results
            it.exc_attrs["code"] = frozenset([("s", "EXITCODE")])
            for t in targets:
                it.stubs[t] = raising(e)
            av, st, ex = it.run(f, [frozenset([("s", "FILES")]), frozenset([("s", "CFG")])])
            ctx.absorb(it)
            if e == "SystemExit":
                if st.dead and not got:
                    ctx.ok("failure-escapes", f"{name}: SystemExit escapes")
                    continue
                ctx.expect(bool(got) and all(any(("s", "EXITCODE") in a for a in args) and not any(any(t == C(0) for t in a) for a in args) for args in got),
                           "failure-escapes", f"{name}:SystemExit", f,
                           f"when {linter.lower()} exits by itself its status is not the one that is judged", f"{name}: exit status is judged")
            else:
                ctx.expect(st.dead, "failure-escapes", f"{name}:{e}", f,
                           f"when {linter.lower()} raises {e}, {name} returns {show(av)} as its results", f"{name}: {e} escapes")
    # an exception of a linter is not lost between the linter and the entry point
    for name, q in (("lint", PKG + ".lint_pylint"), ("lint", PKG + ".lint_flake8"), ("lint_many", PKG + ".lint")):
        f = prog.func(PKG + "." + name)
        for e in EXCS:
            it = ctx.interp(unknown_raises=None)
            hit = []
            r = raising(e)

            def stub(itp, args, kw, st, node, fr):
                hit.append(node)
                return r(itp, args, kw, st, node, fr)
            it.stubs[q] = stub
            for o in ("lint_edulint", "lint_pylint", "lint_flake8"):
                it.stubs.setdefault(PKG + "." + o, giving(lambda it, args, st, node: it.alloc(st, Obj("list"), node, "none")))
            it.stubs["edulint.config.config.ImmutableConfig.__getitem__"] = giving(FALSE)
            st = it.new_state()
            a1 = it.alloc(st, Obj("inst", "edulint.config.config.ImmutableConfig", {}), f.node, "cfg")
            part = it.alloc(st, Obj("list", segs=(("1", it.mk_tuple(st, [frozenset([("s", "FILES")]), a1, frozenset([("s", "LANG")])])),)), f.node, "part")
            av, st, ex = it.run(f, [part] if name == "lint_many" else [frozenset([("s", "FILES")]), a1], st=st)
            ctx.absorb(it)
            ctx.expect(bool(hit) and st.dead, "failure-escapes", f"{name}:{q.rsplit('.', 1)[1]}:{e}", f,
                       f"when {q.rsplit('.', 1)[1]} raises {e}, {name} still returns {show(av)}" if hit else f"{name} never calls {q.rsplit('.', 1)[1]}",
                       f"{name}: {e} of {q.rsplit('.', 1)[1]} escapes")


def groups(ctx, prog):
    """a configuration that cannot be used fails the run instead of dropping the files it was selected for"""
    f = prog.func("edulint.config.config.get_config_many")
    it = ctx.interp(unknown_raises=None)
    it.stubs["edulint.config.config.parse_config_file"] = giving(NONE)

    def infile(itp, args, kw, st, node, fr):
        cfg = itp.alloc(st, Obj("inst", "edulint.config.config.Config", {
            "config": itp.alloc(st, Obj("list"), node, "il"), "enablers": itp.alloc(st, Obj("dict"), node, "ie"),
            "option_parses": args[2] if len(args) > 2 else EMPTY}), node, "icfg")
        key = frozenset([("s", "KEY")])
        val = itp.mk_tuple(st, [cfg, frozenset([("s", "PATHS")])])
        return itp.alloc(st, Obj("dict", layers=(("kv", key, val),)), node, "infile")
    it.stubs["edulint.config.config._parse_infile_configs"] = infile
    op, st, _ = it.run(prog.func("edulint.option_parses.get_option_parses"), [])
    cmd = it.alloc(st, Obj("list"), f.node, "cmd")
    av, st, ex = it.run(f, [frozenset([("s", "FILES")]), cmd, op], st=st)
    ctx.absorb(it)
    ctx.expect(st.dead and bool(ex), "no-silent-group", "get_config_many", f,
               f"when the configuration selected for a group of files cannot be used, get_config_many returns {show(av)}: the files are silently not linted",
               "unusable configuration raises")
    caught = {x for x in ex}
    ctx.count("exceptions_for_unusable_configuration", len(caught))
