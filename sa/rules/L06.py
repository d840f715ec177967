"""Everything given on the command line is linted and every result is reported."""
from ..absint import show, C
from ..paths import FS
from ..view import reach
from . import _edl as E
from . import _lint as P
from ._edl import S, L
from .L05 import LINTERS, through

MIN = {"message-reported": 8, "result-kept": 20, "linter-run": 12, "output-parsed": 2, "file-linted": 40, "group-linted": 4}


def check(ctx):
    messages(ctx)
    kept(ctx)
    sources(ctx)
    groups(ctx)
    partition(ctx)


def messages(ctx):
    """each message in a linter's output becomes a problem"""
    for linter, (name, table, msg, wrap) in LINTERS.items():
        datas = {"one": (wrap([msg(1)]), 1), "several": (wrap([msg(i) for i in (1, 2, 3)]), 3), "none": (wrap([]), 0)}
        datas["equal"] = (wrap([msg(1), msg(1)]), 2)
        if linter == "FLAKE8":
            datas["several files"] = ({"a.py": [msg(1), msg(2)], "b.py": [], "c.py": [msg(3)]}, 3)
        for what, (data, n) in datas.items():
            r = P.Linted(ctx, name, data)
            got = r.problems or []
            ctx.expect(r.problems is not None and len(got) == n and all(k == "1" and f is not None for k, f in got), "message-reported", f"{linter}:{what}", r.f,
                       f"of {n} messages ({what}) given by {linter.lower()} {len([1 for k, f in got if k == '1'])} are certain to be reported{'' if r.problems is not None else ': ' + show(r.av)}", f"{linter}: {what}")
        # what is parsed is what the linter wrote
        ctx.need(r.runs and r.parsed, f"{name} does not run its linter and parse its output")
        args, kw, s, node = r.runs[0]
        if linter == "PYLINT":
            sinks = {t for a in list(args) + list(kw.values()) for t in reach(r.it, s, a)}
        else:
            o = s.heap.get(("extattr", ("ext", "sys"))) or s.heap.get(("extattr", ("mod", "sys")))
            v = o.fields.get("stdout") if o is not None else None
            sinks = set(v or ())
        for av, node in r.parsed:
            cuts(ctx, r.it, r.st, name)
            src = {x for t in reach(r.it, r.st, av) if t[0] == "call" and t[1] == "written" for x in t[2][0]}
            ctx.expect(bool(src) and src <= sinks, "output-parsed", linter, node, f"{name} takes {show(av)} for the output of its linter, which writes to {show(frozenset(sinks))[:120]}", f"{linter}: its own output")


def cuts(ctx, it, s, what):
    """no fixed number of results is cut out of a sequence of them"""
    for e in it.events:
        if e.kind != "part" or len(e.args) < 4:
            continue
        base, lo, hi = e.args[:3]
        bounds = [E.cval(lo), E.cval(hi)]
        if bounds[1] is None and not bounds[0] or not any(isinstance(b, int) for b in bounds):
            continue
        for t in base:
            o = it.obj(s, t[1]) if t[0] == "o" else None
            if o is not None and o.kind in ("list", "tuple", "iter") and any(carries(it, s, v) for _, v in o.segs):
                ctx.bad("message-reported", f"cut:{what}:{getattr(e.node, 'lineno', 0)}", e.node, f"only a part [{bounds[0] or ''}:{bounds[1] if bounds[1] is not None else ''}] of all {'results'} is taken")


def carries(it, s, v):
    """a problem or a linter's message"""
    for t in v:
        o = it.obj(s, t[1]) if t[0] == "o" else None
        if o is not None and (o.cls == P.PROBLEM or o.kind == "dict" and any(l[0] == "kv" and E.cval(l[1]) in ("line", "line_number") for l in o.layers)):
            return True
    return False


def kept(ctx):
    """from the conversion to the end of the run no problem is lost when nothing takes precedence and no tweak applies"""
    for entry in ("_check_code", "lint_many"):
        it, st, av, f, src = through(ctx, {}, {}, {}, n=2, groups=("a.py+x.py", "b.py+y.py"), entry=entry)
        got = P.problems(it, st, av) or []
        for tag in src:
            n = [k for k, fl in got if fl is not None and fl.get("code") == S(tag + ".code")]
            ctx.expect(n == ["1"], "result-kept", f"{entry}:{tag}", f, f"a problem of {tag.split(':')[0]} for {tag.split(':')[1]} is {'reported ' + str(len(n)) + ' times' if len(n) > 1 else 'not certain to be reported' if n else 'lost'}, though nothing suppresses it", f"{tag} reported once")
        extra = [fl for k, fl in got if fl is None]
        cuts(ctx, it, st, entry)
        want = {f"{x}:{g}:{j}" for x in ("edulint", "flake8", "pylint") for g in ("a.py+x.py", "b.py+y.py") for j in range(2)}
        ctx.expect(not extra and set(src) == want, "result-kept", f"{entry}:all", f, f"for two groups of files linters are run on {sorted({t.rsplit(':', 1)[0] for t in src})}", "all linters, all files of all groups")
        # duplicates of a problem are problems of their own
    it, st, av, f, src = through(ctx, {"X": S("T")}, {"A": S("B")}, {}, n=1, groups=("a.py", "b.py", "c.py"))
    got = P.problems(it, st, av) or []
    for tag in src:
        n = [k for k, fl in got if fl is not None and fl.get("code") == S(tag + ".code")]
        ctx.expect(n == ["1"], "result-kept", "unrelated:" + tag, f, f"a problem of {tag} is lost although only unrelated ones have translations and precedence", f"{tag} reported once")


def sources(ctx):
    """which linters are run for a configuration"""
    other = [o for o in E.options(ctx) if o != "NO_FLAKE8"]
    cases = [("flake8 on", False, {}), ("flake8 off", True, {})] + [(o + " set", False, {o: S("SOME")}) for o in other] + [(o + " empty", False, {o: frozenset([C(None)])}) for o in other]
    for what, off, vals in cases:
        it, st, av, f, src = through(ctx, {}, {}, {}, cfgs={"a.py": {"NO_FLAKE8": E.const(off), **vals}}, entry="lint_many")
        run = {t.split(":")[0] for t in src}
        got = P.problems(it, st, av) or []
        kept = {t.split(":")[0] for t in src if any(k == "1" and fl is not None and fl.get("code") == S(t + ".code") for k, fl in got)}
        for x in ("edulint", "flake8", "pylint"):
            if x == "flake8" and off:
                ctx.expect(x not in run, "linter-run", what, f, "flake8 is run although it is configured off", "flake8 off")
            else:
                ctx.expect(x in run and x in kept, "linter-run", f"{what}:{x}", f, f"{x} is {'not run' if x not in run else 'not certain to be run'} with {what}", f"{x} with {what}")
    # EduLint's own findings
    f = ctx.prog.func(E.LINT + ".lint_edulint")
    for val in ("flake8", "all", "noqa-unknown"):
        it = ctx.interp(unknown_raises=None)
        it.generic = it.keep_sorted = True
        st = it.new_state()
        asked = []

        def report(i, a, k, s, n, fr):
            asked.append((E.py(i, s, a[0]), s, a))
            return E.lst(i, s, n, *[P.problem(ctx, i, s, n, f"own:{j}") for j in range(3)], tag="own")
        it.stubs["edulint.linting.nonparsing_checkers.report_infile_config"] = report
        cfg = E.immutable(ctx, it, st, f.node, {"IGNORE_INFILE_CONFIG_FOR": E.lst(it, st, f.node, E.const(val), tag="ign")})
        av, st, _ = it.run(f, [E.build(it, st, f.node, ["p", "a.py"], "files"), cfg], st=st)
        ctx.absorb(it)
        got = P.problems(it, st, av) or []
        ctx.expect(len(got) == 3 and all(k == "1" and x for k, x in got) and all(a[0] == ("p", "a.py") for a in asked), "message-reported", "own:" + val, f,
                   f"with ignore-infile-config-for={val} not every suppression comment found in every given file is reported", f"own findings: {val}")


def groups(ctx):
    """the run lints exactly the groups its configuration was determined for"""
    f = ctx.prog.func("edulint.edulint._check_code")
    it = ctx.interp(unknown_raises=None)
    it.generic = it.keep_sorted = True
    st = it.new_state()
    seen = {}

    def many(i, a, k, s, n, fr):
        seen["conf"] = [E.py(i, s, x) or x for x in list(a)[:2]]
        return S("GROUPS")

    def lint(i, a, k, s, n, fr):
        seen["lint"] = a[0]
        return E.lst(i, s, n, *[P.problem(ctx, i, s, n, f"p{j}") for j in range(3)], tag="res")
    it.stubs[E.CONF + ".get_config_many"] = many
    it.stubs[E.LINT + ".lint_many"] = lint
    it.stubs["os.path.exists"] = E.giving(E.const(True))
    it.stubs["os.path.abspath"] = E.giving(S("ABS"))
    av, st, _ = it.run(f, [E.build(it, st, f.node, ["a.py", "d", "b.py"], "names"), E.build(it, st, f.node, ["pylint=--x", "no-flake8"], "opts"), S("PARSES")], st=st)
    ctx.absorb(it)
    ctx.need("conf" in seen and "lint" in seen, "a run does not determine configurations and lint")
    ctx.expect(isinstance(seen["conf"][0], tuple) and sorted(seen["conf"][0]) == ["a.py", "b.py", "d"], "group-linted", "names", f, f"configuration is determined for {seen['conf'][0]}, not for what was given", "all given paths")
    ctx.expect(seen["conf"][1] == ("pylint=--x", "no-flake8"), "group-linted", "options", f, f"configuration is determined with the options {seen['conf'][1]}, not with those given", "all given options")
    ctx.expect(seen["lint"] == S("GROUPS"), "group-linted", "groups", f, f"{show(seen['lint'])} is linted instead of the groups configurations were determined for", "the determined groups")
    o = E.one(it, st, av)
    ok = o is not None and o.kind == "tuple" and len(o.segs) == 2
    ctx.expect(ok and o.segs[0][1] == S("GROUPS"), "group-linted", "configs", f, "the configurations a run reports are not those it used", "reported configurations")
    got = P.problems(it, st, o.segs[1][1]) if ok else []
    ctx.expect(bool(got) and [k for k, _ in got] == ["1"] * 3, "group-linted", "results", f, "a run does not report all problems found", "all problems")


# given paths (linting in /r/w), files that exist, and for each Python file the words of its in-file configuration
LAYOUTS = {
    "files": (["a.py", "b.py"], {"a.py": "A", "b.py": "B", "c.py": "C"}),
    "files with the same configuration": (["a.py", "b.py", "c.py"], {"a.py": "A", "b.py": "A", "c.py": ""}),
    "a directory": (["d"], {"d/a.py": "A", "d/b.py": "B", "d/c.py": "A", "x.py": "C"}),
    "a uniform directory": (["d"], {"d/a.py": "A", "d/b.py": "A"}),
    "an empty directory": (["d", "a.py"], {"d/readme.txt": "A", "a.py": "A"}),
    "nested directories": (["d"], {"d/a.py": "A", "d/e/b.py": "B", "d/e/f/c.py": "C", "d/e/f/g.py": "", "d/h/i.py": "A"}),
    "a uniform directory in another": (["d"], {"d/a.py": "A", "d/e/b.py": "B", "d/e/c.py": "B"}),
    "uniform nested directories": (["d"], {"d/a.py": "A", "d/e/b.py": "A", "d/e/f/c.py": "A"}),
    "directories and files": (["d", "a.py", "e"], {"d/a.py": "A", "d/b.py": "B", "a.py": "B", "e/a.py": "A", "e/b.py": "A"}),
    "directories of the same configuration": (["d", "e"], {"d/a.py": "A", "e/a.py": "A", "e/b.py": "B"}),
    "directories below one without files": (["d"], {"d/e/a.py": "A", "d/f/b.py": "B"}),
    "the working directory": (["."], {"a.py": "A", "d/b.py": "B"}),
    "odd names": (["d", "x y.py", "B.PY"], {"d/a.b.py": "A", "d/__init__.py": "", "d/c.py": "B", "x y.py": "A", "B.PY": "B"}),
    "elsewhere": (["../o", "/q/z.py"], {"../o/a.py": "A", "../o/b.py": "B", "/q/z.py": "A"}),
}


def partition(ctx):
    toml = {"empty": {}, "default": {"config-file": "empty"}}
    for name, (given, files) in LAYOUTS.items():
        fs = FS("/r/w", {FS("/r/w", ()).abs(f) for f in files})
        pys = [f for f in files if f.lower().endswith(".py") and covered(fs, given, f)]
        words = {}
        for f in files:
            for form in forms(fs, given, f):
                words[form] = [L("pylint=--x", files[f])] if files[f] else []
        for cmd in ([], ["no-flake8"], ["config-file=empty"], ["ignore-infile-config-for=edulint"]):
            r = E.Run(ctx, words, cmd, toml, names=given, generic=True, fs=fs)
            where = r.f
            hit = {f: [] for f in pys}
            for i, (kind, paths, cfg, tr) in enumerate(r.results):
                ps = r.paths(i)
                labels = {x for x in r.labels(r.value(ctx, i, "PYLINT")) if x in ("A", "B", "C")}
                for p in ps or ["?"]:
                    for f in pys:
                        if p == "?" or fs.abs(p) == fs.abs(f) or fs.abs(f).startswith(fs.abs(p).rstrip("/") + "/"):
                            hit[f].append((kind, labels))
            for f in pys:
                n = hit[f]
                ctx.expect(len(n) == 1 and n[0][0] == "1", "file-linted", f"{name}:{cmd}:{f}", where,
                           f"{f} is linted {len(n)} times when {', '.join(given)} is given ({name}, {' '.join(map(str, cmd)) or 'no options'})", f"{name}: {f} linted once")
                want = {files[f]} - {""} if cmd != ["ignore-infile-config-for=edulint"] else set()
                ctx.expect(all(lab == want for _, lab in n), "file-linted", f"{name}:{cmd}:{f}:configuration", where,
                           f"{f} is linted with the in-file configuration of {n[0][1] if n else None} instead of {want} when {', '.join(given)} is given ({name})", f"{name}: {f} with its own configuration")


def covered(fs, given, f):
    a = fs.abs(f)
    return any(a == fs.abs(g) or a.startswith(fs.abs(g).rstrip("/") + "/") for g in given)


def forms(fs, given, f):
    """the ways a file may be named when the given paths are searched"""
    a, out = fs.abs(f), {f, fs.abs(f)}
    for g in given:
        b = fs.abs(g).rstrip("/")
        if a.startswith(b + "/"):
            out.add(g.rstrip("/") + a[len(b):])
            out.add("./" + g.rstrip("/") + a[len(b):])
    return out
