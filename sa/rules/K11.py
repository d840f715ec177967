"""Suppression comments: every line of every file, against every pattern of each requested linter."""
import re
from ..absint import Obj, const, show, NONE, re_args, re_flags
from ..texts import VAR, match
from .. import paths
from . import _edl as E
from . import _lint as LI
from ._edl import S

MIN = {"found": 30, "not-requested": 30, "place": 30, "files": 3, "unknown-names": 3}
MODES = ("match", "fullmatch", "search")
# suppression comments of each linter ({}: any text in front and behind)
COMMENTS = {
    "flake8": ["{}# noqa{}", "{}#noqa{}", "{}#  NOQA{}", "{}# flake8: noqa{}", "{}#flake8:noqa{}", "{}# Flake8: NoQA{}", "# noqa", "x = 1  # noqa: E501"],
    "pylint": ["{}# pylint: disable{}", "{}#pylint:disable{}", "{}# pylint:  disable{}", "{}# pylint: enable{}", "{}#pylint:enable{}", "{}# PYLINT: Disable{}", "# pylint: disable=all"],
}
NONE_OF = ["{}", "{}# a comment{}", "{}# edulint: config=empty{}", "import os", ""]
# teaching module whose imports are marked with noqa on purpose
IB111 = [("from ib111 import week_01  # noqa", "-"), ("from ib111 import week_01  # NOQA", "-"), ("from ib111 import week_01  # pylint: disable=all", "pylint")]
FILES = {"a.py": None, "d": ["b.py", "notes.txt", "sub"], "d/sub": ["c.py", "pyproject"], "e.txt": None}


def check(ctx):
    lines = [(c, l) for l, cs in COMMENTS.items() for c in cs] + [(c, None) for c in NONE_OF] + IB111
    for asked in (["flake8"], ["pylint"], ["pylint", "flake8"], ["all"], ["all", "pylint"], ["edulint"], [], ["edulint", "pylint"]):
        scan(ctx, asked, lines)
    for asked in (["nonsense"], ["nonsense", "pylint"], ["flake8", "nonsense"]):
        scan(ctx, asked, lines, unknown=True)
    files(ctx)


def wanted(asked):
    return {"flake8", "pylint", "edulint"} if "all" in asked else set(asked)


class Scan:
    """the scan for comments interpreted over lines that are known by the template they follow"""

    def __init__(self, ctx, asked, templates, names, opened=None, isdir=None, listdir=None):
        f = self.f = ctx.prog.func(E.LINT + ".lint_edulint")
        it = self.it = ctx.interp(unknown_raises=None)
        it.concrete = True
        it.keep_sorted, it.max_rec = True, 6
        it.fs = paths.FS("/w", ["/w/a.py", "/w/d/b.py", "/w/d/notes.txt", "/w/d/sub/c.py", "/w/d/sub/pyproject", "/w/e.txt"])
        st = it.new_state()
        self.spans = {}
        texts = {f"LINE{i}": t.replace("{}", VAR) for i, t in enumerate(templates)}
        ms = []

        def decide(pattern, flags, mode, line, n):
            if pattern is None or flags is None:
                ctx.broken("the pattern a line is compared with is not known")
            m = match(pattern, flags, texts[line], mode)
            if m is None:
                return NONE
            ms.append((m, line, pattern))
            return frozenset([("s", f"MATCH{len(ms) - 1}")])

        def label(av):
            t = next(iter(av)) if av is not None and len(av) == 1 else None
            return t[1] if t is not None and t[0] == "s" and t[1] in texts else None

        def func(mode):
            def stub(itp, a, k, s, n, fr):
                r = re_args(mode, a, k)
                ln = label(r.get("string")) if r else None
                return decide(E.cval(r["pattern"]), 0 if r.get("flags") is None else re_flags(r["flags"]), mode, ln, n) if ln else None
            return stub

        def method(mode):
            def stub(itp, a, k, s, n, fr):
                t = next(iter(a[0])) if len(a[0]) == 1 else None
                ln = label(a[1]) if len(a) == 2 else None
                if t is None or t[0] != "call" or t[1] != "re.compile" or ln is None:
                    return None
                fl = [next(iter(x))[2] if len(x) == 1 and next(iter(x))[0] == "kw" else x for x in t[2][1:]]
                return decide(E.cval(t[2][0]), re_flags(fl[0]) if fl else 0, mode, ln, n)
            return stub

        def group(itp, a, k, s, n, fr):
            t = next(iter(a[0])) if len(a[0]) == 1 else None
            if t is None or t[0] != "s" or not str(t[1]).startswith("MATCH"):
                return None
            m, line, pattern = ms[int(t[1][5:])]
            i = E.cval(a[1]) if len(a) > 1 else 0
            sp = m.spans.get(i)
            if not sp:
                itp.raise_exc("IndexError", s, n, f"group {i}", fr)
                return NONE
            x, y = max(sp, key=lambda q: (q[1] - q[0]))
            text = texts[line][x:y]
            if VAR not in text:
                return const(text)
            self.spans[f"{line}[{x}:{y}]"] = (line, x, y)
            return frozenset([("pre", "", ("s", f"{line}[{x}:{y}]"))])

        def place(which):
            def stub(itp, a, k, s, n, fr):
                t = next(iter(a[0])) if len(a[0]) == 1 else None
                if t is None or t[0] != "s" or not str(t[1]).startswith("MATCH"):
                    return None
                m, line, pattern = ms[int(t[1][5:])]
                i = E.cval(a[1]) if len(a) > 1 else 0
                sp = m.spans.get(i) if i else {(0, max(m.ends))}
                if not sp:
                    return None
                p = max(sp, key=lambda q: (q[1] - q[0]))[which]
                if VAR not in texts[line][:p]:
                    return const(p)
                self.spans[f"{line}[0:{p}]"] = (line, 0, p)
                return frozenset([("op", "len", frozenset([("pre", "", ("s", f"{line}[0:{p}]"))]))])
            return stub
        it.stubs[".start"], it.stubs[".end"] = place(0), place(1)

        def open_(itp, a, k, s, n, fr):
            if opened is not None:
                opened.append(E.cval(a[0]))
            return E.lst(itp, s, n, *[S(f"LINE{i}") for i in range(len(templates))], tag="lines" + str(E.cval(a[0])))
        for mode in MODES:
            it.stubs["re." + mode] = func(mode)
            it.stubs["." + mode] = method(mode)
        it.stubs[".group"] = it.stubs[".__getitem__"] = group
        it.truthy = it.not_none = lambda t: t[0] == "s" and str(t[1]).startswith("MATCH")
        it.stubs["builtins.open"] = open_
        it.stubs["os.path.isdir"] = lambda i, a, k, s, n, fr: const((isdir or (lambda p: False))(E.cval(a[0])))
        it.stubs["os.listdir"] = lambda i, a, k, s, n, fr: E.build(i, s, n, list((listdir or (lambda p: []))(E.cval(a[0]))), "ls" + str(E.cval(a[0])))
        cfg = E.immutable(ctx, it, st, f.node, {"IGNORE_INFILE_CONFIG_FOR": E.build(it, st, f.node, list(asked), "ign")},
                          enablers=E.build(it, st, f.node, {"EDL001": "me"}, "en"))
        av, st, self.exc = it.run(f, [E.build(it, st, f.node, list(names), "files"), cfg], st=st)
        ctx.absorb(it)
        self.st, self.problems = st, LI.problems(it, st, av)
        self.warned = [e for e in it.events if e.kind == "call" and any(w in str(e.name) for w in ("warning", "error", "warn"))]


def scan(ctx, asked, lines, unknown=False):
    templates = [c for c, _ in lines]
    r = Scan(ctx, asked, templates, ["a.py"])
    n = "+".join(asked) or "none"
    f = ctx.prog.func("edulint.linting.nonparsing_checkers.report_infile_config")
    ctx.expect(not r.exc, "unknown-names" if unknown else "found", n + ":fails", f, f"looking for comments of {asked} fails with {sorted(map(str, r.exc))}", n)
    if r.problems is None:
        ctx.broken("the scan for suppression comments does not give a list of problems")
    want = wanted(asked)
    for i, (c, owner) in enumerate(lines, 1):
        here = [(k, fs) for k, fs in r.problems if fs is not None and fs["line"] == const(i)]
        shown = repr(c.replace("{}", "..."))
        if owner in want:
            ctx.expect(any(k == "1" for k, _ in here), "found", f"{n}:{c}", f, f"the comment {shown} is not reported when {asked} is requested", f"{shown} for {n}")
        else:
            ctx.expect(not here, "not-requested", f"{n}:{c}", f, f"the line {shown} is reported when only {asked} is requested", f"{shown} for {n}")
        for k, fs in here:
            hash_at = c.replace("{}", VAR).find("#")
            prefix = c.replace("{}", VAR)[:hash_at]
            col = fs["column"]
            ok = {r.spans.get(x[1], x[1]) for t in col for x in terms(t) if x[0] == "s"} <= {(f"LINE{i - 1}", 0, hash_at)} if VAR in prefix else col == const(hash_at)
            ctx.expect(ok and fs["path"] == const("a.py") and fs["code"] == const("EDL001"), "place", f"{n}:{c}", f,
                       f"the comment {shown} is reported at column {show(col)} of {show(fs['path'])} with the code {show(fs['code'])}", f"{shown} for {n}")
    stray = [fs for _, fs in r.problems if fs is None or not (len(fs["line"]) == 1 and E.cval(fs["line"]) in range(1, len(lines) + 1))]
    ctx.expect(not stray, "place", n + ":line", f, f"a comment is reported at line {[show(fs['line']) if fs else '?' for fs in stray][:3]}, which is not the line it is on", n)
    if unknown:
        ctx.expect(bool(r.warned), "unknown-names", n, f, f"the unknown name in {asked} is not warned about", n)


def terms(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            out.append(x)
            todo.extend(x)
        elif isinstance(x, frozenset):
            todo.extend(x)
    return [x for x in out if len(x) == 2]


def files(ctx):
    """every Python file given, or below a given directory, is looked at once"""
    opened = []
    norm = lambda p: p.rstrip("/") if isinstance(p, str) else p
    r = Scan(ctx, ["all"], ["# noqa"], ["a.py", "d", "e.txt"], opened, lambda p: norm(p) in ("d", "d/sub"), lambda p: FILES.get(norm(p), []))
    f = ctx.prog.func("edulint.linting.nonparsing_checkers.report_infile_config")
    for p in ("a.py", "d/b.py", "d/sub/c.py"):
        got = [x for x in opened if x is not None and x.replace("//", "/") == p]
        ctx.expect(len(got) == 1, "files", p, f, f"{p} is looked at {len(got)} times when a.py and the directory d are given", p)
        rep = [fs for k, fs in r.problems or [] if fs is not None and fs["path"] == const(p)]
        ctx.expect(len(rep) == 1, "files", p + ":reported", f, f"a comment in {p} is reported {len(rep)} times", p)
    other = [x for x in opened if x not in ("a.py", "d/b.py", "d/sub/c.py")]
    ctx.expect(not other, "files", "other", f, f"{other} are looked at, which are not Python files", "nothing else")
