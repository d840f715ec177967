"""Results are reported in a deterministic, documented order."""
import itertools
import posixpath

from ..order import Order
from ..paths import FS
from ..program import own_nodes
from . import _edl as E
from . import _lint as P
from ._edl import S

MIN = {"sorted": 20, "independent": 12, "arbitrary": 200}
CLI = "edulint.edulint._check_code"
OUT = "Command line or configuration file"


def check(ctx):
    final(ctx)
    independent(ctx)
    arbitrary(ctx)


# ---- the order of the result

TREE = ["/w/b.py", "/w/d/z.py", "/w/d/s/y.py", "/w/d/s.py", "/w/a.py", "/w/dd/q.py", "/v/far.py"]
PLACES = [("a.py", 3, 1), ("d/z.py", 10, 2), ("d/z.py", 9, 5), ("b.py", 2, 1), ("d/s/y.py", 1, 1), ("b.py", 2, 0), ("d/s.py", 1, 1),
          ("dd/q.py", 1, 10), ("dd/q.py", 1, 9), ("b.py", 2, 1), ("/v/far.py", 1, 1), ("b.py", 100, 0), ("b.py", 20, 7)]
GIVEN = [["b.py", "d", "a.py", "dd", "/v/far.py"], ["./dd/", "/w/a.py", "d/../b.py", "../v", "d"], ["d/s/y.py", "/v/far.py", "d", "b.py", "a.py", "dd"],
         ["."] + ["/v"], ["../v/", "/w"], ["dd", "d", "."] + ["/v"]]


def run(ctx, given, places):
    f = ctx.prog.func(CLI)
    it = ctx.interp(unknown_raises=None)
    it.generic = it.real_sort = it.keep_sorted = True
    it.fs = FS("/w", TREE)
    st = it.new_state()

    same = {k: E.const("same") for k in P.fields(ctx)}

    def many(i, a, k, s, n, fr):
        return E.lst(i, s, n, *[P.problem(ctx, i, s, n, f"p{j}", **{**same, "path": E.const(p), "line": E.const(l), "column": E.const(c)}) for j, (p, l, c) in enumerate(places)], tag="many")
    it.stubs[E.CONF + ".get_config_many"] = E.giving(S("GROUPS"))
    it.stubs[E.LINT + ".lint_many"] = many
    av, st, exc = it.run(f, [E.build(it, st, f.node, given, "names"), E.build(it, st, f.node, [], "opts"), S("PARSES")], st=st)
    ctx.absorb(it)
    for t in av:
        o = it.obj(st, t[1]) if t[0] == "o" else None
        if o is not None and o.kind == "tuple" and len(o.segs) == 2:
            r = P.problems(it, st, o.segs[1][1])
            if r is None or any(k != "1" or fl is None for k, fl in r):
                return f, None, exc
            return f, [tuple(E.cval(fl[x]) for x in ("path", "line", "column")) for _, fl in r], exc
    return f, None, exc


def index(given, path):
    p = posixpath.normpath(posixpath.join("/w", path))
    for i, g in enumerate(given):
        g = posixpath.normpath(posixpath.join("/w", g))
        if p == g or p.startswith(g.rstrip("/") + "/"):
            return i
    return None


def final(ctx):
    for given in GIVEN:
        for name, places in (("forth", PLACES), ("back", PLACES[::-1]), ("mixed", PLACES[5:] + PLACES[:5][::-1])):
            f, got, exc = run(ctx, given, places)
            key = " ".join(given) + ":" + name
            if got is None and exc:
                ctx.bad("sorted", key, f, f"with {' '.join(given)} given, reporting fails with {', '.join(exc)}")
                continue
            ctx.need(got is not None and sorted(got) == sorted(places), "the order of a run's result is not known")
            rank = [(index(given, p), p, l, c) for p, l, c in got]
            for x, y in itertools.pairwise(rank):
                ctx.expect(x <= y, "sorted", f"{key}:{x[1:]}:{y[1:]}", f,
                           f"with {' '.join(given)} given, {x[1]}:{x[2]}:{x[3]} is reported before {y[1]}:{y[2]}:{y[3]}", "neighbours in order of given path, path, line and column")
    # findings about the run as a whole belong to no given path
    for at in range(3):
        places = PLACES[:2]
        places.insert(at, (OUT, 1, 1))
        f, got, exc = run(ctx, ["b.py", "d", "a.py"], places)
        ctx.expect(got is not None and len(got) == 3 and got[0] == (OUT, 1, 1), "sorted", f"out:{at}", f, "a problem of the command line does not come first", "problems of no file come first")


# ---- nothing depends on the order directories and sets give their elements in

def independent(ctx):
    tree = {"d": ["b.py", "a.py", "sub", "c.txt", "z.py"], "d/sub": ["y.py", "x.py"], "e": ["m.py", "n.py"]}
    infile = {"d/a.py": ["pylint=--enable=A"], "d/b.py": ["pylint=--enable=B"], "d/z.py": ["config=va"], "d/sub/x.py": ["config=vb"], "d/sub/y.py": ["pylint=--enable=A"],
              "e/m.py": [], "e/n.py": []}
    toml = {"empty": {}, "default": {}, "va": {"pylint": "--va"}, "vb": {"language-file": "vl"}, "vl": {}}
    for key in ("va", "vb", "vl"):
        toml["d/" + key] = toml["d/sub/" + key] = toml[key]
    for given in (["d"], ["e"], ["e", "d"], ["d/sub", "d"]):
        for cmd in ([], ["config=va"], ["pylint=--x", "set-groups=g,h"]):
            ref = None
            for how, listing, order in (("as listed", tree, 1), ("listed backwards", {k: v[::-1] for k, v in tree.items()}, 1),
                                        ("listed otherwise", {k: v[1:] + v[:1] for k, v in tree.items()}, 1), ("sets in another order", tree, -1)):
                r = configure(ctx, given, cmd, infile, toml, listing, order)
                key = f"{' '.join(given)}:{' '.join(cmd)}:{how}"
                got = [(x[0], r.render(x[1]), r.render(x[2]), r.render(x[3])) for x in r.results]
                if ref is None:
                    ref = got
                    ctx.need(got, "no configuration is determined for a directory")
                    continue
                same = got == ref
                what = "which files share a configuration" if sorted(map(str, got)) != sorted(map(str, ref)) else "the order of configurations"
                ctx.expect(same, "independent", key, r.f, f"{what} depends on the order {'sets are iterated in' if order < 0 else 'a directory is listed in'} (given {' '.join(given)})",
                           "configurations of a run in a fixed order")


def configure(ctx, given, cmd, infile, toml, listing, order):
    saved = ctx.interp

    def interp(*a, **k):
        it = saved(*a, **k)
        it.set_order, it.real_sort = order, True
        return it
    ctx.interp = interp
    try:
        return E.Run(ctx, infile, cmd, toml, dirs=list(listing), listing=listing, names=given, generic=True)
    finally:
        ctx.interp = saved


# ---- arbitrary order made visible

def arbitrary(ctx):
    imported = {m.name for m in ctx.prog.modules.values()}
    used = set()
    import ast
    for m in ctx.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = ctx.prog.abs_import(m, n)
                used |= {base} | {f"{base}.{a.name}" for a in n.names}
            elif isinstance(n, ast.Import):
                used |= {a.name for a in n.names}
    loaded = ("edulint.linting.checkers", "edulint.edulint")     # Pylint plugins and the program itself
    fs = [f for f in ctx.prog.funcs.values() if f.module.name.startswith(("edulint.linting", "edulint.config", "edulint.edulint"))
          and (f.module.name in used & imported or f.module.name.startswith(loaded))]
    o = Order(ctx.prog, fs)
    for f in fs:
        ctx.ok("arbitrary", f.qual)
        for n, what in o.findings(f):
            ctx.bad("arbitrary", f"{f.qual}:{what[:80]}", n, what)
    ctx.count("set-valued operands", o.sites) if hasattr(ctx, "count") else None
