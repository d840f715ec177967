"""An implicit configuration file in a parent directory is found and used."""
from itertools import product
from . import _edl as E
from ..paths import FS
from ..absint import show

MIN = {"nearest": 500, "used": 15, "precedence": 30}
NAMES = ["edulint.toml", ".edulint.toml"]
# working directory, linted file as given, its directories from the nearest to the root
PLACES = [("/r/s", "a/b/f.py", ["/r/s/a/b", "/r/s/a", "/r/s", "/r", "/"]), ("/r/s/a/b", "f.py", ["/r/s/a/b", "/r/s/a", "/r/s", "/r", "/"]),
          ("/r/w", "../t/f.py", ["/r/t", "/r", "/"]), ("/r/w", "./f.py", ["/r/w", "/r", "/"]), ("/w", "/r/t/f.py", ["/r/t", "/r", "/"]), ("/r/w", "x/../y/f.py", ["/r/w/y", "/r/w", "/r", "/"])]


def expected(dirs, files):
    for d in dirs:
        found = {p for p in (d.rstrip("/") + "/" + n for n in NAMES) if p in files}
        if found:
            return found
    return {None}


def check(ctx):
    nearest(ctx)
    used(ctx)


def layouts(dirs, extra):
    """every way of having none, either or both names in each directory, decoys elsewhere"""
    choices = [(), (NAMES[0],), (NAMES[1],), tuple(NAMES)]
    full = len(dirs) <= 4
    for combo in product(choices if full else choices[:3], repeat=len(dirs)):
        yield {d.rstrip("/") + "/" + n for d, ns in zip(dirs, combo) for n in ns} | set(extra)


def nearest(ctx):
    f = ctx.prog.func(E.CONF + ".search_for_config_in_parents")
    bad = set()
    for cwd, path, dirs in PLACES:
        src = dirs[0].rstrip("/") + "/f.py"
        # files that must not be taken: in places that are not parents, with other names, directories of that name
        decoys = {src, dirs[0].rstrip("/") + "/sub/edulint.toml", dirs[0].rstrip("/") + "/pyproject.toml", "/elsewhere/edulint.toml", dirs[0].rstrip("/") + "/xedulint.toml"}
        if cwd not in dirs:
            decoys.add(cwd + "/edulint.toml")
        for files in layouts(dirs, decoys):
            it = ctx.interp(unknown_raises=None)
            it.fs = FS(cwd, files)
            st = it.new_state()
            av, st, _ = it.run(f, [E.const(path)], st=st)
            got = {norm(it, E.py(it, st, frozenset([t]))) for t in av}
            want = expected(dirs, files)
            ok = len(got) == 1 and got <= want
            key = f"{cwd}:{path}:{len(files)}"
            if not ok and key in bad:
                continue
            if not ok:
                bad.add(key)
            present = sorted(files - decoys)
            ctx.expect(ok, "nearest", key, f, f"for {path} linted in {cwd}, with configuration in {', '.join(present) or 'none of its directories'}, {'/'.join(sorted(map(str, got))) or show(av)} is found instead of {'/'.join(sorted(map(str, want)))}", f"{path} in {cwd}: {len(present)} candidates")
    ctx.absorb(it)
    # a directory with that name is no configuration file
    for cwd, path, dirs in PLACES:
        d = dirs[0].rstrip("/")
        it = ctx.interp(unknown_raises=None)
        it.fs = FS(cwd, {d + "/f.py", d + "/edulint.toml/x.py", "/.edulint.toml"})
        st = it.new_state()
        av, st, _ = it.run(f, [E.const(path)], st=st)
        got = {norm(it, E.py(it, st, frozenset([t]))) for t in av}
        ctx.expect(got == {"/.edulint.toml"}, "nearest", f"{cwd}:{path}:dir", f, f"for {path} with a directory named edulint.toml, {show(av)} is found", "directory of that name")


def norm(it, v):
    return None if v is None else it.fs.abs(v)


def used(ctx):
    """the whole configuration of a run, from the file system up"""
    for cwd, path, dirs in PLACES:
        for n in NAMES:
            for d in dirs[:3]:
                imp = d.rstrip("/") + "/" + n
                fs = FS(cwd, {dirs[0].rstrip("/") + "/f.py", imp})
                for inf, cmd in product((None, "fi"), (None, "fc")):
                    for other in ([], ["pylint=--x"], ["ignore-infile-config-for=flake8"], ["pylint=--enable=a", "set-groups=g"]):
                        toml = {"empty": {}, "default": {}, imp: {"flake8": "--from-implicit"}, "fi": {}, "fc": {}}
                        words = ([f"config-file={inf}"] if inf else []) + other
                        if other and inf:
                            words = other + words[:1]
                        r = E.Run(ctx, {path: words}, [f"config-file={cmd}"] if cmd else [], toml, fs=fs, names=[path])
                        ctx.need(len(r.results) == 1, f"{len(r.results)} results for one file")
                        want = cmd or inf or imp
                        got = {l if not isinstance(l, str) or "/" not in l else fs.abs(l) for l in r.loads} - {"empty"}
                        rule = "precedence" if inf or cmd else "used"
                        what = f"{path} linted in {cwd} with {imp}" + (f", {inf} selected in the file" if inf else "") + (f", {cmd} selected on the command line" if cmd else "")
                        key = f"{cwd}:{path}:{imp}:{inf}:{cmd}:{' '.join(other)}"
                        ctx.expect(got == {want}, rule, key, r.f, f"{what}: {', '.join(sorted(map(str, got)))} is read for configuration, not {want}", what)
                        fl = r.seq(r.value(ctx, 0, "FLAKE8")) or []
                        seen = any("--from-implicit" in v for _, v in fl)
                        ctx.expect(seen == (want == imp), rule, key + ":effect", r.f, f"{what}: the options in {imp} are {'' if seen else 'not '}in effect", what)
    # files of different directories in one run, files in a given directory
    fs = FS("/r", {"/r/a/f.py", "/r/b/g.py", "/r/b/c/h.py", "/r/edulint.toml", "/r/b/.edulint.toml"})
    toml = {"empty": {}, "default": {}, "/r/edulint.toml": {"flake8": "--top"}, "/r/b/.edulint.toml": {"flake8": "--b"}}
    want = {"a/f.py": "--top", "b/g.py": "--b", "b/c/h.py": "--b"}
    for names in (["a/f.py", "b/g.py", "b/c/h.py"], ["."], ["b", "a"], ["b/c", "a/f.py", "b/g.py"]):
        r = E.Run(ctx, {**{p: [] for p in want}, **{"./" + p: [] for p in want}}, [], toml, fs=fs, names=names, generic=True)
        where = {}
        for i in range(len(r.results)):
            for p in r.paths(i) or []:
                where[fs.abs(p)] = {x for _, v in r.seq(r.value(ctx, i, "FLAKE8")) or [] for x in v}
        for p, o in want.items():
            got = None
            q = "/r/" + p
            while got is None and q != "/":
                got = where.get(q)
                q = q.rsplit("/", 1)[0] or "/"
            ctx.expect(got == {o}, "used", f"many:{' '.join(names)}:{p}", r.f, f"{p} linted with {names} gets the options {sorted(got or [])} instead of those of its nearest edulint.toml", f"{p} of {names}")
