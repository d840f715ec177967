"""Relative paths are resolved against the file that mentions them."""
import posixpath
from itertools import product
from . import _edl as E
from ..paths import FS

MIN = {"in-file": 60, "config-file": 60, "command-line": 20, "as-written": 60, "separate": 6}
CWDS = ["/r/w", "/r/w/p", "/elsewhere/deep"]
RELATIVE = ["x.toml", "./x.toml", "sub/x y.toml", "../y/x.toml", ".hidden.toml"]
VERBATIM = ["/abs/x.toml", "http://host/dir/x.toml", "https://host/x.toml", "packed", "packed-2_x"]
OPTS = ["config-file", "language-file"]


def resolve(fs, value, directory):
    """where a value written in a file of that directory leads; None for the working directory"""
    if value in VERBATIM:
        return value
    return posixpath.normpath(posixpath.join(directory if directory is not None else fs.cwd, value))


def place(fs, p):
    return p if p is None or p in VERBATIM or not isinstance(p, str) else fs.abs(p) if "/" in p or p.endswith(".toml") else p


def given(cwd, absolute):
    """ways of naming a file from a working directory"""
    return sorted({absolute, posixpath.relpath(absolute, cwd)})


def run(ctx, fs, files, cmd, toml, names):
    """every file that is loaded can be loaded; contents by place"""
    class Toml(dict):
        def __contains__(self, p):
            return isinstance(p, str)

        def __getitem__(self, p):
            return toml.get(place(fs, p), {})
    return E.Run(ctx, files, cmd, Toml(), fs=fs, names=names, generic=True)


def loaded(fs, r):
    return [place(fs, p) for p in r.loads if p not in ("empty", "default")]


def observe(ctx, fs, r, opt):
    """(place of the loaded file, value the configuration names), for the first result"""
    ctx.need(len(r.results) == 1, f"{len(r.results)} results for one file")
    v = E.py(r.it, r.st, r.value(ctx, 0, "CONFIG_FILE" if opt == "config-file" else "LANGUAGE_FILE"))
    return loaded(fs, r), place(fs, v)


def check(ctx):
    for o in ("CONFIG_FILE", "LANGUAGE_FILE"):
        ctx.need(o in E.options(ctx), f"option {o} not found")
    for cwd in CWDS:
        for opt, value in product(OPTS, RELATIVE + VERBATIM):
            rel = value in RELATIVE
            fs = FS(cwd, {"/r/w/p/f.py", "/r/c/main.toml", "/r/c/base.toml"})
            for path in given(cwd, "/r/w/p/f.py"):
                what = f"{opt}={value} in {path} linted in {cwd}"
                others = [[f"{opt}={value}"], [f"{opt}=first.toml", "pylint=--x", f"{opt}={value}"]]
                if opt == "language-file":
                    others.append(["config-file=/r/c/main.toml", f"{opt}={value}"])
                for words in others:
                    toml = {"/r/c/main.toml": {"language-file": "main-lang.toml"}}
                    r = run(ctx, fs, {path: words}, [], toml, [path])
                    verdict(ctx, fs, r, opt, resolve(fs, value, "/r/w/p"), "in-file" if rel else "as-written", f"{cwd}:{path}:{words}", what)
                # an implicit configuration file does not change what the linted file's own value means
                ifs = FS(cwd, {"/r/w/p/f.py", "/r/w/edulint.toml"})
                r = run(ctx, ifs, {path: [f"{opt}={value}"]}, [], {"/r/w/edulint.toml": {"language-file": "implicit-lang.toml"}}, [path])
                verdict(ctx, ifs, r, opt, resolve(ifs, value, "/r/w/p"), "in-file" if rel else "as-written", f"{cwd}:{path}:{opt}={value}:implicit", what + " with an implicit configuration file")
            # command line
            for path in given(cwd, "/r/w/p/f.py"):
                for inf in ([], [f"{opt}=infile.toml"]):
                    r = run(ctx, fs, {path: inf}, [f"{opt}={value}"], {}, [path])
                    verdict(ctx, fs, r, opt, resolve(fs, value, None), "command-line" if rel else "as-written", f"{cwd}:{path}:cmd:{value}:{len(inf)}:{opt}", f"{opt}={value} on the command line in {cwd}")
            # in a configuration file, selected in any way; in what it inherits
            for how, main in (("cmd", g) for g in given(cwd, "/r/c/main.toml")):
                in_config(ctx, fs, opt, value, rel, cwd, how, ["config-file=" + main], [])
            in_config(ctx, fs, opt, value, rel, cwd, "in-file", [], ["config-file=../../c/main.toml"])
            in_config(ctx, fs, opt, value, rel, cwd, "in-file absolute", [], ["config-file=/r/c/main.toml"])
            ifs = FS(cwd, {"/r/w/p/f.py", "/r/w/edulint.toml"})
            in_config(ctx, ifs, opt, value, rel, cwd, "implicit", [], [], "/r/w/edulint.toml")
    # the same words in two files mean two places
    for opt in OPTS:
        for cwd in CWDS:
            fs = FS(cwd, {"/r/a/f.py", "/r/b/g.py"})
            names = [posixpath.relpath(p, cwd) for p in ("/r/a/f.py", "/r/b/g.py")]
            r = run(ctx, fs, {n: [f"{opt}=x.toml"] for n in names}, [], {}, names)
            got = set(loaded(fs, r))
            ctx.expect(got == {"/r/a/x.toml", "/r/b/x.toml"}, "separate", f"{opt}:{cwd}", r.f, f"{opt}=x.toml in {' and '.join(names)}: {sorted(map(str, got))} are read", f"{opt} in two directories, from {cwd}")


def in_config(ctx, fs, opt, value, rel, cwd, how, cmd, words, main="/r/c/main.toml"):
    path = posixpath.relpath("/r/w/p/f.py", cwd)
    d = posixpath.dirname(main)
    for depth in (0, 1, 2):
        # the value is in the file itself, or in an inherited one of another directory
        holder = [main, posixpath.normpath(d + "/../h/base.toml"), "/r/h/k/deep.toml"][depth]
        toml = {main: {}, posixpath.normpath(d + "/../h/base.toml"): {}, "/r/h/k/deep.toml": {}}
        base = posixpath.normpath(d + "/../h/base.toml")
        if depth >= 1:
            toml[main]["config-file"] = "../h/base.toml"
        if depth >= 2:
            toml[base]["config-file"] = posixpath.relpath("/r/h/k/deep.toml", posixpath.dirname(base))
        toml[holder][opt] = value
        r = run(ctx, fs, {path: words}, cmd, toml, [path])
        ctx.need(len(r.results) == 1, f"{len(r.results)} results for one file")
        want = resolve(fs, value, posixpath.dirname(holder))
        what = f"{opt} = '{value}' in {holder}, selected by {how}{' through inheritance' if depth else ''}, linting in {cwd}"
        key = f"{cwd}:{how}:{cmd}:{opt}={value}:{depth}"
        got = loaded(fs, r)
        ctx.expect(want in got and set(got) <= set(toml) | {want}, "config-file" if rel else "as-written", key, r.f, f"{what}: {sorted(set(map(str, got)) - set(toml) or set(map(str, got)))} is read, not {want}", what)


def verdict(ctx, fs, r, opt, want, rule, key, what):
    got, v = observe(ctx, fs, r, opt)
    if opt == "config-file":
        ctx.expect(got[:1] == [want] and v == want, rule, key, r.f, f"{what}: {got[:1] or v} is read, not {want}", what)
    else:
        rest = [g for g in got if g not in ("/r/c/main.toml", "/r/w/edulint.toml")]
        ctx.expect(set(rest) == {want} and v == want, rule, key, r.f, f"{what}: {sorted(set(map(str, rest))) or v} is read, not {want}", what)
