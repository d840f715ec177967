"""Ignored in-file configuration has no influence."""
from . import _edl as E
from ._edl import L
from .C01 import name_of, SPECIAL
from ..absint import show

MIN = {"not-read": 8, "no-influence": 100, "infile-used-otherwise": 10}
ON = ["edulint", "all", "flake8,edulint", "all,pylint", "pylint,flake8,edulint"]
IGN = "ignore-infile-config-for"


def check(ctx):
    table = {k.name: v for k, v in ctx.table("edulint.option_parses.get_option_parses").items()}
    labelled, acc = [], []
    for o, p in table.items():
        if o in SPECIAL:
            continue
        (acc if p.fields["combine"].name == "EXTEND" else labelled).append(o)
    valued = [o for o in labelled if table[o].fields["takes_val"].name != "NO"]
    flags = [o for o in labelled if o not in valued]

    def infile(tag, select=None, unignore=None):
        out = [L(f"{name_of(o)}=v", tag) for o in valued] + [L(f"{name_of(o)}=--{tag}x", tag) for o in acc] + [name_of(o) for o in flags]
        out += ["pylint=--enable=onlyin", "flake8=--extend-select=ZIN", "set-groups=ingroup", "language-file=inlang"]
        if select:
            out.insert(0, f"config-file={select}")
        if unignore:
            out.append(f"{IGN}={unignore}")
        return out

    def cmd(*more):
        return ["pylint=--enable=both", *more]
    lang = {"X1": L("t", "INLANG")}
    grp = {"ingroup": {"pylint": [L("--g", "INGROUP")]}}

    def clean(r, i, rule, key, what, reached=None):
        """no value the i-th result gives depends on the linted file"""
        bad = set()
        for o in E.options(ctx):
            v = r.value(ctx, i, o)
            labs = {l for l in r.labels(v) if str(l).startswith("IN")}
            got = E.py(r.it, r.st, v)
            if labs or (o in SPECIAL and any(x in str(got) for x in ("infile-", "ingroup", "inlang", "nolinter"))) or (o in flags and got is not False and not (isinstance(got, bool) and got == table[o].fields["default"])):
                bad.add(o)
            ctx.expect(o not in bad, rule, f"{key}:{o}", r.f, f"{what}: {name_of(o)} still has a value taken from the linted file ({show(v)[:80]})", f"{what}: {name_of(o)}")
        for sym in ("onlyin", "ZIN"):
            v, miss = r.enablers(i, sym)
            ctx.expect(not v, rule, f"{key}:{sym}", r.f, f"{what}: a check is still attributed to {show(v)}", f"{what}: enabled by")
        v, _ = r.translation(i, "X1")
        ctx.expect("INLANG" not in r.labels(v), rule, key + ":lang", r.f, f"{what}: the language file named in the linted file is still used", f"{what}: translations")

    # on the command line
    for on in ON:
        for files in (["d/f.py"], ["d/f.py", "d/g.py"], ["dir"]):
            known = {"d/f.py": infile("INf", "infile-cfg"), "d/g.py": infile("INg", "infile-cfg2"), "dir/f.py": infile("INd", "infile-cfg")}
            toml = {"empty": {}, "default": {"translations": grp}, "infile-cfg": {"translations": grp, "export-groups": L("v", "INCFG")}, "infile-cfg2": {}, "inlang": lang}
            r = E.Run(ctx, known, cmd(f"{IGN}={on}"), toml, dirs=("dir",), listing={"dir": ["f.py"]}, names=files)
            key = f"cmd:{on}:{'+'.join(files)}"
            ctx.expect(not r.read and not r.opened, "not-read", key, r.f, f"{r.read or r.opened} is searched for configuration although the command line says {IGN}={on}", f"{on}: {files}")
            ctx.expect(not any("infile-" in str(l) or "inlang" in str(l) for l in r.loads), "not-read", key + ":selection", r.f, "a configuration selected inside the linted file is loaded although the command line says to ignore it", f"{on}: loads {r.loads}")
            ctx.need(r.results, "no configuration for the given files")
            for i in range(len(r.results)):
                clean(r, i, "no-influence", key, f"{IGN}={on} on the command line")

    # in a configuration file
    for on in ON:
        for where in ("FILE", "BASE"):
            for how in ("cmd", "default", "implicit", "in-file"):
                for unignore in (None, "nolinter"):
                    name = {"cmd": "thefile", "default": "default", "implicit": "/p/edulint.toml", "in-file": "infile-cfg"}[how]
                    sel = {IGN: on} if where == "FILE" else {}
                    toml = {"empty": {}, "basefile": {IGN: on} if where == "BASE" else {}, name: {"config-file": "basefile", "translations": grp, **sel}, "/p/basefile": {}, "inlang": lang}
                    toml.setdefault("default", {})
                    words = cmd(f"config-file={name}") if how == "cmd" else cmd()
                    r = E.Run(ctx, {"d/f.py": infile("IN", name if how == "in-file" else None, unignore)}, words, toml, implicit={"d/f.py": name} if how == "implicit" else None)
                    ctx.need(len(r.results) == 1, f"{len(r.results)} results for one file")
                    what = f"{IGN}={on} in the configuration selected by {how}{'' if where == 'FILE' else ' through inheritance'}"
                    clean(r, 0, "no-influence", f"file:{on}:{where}:{how}:{unignore}", what)

    # the analysis does see the influence of the linted file when it is not ignored
    r = E.Run(ctx, {"d/f.py": infile("IN", "infile-cfg")}, cmd(), {"empty": {}, "default": {}, "infile-cfg": {"translations": grp}, "inlang": lang})
    ctx.need(len(r.results) == 1, "no result for one file")
    for o in E.options(ctx):
        v = r.value(ctx, 0, o)
        seen = any(str(l).startswith("IN") for l in r.labels(v)) or o in SPECIAL or o in flags
        ctx.need(seen, f"the value of {o} does not depend on the linted file at all")
        ctx.ok("infile-used-otherwise", o)
