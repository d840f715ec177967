"""Files linted together do not influence each other's configuration."""
from itertools import permutations
from . import _edl as E
from ._edl import L
from .C01 import name_of, SPECIAL
from ..absint import show

MIN = {"same-as-alone": 200, "one-result": 30, "differs": 5}


def check(ctx):
    table = {k.name: v for k, v in ctx.table("edulint.option_parses.get_option_parses").items()}
    valued, acc, flags = [], [], []
    for o, p in table.items():
        if o not in SPECIAL:
            (acc if p.fields["combine"].name == "EXTEND" else valued if p.fields["takes_val"].name != "NO" else flags).append(o)

    def full(tag, *more):
        return [L(f"{name_of(o)}=v", tag + o) for o in valued] + [L(f"{name_of(o)}=--x", tag + o) for o in acc] + [name_of(o) for o in flags] + list(more)

    def tables(tag, base="empty"):
        return {"config-file": base, "translations": {"grp": {"pylint": [L("--g", "GRP" + tag)], "flake8": [L("--h", "GRP8" + tag)]}, "only" + tag: {"pylint": [L("--only", tag)]}},
                "language-translations": {"X1": L("t", "TR" + tag), "only" + tag: L("t", "TR" + tag)}, "pylint": [L("--c", "CFG" + tag)], "default-enabler-name": "en" + tag}
    toml = {"empty": {}, "default": tables("DEF"), "cfgA": tables("A"), "cfgB": tables("B", "cfgC"), "cfgC": tables("C"),
            "langA": {"X1": L("t", "LANGA"), "la": L("t", "LANGA")}, "langB": {"X1": L("t", "LANGB"), "lb": L("t", "LANGB")}, "badlang": None,
            "cfgX": {name_of(o): L("--v", "X") for o in valued + acc},
            "ign": dict(tables("I"), **{"ignore-infile-config-for": "edulint"})}
    A = full("A", "config-file=cfgA", "set-groups=grp", "language-file=langA", "pylint=--enable=sym,symA")
    Bx = full("B", "config-file=cfgB", "set-groups=grp", "language-file=langB", "pylint=--enable=sym,symB")
    none = []
    scenarios = {
        "two files with everything set": {"a.py": A, "b.py": Bx},
        "one configured, one not": {"a.py": A, "b.py": none},
        "same configuration file, different options": {"a.py": full("A"), "b.py": full("B"), "c.py": none},
        "same configuration file, groups in one": {"a.py": ["set-groups=grp"], "b.py": ["set-groups=onlyDEF"], "c.py": none},
        "language file in one": {"a.py": ["language-file=langA"], "b.py": none, "c.py": ["language-file=langB"]},
        "same language file, different configuration files": {"a.py": ["config-file=cfgA", "language-file=langA"], "b.py": ["config-file=cfgB", "language-file=langA"], "c.py": ["language-file=langA"]},
        "unusable language file in one": {"a.py": ["language-file=badlang"], "b.py": ["language-file=langB"], "c.py": none},
        "three configurations": {"a.py": ["config-file=cfgA"], "b.py": ["config-file=cfgB", "set-groups=grp,onlyC"], "c.py": ["config-file=cfgC", "set-groups=onlyC"]},
        "ignored in one": {"a.py": ["config-file=ign", L("pylint=--x", "A")], "b.py": [L("pylint=--x", "B")], "c.py": ["config-file=cfgA", L("pylint=--x", "C")]},
        "ignoring in one file itself": {"a.py": ["ignore-infile-config-for=edulint", L("pylint=--x", "A")], "b.py": [L("pylint=--x", "B")]},
        "same options in two": {"a.py": full("A"), "b.py": full("A"), "c.py": full("B")},
        "same options in another order": {"a.py": ["pylint=--a", "pylint=--b"], "b.py": ["pylint=--b", "pylint=--a"]},
        "different enablers of the same check": {"a.py": ["config-file=cfgA", "pylint=--enable=sym"], "b.py": ["config-file=cfgB"], "c.py": ["config-file=cfgA"]},
    }
    for o in valued + acc:
        scenarios[f"{name_of(o)} differs"] = {"a.py": [L(f"{name_of(o)}=--v", "A")], "b.py": [L(f"{name_of(o)}=--v", "B")], "c.py": none}
        scenarios[f"{name_of(o)} explicitly empty"] = {"a.py": ["config-file=cfgX", f"{name_of(o)}="], "b.py": ["config-file=cfgX"]}
    for o in flags:
        scenarios[f"{name_of(o)} differs"] = {"a.py": [name_of(o)], "b.py": none}
    for o in valued:
        scenarios[f"{name_of(o)} against another option"] = {"a.py": [L(f"{name_of(o)}=v", "V")], "b.py": [L(f"{p}=v", "V") for p in map(name_of, valued) if p != name_of(o)][:1] or none}
    for name, files in scenarios.items():
        for cmd in ([], [L("pylint=--x", "CMD"), "set-groups=onlyDEF"], ["config-file=cfgC"]):
            solo = {}
            for f, words in files.items():
                r = E.Run(ctx, {f: words}, cmd, toml, generic=True)
                if len(r.results) == 1:
                    solo[f] = describe(ctx, r, 0)
            ctx.need(len(solo) == len(files), f"no configuration for a single file ({name})")
            if not cmd and len({str(x) for x in solo.values()}) > 1:
                ctx.ok("differs", name)
            orders = list(permutations(files))
            orders = ([orders[0], orders[-1], orders[2 % len(orders)]] if not cmd else orders[:1])[:len(orders)]
            for order in orders:
                compare(ctx, E.Run(ctx, files, cmd, toml, names=list(order), generic=True), name, order, cmd, solo, list(order))
            # all of them in one directory
            inside = {"dir/" + f: w for f, w in files.items()}
            for order in orders[:2]:
                r = E.Run(ctx, {**inside, "z.py": [L("flake8=--z", "Z")]}, cmd, toml, names=["dir", "z.py"], dirs=("dir",), listing={"dir": list(order)}, generic=True)
                same = len({str(x) for x in solo.values()}) == 1
                compare(ctx, r, name + ", in a directory", order, cmd, {"dir/" + f: d for f, d in solo.items()}, ["dir/" + f for f in files], whole="dir" if same else None, ignore={"z.py"})


def compare(ctx, r, name, order, cmd, solo, expected, whole=None, ignore=()):
    key = f"{name}:{'/'.join(order)}:{len(cmd)}:{cmd[:1]}"
    where = {}
    for i in range(len(r.results)):
        kind, paths = r.results[i][0], r.paths(i)
        ctx.need(kind == "1" and paths is not None, f"the results for {name} could not be told apart")
        for p in paths:
            where.setdefault(p, []).append(i)
    for f in expected:
        idx = where.get(f) or (where.get(f.split("/")[0]) if "/" in f else None) or []
        ctx.expect(len(idx) == 1, "one-result", f"{key}:{f}", r.f, f"{name} ({', '.join(order)}): {f} gets {len(idx)} configurations", f"{name}: {f}")
        if len(idx) != 1:
            continue
        got = describe(ctx, r, idx[0])
        bad = [k for k in got if got[k] != solo[f][k]]
        ctx.expect(not bad, "same-as-alone", f"{key}:{f}", r.f,
                   f"{name} ({', '.join(order)} linted together): {', '.join(bad)} of {f} is {got[bad[0]] if bad else ''}, alone it is {solo[f][bad[0]] if bad else ''}"[:400], f"{name}: {f}")


def describe(ctx, r, i):
    d = {name_of(o): r.render(r.value(ctx, i, o)) for o in E.options(ctx)}
    for k in ("sym", "symA", "symB"):
        d["enabler of " + k] = r.render(r.enablers(i, k)[0])
    for k in ("X1", "onlyA", "onlyB", "onlyC", "onlyDEF", "la", "lb"):
        v, miss = r.translation(i, k)
        d["translation of " + k] = (r.render(v), miss)
    return d
