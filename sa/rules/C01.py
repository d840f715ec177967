"""Configuration sources override each other in the documented order."""
from itertools import chain, combinations
from ..absint import show, C
from . import _edl as E
from ._edl import L

MIN = {"single-valued": 60, "accumulated": 30, "later-wins": 3, "groups": 12, "translations": 10, "enabled-by": 10, "default": 6}
SRC = ["BASE", "FILE", "IN", "CMD"]
WORDS = {"BASE": "the inherited configuration", "FILE": "the selected configuration file", "IN": "the linted file", "CMD": "the command line"}
NAMES = {"BASE": "basefile", "FILE": "thefile"}
# values of these options steer how configuration is put together; they are given constants
SPECIAL = {"CONFIG_FILE", "IGNORE_INFILE_CONFIG_FOR", "LANGUAGE_FILE", "SET_GROUPS"}


def subsets(xs):
    return chain.from_iterable(combinations(xs, n) for n in range(len(xs) + 1))


def scenario(ctx, per_source, select="IN", extra_toml=None):
    """per_source: source -> list of (option name, value); values of in-file and command line options are appended to 'name='"""
    def words(src):
        out = []
        for name, v in per_source.get(src, []):
            for x in v if isinstance(v, list) else [v]:
                if x is None:
                    out.append(name)
                elif isinstance(x, L):
                    out.append(L(f"{name}={x[0]}", x[1]))
                else:
                    out.append(f"{name}={x}")
        return out

    def table(src, d):
        for name, v in per_source.get(src, []):
            d[name] = v
        return d
    toml = {"empty": {}, "basefile": table("BASE", {}), "thefile": table("FILE", {"config-file": "basefile"}), "default": {"config-file": "empty"}}
    toml.update(extra_toml or {})
    inf, cmd = words("IN"), words("CMD")
    (cmd if select == "CMD" else inf).insert(0, "config-file=thefile")
    return E.Run(ctx, {"d/f.py": inf}, cmd, toml)


def name_of(option):
    return option.lower().replace("_", "-")


def check(ctx):
    table = ctx.table("edulint.option_parses.get_option_parses")
    by_name = {k.name if hasattr(k, "name") else str(k): v for k, v in table.items()} if isinstance(table, dict) else {}
    ctx.need(len(by_name) >= 10, "the table of options was not found")
    single, acc = [], []
    for o, p in by_name.items():
        (acc if p.fields["combine"].name == "EXTEND" else single).append(o)
    for want in ("PYLINT", "FLAKE8"):
        ctx.expect(want in acc, "accumulated", want + ":combine", E.ctx_where(ctx, "edulint.option_parses.get_option_parses"), f"arguments of {want.lower()} from several sources do not accumulate", f"{want} accumulates")
    plain = [o for o in single if o not in SPECIAL and by_name[o].fields["takes_val"].name != "NO"]
    priority(ctx, plain, by_name)
    accumulation(ctx, [o for o in acc if o in ("PYLINT", "FLAKE8")])
    steering(ctx)
    groups(ctx)
    translations(ctx)
    enabled_by(ctx)
    infile_text(ctx)


def one_result(ctx, r, what):
    ctx.need(len(r.results) == 1, f"get_config_many gives {len(r.results)} results for one file ({what})")


def priority(ctx, plain, by_name):
    ctx.need(len(plain) >= 2, "options that take one value were not found")
    for present in subsets(SRC):
        for select in ("IN", "CMD"):
            r = scenario(ctx, {s: [(name_of(o), L("v", f"{s}:{o}")) for o in plain] for s in present}, select)
            one_result(ctx, r, present)
            for o in plain:
                v = r.value(ctx, 0, o)
                if not present:
                    d = by_name[o].fields["default"]
                    got = E.py(r.it, r.st, v)
                    ctx.expect(got == (tuple(d) if isinstance(d, list) else d), "default", o, r.f, f"without configuration, {name_of(o)} is {show(v)} instead of its default {d!r}", f"{o} default")
                    continue
                want = present[-1]
                got = {str(l).split(":")[0] for l in r.labels(v)}
                ctx.expect(got == {want}, "single-valued", f"{o}:{'+'.join(present)}", r.f,
                           f"{name_of(o)} given in {', '.join(WORDS[s] for s in present)}: the value used comes from {', '.join(WORDS.get(g, g) for g in sorted(got)) or 'none of them'}, not from {WORDS[want]}",
                           f"{o} from {'+'.join(present)}")
    # within one source, the later one
    for s in ("IN", "CMD"):
        for o in plain[:3]:
            r = scenario(ctx, {s: [(name_of(o), [L("v", "first"), L("v", "middle"), L("v", "last")])]})
            one_result(ctx, r, s)
            got = r.labels(r.value(ctx, 0, o))
            ctx.expect(got == {"last"}, "later-wins", f"{s}:{o}", r.f, f"{name_of(o)} given repeatedly in {WORDS[s]}: the {'/'.join(sorted(got)) or 'value of none'} one is used, not the last", f"{s}: last {o}")


def accumulation(ctx, acc):
    for present in subsets(SRC):
        for select in ("IN", "CMD"):
            def vals(s, o):
                return [L("--x", f"{s}1"), L("--y", f"{s}2")] if s in ("IN", "CMD") else {f"opt-{s}1": L("v", f"{s}1"), f"opt-{s}2": L("v", f"{s}2")}
            r = scenario(ctx, {s: [(name_of(o), vals(s, o)) for o in acc] for s in present}, select)
            one_result(ctx, r, present)
            for o in acc:
                got = r.seq(r.value(ctx, 0, o))
                ctx.need(got is not None, f"arguments of {o} are not a sequence")
                want = [f"{s}{i}" for s in SRC if s in present for i in (1, 2)]
                flat = ["/".join(sorted(x)) for _, x in got]
                ctx.expect(flat == want, "accumulated", f"{o}:{'+'.join(present)}", r.f,
                           f"arguments of {o.lower()} given in {', '.join(WORDS[s] for s in present)} are passed on in order {flat}, not {want}", f"{o} from {'+'.join(present) or 'nothing'}")


def steering(ctx):
    """options whose values the configuration code looks at itself"""
    for o, vals in (("IGNORE_INFILE_CONFIG_FOR", {"BASE": "bb", "FILE": "ff", "IN": "ii", "CMD": "cc"}), ("SET_GROUPS", {"BASE": "gb", "FILE": "gf", "IN": "gi", "CMD": "gc"}),
                    ("LANGUAGE_FILE", {"BASE": "lb", "FILE": "lf", "IN": "li", "CMD": "lc"})):
        for present in subsets(SRC):
            if not present:
                continue
            r = scenario(ctx, {s: [(name_of(o), vals[s])] for s in present}, extra_toml={v: {} for v in vals.values()})
            one_result(ctx, r, present)
            v = r.value(ctx, 0, o)
            got = E.py(r.it, r.st, v)
            want = vals[present[-1]]
            ctx.expect(got in (want, (want,)), "single-valued", f"{o}:{'+'.join(present)}", r.f,
                       f"{name_of(o)} given in {', '.join(WORDS[s] for s in present)}: {show(v) if got is None else got!r} is used, not the value from {WORDS[present[-1]]}", f"{o} from {'+'.join(present)}")
    # the configuration file itself
    toml = {"empty": {}, "default": {}, "fc": {}, "fi": {}, "fp": {}}
    for cmd, inf in ((None, None), ("fc", None), (None, "fi"), ("fc", "fi")):
        r = E.Run(ctx, {"d/f.py": [f"config-file={inf}"] if inf else []}, [f"config-file={cmd}"] if cmd else [], toml)
        one_result(ctx, r, (cmd, inf))
        got, want = set(r.loads) - {"empty"}, {cmd or inf or "default"}
        ctx.expect(got == want, "single-valued", f"config-file:{cmd}:{inf}", r.f, f"with configuration file {cmd} on the command line and {inf} in the linted file, {sorted(map(str, got))} is read, not {sorted(want)}", f"configuration file {want}")
        v = E.py(r.it, r.st, r.value(ctx, 0, "CONFIG_FILE"))
        ctx.expect(v in want, "single-valued", f"config-file-value:{cmd}:{inf}", r.f, f"the configuration names {v} as its file, although {want} was selected", "name of the file")


def groups(ctx):
    """a group is expanded where it was requested"""
    for who in SRC:
        for where in ("BASE", "FILE"):
            per = {s: [("pylint", [L("--x", f"{s}1")])] if s in ("IN", "CMD") else [("pylint", L("--x", f"{s}1"))] for s in SRC}
            per[who] = per[who] + [("set-groups", "grp")] + ([("pylint", [L("--y", f"{who}2")])] if who in ("IN", "CMD") else [])
            per[where] = per[where] + [("translations", {"grp": {"pylint": [L("--g", "GROUP")], "flake8": {"gopt": L("v", "GROUP8")}}})]
            r = scenario(ctx, per)
            one_result(ctx, r, who)
            got = ["/".join(sorted(x)) for _, x in r.seq(r.value(ctx, 0, "PYLINT")) or []]
            want = []
            for s in SRC:
                want.append(s + "1")
                if s == who:
                    want.append("GROUP")
                    if who in ("IN", "CMD"):
                        want.append(who + "2")
            ctx.expect(got == want, "groups", f"{who}:{where}", r.f, f"a group requested in {WORDS[who]} and defined in {WORDS[where]}: the arguments are {got}, not {want}", f"group from {who} in {where}")
            got8 = ["/".join(sorted(x)) for _, x in r.seq(r.value(ctx, 0, "FLAKE8")) or []]
            ctx.expect(got8 == ["GROUP8"], "groups", f"{who}:{where}:flake8", r.f, f"a group requested in {WORDS[who]} gives the arguments {got8} to flake8, not its own", f"group from {who}: flake8 part")
    # definitions: the file's own wins over the inherited one; groups not requested have no effect
    per = {"BASE": [("translations", {"grp": {"pylint": [L("--g", "OLD")]}, "other": {"pylint": [L("--o", "OTHER")]}})],
           "FILE": [("translations", {"grp": {"pylint": [L("--g", "NEW")]}})], "CMD": [("set-groups", "grp")]}
    r = scenario(ctx, per)
    one_result(ctx, r, "definition")
    got = ["/".join(sorted(x)) for _, x in r.seq(r.value(ctx, 0, "PYLINT")) or []]
    ctx.expect(got == ["NEW"], "groups", "definition", r.f, f"a group defined in the configuration file and differently in the inherited one expands to {got}, not to the file's own definition", "own definition of group")
    # several groups at once, in the order given
    per = {"FILE": [("translations", {"g1": {"pylint": [L("--g", "G1")]}, "g2": {"pylint": [L("--o", "G2")]}})], "CMD": [("set-groups", "g2,g1")]}
    r = scenario(ctx, per)
    one_result(ctx, r, "order")
    got = ["/".join(sorted(x)) for _, x in r.seq(r.value(ctx, 0, "PYLINT")) or []]
    ctx.expect(got == ["G2", "G1"], "groups", "order", r.f, f"groups requested as g2,g1 expand to {got}", "order of groups")


def translations(ctx):
    for present in subsets(["BASE", "FILE", "LANG"]):
        for who in ("IN", "CMD", "FILE", "BASE") if "LANG" in present else ("IN",):
            per = {s: [("language-translations", {"X0001": L("t", f"{s}"), f"only-{s}": L("t", f"{s}")})] for s in present if s != "LANG"}
            if "LANG" in present:
                per.setdefault(who, []).append(("language-file", "lang"))
            r = scenario(ctx, per, extra_toml={"lang": {"X0001": L("t", "LANG"), "only-LANG": L("t", "LANG")}})
            one_result(ctx, r, present)
            v, miss = r.translation(0, "X0001")
            if not present:
                ctx.expect(not r.labels(v), "translations", "none", r.f, "a message is translated although no translation is configured", "no translation")
                continue
            got = r.labels(v)
            ctx.expect(got == {present[-1]} and not miss, "translations", f"{'+'.join(present)}:{who}", r.f,
                       f"a message translated in {', '.join(present)} (language file requested in {WORDS[who]}) gets the translation of {'/'.join(sorted(got)) or 'none'}, not of {present[-1]}", f"translation from {'+'.join(present)}")
            for s in present:
                v, miss = r.translation(0, f"only-{s}")
                ctx.expect(r.labels(v) == {s} and not miss, "translations", f"{'+'.join(present)}:{who}:only-{s}", r.f, f"a message translated only in {s} loses its translation when {', '.join(x for x in present if x != s)} has others", f"kept from {s}")


def enabled_by(ctx):
    """who enabled a check: the last source that did, a configuration rather than the group it requested"""
    who = {"CMD": "cmd", "IN": "in-file", "FILE": "FILEname", "BASE": "BASEname"}
    for present in subsets(SRC):
        if not present:
            continue
        per = {}
        for s in present:
            per[s] = [("pylint", ["--enable=sym"] if s in ("IN", "CMD") else {"enable": "sym"}), ("flake8", ["--extend-select=F1"] if s in ("IN", "CMD") else {"extend-select": "F1"})]
        for s in ("BASE", "FILE"):
            per.setdefault(s, []).append(("default-enabler-name", who[s]))
        for grp in (False, True):
            p = {k: list(v) for k, v in per.items()}
            if grp:
                p["BASE"].append(("translations", {"grp": {"pylint": {"enable": "sym,other"}}}))
                p.setdefault("CMD", []).append(("set-groups", "grp"))
            r = scenario(ctx, p)
            one_result(ctx, r, present)
            for key in ("sym", "F1"):
                v, miss = r.enablers(0, key)
                want = who[present[-1]]
                ctx.expect(v == E.const(want) and not miss, "enabled-by", f"{'+'.join(present)}:{key}:{grp}", r.f,
                           f"{key} enabled in {', '.join(WORDS[s] for s in present)}{' and in a group' if grp else ''} is attributed to {show(v)}, not to '{want}'", f"{key}: {want}")
            if grp:
                v, miss = r.enablers(0, "other")
                ctx.expect(v == E.const("grp"), "enabled-by", f"{'+'.join(present)}:group", r.f, f"a check enabled by a group only is attributed to {show(v)}, not to the group", "group")


def infile_text(ctx):
    """comments of a linted file are read in the order of lines"""
    f = ctx.prog.func(E.CONF + ".extract_args")
    it = ctx.interp(unknown_raises=None)
    st = it.new_state()
    lines = E.lst(it, st, f.node, *[E.S(f"LINE{i}") for i in range(3)], kind="iter", tag="lines")
    it.stubs["builtins.open"] = E.giving(lines)
    it.stubs[".readlines"] = E.giving(lines)
    it.stubs[".splitlines"] = E.giving(lines)
    av, st, _ = it.run(f, [E.S("PATH")], st=st)
    ctx.absorb(it)
    segs = E.flat_segs(it, st, av)
    ctx.need(segs is not None, "extract_args does not give a list")
    order = []
    for _, v in segs:
        labs = sorted(l for l in E.labels_in(it, st, v) if str(l).startswith("LINE"))
        if labs and (not order or order[-1] != labs):
            order.append(labs)
    flat = [l for x in order for l in x]
    ctx.expect(flat == ["LINE0", "LINE1", "LINE2"], "later-wins", "lines", f, f"options written in the linted file are taken in the order of lines {flat}", "lines in order")
