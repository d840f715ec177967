"""Tweaks recognise the messages they are for and only drop a problem or change its text."""
import re
from ..absint import Obj, const, show, NONE, re_args, re_flags
from ..msgs import own_checkers, pylint_msgs, flake8_codes
from ..texts import VAR, flake8_texts, pylint_texts, own_texts, match, group_is
from . import _edl as E
from . import _lint as LI
from ._edl import S

MIN = {"message-exists": 6, "recognised": 6, "group": 4, "cannot-fail": 12, "only-text": 12, "others-untouched": 3, "options": 6}
NAMES = {"F401", "W0622", "C0325"}      # their only argument is a name or keyword and printed with repr, so in single quotes
MODES = ("match", "fullmatch", "search")


def check(ctx):
    keys = tweak_keys(ctx)
    own, pyl, fl = own_texts(ctx), pylint_texts(), flake8_texts()
    for linter, code in keys:
        f = ctx.prog.func(E.LINT + ".apply_tweaks")
        if linter == "FLAKE8":
            known, texts = code in flake8_codes(), fl.get(code)
        else:
            known, texts = code in own or code in pyl, (own.get(code) or pyl.get(code) or (None,))[0]
        ctx.expect(known, "message-exists", f"{linter}:{code}", ctx.prog.func(LI.TWEAK), f"there is a tweak for {code} of {linter}, which does not emit it", code)
        if not known or texts is None:
            continue
        for text in variants(ctx, code, texts):
            for name, vals in settings(ctx):
                one(ctx, f, linter, code, text, name, vals)
    untouched(ctx)
    meaning(ctx)


def tweak_keys(ctx):
    it = ctx.interp(unknown_raises=None)
    st = it.new_state()
    av, st, _ = it.run(ctx.prog.func(LI.TWEAK), [], st=st)
    o = E.one(it, st, av)
    ctx.need(o is not None and o.kind == "dict", "the table of tweaks is not a dictionary")
    out = []
    for l in it.flat_layers(o, st):
        k = E.one(it, st, l[1])
        ctx.need(l[0] == "kv" and k is not None and len(k.segs) == 2, "the table of tweaks has an entry that cannot be read")
        (lt,), code = k.segs[0][1], E.cval(k.segs[1][1])
        out.append((str(lt[2] if lt[0] == "enum" else lt), code))
    return out


def variants(ctx, code, texts):
    """texts with variable parts over a finite set of words spelled out"""
    if code in NAMES:
        texts = [t.replace(VAR, "'" + VAR + "'") for t in texts]
    words = arguments(ctx, code)
    out = []
    for t in texts:
        todo = [t]
        for i in range(t.count(VAR)):
            ws = words.get(i)
            nxt = []
            for x in todo:
                # the first i - k variable parts are still there when they are not finite
                at, seen = -1, 0
                keep = sum(1 for j in range(i) if not words.get(j))
                for p, c in enumerate(x):
                    if c == VAR:
                        if seen == keep:
                            at = p
                            break
                        seen += 1
                nxt += [x[:at] + w + x[at + 1:] for w in ws] if ws else [x]
            todo = nxt
        out += todo
    return out


def arguments(ctx, code):
    """position -> the constants a check can fill into its message there"""
    decl = next(((d, c) for c, ds in own_checkers(ctx.prog, ctx.fold).items() for d in ds if d.code == code), None)
    if decl is None:
        return {}
    d, c = decl
    found = []
    for name, f in sorted((n, f) for k in ctx.prog.mro(c) if hasattr(k, "node") for n, f in ((x.name, x) for x in ctx.prog.funcs.values() if x.cls is k)):
        if not name.startswith("visit_"):
            continue
        it = ctx.interp(unknown_raises=None)
        st = it.new_state()

        def report(itp, a, k, s, n, fr):
            if a and d.symbol in {t[2] for t in a[1 if a[0] != const(d.symbol) and len(a) > 1 else 0] if t[0] == "c"}:
                found.append((k.get("args"), s.copy(), itp))
            return NONE
        it.stubs[".add_message"] = report
        it.run(f, [E.inst(it, st, f.node, c.qual, "self"), S("NODE")], st=st)
        ctx.absorb(it)
    out = {}
    for args, s, it in found:
        o = E.one(it, s, args or frozenset())
        for i, v in enumerate([v for k, v in o.segs] if o is not None else []):
            cs = [t[2] if t[0] == "c" and isinstance(t[2], str) else None for t in v]
            if cs and None not in cs and out.get(i, ()) is not None:
                out[i] = tuple(sorted({*out.get(i, ()), *cs}))
            else:
                out[i] = None
    return out


def settings(ctx):
    yield "set", {"ALLOWED_ONECHAR_NAMES": const("ij"), "SET_GROUPS": ["g1", "g2"], "DISALLOWED_BUILTIN_NAMES": ["list", "id"]}
    yield "unset", {"ALLOWED_ONECHAR_NAMES": NONE, "SET_GROUPS": [], "DISALLOWED_BUILTIN_NAMES": []}


def run_tweaks(ctx, probs, vals, text=None):
    """apply_tweaks on given problems; matching a label TEXT is decided for the template it stands for"""
    f = ctx.prog.func(E.LINT + ".apply_tweaks")
    it = ctx.interp(unknown_raises=None)
    it.concrete = True
    st = it.new_state()
    uses, groups, asked = [], [], []

    def decide(pattern, flags, mode, n):
        m = match(pattern, flags, text, mode) if pattern is not None and flags is not None else None
        uses.append((pattern, flags, mode, m, n))
        return frozenset([("s", f"MATCH{len(uses) - 1}")]) | (frozenset() if m else NONE)

    def func(mode):
        def stub(itp, a, k, s, n, fr):
            r = re_args(mode, a, k)
            if r is None or r.get("string") != S("TEXT"):
                return None
            return decide(E.cval(r["pattern"]), 0 if r.get("flags") is None else re_flags(r["flags"]), mode, n)
        return stub

    def method(mode):
        def stub(itp, a, k, s, n, fr):
            t = next(iter(a[0])) if len(a[0]) == 1 else None
            if t is None or t[0] != "call" or t[1] != "re.compile" or a[1:2] != [S("TEXT")]:
                return None
            fl = [next(iter(x))[2] if len(x) == 1 and next(iter(x))[0] == "kw" else x for x in t[2][1:]]
            return decide(E.cval(t[2][0]), re_flags(fl[0]) if fl else 0, mode, n)
        return stub

    def group(itp, a, k, s, n, fr):
        t = next(iter(a[0])) if len(a[0]) == 1 else None
        if t is None or t[0] != "s" or not str(t[1]).startswith("MATCH"):
            return None
        i = E.cval(a[1]) if len(a) > 1 else 0
        u = uses[int(t[1][5:])]
        groups.append((i, u, n))
        n_groups = re.compile(u[0], u[1]).groups if u[0] is not None else 0
        if not isinstance(i, int) or i > n_groups:
            itp.raise_exc("IndexError", s, n, f"group {i}", fr)
        return frozenset([("pre", "", ("s", f"GROUP{i}"))])

    def all_groups(itp, a, k, s, n, fr):
        t = next(iter(a[0])) if len(a[0]) == 1 else None
        if t is None or t[0] != "s" or not str(t[1]).startswith("MATCH"):
            return None
        u = uses[int(t[1][5:])]
        return E.lst(itp, s, n, *[frozenset([("pre", "", ("s", f"GROUP{i + 1}"))]) for i in range(re.compile(u[0], u[1]).groups if u[0] is not None else 0)], kind="tuple", tag="groups")
    for mode in MODES:
        it.stubs["re." + mode] = func(mode)
        it.stubs["." + mode] = method(mode)
    it.stubs[".group"] = group
    it.stubs[".groups"] = all_groups
    it.truthy = it.not_none = lambda t: t[0] == "s" and str(t[1]).startswith("MATCH")
    tw, st, _ = it.run(ctx.prog.func(LI.TWEAK), [], st=st)
    cfg = E.immutable(ctx, it, st, f.node, {k: E.build(it, st, f.node, v, k) for k, v in vals.items()})
    ps = []
    for tag, linter, code, tx in probs:
        ps.append(LI.problem(ctx, it, st, f.node, tag, source=frozenset([("enum", E.L_LINTER if hasattr(E, "L_LINTER") else "edulint.linters.Linter", linter)]),
                             code=const(code), text=const(tx) if isinstance(tx, str) else tx))
    av, st, exc = it.run(f, [E.lst(it, st, f.node, *ps, tag="probs"), tw, cfg], st=st)
    ctx.absorb(it)
    return LI.problems(it, st, av), exc, uses, groups, f


def changed(fs, tag, code, linter):
    return {k: show(v) for k, v in fs.items() if k not in ("text", "code", "source") and v != S(f"{tag}.{k}")} or \
        {k: show(fs[k]) for k, want in (("code", const(code)),) if fs[k] != want} or \
        ({"source": show(fs["source"])} if not all(t[0] == "enum" and t[2] == linter for t in fs["source"]) else {})


def one(ctx, f, linter, code, text, name, vals):
    n = f"{code}:{name}"
    finite = VAR not in text
    ps, exc, uses, groups, f = run_tweaks(ctx, [("P", linter, code, text if finite else S("TEXT"))], vals, text)
    shown = repr(text.replace(VAR, "{...}"))
    for e, (_, origins) in exc.items():
        o = next(iter(origins.values()))
        ctx.bad("cannot-fail", f"{n}:{e}", o[0], f"for the message {code} {shown} a tweak fails with {e}: {o[1]}")
    if not exc:
        ctx.ok("cannot-fail", n)
    if not finite:
        for p, fl, mode, m, node in uses:
            ctx.expect(m is not None, "recognised", f"{code}:{p}", node, f"the tweak's pattern {p!r} does not match every text {shown} of {code}", code)
        for i, (p, fl, mode, m, _), node in groups:
            ctx.expect(m is None or isinstance(i, int) and (i == 0 or group_is(m, text, i)), "group", f"{code}:{i}", node,
                       f"the tweak for {code} reads group {i} of {p!r}, which does not always hold the variable part of {shown}", f"{code} group {i}")
    elif name == "set":
        ctx.expect(not exc, "recognised", f"{code}:{text}", f, f"the tweak for {code} does not recognise {shown}", text)
    ctx.need(ps is not None, "apply_tweaks does not give a list of problems")
    for k, fs in ps:
        if fs is None:
            ctx.bad("only-text", n, f, f"applying the tweak for {code} gives something that is not one of the problems")
            continue
        ch = changed(fs, "P", code, linter)
        ctx.expect(not ch, "only-text", n, f, f"the tweak for {code} changes {ch}", n)
        ctx.expect(not (finite and any(t[0] != "c" or not t[2] for t in fs["text"])) and bool(fs["text"]) and NONE - fs["text"], "only-text", n + ":text", f,
                   f"the tweak for {code} makes {shown} into {show(fs['text'])}", n)
    ctx.expect(len(ps) <= 1, "only-text", n + ":count", f, f"the tweak for {code} makes {len(ps)} problems of one", n)


def untouched(ctx):
    """problems without a tweak are kept as they are: other codes, and the same codes of other linters"""
    keys = tweak_keys(ctx)
    taken = set(keys)
    names = sorted({l for l, _ in keys} | {"EDULINT"})
    cases = [("PYLINT", "C9999"), ("FLAKE8", "E999"), ("EDULINT", "EDL001")] + [(l, c) for _, c in keys for l in names if (l, c) not in taken]
    for linter, code in cases:
        ps, exc, uses, groups, f = run_tweaks(ctx, [("P", linter, code, S("OTHER")), ("Q", linter, code, S("OTHER"))], dict(settings(ctx))["set"])
        ctx.expect(not exc and ps is not None and [k for k, _ in ps] == ["1", "1"] and all(
            fs is not None and not changed(fs, t, code, linter) and fs["text"] == S("OTHER") for t, (_, fs) in zip("PQ", ps or [])),
            "others-untouched", f"{linter}:{code}", f, f"a problem {code} of {linter}, for which there is no tweak, does not get through unchanged", f"{linter} {code}")


def meaning(ctx):
    """what the options consulted by tweaks are documented to do"""
    def kept(linter, code, text, **vals):
        base = dict(settings(ctx))["unset"]
        ps, exc, _, _, f = run_tweaks(ctx, [("P", linter, code, text)], {**base, **vals})
        return None if ps is None or exc or any(fs is None or len(fs["text"]) != 1 for _, fs in ps) else [E.cval(fs["text"]) for k, fs in ps if k == "1"], f

    name = 'Disallowed name "%s"'
    for what, linter, code, text, vals, want in (
        ("allowed one-character name", "PYLINT", "C0104", name % "i", {"ALLOWED_ONECHAR_NAMES": const("ij")}, False),
        ("allowed one-character name", "PYLINT", "C0104", name % "j", {"ALLOWED_ONECHAR_NAMES": const("ij")}, False),
        ("other one-character name", "PYLINT", "C0104", name % "k", {"ALLOWED_ONECHAR_NAMES": const("ij")}, True),
        ("one-character name when none is allowed", "PYLINT", "C0104", name % "i", {"ALLOWED_ONECHAR_NAMES": const("")}, True),
        ("one-character name without the option", "PYLINT", "C0104", name % "i", {}, True),
        ("longer name made of allowed characters", "PYLINT", "C0104", name % "ij", {"ALLOWED_ONECHAR_NAMES": const("ij")}, True),
        ("longer name", "PYLINT", "C0104", name % "foo", {}, True),
        ("listed built-in", "PYLINT", "W0622", "Redefining built-in 'list'", {"DISALLOWED_BUILTIN_NAMES": ["id", "list"]}, True),
        ("built-in that is not listed", "PYLINT", "W0622", "Redefining built-in 'lis'", {"DISALLOWED_BUILTIN_NAMES": ["id", "list"]}, False),
        ("built-in when none is listed", "PYLINT", "W0622", "Redefining built-in 'list'", {}, True),
    ):
        vals = {k: v for k, v in vals.items()}
        got, f = kept(linter, code, text, **vals)
        ctx.expect(got is not None and len(got) == int(want), "options", f"{code}:{what}", f,
                   f"{code} {text!r} ({what}) is {'not kept' if want else 'kept'} with {[(k, E.cval(v) if isinstance(v, frozenset) else v) for k, v in vals.items()]}", what)
        if got and want and code == "C0104":
            one_char = len(text) == len(name) - 1
            ctx.expect((got[0] == text) != one_char or text in got[0], "options", f"{code}:text:{what}", f, f"{text!r} is reworded to {got[0]!r}", what)
