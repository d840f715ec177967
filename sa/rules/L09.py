"""Translations replace the text of the message they are for, and find the variable parts of every message."""
from .. import absint
from ..absint import Obj, const, show, NONE, re_args, re_flags
from ..view import reach
from ..texts import VAR, flake8_texts, pylint_texts, own_texts, ways
from . import _edl as E
from . import _lint as LI
from ._edl import S

MIN = {"selection": 5, "only-text": 5, "own-translations": 3, "pattern-known": 300, "parts-recognised": 300, "filled-in": 4, "cannot-fail": 3}
MOD = "edulint.config.language_translations"
TR = MOD + ".Translation"
PACKAGES = {"pylint.checkers", "pylint.lint", "pylint.extensions"}
# what str.format raises for templates that do not fit its arguments
FORMAT = ("IndexError", "KeyError", "ValueError", "AttributeError", "TypeError")


def discovery(ctx, it, tables):
    """model of walking a package's modules and looking at the classes in them: tables(package) -> [msgs tables]"""
    def label(itp, st, av):
        for t in reach(itp, st, av):
            if t[0] == "s" and isinstance(t[1], str) and t[1].startswith("IN:"):
                return t[1][3:]
            if t[0] in ("mod", "ext"):
                q = t[1]
                for p in sorted(tables, key=len, reverse=True):
                    if q == p or q == p + ".__path__" or q == p + ".__name__":
                        return p
        return None

    walked = []

    def walk(itp, a, k, s, n, fr):
        p = label(itp, s, a[0]) if a else None
        walked.append((p, n))
        return E.lst(itp, s, n, S(f"IN:{p}"), tag="walk" + str(p))

    def members(itp, a, k, s, n, fr):
        p = label(itp, s, a[0]) if a else None
        return E.lst(itp, s, n, E.lst(itp, s, n, const("Checker"), S(f"CLS:{p}"), kind="tuple", tag="m" + str(p)), tag="ms" + str(p))

    def attr(itp, term, name, st, node):
        if term[0] == "s" and isinstance(term[1], str) and term[1].startswith("CLS:") and name == "msgs":
            return E.build(itp, st, node, tables.get(term[1][4:], {}), term[1])
        return None
    it.stubs["pkgutil.walk_packages"] = it.stubs["pkgutil.iter_modules"] = walk
    it.stubs["inspect.getmembers"] = members
    it.stubs["importlib.import_module"] = lambda i, a, k, s, n, fr: S("IN:" + str(label(i, s, a[0]))) if a else S("IN:?")
    it.stubs["inspect.isclass"] = it.stubs["builtins.issubclass"] = lambda i, a, k, s, n, fr: const(True)
    it.on_attr = attr
    return walked


def covers(pat, text, prefix):
    """every variable part of the text falls in a wildcard of the pattern, and the rest agrees"""
    row = {0}

    def close(r):
        out = set()
        for i in r:
            out.add(i)
            while i < len(pat) and pat[i] == VAR:
                i += 1
                out.add(i)
        return out
    row = close(row)
    for k, c in enumerate(text):
        if prefix and len(pat) in row and VAR not in text[k:]:
            return True
        nxt = set()
        for i in row:
            if i < len(pat) and pat[i] == VAR:
                nxt.add(i)
            elif i < len(pat) and c != VAR and pat[i].lower() == c.lower():
                nxt.add(i + 1)
        row = close(nxt)
    return len(pat) in row


def check(ctx):
    selection(ctx)
    all_problems(ctx)
    absint.LIMIT.update(segs=4000, layers=4000)
    try:
        patterns(ctx)
    finally:
        absint.LIMIT.update(segs=24, layers=60)
    substitution(ctx)


# ---- which translation, and what it changes

def selection(ctx):
    f = ctx.prog.func(E.LINT + ".translate")
    for keys, want in ((("C1",), "TC"), (("sym",), "TS"), (("C1", "sym"), "TC"), ((), None), (("C2",), None), (("SYM",), None)):
        it = ctx.interp(unknown_raises=None)
        st = it.new_state()
        given = []

        def made(itp, a, k, s, n, fr):
            given.append((a[1] if len(a) > 1 else k.get("code"), a[2] if len(a) > 2 else k.get("message")))
            return frozenset([("call", "translated", (a[0],))])
        it.stubs[TR + ".translate"] = made
        table = {k: E.inst(it, st, f.node, TR, k, translation=S("T" + k), extracts=S("X" + k)) for k in keys}
        p = LI.problem(ctx, it, st, f.node, "P", code=const("C1"), symbol=const("sym"))
        av, st, exc = it.run(f, [E.build(it, st, f.node, table, "lt"), p], st=st)
        ctx.absorb(it)
        o = E.one(it, st, av)
        name = "+".join(keys) or "none"
        ctx.need(o is not None, "translate does not give a problem")
        text = o.fields.get("text") or frozenset()
        src = {x[1] for t in text if t[0] == "call" and t[1] == "translated" for x in t[2][0] if x[0] == "o"}
        got = {show(it.obj(st, x).fields["translation"]) for x in src}
        exp = {show(S("TC1" if want == "TC" else "Tsym"))} if want else set()
        ctx.expect(got == exp and not exc and (want is None) == (text == S("P.text")), "selection", name, f,
                   f"with translations for {list(keys)}, the text of a message with code C1 and symbol sym is {show(text)}; expected "
                   f"{'the translation for its ' + ('code' if want == 'TC' else 'symbol') if want else 'its own text'}", name)
        for g in given:
            ctx.expect(g == (const("C1"), S("P.text")), "selection", name + ":given", f,
                       f"the translation is filled in for the code {show(g[0] or frozenset())} and the text {show(g[1] or frozenset())}, not the message's own", name)
        rest = {k: show(v) for k, v in o.fields.items() if k not in ("text", "code", "symbol") and v != S(f"P.{k}")}
        ctx.expect(not rest and o.fields["code"] == const("C1") and o.fields["symbol"] == const("sym"), "only-text", name, f,
                   f"translating a message also changes {rest or 'its code or symbol'}", name)


def all_problems(ctx):
    """each problem of each group of files goes through the translations of its group"""
    f = ctx.prog.func(E.LINT + ".lint_many")
    it = ctx.interp(unknown_raises=None)
    it.keep_sorted = True
    st = it.new_state()
    seen = []

    def lint(itp, a, k, s, n, fr):
        tag = E.py(itp, s, a[0])[0]
        return E.lst(itp, s, n, *[LI.problem(ctx, itp, s, n, f"{tag}{i}", code=const("C1"), symbol=const("s")) for i in (0, 1)], tag="r" + tag)
    it.stubs[E.LINT + ".lint"] = lint
    it.stubs[TR + ".translate"] = lambda i, a, k, s, n, fr: frozenset([("call", "translated", tuple(a))])

    def lang(tag, key):
        return {} if key is None else {key: E.inst(it, st, f.node, TR, tag, translation=S("T" + tag), extracts=S("X"))}
    groups = [((["a"]), S("CFa"), lang("a", "C1")), ((["b"]), S("CFb"), lang("b", "s")), ((["c"]), S("CFc"), lang("c", None))]
    av, st, exc = it.run(f, [E.build(it, st, f.node, [tuple(g) for g in groups], "part")], st=st)
    ctx.absorb(it)
    ps = LI.problems(it, st, av)
    ctx.need(ps is not None and not exc, "lint_many does not give a list of problems")
    for tag in "abc":
        for i in (0, 1):
            mine = [fs for k, fs in ps if fs and fs["line"] == S(f"{tag}{i}.line")]
            texts = set().union(*[fs["text"] for fs in mine]) if mine else set()
            by = {show(it.obj(st, x[1]).fields["translation"]) for t in texts if t[0] == "call" and t[1] == "translated" for x in t[2][0] if x[0] == "o"}
            exp = {show(S("T" + tag))} if tag != "c" else set()
            ctx.expect(len(mine) == 1 and by == exp and (tag != "c" or texts == S(f"c{i}.text")), "own-translations", f"{tag}{i}", f,
                       f"problem {i} of the group of files with translations {tag!r} ends up with the text {show(frozenset(texts))}", f"{tag}{i}")


# ---- recognising the variable parts

class Matching:
    """how Translation.translate uses regular expressions, for messages of one code"""

    def __init__(self, ctx, it, code, st):
        self.uses, self.it = [], it
        f = ctx.prog.func(TR + ".translate")

        def use(mode):
            def stub(itp, a, k, s, n, fr):
                r = re_args(mode, a, k)
                if r is None or S("MSG") != r.get("string"):
                    return None
                self.uses.append((E.cval(r["pattern"]), 0 if r.get("flags") is None else re_flags(r["flags"]), mode, n))
                return S("MATCH")
            return stub

        def method(mode):
            def stub(itp, a, k, s, n, fr):
                t = next(iter(a[0])) if len(a[0]) == 1 else None
                if t is None or t[0] != "call" or t[1] != "re.compile" or a[1:2] != [S("MSG")]:
                    return None
                fl = [next(iter(x))[2] if len(x) == 1 and next(iter(x))[0] == "kw" else x for x in t[2][1:]]
                self.uses.append((E.cval(t[2][0]), re_flags(fl[0]) if fl else 0, mode, n))
                return S("MATCH")
            return stub
        for mode in ("match", "fullmatch", "search"):
            it.stubs["re." + mode] = use(mode)
            it.stubs["." + mode] = method(mode)
        me = E.inst(it, st, f.node, TR, "self", translation=S("TEMPLATE"), extracts=S("EXTRACTS"))
        it.run(f, [me, const(code), S("MSG")], st=st)


def patterns(ctx):
    own, pyl, fl = own_texts(ctx), pylint_texts(), flake8_texts()
    texts = {}
    for code, (ts, where) in [*pyl.items(), *own.items()]:
        texts[code] = (ts, True)
    for code, ts in fl.items():
        texts[code] = (ts, False)
    texts["EDL001"] = (["Forbidden magic comment '" + VAR + "'"], False)
    for code, ts in reworded(ctx).items():
        texts[code] = (ts if code == "E712" else texts[code][0] + ts, False)

    raw = {}
    for code, d in __import__("sa.msgs", fromlist=["x"]).pylint_msgs()[0].items():
        mod = d.cls.module.name if hasattr(d.cls.module, "name") else d.cls.module
        pk = next((p for p in PACKAGES if str(mod).startswith(p)), "pylint")
        if code == d.code:
            raw.setdefault(pk, {})[code] = (d.text,)
    for c, ds in __import__("sa.msgs", fromlist=["x"]).own_checkers(ctx.prog, ctx.fold).items():
        mod = c.module.name if hasattr(c.module, "name") else c.module
        pk = "edulint.linting.checkers" if str(mod).startswith("edulint.linting.checkers.") else str(mod)
        for d in ds:
            raw.setdefault(pk, {})[d.code] = (d.text,)
    it = ctx.interp(unknown_raises=None)
    it.concrete = True
    walked = discovery(ctx, it, raw)
    st0 = it.new_state()
    f = ctx.prog.func(TR + ".translate")
    for code, (ts, exact) in sorted(texts.items()):
        variable = [t for t in ts if VAR in t or len(set(ts)) > 1]
        if not variable:
            continue
        m = Matching(ctx, it, code, st0.copy())
        ctx.expect(bool(m.uses) and all(p is not None and fl is not None for p, fl, _, _ in m.uses), "pattern-known", code, f,
                   f"texts of {code} ({show_text(variable[0])}) are not compared with any pattern: their variable parts cannot be placed in a translation", code)
        for t in variable:
            ok, nl = False, True
            for p, flags, mode, n in m.uses:
                for w in (ways(p, flags) if p is not None and flags is not None else None) or []:
                    if (w.text.lower() == t.lower() if exact else covers(w.text, t, mode != "fullmatch")) and len(set(w.groups)) == len(w.groups) and None not in w.groups:
                        ok, nl = True, nl and (w.nl or not w.groups)
            if m.uses:
                ctx.expect(ok, "parts-recognised", code + ":" + t.replace(VAR, "{}")[:60], m.uses[0][3],
                           f"the pattern {m.uses[0][0]!r} for {code} does not recognise the text {show_text(t)}", code)
                ctx.expect(nl or not ok, "parts-recognised", code + ":line-break", m.uses[0][3],
                           f"the pattern for {code} does not recognise {show_text(t)} when a variable part contains a line break", code)
    ctx.absorb(it)
    ctx.count("messages_with_variable_parts", sum(any(VAR in t for t in ts) for ts, _ in texts.values()))


def show_text(t):
    return repr(t.replace(VAR, "{...}"))


def reworded(ctx):
    """code -> templates of the texts that tweaks give to messages"""
    it = ctx.interp(unknown_raises=None)
    it.concrete = True
    st = it.new_state()
    f = ctx.prog.func(LI.TWEAK)
    av, st, _ = it.run(f, [], st=st)
    out = {}
    for key, tweak in entries(it, st, av):
        m = ctx.prog.func("edulint.linting.tweakers.Tweaker.get_reword")
        texts = flake8_texts().get(key) if key in ("E712",) else None
        for text in texts or [None]:
            s = st.copy()
            p = LI.problem(ctx, it, s, f.node, "P", **({} if text is None else {"text": const(text)}))
            r, s, _ = it.run(m, [tweak, p], st=s)
            for t in r:
                if t[0] == "c" and isinstance(t[2], str):
                    out.setdefault(key, []).append(t[2])
                elif t[0] == "op" and t[1] == "fstr":
                    out.setdefault(key, []).append("".join(E.cval(x) if isinstance(E.cval(x), str) else VAR for x in t[2:]))
                elif t != ("s", "P.text"):
                    out.setdefault(key, []).append(VAR)
    ctx.absorb(it)
    return out


def entries(it, st, av):
    """[(message code, tweak)] of the tweak table"""
    out = []
    for t in av:
        o = it.obj(st, t[1]) if t[0] == "o" else None
        if o is not None and o.kind == "dict":
            for l in it.flat_layers(o, st):
                if l[0] in ("kv", "*kv"):
                    k = E.one(it, st, l[1])
                    out.append((E.cval(k.segs[1][1]) if k is not None and len(k.segs) == 2 else None, l[2]))
    return out


# ---- filling the translation in

def substitution(ctx):
    f = ctx.prog.func(TR + ".translate")
    for name, pattern, want in (("parts", "Use (.*) instead of (.*)", "format"), ("no-parts", "Unnecessary pass", "plain"), ("unknown", None, "plain")):
        for fits in (True, False):
            it = ctx.interp(unknown_raises=None)
            it.concrete = True
            st = it.new_state()
            discovery(ctx, it, {"pylint.checkers": {"C1": (pattern.replace("(.*)", "%s"),)}} if pattern else {})
            G = [S("G1"), S("G2")]
            if pattern and "(.*)" in pattern:
                m = (lambda i, a, k, s, n, fr: S("MATCH")) if fits else (lambda i, a, k, s, n, fr: NONE)
                for mode in ("match", "fullmatch", "search"):
                    it.stubs["re." + mode] = it.stubs["." + mode] = m
                it.truthy = it.not_none = lambda t: t == ("s", "MATCH")
            it.stubs[".groups"] = lambda i, a, k, s, n, fr: E.lst(i, s, n, *G, kind="tuple", tag="groups")
            calls = []

            def fmt(itp, a, k, s, n, fr):
                if a[0] != S("TEMPLATE"):
                    return None
                calls.append((a[1:], k, s.copy()))
                for e in FORMAT:
                    itp.raise_exc(e, s, n, "template does not fit", fr)
                return S("FILLED")
            it.stubs[".format"] = fmt
            ex = {"2": {"word": "slovo"}}
            me = E.inst(it, st, f.node, TR, "self", translation=S("TEMPLATE"), extracts=E.build(it, st, f.node, ex, "ex"))
            av, st, exc = it.run(f, [me, const("C1"), S("MSG")], st=st)
            ctx.absorb(it)
            n = name + ("" if fits else ":other-text")
            ctx.expect(not exc, "cannot-fail", n, f, f"translating a message can raise {sorted(map(str, exc))}", n)
            if want == "plain" or not fits:
                ctx.expect(av <= S("TEMPLATE") | S("FILLED") and ("s", "MSG") not in av and av and (("s", "TEMPLATE") in av or want == "plain"), "filled-in", n, f,
                           f"a message without recognised variable parts gets the text {show(av)}", n)
                continue
            ctx.expect(("s", "FILLED") in av and av <= S("TEMPLATE") | S("FILLED") and bool(calls), "filled-in", n, f,
                       f"a message with variable parts gets the text {show(av)}", n)
            for a, k, s in calls:
                vals = [v for x in a for v in ([x] if not any(t[0] == "star" for t in x) else [x])]
                ctx.expect(len(vals) == 2 and G[0] <= vals[0] and G[1] <= vals[1] and not (vals[0] & G[1]) and not (vals[1] & G[0])
                           and vals[0] == G[0], "filled-in", n + ":order", f,
                           f"the variable parts are placed in the translation as {[show(v) for v in vals]}", n)
                ctx.expect(len(vals) == 2 and bool(vals[1] - G[1]), "filled-in", n + ":extracts", f,
                           "configured translations of variable parts are not used for the part they are for", n)
