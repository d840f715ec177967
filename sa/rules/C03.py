"""Malformed configuration values are reported, never crash the run."""
from ..absint import T, C, show
from . import _edl as E
from ._edl import S, lst

MIN = {"no-crash": 600, "of-kind": 600, "skipped": 100, "reported": 100, "load": 10, "comment-text": 20}
LEAVES = ("str", "empty str", "int", "float", "bool", "datetime")
INVALID = "edulint.config.file_config.InvalidConfigFile"
LOGGED = ("warning", "error", "critical")


def leaf(ty, n=""):
    """any value of a type (of strings the empty one is told apart)"""
    known = {"str": E.L("x" + n, "REST" + n), "empty str": "", "int": 7, "bool": True}
    return known[ty] if ty in known else frozenset([T(f"LEAF{n}:{ty}", {ty})])


def shapes(deep=True):
    """(name, value): every kind of TOML value, alone and inside lists and tables"""
    out = [(t, leaf(t)) for t in LEAVES] + [("[]", []), ("{}", {})]
    inner = out if deep else out[:2] + out[-2:]
    out = list(out)
    for n, v in inner:
        if n == "str" and not deep:
            continue
        out.append((f"[{n}]", [v]))
        out.append((f"{{k={n}}}", {"k": v}))
        out.append((f"[str,{n}]", [leaf("str", "a"), v]))
        out.append((f"[{n},str]", [v, leaf("str", "b")]))
        out.append((f"{{j=str,k={n}}}", {"j": leaf("str", "a"), "k": v}))
        out.append((f"{{k=[{n}]}}", {"k": [v]}))
        out.append((f"{{k={{l={n}}}}}", {"k": {"l": v}}))
    return out


def positions(ctx):
    """(name, function from a value to a configuration file, deep)"""
    names = [o.lower().replace("_", "-") for o in E.options(ctx)]
    for n in names:
        yield n, (lambda v, n=n: {n: v}), True
    yield "PYLINT", (lambda v: {"PyLint": v}), False
    yield "config", (lambda v: {"config": v}), False
    yield "unknown", (lambda v: {"no-such-option": v}), False
    yield "default-enabler-name", (lambda v: {"default-enabler-name": v, "pylint": {"enable": "a,b"}}), True
    yield "translations", (lambda v: {"translations": v}), True
    yield "translations.g", (lambda v: {"translations": {"g": v}}), True
    for linter in ("pylint", "flake8", "edulint", "nonsense"):
        yield f"translations.g.{linter}", (lambda v, k=linter: {"translations": {"g": {k: v}}}), linter != "nonsense"
    yield "translations.pylint.flake8", (lambda v: {"pylint": "x", "translations": {"pylint": {"flake8": v}}}), False
    yield from ((f"language-translations{n}", (lambda v, g=g: {"language-translations": g(v)}), d) for n, g, d in translations())


def translations():
    yield "", (lambda v: v), True
    yield ".C0104", (lambda v: {"C0104": v}), True
    yield ".extracts", (lambda v: {"translated_extracts": v, "C0104": "t"}), True
    yield ".extracts.C0104", (lambda v: {"translated_extracts": {"C0104": v}, "C0104": "t"}), True
    yield ".extracts.C0104.1", (lambda v: {"translated_extracts": {"C0104": {"1": v}}, "C0104": "t"}), True
    yield ".extracts.C0104.x", (lambda v: {"translated_extracts": {"C0104": {"x": v}}, "C0104": "t"}), False
    yield ".extracts.C0104.1.w", (lambda v: {"translated_extracts": {"C0104": {"1": {"w": v}}}, "C0104": "t"}), False


def check(ctx):
    values(ctx)
    language(ctx)
    inherited(ctx)
    words(ctx)
    loading(ctx)


def run(ctx, toml, cmd=("set-groups=g",), files=None):
    r = E.Run(ctx, files or {"d/f.py": []}, list(cmd), {"empty": {}, **toml}, generic=True, other={})
    r.logged = [e for e in r.it.events if e.kind == "call" and e.name.startswith("loguru.logger.") and e.name.rsplit(".", 1)[1] in LOGGED]
    return r


def judge(ctx, key, r, what, base, mild=False):
    where = r.f
    bad = {k: v for k, v in r.exc.items() if k != INVALID}
    for k, (s, origins) in bad.items():
        n, msg, stk, fn = next(iter(origins.values()))
        ctx.bad("no-crash", f"{key}:{k}", n, f"reading {what} fails: {k} in {fn.qual} ({msg})")
        return
    ctx.ok("no-crash", f"{what}: read")
    if len(r.results) != 1:
        if INVALID in r.exc:
            ctx.ok("of-kind", what)     # refused as a whole, with a message
            return
        ctx.bad("no-crash", f"{key}:none", where, f"reading {what} leaves no configuration")
        return
    # what is left in the configuration has the kind its consumers take it for
    wrong = []
    for o in E.options(ctx):
        v = r.value(ctx, 0, o)
        if not kind_ok(r, v, o):
            wrong.append((o, v))
    for t in (x for x in others(r) if not texty(x)):
        ctx.bad("of-kind", f"{key}:names", where, f"{what} is taken for a text although it is {describe(r, frozenset([t]))}")
    for o, v in wrong:
        ctx.bad("of-kind", f"{key}:{o}", where, f"{what} makes the value of {o.lower().replace('_', '-')} {describe(r, v)}")
    if not wrong:
        ctx.ok("of-kind", f"{what}: kinds of values")
    if mild:
        return
    if base is not None and all(r.render(r.value(ctx, 0, o)) == b for o, b in base["values"].items()) and r.render(r.results[0][3]) == base["translations"]:
        ctx.expect(len(r.logged) > base["logged"], "reported", key, where, f"{what} is skipped without a message", f"{what}: skipped with a message")


def others(r):
    """texts of translations and names of what enabled a message"""
    todo = [r.results[0][3]]
    o = E.one(r.it, r.st, r.results[0][2])
    if o is not None and o.kind == "inst":
        todo.append(o.fields["enablers"])
    seen = set()
    while todo:
        for t in todo.pop():
            if t in seen:
                continue
            seen.add(t)
            ob = r.it.obj(r.st, t[1]) if t[0] == "o" else None
            if ob is None:
                yield t
            elif ob.kind == "dict":
                todo += [l[2] for l in r.it.flat_layers(ob, r.st) if l[0] in ("kv", "*kv")]
            elif ob.kind == "inst":
                todo += list(ob.fields.values())
            else:
                yield t


SWITCH, LISTS = ("NO_FLAKE8",), ("PYLINT", "FLAKE8", "IGNORE_INFILE_CONFIG_FOR", "EXPORT_GROUPS", "SET_GROUPS", "DISALLOWED_BUILTIN_NAMES")


def kind_ok(r, v, o):
    if o in LISTS:
        for t in v:
            if t[0] == "call" and t[1] == ".split":
                continue
            ob = r.it.obj(r.st, t[1]) if t[0] == "o" else None
            if ob is None or ob.kind != "tuple" or not all(texty(x) for _, a in ob.segs for x in a):
                return False
        return True
    if o in SWITCH:
        return all(t[0] == "c" and t[1] == "bool" or t[0] == "op" for t in v)
    return all(texty(t) or t == ("c", "NoneType", None) for t in v)


def texty(t):
    if t[0] == "c":
        return t[1] == "str"
    if t[0] == "T":
        return t[2] <= {"str"}
    return t[0] in ("op", "pre", "call", "s", "elem", "idx")


def describe(r, v):
    return str(r.render(v))[:120]


def baseline(ctx, toml, cmd=("set-groups=g",)):
    r = run(ctx, toml, cmd)
    ctx.need(len(r.results) == 1, "no configuration")
    return {"values": {o: r.render(r.value(ctx, 0, o)) for o in E.options(ctx)}, "translations": r.render(r.results[0][3]), "logged": len(r.logged)}


def values(ctx):
    base, plain = baseline(ctx, {"default": {}}), baseline(ctx, {"default": {}}, ())
    for name, place, deep in positions(ctx):
        for n, v in shapes(deep):
            r = run(ctx, {"default": place(v)}, () if name == "set-groups" else ("set-groups=g",))
            mild = "{}" in n or "[]" in n or "empty" in n or name in ("default-enabler-name", "translations.pylint.flake8", "config") \
                or name.startswith("language-translations") or name.startswith("translations")
            judge(ctx, f"{name}={n}", r, f"{name} = {n}", plain if name == "set-groups" else base, mild)
    # an option's value of a type it cannot have is as good as not there: what a base file says remains
    said = {k: v for k, v in {"pylint": "--p", "flake8": "--f", "allowed-onechar-names": "q", "disallowed-builtin-names": "print", "ignore-infile-config-for": "pylint",
                              "export-groups": "x", "set-groups": "g", "language-file": "/lang.toml"}.items()}
    rest = baseline(ctx, {"default": {"config-file": "b"}, "b": said}, ())
    for o in E.options(ctx):
        n = o.lower().replace("_", "-")
        for shape, v in shapes():
            if not ill(o, v) or v == {}:
                continue
            key, what = f"{n}={shape}", f"{n} = {shape}"
            over = o == "CONFIG_FILE"
            r = run(ctx, {"default": {n: v} if over else {"config-file": "b", n: v}, "b": said}, ())
            to = plain if over else rest
            if len(r.results) != 1:
                ctx.bad("skipped", key, r.f, f"with {what} no configuration is left")
                continue
            kept = [x for x in E.options(ctx) if r.render(r.value(ctx, 0, x)) != to["values"][x]]
            ctx.expect(not kept, "skipped", key, r.f, f"{what} is not skipped: it changes {', '.join(kept).lower().replace('_', '-')}", f"{what}: as if it were not there")
            ctx.expect(len(r.logged) > to["logged"], "reported", key, r.f, f"{what} is skipped without a message", f"{what}: message")
    # each malformed part of the tables is named in a message
    for name, place, n in (("translations", lambda v: {"translations": v}, "str"), ("translations.g", lambda v: {"translations": {"g": v}}, "int"),
                           ("translations.g.nonsense", lambda v: {"translations": {"g": {"nonsense": v}}}, "str"),
                           ("translations.g.pylint", lambda v: {"translations": {"g": {"pylint": v}}}, "float"),
                           ("language-translations", lambda v: {"language-translations": v}, "str"),
                           ("language-translations.C0104", lambda v: {"language-translations": {"C0104": v}}, "int"),
                           ("language-translations.extracts", lambda v: {"language-translations": {"translated_extracts": v}}, "int"),
                           ("language-translations.extracts.C0104", lambda v: {"language-translations": {"translated_extracts": {"C0104": v}}}, "int"),
                           ("language-translations.extracts.C0104.x", lambda v: {"language-translations": {"translated_extracts": {"C0104": {"x": v}}}}, "int"),
                           ("language-translations.extracts.C0104.1", lambda v: {"language-translations": {"translated_extracts": {"C0104": {"1": v}}}}, "int"),
                           ("language-translations.extracts.C0104.1.w", lambda v: {"language-translations": {"translated_extracts": {"C0104": {"1": {"w": v}}}}}, "int")):
        r = run(ctx, {"default": place(leaf(n))})
        ctx.expect(len(r.logged) > base["logged"], "reported", f"{name}={n}", r.f, f"{name} = {n} is skipped without a message", f"{name} = {n}: message")


def ill(o, v):
    """no part of the value is of a type the option can have"""
    kind = next(iter(v))[2] if isinstance(v, frozenset) else None

    def scalar(x):
        return isinstance(x, (str, int, E.L)) and not isinstance(x, frozenset) or type(x) is list and all(isinstance(y, (str, E.L)) for y in x)
    if o in SWITCH:
        return True
    if o in ("CONFIG_FILE", "LANGUAGE_FILE"):
        return not isinstance(v, (str, E.L))
    if isinstance(v, dict):
        return o not in ("PYLINT", "FLAKE8") or not any(scalar(x) for x in v.values())
    return kind is not None or not scalar(v)


def language(ctx):
    """language files of any shape"""
    for name, place, deep in translations():
        for n, v in shapes(deep):
            x = place(v)
            if not isinstance(x, dict):
                continue        # a TOML file is a table
            r = run(ctx, {"default": {}, "lf": x}, ["language-file=lf"])
            judge(ctx, f"language-file{name}={n}", r, f"{name.lstrip('.') or 'the file'} = {n} in a language file", None)
    r = run(ctx, {"default": {}, "lf": None}, ["language-file=lf"])
    judge(ctx, "language-file:unreadable", r, "a language file that cannot be read", None)
    # files that cannot be read, that inherit from one that cannot be read, or from themselves
    for what, toml in (("a configuration file that cannot be read", {"default": None}), ("a base configuration file that cannot be read", {"default": {"config-file": "b"}, "b": None}),
                       ("a configuration file inheriting from itself", {"default": {"config-file": "default"}}),
                       ("configuration files inheriting from each other", {"default": {"config-file": "b"}, "b": {"config-file": "default"}})):
        r = run(ctx, toml)
        bad = {k for k in r.exc if k != INVALID}
        ctx.expect(not bad and INVALID in r.exc and not r.results, "no-crash", what, r.f, f"{what} {'fails with ' + ', '.join(bad) if bad else 'is not refused'}", f"{what}: refused")


def inherited(ctx):
    """malformed values in a base configuration file"""
    for name in ("pylint", "language-file", "set-groups", "config-file", "translations", "language-translations", "default-enabler-name"):
        for n, v in shapes(False):
            for key in (name,):
                r = run(ctx, {"default": {"config-file": "b"}, "b": {key: v}})
                judge(ctx, f"base:{name}={n}", r, f"{name} = {n} in a base configuration file", None)


WORDS = ["pylint", "pylint=", "=", "==", "", "=x", "no-flake8", "no-flake8=", "no-flake8=true", "NO-FLAKE8", "config", "config=", "config-file", "allowed-onechar-names", "allowed-onechar-names=",
         "set-groups=", "set-groups=,", "set-groups=g,,h", "language-file=", "language-file", "ignore-infile-config-for=", "ignore-infile-config-for=,", "ignore-infile-config-for=nonsense",
         "pylint=--enable=", "pylint=--disable=all", "flake8=--select=", "é=ü", "-", "--pylint=x", "pylint =x", "export-groups", "disallowed-builtin-names=,,"]


def words(ctx):
    """any word of an in-file comment, and of the command line"""
    names = [o.lower().replace("_", "-") for o in E.options(ctx)]
    anys = [w for n in names for w in (n, n + "=", E.L(n + "=", "REST"), E.L(n.upper() + "=", "REST"))]
    # whether other comments count depends on the value: the linters one by one
    anys = [w for w in anys if isinstance(w, str) or "ignore" not in w[0].lower()] + ["ignore-infile-config-for=" + v for v in ("all", "edulint", "pylint", "flake8", "ALL", "edulint,x", "x,all,")]
    for w in WORDS + anys + [E.L("no-such=", "REST")]:
        shown = w if isinstance(w, str) else (w[0] + "…" if isinstance(w, E.L) else "?")
        for place, files, cmd in (("in a comment", {"d/f.py": [w]}, []), ("on the command line", {"d/f.py": []}, [w]), ("in both", {"d/f.py": [w]}, [w])):
            r = run(ctx, {"default": {}}, cmd, files)
            bad = {k: v for k, v in r.exc.items() if k != INVALID}
            for k, (s, origins) in bad.items():
                n, msg, stk, fn = next(iter(origins.values()))
                ctx.bad("comment-text", f"{shown}:{place}", n, f"the word {shown!r} {place} fails: {k} in {fn.qual} ({msg})")
            if not bad:
                ctx.ok("comment-text", f"{shown} {place}")


def loading(ctx):
    """whatever goes wrong in opening, decoding or parsing a file is contained"""
    f = ctx.prog.func("edulint.config.file_config.load_toml_file")
    for name in ("default", "./x.toml", "/a/b.toml", "https://h/x.toml"):
        for call, classes in (("tomli.loads", ("tomli.TOMLDecodeError", "builtins.RecursionError", "builtins.ValueError")),
                              ("builtins.open", ("builtins.OSError", "builtins.PermissionError", "builtins.UnicodeDecodeError", "builtins.ValueError", "builtins.FileNotFoundError", "builtins.IsADirectoryError")),
                              (".read", ("builtins.UnicodeDecodeError", "builtins.OSError")),
                              ("requests.get", ("requests.exceptions.RequestException", "requests.exceptions.ConnectionError", "requests.exceptions.InvalidURL", "builtins.ValueError", "builtins.UnicodeError"))):
            for cls in classes:
                it = ctx.interp(unknown_raises=None)
                hit = []

                def fail(i, a, k, s, n, fr, cls=cls, hit=hit):
                    hit.append(n)
                    i.raise_exc(cls.removeprefix("builtins."), s, n, "injected", fr)
                    s.dead = True
                    return frozenset()
                it.stubs[call] = fail
                av, st, exc = it.run(f, [E.const(name)])
                ctx.absorb(it)
                if not hit:
                    continue
                ctx.expect(not exc, "load", f"{name}:{call}:{cls}", f, f"{cls} from {call} escapes when {name} is loaded: {', '.join(exc)}", f"{name}: {cls} from {call}")
    g = ctx.prog.func(E.CONF + ".extract_args")
    for cls in ("ValueError",):
        it = ctx.interp(unknown_raises=None)
        it.stubs["shlex.split"] = E.raising(cls)
        av, st, exc = it.run(g, [E.const("f.py")])
        ctx.absorb(it)
        ctx.expect(not exc, "load", f"comment:{cls}", g, f"{cls} from splitting the words of a comment escapes", "quotes of a comment")
