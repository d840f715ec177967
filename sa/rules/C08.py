"""Every option is defined once, coherently, and reaches its consumer."""
from ..absint import Obj, NONE, show
from . import _edl as E
from ._edl import one, py

MIN = {"defined": 30, "reaches": 60, "value-kind": 20, "repeat": 10, "shared": 12, "linter": 8, "by-name": 15}
PARSES = "edulint.option_parses."
TOML = {"empty": {}, "default": {}, "va": {}, "vb": {}}
KEEP = "edulint.option_parses.Combine"


def check(ctx):
    names = table(ctx)
    if names is not None:
        by_name(ctx, names)
        ends(ctx, names)
        parts(ctx)
    operands(ctx)
    linters(ctx, names or {})


def table(ctx):
    """one definition per option, under its own key; its name; the words of the definition"""
    f = ctx.prog.func(PARSES + "get_option_parses")
    it = ctx.interp(unknown_raises=None)
    av, st, _ = it.run(f, [])
    ctx.absorb(it)
    members, commas = E.options(ctx), []
    d = one(it, st, av)
    ctx.need(d is not None and d.kind == "dict", "get_option_parses does not give a dictionary")
    made = {}
    for o in {**it.global_heap, **st.heap}.values():
        if o.kind == "inst" and o.cls == PARSES + "OptionParse":
            for t in o.fields.get("option", ()):
                made.setdefault(t, []).append(o)
    names = {}
    for m in members:
        term = ("enum", E.OPTION, m)
        v, missing = it.dict_get(d, E.opt(m), st, f.node, None)
        o = one(it, st, v)
        ctx.expect(o is not None and not missing, "defined", f"{m}:there", f, f"option {m} has no (single) definition in the option table", "every option has a definition")
        if o is None:
            continue
        ctx.expect(o.fields.get("option") == frozenset([term]), "defined", f"{m}:own", f,
                   f"the definition found for {m} is that of {show(o.fields.get('option', frozenset()))}", "a definition is found under its own option")
        ctx.expect(len(made.get(term, ())) == 1, "defined", f"{m}:once", f, f"option {m} is defined {len(made.get(term, ()))} times; only the last one counts",
                   "an option is defined once")
        n, s2, _ = it.run(ctx.prog.func(E.OPTION + ".to_name"), [E.opt(m)], st=st.copy())
        name = E.cval(n)
        ctx.need(isinstance(name, str), f"the name of option {m} is not known")
        tv = [t[2] for t in o.fields.get("takes_val", ()) if t[0] == "enum"]
        cb = [t[2] for t in o.fields.get("combine", ()) if t[0] == "enum"]
        ctx.need(len(tv) == 1 and len(cb) == 1, f"the definition of {m} is not of known form")
        names[m] = (name, tv[0], cb[0])
        conv = [t[2] for t in o.fields.get("convert", ()) if t[0] == "enum"]
        if conv == ["COMMA_SEPARATED_LIST"]:
            commas.append((m, name))
    ctx.commas = commas
    clash = {n for n, *_ in names.values() if [x[0] for x in names.values()].count(n) > 1}
    for m, (n, *_) in names.items():
        ctx.expect(n not in clash, "defined", f"{m}:name", f, f"several options are called {n}", "names of options differ")
    return names


def by_name(ctx, names):
    """a name leads to its option in any letter case; anything else to none"""
    f = ctx.prog.func(E.OPTION + ".safe_from_name")
    it = ctx.interp(unknown_raises=None)
    asked = [(n, m) for m, (n, *_) in names.items()] + [(n.upper(), m) for m, (n, *_) in names.items()] + [("config", "CONFIG_FILE"), ("Config", "CONFIG_FILE"), ("no-such-option", None), ("", None)]
    for text, m in asked:
        av, st, exc = it.run(f, [E.const(text)])
        want = NONE if m is None else E.opt(m)
        ctx.expect(av == want and not exc, "by-name", text, f, f"the name {text!r} leads to {show(av)}", "an option's name leads to that option")
    ctx.absorb(it)


def kinds(it, st, av):
    out = set()
    for t in av:
        if t[0] == "c":
            out.add(t[1] if t[1] != "NoneType" else "None")
        elif t[0] == "o":
            out.add(it.obj(st, t[1]).kind)
        elif t[0] in ("pre", "op"):
            out.add("str")
        else:
            out.add("?")
    return out


def ends(ctx, names):
    """an option set in the command line is seen by whoever asks the configuration for it, and by nobody else"""
    base = E.Run(ctx, {"f.py": []}, [], TOML)
    ctx.need(len(base.results) == 1, "no configuration for a single file")
    default = {m: base.value(ctx, 0, m) for m in names}
    dtext = {m: base.render(v) for m, v in default.items()}
    dkind = {m: kinds(base.it, base.st, v) for m, v in default.items()}
    for m, (name, takes, combine) in names.items():
        words = [name] if takes == "NO" else [f"{name}=va", f"{name}=vb"]
        for k in range(1, len(words) + 1):
            r = E.Run(ctx, {"f.py": []}, words[:k], TOML)
            where = r.f
            if len(r.results) != 1:
                ctx.bad("reaches", f"{m}:{k}", where, f"setting {name} leaves no configuration")
                continue
            for other in names:
                v = r.value(ctx, 0, other)
                if other == m:
                    continue
                ctx.expect(r.render(v) == dtext[other], "reaches", f"{m}:{other}:{k}", where,
                           f"setting {name} changes what is read as the value of {names[other][0]}", "an option leaves the others alone")
            v = r.value(ctx, 0, m)
            got = py(r.it, r.st, v)
            want = [True] if takes == "NO" else {"va": ["va"], "vb": ["vb"]}[["va", "vb"][k - 1]]
            got_l = list(got) if isinstance(got, tuple) else [got]
            if k == 1:
                ctx.expect(got_l == want, "reaches", f"{m}:self", where, f"the value given for {name} is read back as {show(v)}", "the value of an option is what was given")
                ks = kinds(r.it, r.st, v)
                ok = ks <= dkind[m] or (ks == {"str"} and dkind[m] <= {"None", "str"}) or (ks == {"int"} and dkind[m] <= {"None", "int"})
                ctx.expect(ok, "value-kind", m, where, f"{name} is {'/'.join(sorted(dkind[m]))} when not set but {'/'.join(sorted(ks))} when set",
                           "the default is of the kind conversion gives")
                if takes == "NO":
                    ctx.expect(dtext[m] == base.render(E.const(False)), "value-kind", f"{m}:off", where, f"{name} takes no value, so it can only turn on what is on already",
                               "an option without a value is off unless given")
            else:
                want2 = ["va", "vb"] if combine == "EXTEND" else ["vb"]
                ctx.expect(got_l == want2, "repeat", m, where, f"{name} given twice is read back as {show(v)}", "repeated values combine as the definition says")
            again(ctx, r, m, names, dtext, k)
        if takes != "NO":
            ok = dkind[m] <= {"tuple", "None", "str", "int"}
            ctx.expect(ok, "value-kind", f"{m}:val", base.f, f"{name} takes a value but is {dkind[m]} by default", "an option with a value is no switch")
            r = E.Run(ctx, {"f.py": []}, [name] if takes == "YES" else [], TOML)
        else:
            r = E.Run(ctx, {"f.py": []}, [name + "=true"], TOML)
        v = r.value(ctx, 0, m) if len(r.results) == 1 else None
        ctx.expect(v is not None and r.render(v) == dtext[m], "reaches", f"{m}:ill", r.f,
                   f"{name} {'without' if takes != 'NO' else 'with'} a value is not ignored", "ill-formed use is ignored")
        if combine == "EXTEND":
            ctx.expect(dkind[m] == {"tuple"}, "value-kind", f"{m}:combine", base.f, f"values of {name} are put together but are no lists", "only lists are put together")


def parts(ctx):
    """a value given as a comma separated list is the list of its parts, the empty one none"""
    for m, name in ctx.commas:
        for text, want in (("", ()), ("va", ("va",)), ("va,vb", ("va", "vb")), ("va,vb,va", ("va", "vb", "va"))):
            r = E.Run(ctx, {"f.py": []}, [f"{name}={text}"], TOML)
            got = py(r.it, r.st, r.value(ctx, 0, m)) if len(r.results) == 1 else None
            ctx.expect(got == want, "reaches", f"{m}:parts:{text}", r.f, f"{name}={text} is read back as {got}", "parts of a list")


def again(ctx, r, m, names, dtext, k):
    """after a run that set an option, a run without it sees the default"""
    av, st, _ = r.it.run(r.f, [E.build(r.it, r.st, r.f.node, ["f.py"], "again"), E.build(r.it, r.st, r.f.node, [], "againcmd"), parses_of(ctx, r)], st=r.st)
    r.st = st
    r.results = [tuple([x[0], *[v for _, v in r.it.obj(st, t[1]).segs]]) for x in (E.flat_segs(r.it, st, av) or []) for t in x[1] if t[0] == "o"]
    if len(r.results) != 1:
        ctx.bad("shared", f"{m}:{k}", r.f, "a second run leaves no configuration")
        return
    v = r.value(ctx, 0, m)
    ctx.expect(r.render(v) == dtext[m], "shared", f"{m}:{k}", r.f, f"after a run with {names[m][0]} the option's default is {show(v)}", "defaults are not modified")


def parses_of(ctx, r):
    op, r.st = E.parses(ctx, r.it, r.st)
    return op


def operands(ctx):
    """combining and converting values gives new ones and leaves the operands as they were"""
    f = ctx.prog.func(PARSES + "Combine.__call__") if PARSES + "Combine.__call__" in ctx.prog.funcs else None
    cls = ctx.prog.classes[KEEP]
    for m in ctx.fold.enum_members(cls):
        if f is None:
            continue
        it = ctx.interp(unknown_raises=None)
        st = it.new_state()
        a = E.lst(it, st, f.node, E.const("a"), tag="L")
        b = E.lst(it, st, f.node, E.const("b"), tag="R")
        try:
            av, st, exc = it.run(f, [frozenset([("enum", KEEP, m)]), a, b], st=st)
        except Exception as e:  # noqa
            ctx.broken(f"combining by {m} cannot be followed: {e}")
        ctx.absorb(it)
        ctx.expect(py(it, st, a) == ("a",) and py(it, st, b) == ("b",), "shared", f"operands:{m}", f, f"combining by {m} modifies its operands", "operands stay as they were")
        got = py(it, st, av)
        want = {"REPLACE": ("b",), "EXTEND": ("a", "b")}.get(m)
        ctx.expect(want is None or got == want, "repeat", f"combine:{m}", f, f"combining ['a'] and ['b'] by {m} gives {got}", "combining follows its name")


def linters(ctx, names):
    """each linter run with arguments of its own has an option of its own name, and the two lead to each other"""
    it = ctx.interp(unknown_raises=None)
    f, g = ctx.prog.func(E.LINTER + ".to_option"), ctx.prog.func(E.LINTER + ".from_option")
    for m in ctx.fold.enum_members(ctx.prog.classes[E.LINTER]):
        if m == "EDULINT":
            continue  # has no arguments
        av, st, exc = it.run(f, [E.linter(m)])
        ctx.expect(av == E.opt(m) and not exc, "linter", f"{m}:option", f, f"the option for arguments of {m.lower()} is {show(av)}", "a linter's option bears its name")
        av, st, exc = it.run(g, [frozenset([("cls", E.LINTER)]), E.opt(m)])
        ctx.expect(av == E.linter(m) and not exc, "linter", f"{m}:linter", g, f"option {m} stands for {show(av)}", "an option of linter arguments leads to its linter")
        name, takes, combine = names.get(m, (None, None, None))
        ctx.expect(takes == "YES", "linter", f"{m}:takes", f, f"the option for arguments of {m.lower()} takes no argument", "arguments can be given")
        ctx.expect(combine == "EXTEND", "linter", f"{m}:combine", f, f"repeated arguments of {m.lower()} replace each other", "repeated arguments add up")
    ctx.absorb(it)
