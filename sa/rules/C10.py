"""Arguments for the underlying linters are passed on verbatim."""
from ..absint import show, EMPTY, C, Obj, NONE
from ..view import reach, terms
from . import _edl as E
from ._edl import S, giving

MIN = {"linter-arguments": 6, "resolve-all": 12, "conversion": 4, "separate": 2, "comment-text": 2}
FIXED = ("--recursive=", "--format=", "--output-format=", "-f", "json")


def check(ctx):
    invocation(ctx)
    resolution(ctx)
    conversion(ctx)
    to_positions(ctx)
    splitting(ctx)


def invocation(ctx):
    for name, target, mine in (("lint_pylint", "pylint.lint.Run", "PYLINT"), ("lint_flake8", "._run", "FLAKE8")):
        f = ctx.prog.func(E.LINT + "." + name)
        it = ctx.interp(unknown_raises=None)
        st = it.new_state()
        got = []

        def run(itp, args, kw, s, node, fr, got=got):
            a = args[1:] if target.startswith(".") else args
            a = list(a) + [v for k, v in kw.items() if k in ("args", "argv")]
            if a:
                got.append((itp.iterate(a[0], s, fr, node), node, [t for _, v in itp.iterate(a[0], s, fr, node) for t in reach(itp, s, v)]))
            return S("RUN")
        it.stubs[target] = run
        if target == "._run":
            it.stubs[".run"] = run
        it.stubs[E.LINT + ".process_results"] = giving(S("RESULT"))
        vals = {o: E.lst(it, st, f.node, ("*", S("ARG:" + o)), ("*", S("ARG2:" + o)), kind="tuple", tag=o) for o in ("PYLINT", "FLAKE8")}
        cfg = E.immutable(ctx, it, st, f.node, vals)
        files = E.lst(it, st, f.node, ("*", S("FILE")), tag="files")
        it.run(f, [files, cfg], st=st)
        ctx.absorb(it)
        ctx.need(got, f"{name} does not run its linter")
        for segs, node, _ in got:
            seen = []
            for k, v in segs:
                for t in v:
                    if t == ("s", "ARG:" + mine):
                        seen.append("args")
                    elif t == ("s", "ARG2:" + mine):
                        seen.append("args2")
                    elif t == ("s", "FILE"):
                        seen.append("files")
                    elif t[0] == "c" and isinstance(t[2], str) and t[2].startswith(FIXED):
                        seen.append("fixed")
                    else:
                        seen.append("other")
                        what = "another linter's arguments" if any(x[0] == "s" and str(x[1]).startswith(("ARG:", "ARG2:")) and not x[1].endswith(mine) for x in reach(it, st, frozenset([t]))) \
                            else ("changed arguments" if any(x in (("s", "ARG:" + mine), ("s", "ARG2:" + mine)) for x in reach(it, st, frozenset([t]))) else "an argument that was not configured")
                        ctx.bad("linter-arguments", f"{name}:{show(frozenset([t]))[:60]}", node, f"{name} gives its linter {what}: {show(frozenset([t]))}")
            for need in ("args", "args2", "files"):
                ctx.expect(need in seen, "linter-arguments", f"{name}:{need}", node,
                           f"{name} does not give its linter the {'configured arguments' if need != 'files' else 'files to lint'} as they are", f"{name}: {need} unchanged")
            # the configured arguments form one run in their order, not mixed with others
            own = [v for _, v in segs if {("s", "ARG:" + mine), ("s", "ARG2:" + mine)} & v]
            ctx.expect(own == [S("ARG:" + mine), S("ARG2:" + mine)], "linter-arguments", f"{name}:order", node,
                       f"{name} gives its linter the configured arguments more than once or in another order: {', '.join(show(v) for v in own)}", f"{name}: in order, once")


def pre(p, lab):
    return frozenset([("pre", p, ("s", lab))])


def resolution(ctx):
    """what the resolution of 'all' keeps, in what order, for every kind of argument around one 'all'"""
    f = ctx.prog.func(E.CONF + ".Config._resolve_enable_disable_all")
    for allv, dropped, first in (("--disable=all", "e1", "--enable=all"), ("--enable=all", "d1", "--disable=all"), (None, None, None)):
        it = ctx.interp(unknown_raises=None)
        st = it.new_state()
        A = {"o0": pre("--out", "o0"), "f0": E.const(first) if first else pre("--from", "f0"), "e1": pre("--enable=x", "e1"), "d1": pre("--disable=x", "d1"), "o1": pre("--max-line", "o1"), "p1": pre("-x", "p1"),
             "all": E.const(allv) if allv else pre("--load", "mid"),
             "e2": pre("--enable=x", "e2"), "d2": pre("--disable=x", "d2"), "o2": pre("--max-line", "o2"), "p2": pre("x", "p2")}
        order = ["o0", "f0", "e1", "o1", "d1", "p1", "all", "e2", "o2", "d2", "p2"]
        src = E.lst(it, st, f.node, *[A[x] for x in order], tag="args")
        av, st, exc = it.run(f, [src] if len(f.node.args.args) == 1 else [EMPTY, src], st=st)
        ctx.absorb(it)
        o = E.one(it, st, av)
        ctx.need(o is not None and o.kind in ("list", "tuple", "iter"), "the resolution of 'all' does not give a list")
        back = {v: k for k, v in A.items()}
        got = []
        for k, v in o.segs:
            for t in v:
                n = back.get(frozenset([t]))
                if n is None:
                    ctx.bad("resolve-all", f"{allv}:altered", f, f"the resolution of 'all' passes on an argument that was not given: {show(frozenset([t]))}")
                else:
                    got.append((n, k))
        names = [n for n, _ in got]
        for x in order:
            if x == dropped or x == "f0" and first:
                continue
            if x == "d1" and allv == "--disable=all" or x == "e1" and allv == "--enable=all":
                continue    # made redundant by the later 'all'
            kind = {"e": "an enabling", "d": "a disabling", "o": "another", "p": "another", "f": "another", "a": "the 'all'"}[x[0]]
            ctx.expect((x, "1") in got, "resolve-all", f"{allv}:{x}", f,
                       f"{kind} argument {'before' if x[1:] in '01' else 'after'} {allv or 'arguments without all'} is (possibly) not passed on", f"{allv}: {x} kept")
        idx = [order.index(n) for n in names]
        ctx.expect(idx == sorted(idx) and len(set(idx)) == len(idx), "resolve-all", f"{allv}:order", f,
                   f"the resolution of 'all' changes the order of arguments or repeats them: {names}", f"{allv}: order kept")


def conversion(ctx):
    table = ctx.table("edulint.option_parses.get_option_parses")
    for o in table:
        if o.name not in ("PYLINT", "FLAKE8"):
            continue
        it = ctx.interp(unknown_raises=None)
        st = it.new_state()
        op, st = E.parses(ctx, it, st)
        f = ctx.prog.func(E.CONF + ".Config._convert")
        self_ = E.inst(it, st, f.node, E.CONF + ".Config", option_parses=op)
        src = E.lst(it, st, f.node, E.arg(it, st, f.node, o.name, pre("-", "TEXT")))
        av, st, _ = it.run(f, [self_, src], st=st)
        ctx.absorb(it)
        vals = [E.one(it, st, x.fields["val"]) for t in reach(it, st, av) if t[0] == "o" for x in [it.obj(st, t[1])] if x and x.kind == "inst" and "val" in x.fields]
        ctx.expect(bool(vals) and all(v is not None and v.kind == "list" and v.segs == (("1", pre("-", "TEXT")),) for v in vals), "conversion", o.name, f,
                   f"an argument configured for {o.name.lower()} is converted to {[v.segs if v else None for v in vals]} instead of being kept as it is", f"{o.name}: kept as written")


def to_positions(ctx):
    """the arguments of each linter end up under that linter"""
    f = ctx.prog.func(E.CONF + ".Config.to_immutable")
    it = ctx.interp(unknown_raises=None)
    st = it.new_state()
    op, st = E.parses(ctx, it, st)
    A = {o: E.lst(it, st, f.node, ("*", pre("-", "ARG:" + o)), tag=o) for o in ("PYLINT", "FLAKE8")}
    cfg = E.config(it, st, f.node, op, [("1", E.arg(it, st, f.node, o, A[o])) for o in A], "C")
    sets = it.alloc(st, Obj("dict"), f.node, "sets")
    av, st, _ = it.run(f, [cfg, sets, E.const(False)], st=st)
    ctx.absorb(it)
    g = ctx.prog.func(E.CONF + ".ImmutableConfig.__getitem__")
    for o in A:
        v, st2, _ = it.run(g, [av, E.opt(o)], st=st.copy())
        labs = {t[1] for t in terms_of(it, st2, v)}
        got = E.one(it, st2, v)
        ctx.expect(labs == {"ARG:" + o}, "separate", o, f, f"the configuration has {sorted(labs)} as arguments of {o.lower()}", f"{o} gets its own")
        ctx.expect(got is not None and all(t in A_terms(it, st2, A[o]) for _, x in got.segs for t in x), "conversion", f"to_immutable:{o}", f,
                   f"arguments of {o.lower()} are altered when the configuration is put together: {show(v)}", f"{o} unchanged")


def A_terms(it, st, av):
    o = E.one(it, st, av)
    return {t for _, x in o.segs for t in x}


def terms_of(it, st, av):
    return [t for t in reach(it, st, av) if t[0] == "s" and str(t[1]).startswith("ARG:")]


def splitting(ctx):
    """an option's value is the text after the first '=' and nothing less"""
    f = ctx.prog.func(E.CONF + ".parse_args")
    it = ctx.interp(unknown_raises=None)
    st = it.new_state()
    op, st = E.parses(ctx, it, st)
    src = E.lst(it, st, f.node, ("*", S("WORD")))
    it.stubs[E.CONF + ".parse_option"] = giving(E.opt("PYLINT"))
    av, st, _ = it.run(f, [src, op], st=st)
    ctx.absorb(it)
    vals = [v for t in reach(it, st, av) if t[0] == "o" for x in [it.obj(st, t[1])] if x and x.kind == "inst" for v in [x.fields.get("val")] if v is not None]
    ctx.need(vals, "parse_args does not give values")
    for v in vals:
        for t in v:
            if t == C(None):
                ctx.ok("comment-text", "no value")
                continue
            calls = [x for x in reach(it, st, frozenset([t])) if x[0] == "call"]
            bad = [x for x in calls if not whole(x)]
            ctx.expect(("s", "WORD") in reach(it, st, frozenset([t])) and not bad, "comment-text", "value:" + ",".join(sorted(x[1] for x in bad)), f,
                       f"the value of an option is {show(frozenset([t]))}, not the text after its first '='", "text after the first '='")


def whole(x):
    if x[1] == ".split":
        return len(x[2]) == 3 and x[2][1] == E.const("=") and x[2][2] == E.const(1)
    if x[1] == ".partition":
        return len(x[2]) == 2 and x[2][1] == E.const("=")
    return x[1] in (".find", ".index", "builtins.str", "builtins.len")
