"""Checks use data-flow facts only when the data-flow analysis succeeded."""
import ast
from ._checks import Checks
from ..absint import EMPTY, Obj, const

MIN = {"guarded": 20, "carried-out": 60, "flag-recorded": 4}
FACTS = ("var_events", "uses", "definitions", "redefines", "call_graph", "function_defs")
LOOKUP = {"is_builtin"}          # asks only whether a name is known to be something else than a builtin
EXEMPT = {"no-global-vars"}      # reports single events that were collected, complete or not
FLAG = "successful"


def flag_is(v):
    def decide(pe, node, base):
        return v if node.attr == FLAG else None
    return decide


def check(ctx):
    ck = Checks(ctx)
    skip = {f.qual for f in ctx.prog.funcs.values() if f.name in LOOKUP and f.qual.startswith("edulint.linting.")}
    watch = {a: "fact" for a in FACTS}
    reads = 0
    for c, n, f, req in ck.visits:
        ctx.count("visits")
        name = f"{c.name}.{n}"
        pe, ev = ck.run(c, n, f, decide=flag_is(False), attrs=watch, skip=skip)
        msgs = {e.data[0] for e in ev if e.kind == "add_message"}
        facts = [e for e in ev if e.kind == "fact" and not flag_read(e.node)]
        pe_all, ev_all = ck.run(c, n, f, attrs=watch, skip=skip)
        reads += any(e.kind == "fact" and not flag_read(e.node) for e in ev_all)
        if not msgs or msgs <= {x for x in ck.by_id if ck.by_id[x].symbol in EXEMPT} or not facts:
            ctx.ok("guarded", f"{name}: " + ("no message can be reported" if not msgs else "no fact is read" if not facts else "exempt") + " without the facts")
        else:
            for e in facts:
                ctx.bad("guarded", f"{name}:{e.func.qual if e.func else ''}", e.node,
                        f"'{e.data[0]}' is read here although the data-flow analysis of the file failed, in a visit that can then still report "
                        f"{', '.join(sorted(msgs))}: {ck.path(pe, e.func.qual, f.qual) if e.func else ''}")
        # ... and when it succeeded nothing is held back
        pe1, ev1 = ck.run(c, n, f, decide=flag_is(True))
        done = {(id(e.node), e.data[0]) for e in ev1 if e.kind == "add_message"}
        for e in ev_all:
            if e.kind == "add_message":
                ctx.expect((id(e.node), e.data[0]) in done, "carried-out", f"{name}:{e.data[0]}", e.node,
                           f"{e.data[0]} is reported only when the data-flow analysis failed", f"{name}: {e.data[0]}")
    ctx.need(reads >= 4, "no reads of data-flow facts found even without the guards: the analysis is blind")
    recorded(ctx)


def flag_read(node):
    p = getattr(node, "parent", None)
    return isinstance(p, ast.Attribute) and p.attr == FLAG


def recorded(ctx):
    """every way out of the analysis step leaves the flag set, and set to the truth"""
    prog = ctx.prog
    f = prog.func("edulint.linting.analyses.patcher.run_analyses")
    steps = ["edulint.linting.analyses.variable_scope.VarEventsAnalysis.collect",
             "edulint.linting.analyses.data_dependency.collect_reaching_definitions"]
    for s in steps:
        ctx.need(s in prog.funcs, f"{s} not found")
    exc = next((c.qual for c in prog.classes.values() if c.name == "UnknowableLocalsException"), None)
    ctx.need(exc, "UnknowableLocalsException not found")
    A = ("s", "AST")
    holder = ("attr", ("attr", A, "cfg_loc"), "var_events")

    def run(fail):
        it = ctx.interp(unknown_raises=None)
        for i, s in enumerate(steps):
            def stub(itp, args, kw, st, node, fr, i=i, s=s):
                itp.emit("call", s, [], {}, st, node, fr)
                if fail == i:
                    itp.raise_exc(exc, st, node, "failed", fr)
                    st.dead = True
                    return EMPTY
                return frozenset([("s", f"R{i}")]) if i else itp.mk_tuple(st, [frozenset([("s", x)]) for x in ("V", "F", "G", "O")])
            it.stubs[s] = stub
        av, st, out = it.run(f, [frozenset([A])])
        ctx.absorb(it)
        return it, st, out

    def value(st):
        o = st.heap.get(("extattr", holder))
        return None if o is None or FLAG not in o.fields else o.fields[FLAG]

    for i, s in enumerate(steps):
        it, st, out = run(i)
        short = s.rsplit(".", 1)[1]
        ctx.need(any(e.kind == "call" and e.name == s for e in it.events), f"run_analyses does not call {short}")
        if not ctx.expect(not out and not st.dead, "flag-recorded", f"{short}:escapes", f,
                          f"a failed {short} ends the whole linting of the file instead of being recorded as failed", f"failing {short} is contained"):
            continue
        v = value(st)
        ctx.expect(v is not None and all(t == ("c", "bool", False) for t in v), "flag-recorded", f"{short}:failed", f,
                   f"after {short} failed, the success flag is {'not recorded' if v is None or any(t[0] == 'attr' for t in v) else 'not False'} on some path",
                   f"failing {short}: flag is False")
    it, st, out = run(None)
    v = value(st)
    ctx.expect(v is not None and all(t[0] == "c" for t in v), "flag-recorded", "success:missing", f,
               "the success flag is not recorded on every way out of run_analyses", "recorded on every way out")
    ctx.expect(v is not None and any(t == ("c", "bool", True) for t in v), "flag-recorded", "success:true", f,
               "a successful analysis is never recorded as such", "recorded as True")
    for e in it.events:
        if e.kind == "setattr" and e.name == FLAG and any(t == ("c", "bool", True) for t in e.args[1]):
            for s in steps:
                ctx.expect(s in e.done, "flag-recorded", f"early:{s.rsplit('.', 1)[1]}", e.node,
                           f"success is recorded on a path on which {s.rsplit('.', 1)[1]} has not been completed", f"after {s.rsplit('.', 1)[1]}")
    # ... for every syntax tree a linter gets
    hooks = 0
    for g in prog.funcs.values():
        if g.parent is not None or g.module is not f.module:
            continue
        it = ctx.interp(unknown_raises=None)
        cell = [frozenset([("s", "TREE")])]
        for nm in ("pylint.lint.PyLinter.get_ast", "pylint.lint.pylinter.PyLinter.get_ast"):
            it.stubs[nm] = lambda itp, args, kw, st, node, fr: cell[0]

        def analyse(itp, args, kw, st, node, fr):
            itp.emit("call", f.qual, args, {}, st, node, fr)
            return const(None)
        it.stubs[f.qual] = analyse
        _, st, _ = it.run(g, [frozenset([("s", p)]) for p in positional(g)])
        for e in list(it.events):
            if e.kind != "setattr" or e.name != "get_ast":
                continue
            for t in e.args[1]:
                if t[0] != "fn" or t[1] not in prog.funcs:
                    continue
                hooks += 1
                h = prog.funcs[t[1]]
                st2 = st.copy()
                st2.done = frozenset()
                obj = cell[0] = it.alloc(st2, Obj("inst", "astroid.nodes.Module", {}), h.node, "tree")
                it.sinks.append({})
                av = it.call_func(h, t[2], [frozenset([("s", p)]) for p in positional(h)], {}, st2, h.node, None)
                it.sinks.pop()
                ctx.absorb(it)
                rets = [x for x in it.events if x.kind == "return" and x.name == h.qual]
                ctx.need(rets, "no return of the replacement found")
                for x in rets:
                    if any(y != ("c", "NoneType", None) for y in x.args[0]):
                        ctx.expect(f.qual in x.done, "flag-recorded", "hook", x.node, f"{h.name} can hand over a syntax tree that was not analysed",
                                   f"{h.name}: every tree is analysed")
                ctx.expect(any(x in obj for x in av), "flag-recorded", "hook-returns", h,
                           f"{h.name} does not hand over the syntax tree it was given", f"{h.name}: the tree is handed over")
    ctx.need(hooks >= 1, "no replacement of PyLinter.get_ast found")


def positional(g):
    a = g.node.args
    return [x.arg for x in a.posonlyargs + a.args][:len(a.posonlyargs + a.args) - len(a.defaults)]
