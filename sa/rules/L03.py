"""A problem is suppressed only in favour of another one on the same line."""
import ast
import re
from ..msgs import own_checkers, pylint_msgs, flake8_codes
from ..absint import show, Obj
from ..paths import FS
from ..view import reach, objs, fields_read, terms
from . import _edl as E
from . import _lint as P

MIN = {"overrider-exists": 10, "precedence-acyclic": 5, "kept": 40}


def check(ctx):
    tab = ctx.table("edulint.linting.overrides.get_overriders")
    f = ctx.prog.func("edulint.linting.overrides.get_overriders")
    ctx.need(isinstance(tab, dict) and len(tab) >= 5, "precedence table is empty")
    nodes = getattr(tab, "keynodes", None) or {}
    own = {d.code: d for ds in own_checkers(ctx.prog, ctx.fold).values() for d in ds}
    known = set(own) | set(pylint_msgs()[0]) | flake8_codes()
    ctx.count("known_message_codes", len(known))
    for over, by in tab.items():
        w = nodes.get(over, f)
        for code in [over] + sorted(by):
            ctx.expect(code in known, "overrider-exists", code, w,
                       f"precedence table names {code!r}, which neither EduLint, Pylint nor Flake8 defines", f"{code} exists")
    # acyclic
    for start in tab:
        path, seen, stack = None, set(), [(start, (start,))]
        while stack:
            x, p = stack.pop()
            for y in sorted(tab.get(x, ())):
                if y == start:
                    path = p + (y,)
                    break
                if y not in seen:
                    seen.add(y)
                    stack.append((y, p + (y,)))
            if path:
                break
        ctx.expect(path is None, "precedence-acyclic", "cycle:" + "<".join(sorted(set(path or ()))), nodes.get(start, f),
                   f"precedence is circular: {' overridden by '.join(path or ())}; a line with all of them keeps none", start)
    # nothing else changes the table while linting
    behaviour(ctx)
    kept(ctx, {k: set(v) for k, v in tab.items()})


def kept(ctx, tab):
    """what is kept of given problems"""
    fn = ctx.prog.func("edulint.linting.linting.apply_overrides")
    over = next(k for k in sorted(tab) if len(tab[k]) > 1 and not tab[k] & set(tab))
    by, by2 = sorted(tab[over])[:2]
    chain = next(((a, b, c) for a in sorted(tab) for b in sorted(tab[a]) for c in sorted(tab.get(b, ()))), None)
    X = "X9999"
    near = [("a.py", 7), ("a.py", 7)]
    cases = {}
    for x, y in [(near[0], near[1]), (("a/x.py", 4), ("b/x.py", 4)), (("x.py", 4), ("a/x.py", 4)), (("/w/x.py", 4), ("/v/x.py", 4)), (("x.py", 4), ("y.py", 4)), (("x.py", 4), ("x.pyi", 4)),
                 (("x.py", 4), ("X.py", 4)), (("x.py", 1), ("x.py", 11)), (("x.py", 4), ("x.py", 5)), (("x.py", 4), ("x.py", 3)), (("a1.py", 2), ("a.py", 12)), (("x.py", 0), ("x.py", 1)), (("../x.py", 4), ("x.py", 4))]:
        for cs in ((over, by), (by, over), (over, by2), (over, X)):
            cases[f"{x[0]}:{x[1]}:{cs[0]},{y[0]}:{y[1]}:{cs[1]}"] = [(*x, cs[0]), (*y, cs[1])]
    cases["all on a line"] = [("a.py", 1, c) for c in (X, over, by, over, by2)]
    cases["a line repeated later"] = [("a.py", 1, by), ("a.py", 2, X), ("a.py", 1, over), ("b.py", 1, over)]
    if chain:
        cases["a chain"] = [("a.py", 1, c) for c in chain]
    cases["none"] = []
    for name, ps in cases.items():
        want = [p for p in ps if not any(q[:2] == p[:2] and q[2] in tab.get(p[2], ()) for q in ps)]
        it = ctx.interp(unknown_raises=None)
        it.generic = it.keep_sorted = True
        it.fs = FS("/w", ["/w/x.py"])
        st = it.new_state()
        made = [P.problem(ctx, it, st, fn.node, f"p{j}", path=E.const(p), line=E.const(l), code=E.const(c), column=E.const(0)) for j, (p, l, c) in enumerate(ps)]
        table = E.build(it, st, fn.node, {k: E.lst(it, st, fn.node, *[E.const(c) for c in sorted(v)], kind="set", tag="by" + k) for k, v in tab.items()}, "table")
        av, st, exc = it.run(fn, [E.lst(it, st, fn.node, *made, tag="many"), table], st=st)
        ctx.absorb(it)
        got = P.problems(it, st, av) if not exc else None
        if ps and got is None and not exc:
            ctx.need(False, f"what is kept of {name} is not known")
        got = [(k == "1", tuple(E.cval(fl[x]) for x in ("path", "line", "code"))) for k, fl in got or () if fl is not None] if not exc else []
        wrong = bool(exc) or any(p not in [q for _, q in got] for p in want) or any(sure and p not in want for sure, p in got) or all(s for s, _ in got) and [p for _, p in got] != want
        ctx.expect(not wrong, "kept", name, fn, f"of {ps}, {[p for _, p in got] if not exc else 'nothing, as it fails,'} is reported instead of {want}", f"{len(want)} of {len(ps)} kept")


def behaviour(ctx):
    """where the decision to drop a problem gets its data from, in an abstract run of the suppression step"""
    fn = ctx.prog.func("edulint.linting.linting.apply_overrides")
    P = frozenset([("s", "P")])

    def run(over):
        it = ctx.interp()
        st = it.new_state()
        arg = it.alloc(st, Obj("list", segs=(("*", P),)), fn.node, "in")
        ov = frozenset([("s", "OV")]) if over else it.alloc(st, Obj("dict"), fn.node, "ov")
        av, st, _ = it.run(fn, [arg, ov], st=st)
        ctx.absorb(it)
        return it, st, av

    it, st, av = run(True)
    out = [t for _, o in objs(it, st, av) if o.kind in ("list", "iter", "tuple") for _, v in o.segs for t in v]
    ctx.expect(bool(out) and all(t == ("s", "P") for t in out), "kept-problems-unchanged", fn.name, fn,
               f"the suppression step returns {show(frozenset(out))} instead of a selection of the problems it got")
    # the guards under which a problem is kept (or dropped)
    guards = set()
    for e in it.events:
        if e.kind in ("mutate", "yield", "call") and any(("s", "P") in a for a in e.args) or e.kind == "new":
            for g, pos in e.facts:
                if any(t == ("s", "OV") for t in reach(it, st, g)) or fields_read(it, st, g, "P"):
                    guards.add(g)
    for e in it.events:
        if e.kind == "filter":
            guards.update(g for g, _ in e.facts)
    groupings = [o for o in st.heap.values() if o.kind == "dict" and any(l[0] in ("kv", "*kv") and fields_read(it, st, l[1], "P") for l in o.layers)]
    def own_keys(o):
        return set().union(*[fields_read(it, st, l[1], "P") for l in o.layers if l[0] in ("kv", "*kv")])

    def inside(a, b):
        return any(("o", i) in reach(it, st, l[2]) for i, x in st.heap.items() if x is b for l in a.layers if l[0] in ("kv", "*kv"))

    for o in groupings:
        if not any("code" in fields_read(it, st, l[2], "P") for l in o.layers if l[0] in ("kv", "*kv")):
            continue
        key = own_keys(o).union(*[own_keys(x) for x in groupings if x is not o and (inside(o, x) or inside(x, o))])
        ctx.expect({"path", "line"} <= key, "suppression-scope", "grouping:" + ",".join(sorted(key)), fn,
                   f"codes that can suppress a problem are grouped by {sorted(key)}, not by file and line: a problem may be "
                   "dropped in favour of one that is not on its line", f"codes grouped by {sorted(key)}")
    for g in sorted(guards, key=show):
        fr = fields_read(it, st, g, "P")
        if "code" not in fr:
            continue
        # a collection of codes reached without going through a grouping by place or a comparison of places
        place = {"path", "line"} <= fr
        grouped = any(t[0] == "o" and any(("o", t[1]) in reach(it, st, l[2]) for o in groupings for l in o.layers if l[0] in ("kv", "*kv"))
                      for t in reach(it, st, g))
        multi = [t for t in reach(it, st, g) if t[0] == "o" and fields_read(it, st, frozenset([t]), "P") & {"code"}]
        if multi:
            ctx.expect(place or grouped, "suppression-scope", "guard", fn,
                       "the codes that can suppress a problem are collected from all problems, not from those of its file and line",
                       "codes compared come from the problem's own line")
        for t in reach(it, st, g):
            # which problem's attribute selects the precedence entry
            keys = None
            if t[0] == "call" and t[1] == ".get" and t[2] and ("s", "OV") in t[2][0]:
                keys = t[2][1]
            elif t[0] in ("item", "idx") and ("s", "OV") in terms(t[1]):
                keys = t[2] if isinstance(t[2], frozenset) else frozenset([t[2]])
            if keys is not None:
                used = fields_read(it, st, keys, "P")
                ctx.expect(used == {"code"}, "precedence-lookup", ",".join(sorted(used)) or "none", fn,
                           f"precedence is looked up by {sorted(used) or show(keys)}, not by the problem's code", "looked up by code")
    # polarity: without any precedence nothing is dropped
    it, st, av = run(False)
    out = [t for _, o in objs(it, st, av) for _, v in o.segs for t in v]
    ctx.expect(("s", "P") in out, "no-precedence-keeps-all", fn.name, fn, "with an empty precedence table no problem is kept")
