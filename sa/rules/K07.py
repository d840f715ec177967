"""Every kind of compound statement is part of the control-flow graph.

Programs of every statement kind that contains statements, nested into each other and with jumps, are built as symbolic
syntax trees; the construction of the graph is interpreted on them and the locations and their successors in the
resulting graph are compared with those Python's semantics gives."""
import ast
from ..absint import State, Obj, const
from ..trees import Trees

MIN = {"placed": 2000, "successors": 2000, "reachable": 2000}
V = "edulint.linting.analyses.cfg.visitor.CFGVisitor"

# {0}, {1} ... take statements; x, y, c are arbitrary expressions
COMPOUND = {
    "if": "if x:\n{0}", "if-else": "if x:\n{0}\nelse:\n{1}", "while": "while x:\n{0}", "while-else": "while x:\n{0}\nelse:\n{1}", "for": "for v in x:\n{0}", "for-else": "for v in x:\n{0}\nelse:\n{1}",
    "async for": "async for v, w.q in x:\n{0}", "async for-else": "async for v in x:\n{0}\nelse:\n{1}", "with": "with x as v, y, z as (a, b.c):\n{0}", "async with": "async with x as w.z:\n{0}",
    "try-except": "try:\n{0}\nexcept E as e:\n{1}", "try-excepts": "try:\n{0}\nexcept E:\n{1}\nexcept:\n{2}", "try-except-else": "try:\n{0}\nexcept E:\n{1}\nelse:\n{2}", "try-finally": "try:\n{0}\nfinally:\n{1}",
    "try-except-finally": "try:\n{0}\nexcept E:\n{1}\nfinally:\n{2}", "try-all": "try:\n{0}\nexcept E as e:\n{1}\nelse:\n{2}\nfinally:\n{3}", "try-except-tuple": "try:\n{0}\nexcept (E, m.F):\n{1}\nexcept ():\n{2}", "try-except*": "try:\n{0}\nexcept* E as e:\n{1}", "try-except*-finally": "try:\n{0}\nexcept* E:\n{1}\nelse:\n{2}\nfinally:\n{3}",
    "match": "match x:\n    case 1:\n{0}\n    case [a, b] if y:\n{1}", "match-any": "match x:\n    case 1:\n{0}\n    case a:\n{1}", "match-wildcard": "match x:\n    case C(b):\n{0}\n    case 2 | 3 if y:\n{1}\n    case _:\n{2}",
    "def": "def g(a):\n{0}", "async def": "async def g(a):\n{0}", "class": "class D:\n{0}",
}
DEF = (ast.FunctionDef, ast.AsyncFunctionDef)
LOOP = (ast.For, ast.AsyncFor, ast.While)


class Reference:
    """locations of a scope and what may follow them, from the meaning of the statements"""

    def __init__(self, scope):
        self.scope, self.succ, self.locs, self.frames, self.free, self.heads, self.scopes = scope, {}, [], [], set(), [], []
        self.top = {}
        ins = {"ENTRY"}
        if isinstance(scope, DEF):
            ins = self.at(scope.args, ins)
        self.end(self.seq(scope.body, ins))

    def end(self, ins):
        for i in ins:
            self.succ.setdefault(i, set()).add("EXIT")

    def at(self, n, ins):
        if n not in self.locs:
            self.locs.append(n)
            self.succ.setdefault(n, set())
        for i in ins:
            self.succ.setdefault(i, set()).add(n)
        return {n}

    def seq(self, stmts, ins):
        for s in stmts:
            ins = self.stmt(s, ins)
        return ins

    def reached(self):
        """locations met in some execution, any statement of a try block being able to raise"""
        succ = {k: set(v) for k, v in self.succ.items()}
        for s, h in self.heads:
            if isinstance(s, (ast.Try, ast.TryStar)) and not (s.finalbody and h is first(s.finalbody)):
                succ[first(s.body)].add(h)
        seen, work = set(), ["ENTRY"]
        while work:
            n = work.pop()
            if n not in seen:
                seen.add(n)
                work += succ.get(n, ())
        return seen

    def jump(self, kind, outs, depth=None):
        """what a jump of a kind that leaves from outs reaches"""
        depth = len(self.frames) if depth is None else depth
        for i in range(depth - 1, -1, -1):
            f = self.frames[i]
            if f["kind"] == "finally":
                f["jumps"].setdefault(kind, set()).update(outs)
                return
            if f["kind"] == "loop" and kind in ("break", "continue"):
                if kind == "continue":
                    self.at(f["test"], outs)
                else:
                    f["break"] |= outs
                return
        assert kind in ("return", "raise")
        self.end(outs)

    def stmt(self, s, ins):
        if any(f["kind"] in ("try", "finally") for f in self.frames):
            self.free.add(s)
        if isinstance(s, ast.If):
            ins = self.at(s.test, ins)
            a = self.seq(s.body, ins)
            return a | self.seq(s.orelse, ins)
        if isinstance(s, LOOP):
            if isinstance(s, ast.While):
                head = s.test
            else:
                ins, head = self.at(s.iter, ins), s.target
            self.at(head, ins)
            f = {"kind": "loop", "test": head, "break": set()}
            self.frames.append(f)
            self.at(head, self.seq(s.body, {head}))
            self.frames.pop()
            return self.seq(s.orelse, {head}) | f["break"]
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                ins = self.at(i.context_expr, ins)
                if i.optional_vars is not None:
                    ins = self.at(i.optional_vars, ins)
            return self.seq(s.body, ins)
        if isinstance(s, ast.Match):
            ins, out = self.at(s.subject, ins), set()
            for c in s.cases:
                ins = self.at(c.pattern, ins)
                if c.guard is not None:
                    ins = self.at(c.guard, ins)
                out |= self.seq(c.body, ins)
                if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    ins = set()
            return out | ins
        if isinstance(s, (ast.Try, ast.TryStar)):
            fin = {"kind": "finally", "jumps": {}}
            if s.finalbody:
                self.frames.append(fin)
            self.frames.append({"kind": "try"})
            out = self.seq(s.body, ins)
            self.frames.pop()
            out = self.seq(s.orelse, out)
            for h in s.handlers:
                start = {("raised", id(h))}
                start = self.at(ast_name(h), start) if h.name is not None else start
                out |= self.seq(h.body, start)
                self.heads.append((s, first_of_handler(h)))
            if s.finalbody:
                self.frames.pop()
                jumped = set().union(*fin["jumps"].values())
                self.heads.append((s, first(s.finalbody)))
                end = self.seq(s.finalbody, out | jumped)
                for kind in fin["jumps"]:
                    self.jump(kind, set(end))
                return end
            return out
        ins = self.at(s, ins)
        if isinstance(s, (ast.Break, ast.Continue, ast.Return, ast.Raise)):
            self.jump(type(s).__name__.lower(), ins)
            return set()
        if isinstance(s, (*DEF, ast.ClassDef)):
            self.scopes.append(s)
        return ins


_NAMES = {}


def ast_name(h):
    return _NAMES.setdefault(id(h), ("name", h))


def first(stmts):
    s = stmts[0]
    if isinstance(s, (ast.If, ast.While)):
        return s.test
    if isinstance(s, (ast.For, ast.AsyncFor)):
        return s.iter
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return s.items[0].context_expr
    if isinstance(s, ast.Match):
        return s.subject
    if isinstance(s, (ast.Try, ast.TryStar)):
        return first(s.body)
    return s


def first_of_handler(h):
    return ast_name(h) if h.name is not None else first(h.body)


def indent(text):
    return "\n".join("    " + x for x in text.split("\n"))


def programs():
    """(name, text): each kind alone, and each kind and jump inside each block of each kind"""
    n = [0]

    def leaf():
        n[0] += 1
        return f"s{n[0]}"

    def fill(name, slot=None, inner=None):
        t = COMPOUND[name]
        k = t.count("{")
        bodies = [indent(inner if i == slot else leaf()) for i in range(k)]
        if name.startswith("match"):
            bodies = [indent(b) for b in bodies]
        return t.format(*bodies)

    def program(body):
        n[0] += 1
        return f"async def f(p):\n    before\n{indent(body)}\n    after"
    for name in COMPOUND:
        yield name, program(fill(name))
        yield f"{name} first and last", f"async def f(p):\n{indent(fill(name))}"
        guard = "if j:\n    break\nif k:\n    continue\nif l:\n    raise E\nif o:\n    raise m.F\nreturn"
        yield f"{name} before jumps", program("while w:\n" + indent(fill(name) + "\n" + guard))
        for slot in range(COMPOUND[name].count("{")):
            for inner in COMPOUND:
                yield f"{inner} in part {slot} of {name}", program(fill(name, slot, fill(inner)))
            if name not in ("def", "async def", "class"):
                for jump in ("return", "break", "continue") + ("raise",) * ("try" not in name):
                    star = "except*" in name and slot == 1
                    finals = "finally" in name or name == "try-all"
                    if star or finals and slot == COMPOUND[name].count("{") - 1:
                        continue
                    loop = "while w:\n{0}" if jump in ("break", "continue") else "if w:\n{0}"
                    guarded = indent(f"if j:\n    {jump}\n{leaf()}")
                    yield f"conditional {jump} in part {slot} of {name}", program(loop.format(indent("u\n" + fill(name, slot, guarded.replace("\n    ", "\n")[4:]) + "\nt")))
                    yield f"{jump} in part {slot} of {name}", program(loop.format(indent("u\n" + fill(name, slot, jump) + "\nt")))


class Graph:
    """what the construction left in the abstract heap"""

    def __init__(self, t, it, st):
        self.t, self.it, self.st = t, it, st
        self.node = {t.src[o]: o for o in t.src}

    def field(self, term, name):
        if term is None or term[0] != "o":
            return None
        o = self.it.obj(self.st, term[1])
        av = o.fields.get(name) if o is not None and o.kind == "inst" else None
        return next(iter(av)) if av is not None and len(av) == 1 else None

    def items(self, term):
        o = self.it.obj(self.st, term[1]) if term is not None and term[0] == "o" else None
        if o is None or any(k != "1" or len(v) != 1 for k, v in o.segs):
            return None
        return [next(iter(v)) for _, v in o.segs]

    def term(self, n):
        if isinstance(n, tuple):
            return self.field(("o", self.node[n[1]]), "name")
        return ("o", self.node[n]) if n in self.node else None

    def place(self, n):
        """block and position of a location, None if it is in no graph"""
        t = self.term(n)
        loc = self.field(t, "cfg_loc")
        block, pos = self.field(loc, "block"), self.field(loc, "pos")
        locs = self.items(self.field(block, "locs"))
        if locs is None or pos is None or pos[0] != "c" or not isinstance(pos[2], int) or not 0 <= pos[2] < len(locs) or self.field(locs[pos[2]], "node") != t:
            return None
        return block, pos[2]

    def starts(self, block, seen=()):
        """locations met first when control enters a block"""
        locs = self.items(self.field(block, "locs"))
        if locs:
            return {self.field(locs[0], "node")}
        if locs is None or block in seen:
            return set()
        cfg = self.field(block, "cfg")
        if block == self.field(cfg, "end"):
            return {"EXIT"}
        return self.leaving(block, (*seen, block))

    def leaving(self, block, seen=()):
        out = set()
        for e in self.items(self.field(block, "successors")) or ():
            out |= self.starts(self.field(e, "target"), seen)
        return out

    def after(self, n):
        p = self.place(n)
        if p is None:
            return None
        block, pos = p
        locs = self.items(self.field(block, "locs"))
        return {self.field(locs[pos + 1], "node")} if pos + 1 < len(locs) else self.leaving(block)

    def entry(self, n):
        return self.starts(self.field(self.field(self.place(n)[0], "cfg"), "start"))


def generic(ctx, cls):
    """the function set as the handler of every kind of node by a loop in a module that defines a base of the class"""
    for c in ctx.prog.mro(cls) if cls is not None else ():
        c = ctx.prog.classes.get(c, c) if isinstance(c, str) else c
        module = getattr(c, "module", None)
        for s in module.tree.body if module is not None else ():
            if not isinstance(s, ast.For):
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == c.name and isinstance(n.args[2], ast.Name):
                    f = ctx.prog.funcs.get(f"{module.name}.{n.args[2].id}")
                    if f is not None:
                        return f
    return None


def session(ctx):
    it = ctx.interp(unknown_raises=None)
    it.concrete, it.max_rec, it.unroll = True, 30, 400
    t = Trees(ctx, it, State())
    cls = ctx.prog.classes[V]

    def accept(i, a, k, st, n, fr):
        node = next(iter(a[0])) if len(a[0]) == 1 else None
        o = t.oid(node) if node is not None else None
        if o is None or len(a) != 2:
            return None
        name = "visit_" + t.kind[o].lower()
        m = i.get_attr(a[1], name, st, fr, n)
        if any(x[0] == "attr" for x in m):
            v = i.obj(st, next(iter(a[1]))[1]) if len(a[1]) == 1 and next(iter(a[1]))[0] == "o" else None
            visitor = ctx.prog.classes.get(v.cls) if v is not None and v.kind == "inst" else None
            g = ctx.prog.find_method(visitor, "__getattr__") if visitor is not None else None
            if g is not None:
                m = i.call_func(g, None, [a[1], const(name)], {}, st, n, fr)
            else:
                g = generic(ctx, visitor)
                return i.call_func(g, None, [a[1], a[0]], {}, st, n, fr) if g is not None else None
        return i.call(m, [a[0]], {}, st, n, fr)

    def of_class(i, a, k, st, n, fr):
        o = t.oid(next(iter(a[0]))) if len(a[0]) == 1 else None
        types = [x[1] for x in a[1]] if len(a) > 1 else []
        if o is None or not types:
            return None
        found, todo = [], [o]
        while todo:
            x = todo.pop(0)
            if any(t.isinst(x, y) for y in types):
                found.append(x)
            todo = [next(iter(y))[1] for y in t.kids[x] if next(iter(y))[0] == "o"] + todo
        return i.alloc(st, Obj("iter", segs=tuple(("1", frozenset([("o", x)])) for x in found)), n, ("nodes", o))

    def scope(i, a, k, st, n, fr):
        x = next(iter(a[0])) if len(a[0]) == 1 else None
        while x is not None and x[0] == "o" and t.oid(x) is not None:
            if t.kind[x[1]] in ("Module", "FunctionDef", "AsyncFunctionDef", "ClassDef", "Lambda"):
                return frozenset([x])
            x = next(iter(i.obj(st, x[1]).fields["parent"]))
        return None

    def on_attr(i, x, attr, st, n):
        if attr == "__name__" and x[0] == "ext" and x[1].startswith("astroid."):
            return const(x[1].split(".")[-1])
        return None
    it.stubs[".accept"], it.stubs[".nodes_of_class"], it.stubs[".scope"], it.on_attr = accept, of_class, scope, on_attr
    return it, t, cls


def describe(t, it, st, term):
    if term == "EXIT" or term == "ENTRY":
        return term.lower()
    if isinstance(term, tuple) and term[0] == "o" and t.oid(term) is not None:
        try:
            x = t.src[term[1]]
            return f"line {getattr(x, 'lineno', '?')} '{ast.unparse(x).splitlines()[0]}'"
        except Exception:
            return t.kind[term[1]]
    return str(term)


def judge(ctx, it, t, cls, name, text):
    where = ctx.prog.find_method(cls, "visit_module") or cls
    t.reset()
    it.steps = 0
    tree = ast.parse(text)
    module = t.build(tree)
    st = t.st.copy()
    run = ctx.prog.find_method(cls, "visit_module")
    visitor = it.alloc(st, Obj("inst", V, {}), where.node, "visitor")
    init = ctx.prog.find_method(cls, "__init__")
    if init is not None:
        _, st, _ = it.run(init, [visitor], st=st)
    _, st, exc = it.run(run, [visitor, module], st=st)
    key = name
    if exc or st.dead:
        return ctx.bad("placed", key, where, f"building the graph of a program with {name} fails with {', '.join(sorted(exc)) or 'an error'}:\n{text}")
    g = Graph(t, it, st)
    todo = [tree]
    while todo:
        scope = todo.pop()
        ref = Reference(scope)
        todo += ref.scopes
        terms = {n: g.term(n) for n in ref.locs}
        lost = [describe(t, it, st, terms[n]) for n in ref.locs if g.place(n) is None]
        ctx.expect(not lost, "placed", f"{key}:{getattr(scope, 'name', 'module')}", where, f"with {name}, {', '.join(lost)} of {getattr(scope, 'name', 'the module')} has no place in the control-flow graph:\n{text}", name)
        if lost:
            continue
        wrong = []
        for n in ref.locs:
            got = g.after(n)
            want = {x if x == "EXIT" else terms[x] for x in ref.succ.get(n, ()) if not (isinstance(x, tuple) and x[0] == "raised")}
            inside = any(n in list(ast.walk(s)) or isinstance(n, tuple) and n[1] in list(ast.walk(s)) for s, _ in ref.heads)
            extra = got - want
            if inside:
                extra -= {terms[h] for _, h in ref.heads}
            if want - got:
                wrong.append(f"{describe(t, it, st, terms[n])} is not followed by {', '.join(sorted(describe(t, it, st, x) for x in want - got))}")
            if extra:
                wrong.append(f"{describe(t, it, st, terms[n])} is followed by {', '.join(sorted(describe(t, it, st, x) for x in extra))}")
        ctx.expect(not wrong, "successors", f"{key}:{getattr(scope, 'name', 'module')}", where, f"with {name}: {'; '.join(wrong)}:\n{text}", name)
        if ref.locs:
            seen, work = set(), list(g.entry(ref.locs[0]))
            while work:
                x = work.pop()
                if x in seen or x == "EXIT":
                    continue
                seen.add(x)
                n = next((n for n, y in terms.items() if y == x), None)
                work += list(g.after(n) or ()) if n is not None else []
            missed = [describe(t, it, st, terms[n]) for n in ref.locs if n in ref.reached() and terms[n] not in seen]
            ctx.expect(not missed, "reachable", f"{key}:{getattr(scope, 'name', 'module')}", where, f"with {name}, {', '.join(missed)} cannot be reached in the control-flow graph:\n{text}", name)


def check(ctx):
    it, t, cls = session(ctx)
    for name, text in programs():
        try:
            compile(text, name, "exec")
        except SyntaxError:     # e.g. async for in a function that is not asynchronous
            continue
        judge(ctx, it, t, cls, name, text)
    ctx.absorb(it)
