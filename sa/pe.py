"""Reachability by partial evaluation: which constructs of the checks can be reached from which entry point when
some facts are fixed (the set of enabled messages, whether an analysis succeeded).

A light interprocedural abstract interpreter for the checkers: values are small sets of terms (constants,
functions with their closure, instances, literal tuples), everything else is TOP (None).  Branches whose test is
decided by the fixed facts are pruned; all others are followed both ways.  Function bodies are re-walked until the
summaries are stable.  Nothing of the package is executed.
"""
from __future__ import annotations
import ast
from .program import Class, Func, AnalysisBroken

TOP = None
BOT = frozenset()
SCALAR = frozenset([("scalar",)])
SCALAR_ATTRS = {"lineno", "fromlineno", "tolineno", "col_offset", "end_lineno", "end_col_offset", "name"}
SCALAR_METHODS = {"as_string", "pytype", "qname"}
MAXT = 24
MAXCTX = 14
BUILTIN_METHODS = set(dir(str)) | set(dir(list)) | set(dir(dict)) | set(dir(set)) | set(dir(int)) | set(dir(tuple))
CONST_OK = (str, int, bool, type(None), float)


def c(v):
    return frozenset([("c", type(v).__name__, v)])


def join(a, b):
    if a is TOP or b is TOP:
        return TOP
    r = a | b
    return TOP if len(r) > MAXT else r


def depth(av):
    d = 0
    for t in av or ():
        if t[0] == "tup":
            d = max([d] + [1 + depth(x) for x in t[1]])
        elif t[0] == "nt":
            d = max([d] + [1 + depth(x) for _, x in t[2]])
    return d


def consts(av):
    return [t[2] for t in av or () if t[0] == "c"]


def truth(av):
    """True / False / None (unknown)"""
    if av is TOP or not av:
        return None
    r = set()
    for t in av:
        if t[0] == "c":
            r.add(bool(t[2]))
        elif t[0] == "tv":
            r.add(t[1])
        elif t[0] == "tup":
            r.add(bool(t[1]))
        elif t[0] in ("fn", "cls", "self", "bm", "nt", "inst", "enum", "node"):
            r.add(True)
        else:
            return None
    return r.pop() if len(r) == 1 else None


class Event:
    __slots__ = ("kind", "node", "func", "data", "entry")

    def __init__(self, kind, node, func, data, entry):
        self.kind, self.node, self.func, self.data, self.entry = kind, node, func, data, entry


class Act:
    """one activation (function in a context)"""

    def __init__(self, func, key, parent):
        self.func, self.key, self.parent = func, key, parent
        self.acc = {}  # name -> join of all values it ever has (what closures see)
        self.ret = BOT
        self.done_round = -1
        self.callers = set()


class PE:
    def __init__(self, prog, fold, enabled=None, decide=None, entry_deco=True):
        """enabled: set of message ids that are on, or None when unknown; decide(pe, node, base_av)->True/False/None for attribute reads"""
        self.prog, self.fold = prog, fold
        self.enabled, self.decide = enabled, decide
        self.events = {}
        self.acts = {}
        self.funcs = set()
        self.calls = set()
        self.entry = None
        self.methods_by_name = {}
        for cl in prog.classes.values():
            for n, f in cl.methods.items():
                self.methods_by_name.setdefault(n, []).append(f)
        self.ctx_count = {}
        self.globs = {}
        self.fnstack = []
        self.steps = 0
        self.watch_names = {}  # resolved global -> kind
        self.skip = set()  # functions not looked into
        self.watch_attrs = {}  # attribute name -> kind
        self.edges = {}
        self.unpacked = {}

    # ------------------------------------------------------------------ driving
    def run_entries(self, entries):
        """entries: list of (label, Func, [args]); returns events"""
        while True:
            self.round = getattr(self, "round", 0) + 1
            self.changed = False
            for label, f, args in entries:
                self.entry = label
                self.call_decorated(f, args, {}, f.node)
            if not self.changed or self.round > 12:
                break
        if self.changed:
            raise AnalysisBroken("partial evaluation did not reach a fixed point")
        return list(self.events.values())

    def event(self, kind, node, data=()):
        k = (kind, id(node), data, self.entry)
        if k not in self.events:
            self.events[k] = Event(kind, node, self.fnstack[-1].func if self.fnstack else None, data, self.entry)

    # ------------------------------------------------------------------ function values
    def func_value(self, f, act):
        """term of a function as its name is bound (decorators applied)"""
        raw = frozenset([("fn", f, act)])
        v = raw
        for d in reversed(f.decorators()):
            dv = self.deco(d, f, act)
            if dv is not None:
                v = self.apply(dv, [v], {}, d)
        return v

    def deco(self, d, f, act):
        target = d.func if isinstance(d, ast.Call) else d
        r = self.prog.resolve_expr(f.module, target)
        if r and r[0] == "func":
            if isinstance(d, ast.Call):
                a = [self.ev(x, {}, act, f.module) for x in d.args]
                k = {x.arg: self.ev(x.value, {}, act, f.module) for x in d.keywords if x.arg}
                return self.apply(frozenset([("fn", r[1], None)]), a, k, d)
            return frozenset([("fn", r[1], None)])
        return None  # external decorators: identity

    def call_decorated(self, f, args, kw, node, act=None):
        return self.apply(self.func_value(f, act), args, kw, node)

    def is_property(self, f):
        for d in f.decorators():
            n = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ""
            if n in ("property", "cached_property"):
                return True
        return False

    def is_static(self, f):
        return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorators())

    def is_classm(self, f):
        return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in f.decorators())

    # ------------------------------------------------------------------ application
    def apply(self, fav, args, kw, node):
        if fav is TOP:
            self.escape(args, kw, node)
            return TOP
        r = BOT
        for t in fav:
            r = join(r, self.apply1(t, args, kw, node))
        return r

    def apply1(self, t, args, kw, node):
        if t[0] == "fn":
            return self.call_fn(t[1], t[2], args, kw, node)
        if t[0] == "bm":
            return self.apply(t[2], [t[1]] + args, kw, node)
        if t[0] == "cls":
            return self.construct(t[1], args, kw, node)
        if t[0] == "ntc":
            return self.make_nt(t[1], t[2], args, kw, node)
        if t[0] == "partial":
            return self.apply(t[1], list(t[2]) + args, {**dict(t[3]), **kw}, node)
        if t[0] == "lru":
            return frozenset([("scalar",)]) if not args else args[0]
        self.escape(args, kw, node)
        return TOP

    def make_nt(self, name, fields, args, kw, node):
        vals = []
        flat = self.flatten(args)
        if flat is None:
            flat = []
            for a in args:
                if isinstance(a, list):
                    break
                flat.append(a)
        args = flat
        for i, f in enumerate(fields):
            vals.append((f, args[i] if i < len(args) else kw.get(f, TOP)))
        v = frozenset([("nt", name, tuple(vals))])
        return v if depth(v) < 5 else TOP

    def flatten(self, args):
        """expand ('*', av) markers; None if not possible"""
        out = []
        for a in args:
            if isinstance(a, list):  # star
                av = a[0]
                if av is TOP:
                    return None
                vals = [list(t[1]) if t[0] == "tup" else [v for _, v in t[2]] if t[0] == "nt" else None
                        for t in av if t != ("c", "NoneType", None)]
                if not vals or None in vals or len({len(v) for v in vals}) != 1:
                    return None
                cols = vals[0]
                for v in vals[1:]:
                    cols = [join(p, q) for p, q in zip(cols, v)]
                out.extend(cols)
            else:
                out.append(a)
        return out

    def construct(self, cl, args, kw, node):
        if any(isinstance(k, str) and k.rsplit(".", 1)[-1] in ("NamedTuple",) for k in self.prog.mro(cl)):
            fields = [s.target.id for s in cl.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            return self.make_nt(cl.name, fields, args, kw, node)
        inst = frozenset([("inst", cl)])
        f = self.prog.find_method(cl, "__init__")
        if f is not None:
            self.apply(self.func_value(f, None), [inst] + args, kw, node)
        else:
            self.escape(args, kw, node)
        return inst

    def escape(self, args, kw, node):
        """functions handed to code that is not followed may be called with anything"""
        for a in list(args) + list(kw.values()):
            if isinstance(a, list):
                a = a[0]
            self.escape_val(a, node, 0)

    def escape_val(self, a, node, d):
        if a is TOP or d > 3:
            return
        for t in a:
            if t[0] == "fn":
                n = len(t[1].node.args.args) + len(t[1].node.args.posonlyargs)
                self.call_fn(t[1], t[2], [TOP] * n, {}, node)
            elif t[0] == "bm":
                for u in t[2] or ():
                    if u[0] == "fn":
                        n = len(u[1].node.args.args) + len(u[1].node.args.posonlyargs)
                        self.call_fn(u[1], u[2], [t[1]] + [TOP] * max(0, n - 1), {}, node)
            elif t[0] == "tup":
                for x in t[1]:
                    self.escape_val(x, node, d + 1)
            elif t[0] == "nt":
                for _, x in t[2]:
                    self.escape_val(x, node, d + 1)

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        flat = self.flatten(args)
        env = {}
        if flat is None:
            i = 0
            for x in args:
                if isinstance(x, list):
                    break
                if i < len(names):
                    env[names[i]] = x
                i += 1
            for n in names[i:]:
                env[n] = TOP
            if a.vararg:
                env[a.vararg.arg] = TOP
        else:
            for n, v in zip(names, flat):
                env[n] = v
            if a.vararg:
                env[a.vararg.arg] = frozenset([("tup", tuple(flat[len(names):]))])
        extra = {}
        for k, v in kw.items():
            if k == "**":
                for t in v or ():
                    if t[0] == "kw":
                        for kk, vv in t[1]:
                            env.setdefault(kk, vv)
                continue
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = frozenset([("kw", tuple(sorted(extra.items(), key=lambda p: p[0])))])
        return env

    def call_fn(self, f, parent, args, kw, node):
        if f.qual in self.skip:
            self.escape(args, kw, node)
            return TOP
        env = self.bind(f, args, kw)
        a = f.node.args
        # defaults
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg not in env:
                env[p.arg] = self.ev(d, {}, parent, f.module)
        for p in pos + a.kwonlyargs:
            env.setdefault(p.arg, TOP)
        env = {k: (v if v is TOP or depth(v) < 4 else TOP) for k, v in env.items()}
        key = (f, parent.key if parent else None, tuple(sorted(((k, v) for k, v in env.items()), key=lambda p: p[0])))
        key = (f, id(parent) if parent else None, key[2])
        act = self.acts.get(key)
        if act is None:
            n = self.ctx_count.get((f, id(parent)), 0)
            if n >= MAXCTX:
                env = {k: (v if v is not TOP and all(t[0] in ("fn", "self", "bm", "inst") for t in v) and len(v) <= 2 else TOP) for k, v in env.items()}
                key = (f, id(parent) if parent else None, tuple(sorted(env.items(), key=lambda p: p[0])))
                act = self.acts.get(key)
                if act is None and n >= 3 * MAXCTX:
                    env = {k: TOP for k in env}
                    key = (f, id(parent) if parent else None, tuple(sorted(env.items(), key=lambda p: p[0])))
                    act = self.acts.get(key)
            if act is None:
                act = Act(f, key, parent)
                self.acts[key] = act
                self.ctx_count[(f, id(parent))] = n + 1
                self.changed = True
        if self.fnstack:
            self.edges.setdefault((self.fnstack[-1].func.qual, f.qual), node)
        tag = (self.round, self.entry)
        if act.done_round == tag:
            return act.ret
        act.done_round = tag
        self.funcs.add(f.qual)
        self.fnstack.append(act)
        if len(self.fnstack) > 150:
            raise AnalysisBroken("call depth exceeded in partial evaluation")
        try:
            e = dict(env)
            mut = self.mutable(f, params=True)
            for k, v in e.items():
                if k in mut and v is not TOP and any(x[0] in ("tup", "map") for x in v):
                    e[k] = v = TOP
                self.note(act, k, v)
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body, e, act, f.module)
            else:
                r, end = self.block(f.node.body, e, act)
                if end is not None:
                    r = join(r, c(None))
                if f.is_generator():
                    r = TOP
        finally:
            self.fnstack.pop()
        n = join(act.ret, r)
        if n is not TOP and depth(n) >= 5:
            n = TOP
        if n != act.ret:
            act.ret = n
            self.changed = True
        return act.ret

    def note(self, act, name, v):
        old = act.acc.get(name, BOT)
        n = join(old, v)
        if n != old or name not in act.acc:
            act.acc[name] = n
            self.changed = True

    # ------------------------------------------------------------------ statements
    # block -> (returned value, env after or None when it does not fall through)
    def block(self, body, env, act):
        ret = BOT
        for s in body:
            self.steps += 1
            if self.steps > 3_000_000:
                raise AnalysisBroken("partial evaluation exceeded its step budget")
            r, env = self.stmt(s, env, act)
            ret = join(ret, r) if r != BOT else ret
            if env is None:
                break
        else:
            return ret, env
        return ret, None

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b:
                out[k] = join(a[k], b[k])
            else:
                out[k] = a.get(k, b.get(k))
        return out

    def assign(self, t, v, env, act):
        m = act.func.module
        if isinstance(t, ast.Name):
            if v is not TOP and t.id in self.mutable(act.func) and any(x[0] in ("tup", "map") for x in v):
                v = TOP
            env[t.id] = v
            self.note(act, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            parts = [TOP] * n
            if all(isinstance(x, ast.Name) for x in t.elts):
                self.unpacked[(act, tuple(x.id for x in t.elts))] = v
            if v is not TOP and v:
                cols = [BOT] * n
                good = True
                for x in v:
                    if x == ("c", "NoneType", None):
                        continue  # unpacking None raises
                    vals = list(x[1]) if x[0] == "tup" else [y for _, y in x[2]] if x[0] == "nt" else None
                    if vals is None:
                        good = False
                        break
                    star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                    if star:
                        i = star[0]
                        after = n - i - 1
                        if len(vals) < n - 1:
                            continue
                        mid = vals[i:len(vals) - after]
                        vals = vals[:i] + [frozenset([("tup", tuple(mid))])] + vals[len(vals) - after:]
                    if len(vals) != n:
                        continue
                    cols = [join(a, b) for a, b in zip(cols, vals)]
                if good:
                    parts = cols
            for e, p in zip(t.elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, p, env, act)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, act)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, env, act, m)
            self.event("store-attr", t, (t.attr,))
            self.escape_val(v, t, 0)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env, act, m)
            self.ev(t.slice, env, act, m)
            self.escape_val(v, t, 0)

    def stmt(self, s, env, act):
        m = act.func.module
        ev = lambda e: self.ev(e, env, act, m)
        if isinstance(s, ast.Expr):
            ev(s.value)
            return BOT, (None if self.noreturn(s.value, act) else env)
        if isinstance(s, ast.Return):
            return (ev(s.value) if s.value is not None else c(None)), None
        if isinstance(s, ast.Assign):
            v = ev(s.value)
            env = dict(env)
            for t in s.targets:
                self.assign(t, v, env, act)
            return BOT, env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = ev(s.value)
                env = dict(env)
                self.assign(s.target, v, env, act)
            return BOT, env
        if isinstance(s, ast.AugAssign):
            v = ev(s.value)
            old = self.ev(s.target, env, act, m) if isinstance(s.target, ast.Name) else TOP
            if not isinstance(s.target, ast.Name):
                ev(s.target.value)
            env = dict(env)
            self.assign(s.target, self.binop(s.op, old, v), env, act)
            return BOT, env
        if isinstance(s, ast.If):
            tv = truth(ev(s.test))
            r1, e1 = (BOT, None)
            r2, e2 = (BOT, None)
            if tv is not False:
                r1, e1 = self.block(s.body, dict(env), act)
            if tv is not True:
                r2, e2 = self.block(s.orelse, dict(env), act)
            return join(r1, r2), self.merge(e1, e2)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = ev(s.iter)
            ret, out = BOT, dict(env)
            elems = None
            if it is not TOP and len(it) == 1:
                (t,) = it
                if t[0] == "tup" and len(t[1]) <= 20:
                    elems = list(t[1])
            if elems is not None:
                cur = dict(env)
                stack = getattr(self, "loops", [])
                for v in elems:
                    e = dict(cur)
                    self.assign(s.target, v, e, act)
                    self.brk = getattr(self, "brk", [])
                    self.brk.append([])
                    r, e = self.block(s.body, e, act)
                    outs = self.brk.pop()
                    ret = join(ret, r)
                    nxt = e
                    for k, o in outs:
                        if k == "continue":
                            nxt = self.merge(nxt, o)
                        else:
                            out = self.merge(out, o)
                    if nxt is None:
                        cur = None
                        break
                    cur = nxt
                if cur is not None:
                    r, e = self.block(s.orelse, dict(cur), act)
                    ret = join(ret, r)
                    out = self.merge(out, e) if elems and e is not None else (e if e is not None else out)
                return ret, out
            item = self.element(it)
            return self.loop(s, env, act, lambda e: self.assign(s.target, item, e, act), None)
        if isinstance(s, ast.While):
            return self.loop(s, env, act, None, s.test)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            env = dict(env)
            for i in s.items:
                v = ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, TOP, env, act)
            return self.block(s.body, env, act)
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            r, e = self.block(s.body, dict(env), act)
            mid = self.merge(dict(env), e)
            ret = r
            if e is not None and s.orelse:
                r2, e = self.block(s.orelse, e, act)
                ret = join(ret, r2)
            for h in s.handlers:
                he = dict(mid)
                if h.name:
                    he[h.name] = TOP
                r2, e2 = self.block(h.body, he, act)
                ret = join(ret, r2)
                e = self.merge(e, e2)
            if s.finalbody:
                r2, e2 = self.block(s.finalbody, dict(e if e is not None else mid), act)
                ret = join(ret, r2)
                e = e2 if e is not None else None
            return ret, e
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = self.prog.func_of_node[s]
            env = dict(env)
            v = self.func_value(f, act)
            env[s.name] = v
            self.note(act, s.name, v)
            return BOT, env
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                ev(s.exc)
            self.event("raise", s)
            return BOT, None
        if isinstance(s, ast.Assert):
            tv = truth(ev(s.test))
            return BOT, (None if tv is False else env)
        if isinstance(s, (ast.Break, ast.Continue)):
            b = getattr(self, "brk", [])
            if b:
                b[-1].append(("break" if isinstance(s, ast.Break) else "continue", env))
            return BOT, None
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    ev(t.value)
            return BOT, env
        if isinstance(s, ast.Match):
            v = ev(s.subject)
            ret, out = BOT, dict(env)
            for k in s.cases:
                e = dict(env)
                for n in ast.walk(k.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        e[n.name] = TOP
                if k.guard is not None and truth(self.ev(k.guard, e, act, m)) is False:
                    continue
                r, e = self.block(k.body, e, act)
                ret = join(ret, r)
                out = self.merge(out, e)
            return ret, out
        return BOT, env

    def noreturn(self, e, act):
        return isinstance(e, ast.Call) and self.prog.resolve_expr(act.func.module, e.func) == ("ext", "sys.exit")

    def loop(self, s, env, act, bind, test):
        ret, cur = BOT, dict(env)
        out = None
        for i in range(4):
            e = dict(cur)
            tv = None
            if test is not None:
                tv = truth(self.ev(test, e, act, act.func.module))
                if tv is False and i == 0:
                    r, e2 = self.block(s.orelse, dict(e), act)
                    return r, e2
            if bind:
                bind(e)
            self.brk = getattr(self, "brk", [])
            self.brk.append([])
            r, e = self.block(s.body, e, act)
            outs = self.brk.pop()
            ret = join(ret, r)
            for k, o in outs:
                if k == "continue":
                    e = self.merge(e, o)
                else:
                    out = self.merge(out, o)
            n = self.merge(dict(cur), e)
            if n == cur:
                break
            cur = n
        if not (test is not None and truth(self.ev(test, cur, act, act.func.module)) is True):
            r, e = self.block(s.orelse, dict(cur), act)
            ret = join(ret, r)
            out = self.merge(out, e)
        return ret, out

    PURE = {"len", "any", "all", "tuple", "sorted", "enumerate", "zip", "sum", "min", "max", "isinstance", "str", "repr", "reversed", "set", "list", "frozenset", "print", "iter"}
    MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "add", "update", "discard", "setdefault", "popitem", "sort", "reverse", "popleft",
                "appendleft", "difference_update", "intersection_update", "symmetric_difference_update"}

    def mutable(self, f, params=False):
        """names of collections that the function may change in place (or hands to someone who may)"""
        cache = self.__dict__.setdefault("_mut", {})
        if (f, params) in cache:
            return cache[(f, params)]
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in self.MUTATORS:
                out.add(n.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
            elif isinstance(n, ast.Call) and not params:
                if isinstance(n.func, ast.Name) and n.func.id in self.PURE:
                    continue
                for a in list(n.args) + [k.value for k in n.keywords if k.arg != "args"]:
                    if isinstance(a, ast.Name):
                        out.add(a.id)
        # tuples are not lists: names bound to a tuple display only stay exact
        tup, other = set(), set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                (tup if isinstance(n.value, (ast.Tuple, ast.Constant, ast.JoinedStr, ast.BinOp, ast.IfExp)) else other).add(n.targets[0].id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not isinstance(getattr(n, "parent", None), ast.Assign):
                other.add(n.id)
        if not params:
            out -= tup - other
        cache[(f, params)] = out
        return out

    def element(self, av):
        if av is TOP:
            return TOP
        r = BOT
        for t in av:
            if t[0] == "tup":
                for x in t[1]:
                    r = join(r, x)
            elif t[0] == "nt":
                for _, x in t[2]:
                    r = join(r, x)
            else:
                return TOP
        return r

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env, act, m):
        k = getattr(self, "x_" + type(e).__name__, None)
        if k is None:
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x, env, act, m)
            return TOP
        r = k(e, env, act, m)
        if r is not TOP and len(r) > MAXT:
            r = TOP
        return r

    def x_Constant(self, e, env, act, m):
        return c(e.value) if isinstance(e.value, CONST_OK) else SCALAR

    def x_Name(self, e, env, act, m):
        if e.id in env:
            return env[e.id]
        a = act
        first = True
        while a is not None:
            if e.id in a.acc and not (first and False):
                return a.acc[e.id]
            a = a.parent
            first = False
        return self.glob(self.prog.resolve_global(m, e.id), e)

    def glob(self, r, e):
        if r is None:
            return TOP
        if r[0] == "func":
            if r[1].cls is None or True:
                key = ("func", r[1])
                if key not in self.globs:
                    self.globs[key] = frozenset([("fn", r[1], None)])
                    self.globs[key] = self.func_value(r[1], None)
                return self.globs[key]
        if r[0] == "class":
            return frozenset([("cls", r[1])])
        if r[0] == "ext":
            return frozenset([("ext", r[1])])
        if r[0] == "module":
            return frozenset([("mod", r[1])])
        if r[0] == "var":
            k = self.watch_names.get((r[1].name, r[2]))
            if k:
                return frozenset([("watched", k)])
            key = ("var", r[1].name, r[2])
            if key not in self.globs:
                self.globs[key] = TOP
                b = [x for x in r[1].names.get(r[2], []) if x[0] == "assign"]
                if len(b) == 1 and isinstance(b[0][1], (ast.Assign, ast.AnnAssign)) and (
                        isinstance(b[0][1], ast.AnnAssign) or (len(b[0][1].targets) == 1 and isinstance(b[0][1].targets[0], ast.Name))):
                    v = b[0][1].value
                    if isinstance(v, ast.Call) and self.prog.resolve_expr(r[1], v.func) in (("ext", "collections.namedtuple"),):
                        f = v.args[1] if len(v.args) > 1 else None
                        if isinstance(f, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in f.elts):
                            fields = [x.value for x in f.elts]
                        elif isinstance(f, ast.Constant) and isinstance(f.value, str):
                            fields = f.value.replace(",", " ").split()
                        else:
                            fields = None
                        self.globs[key] = frozenset([("ntc", r[2], tuple(fields))]) if fields else TOP
                    else:
                        self.globs[key] = self.from_fold(self.fold.glob(r[1].name, r[2]), v, r[1])
            return self.globs[key]
        if r[0] == "classattr":
            return self.class_attr(r[1], r[2], e)
        return TOP

    def from_fold(self, v, node=None, m=None, d=0):
        if isinstance(v, CONST_OK):
            return c(v)
        if isinstance(v, (list, tuple)) and d < 3 and len(v) <= 60:
            return frozenset([("tup", tuple(self.from_fold(x, None, m, d + 1) for x in v))])
        if isinstance(v, (set, frozenset)) and d < 3 and len(v) <= 60 and all(isinstance(x, CONST_OK) for x in v):
            return frozenset([("tup", tuple(c(x) for x in sorted(v, key=str)))])
        cls = type(v).__name__
        if cls == "EnumV":
            return frozenset([("enum", v.cls, v.name)])
        if cls == "FnV" and v.self_ is None:
            return frozenset([("fn", v.func, None)])
        if cls == "ClsV" and v.qual in self.prog.classes:
            return frozenset([("cls", self.prog.classes[v.qual])])
        return TOP

    def class_attr(self, cl, attr, e):
        f = self.prog.find_method(cl, attr)
        if f is not None:
            return self.glob(("func", f), e)
        v = self.fold.class_attr(cl, attr)
        return self.from_fold(v)

    def x_Attribute(self, e, env, act, m):
        if e.attr in self.watch_attrs:
            self.event(self.watch_attrs[e.attr], e, (e.attr,))
        b = self.ev(e.value, env, act, m)
        if self.decide is not None:
            d = self.decide(self, e, b)
            if d is not None:
                return c(d)
        return self.getattr(b, e.attr, e)

    def getattr(self, b, attr, e):
        if b is TOP:
            return self.top_attr(attr, e)
        r = BOT
        for t in b:
            r = join(r, self.getattr1(t, attr, e))
        return r

    def top_attr(self, attr, e):
        if attr in SCALAR_ATTRS:
            return SCALAR
        fs = self.methods_by_name.get(attr, [])
        if attr in SCALAR_METHODS and not fs:
            return frozenset([("valm", SCALAR, attr)])
        if not fs or attr in BUILTIN_METHODS or attr.startswith("__") or attr.startswith("visit"):
            return TOP
        if isinstance(e.value, (ast.Name, ast.Attribute)) and False:
            return TOP
        r = frozenset([("byname", attr)])
        for f in fs:
            if self.is_property(f):
                self.apply(frozenset([("fn", f, None)]), [frozenset([("inst", f.cls)])], {}, e)
                return TOP
        return r

    def getattr1(self, t, attr, e):
        k = t[0]
        if k in ("self", "inst"):
            cl = t[1]
            f = self.prog.find_method(cl, attr)
            if f is not None:
                fv = self.glob(("func", f), e)
                if self.is_property(f):
                    return self.apply(fv, [frozenset([t])], {}, e)
                if self.is_static(f):
                    return fv
                return frozenset([("bm", frozenset([("cls", cl)]) if self.is_classm(f) else frozenset([t]), fv)])
            if k == "self" and attr in ("add_message", "linter"):
                return frozenset([("chk", cl, attr)])
            v = self.class_attr(cl, attr, e)
            return v
        if k == "chk" and t[2] == "linter":
            return frozenset([("chk", t[1], "linter." + attr)])
        if k == "cls":
            return self.class_attr(t[1], attr, e)
        if k == "mod":
            return self.glob(self.prog.resolve_attr(("module", t[1]), attr), e)
        if k == "ext":
            return frozenset([("ext", f"{t[1]}.{attr}")])
        if k == "nt":
            for n, v in t[2]:
                if n == attr:
                    return v
            return TOP
        if k == "watched":
            self.event(t[1], e, (attr,))
            return frozenset([t])
        if k in ("c", "scalar", "tup"):
            return frozenset([("valm", frozenset([t]), attr)])
        return TOP

    def x_Call(self, e, env, act, m):
        self.calls.add(id(e))
        f = e.func
        # any()/all() over a generator
        fv = self.ev(f, env, act, m)
        if fv is not TOP and fv and all(t[0] == "ext" and t[1] in ("builtins.any", "builtins.all") for t in fv) and len(e.args) == 1:
            isany = any(t[1].endswith("any") for t in fv)
            vals = self.elements_truth(e.args[0], env, act, m)
            if vals is not None:
                if isany:
                    return c(True) if True in vals else c(False) if all(v is False for v in vals) else TOP
                return c(False) if False in vals else c(True) if all(v is True for v in vals) else TOP
            return TOP
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append([self.ev(a.value, env, act, m)])
            else:
                args.append(self.ev(a, env, act, m))
        for k in e.keywords:
            v = self.ev(k.value, env, act, m)
            kw[k.arg or "**"] = v
        if fv is TOP:
            if isinstance(f, ast.Attribute) and f.attr in ("add_message", "is_message_enabled"):
                return self.checker_call(f.attr, None, args, kw, e)
            if isinstance(f, ast.Attribute) and f.attr == "accept":
                self.accept(args, e)
            self.escape(args, kw, e)
            return TOP
        r = BOT
        for t in fv:
            if t[0] == "chk":
                r = join(r, self.checker_call(t[2].rsplit(".", 1)[-1], t[1], args, kw, e))
            elif t[0] == "byname":
                self.escape_byname(t[1], args, kw, e)
                r = TOP
            elif t[0] == "ext":
                r = join(r, self.ext_call(t[1], args, kw, e, env, act, m))
            elif t[0] == "valm":
                r = join(r, self.val_method(t[1], t[2], args, kw, e))
            elif t[0] == "watched":
                r = TOP
                self.escape(args, kw, e)
            else:
                r = join(r, self.apply1(t, args, kw, e))
        return r

    def escape_byname(self, name, args, kw, e):
        if name == "accept":
            self.accept(args, e)
        for f in self.methods_by_name.get(name, []):
            if f.cls is None:
                continue
            if self.is_static(f):
                self.apply(self.glob(("func", f), e), args, kw, e)
            else:
                self.apply(self.glob(("func", f), e), [frozenset([("inst", f.cls)])] + args, kw, e)

    def accept(self, args, e):
        for a in args:
            for t in (a if not isinstance(a, list) else a[0]) or ():
                if t[0] in ("inst", "self"):
                    for k in self.prog.mro(t[1]):
                        if isinstance(k, Class):
                            for n, f in k.methods.items():
                                if n.startswith(("visit", "leave", "depart")):
                                    self.apply(self.glob(("func", f), e), [frozenset([t]), TOP], {}, e)

    def checker_call(self, name, cl, args, kw, e):
        if name == "is_message_enabled":
            ids = args[0] if args else kw.get("msg_descr", TOP)
            if isinstance(ids, list):
                ids = TOP
            self.event("enabled-test", e, (tuple(sorted(map(str, consts(ids)))),))
            if self.enabled is None or ids is TOP or not ids or any(t[0] != "c" for t in ids):
                return TOP
            on = {x in self.enabled for x in consts(ids)}
            return c(on.pop()) if len(on) == 1 else TOP
        if name == "add_message":
            ids = args[0] if args else kw.get("msgid", TOP)
            if isinstance(ids, list):
                ids = TOP
            mark = ("?",) if ids is TOP or any(t[0] != "c" for t in ids) else ()
            arity = self.arity(kw["args"] if "args" in kw else (args[3] if len(args) > 3 else c(None)))
            if self.correlated(e, cl):
                return c(None)
            for x in set(consts(ids)) | set(mark):
                self.event("add_message", e, (x, cl.qual if cl else None, arity))
            if ids is not TOP and not ids:
                pass
            return c(None)
        if name in ("linter",):
            return TOP
        self.escape(args, kw, e)
        return TOP

    def correlated(self, e, cl):
        """id and values taken from the same record: pair them up"""
        idn = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == "msgid"), None)
        arg = next((k.value for k in e.keywords if k.arg == "args"), e.args[3] if len(e.args) > 3 else None)
        act = self.fnstack[-1] if self.fnstack else None
        pairs = None
        if isinstance(idn, ast.Name) and isinstance(arg, ast.Name):
            for (a, names), v in self.unpacked.items():
                if a is act and idn.id in names and arg.id in names and v is not TOP:
                    i, j = names.index(idn.id), names.index(arg.id)
                    pairs = []
                    for t in v:
                        vals = list(t[1]) if t[0] == "tup" else [y for _, y in t[2]] if t[0] == "nt" else None
                        if t == ("c", "NoneType", None):
                            continue
                        if vals is None or len(vals) != len(names):
                            return False
                        pairs.append((vals[i], vals[j]))
        elif isinstance(idn, ast.Attribute) and isinstance(arg, ast.Attribute) and isinstance(idn.value, ast.Name) and isinstance(arg.value, ast.Name) \
                and idn.value.id == arg.value.id and act is not None:
            v = act.acc.get(idn.value.id, TOP)
            if v is TOP:
                return False
            pairs = []
            for t in v:
                if t[0] != "nt":
                    return False
                d = dict(t[2])
                pairs.append((d.get(idn.attr, TOP), d.get(arg.attr, TOP)))
        if not pairs:
            return False
        for i, a in pairs:
            mark = ("?",) if i is TOP or any(t[0] != "c" for t in i) else ()
            for x in set(consts(i)) | set(mark):
                self.event("add_message", e, (x, cl.qual if cl else None, self.arity(a)))
        return True

    def arity(self, av):
        """numbers of values a message gets; None if not known"""
        if av is TOP or not av:
            return None
        out = set()
        for t in av:
            if t[0] == "tup":
                out.add(len(t[1]))
            elif t[0] == "nt":
                out.add(len(t[2]))
            elif t[0] == "c":
                out.add(0 if t[2] is None else 1)
            elif t[0] == "scalar":
                out.add(1)
            else:
                return None
        return tuple(sorted(out))

    def elements_truth(self, a, env, act, m):
        if isinstance(a, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            vals = self.comp_values(a, env, act, m)
            if vals is None:
                return None
            return [None if maybe and truth(v) is not False else truth(v) for v, maybe in vals]
        v = self.ev(a, env, act, m)
        if v is TOP or len(v) != 1:
            return None
        (t,) = v
        if t[0] == "tup":
            return [truth(x) for x in t[1]]
        return None

    def comp_values(self, a, env, act, m):
        """[(value, only maybe present)] or None when the iterated collections are not known"""
        out = []
        known = [True]

        def go(i, env, maybe):
            if i == len(a.generators):
                v = self.ev(a.elt if not isinstance(a, ast.DictComp) else a.value, env, act, m)
                if isinstance(a, ast.DictComp):
                    self.ev(a.key, env, act, m)
                out.append((v, maybe))
                return
            g = a.generators[i]
            it = self.ev(g.iter, env, act, m)
            elems = None
            if it is not TOP and len(it) == 1:
                (t,) = it
                if t[0] == "tup":
                    elems = list(t[1])
            if elems is None:
                known[0] = False
                elems = [self.element(it)]
            for v in elems:
                e = dict(env)
                self.assign(g.target, v, e, act)
                mb, drop = maybe, False
                for cond in g.ifs:
                    tv = truth(self.ev(cond, e, act, m))
                    if tv is False:
                        drop = True
                        break
                    if tv is None:
                        mb = True
                if not drop:
                    go(i + 1, e, mb)

        go(0, dict(env), False)
        return out if known[0] else None

    def x_GeneratorExp(self, e, env, act, m):
        v = self.comp_values(e, env, act, m)
        if v is not None and all(not mb for _, mb in v) and len(v) <= 20:
            return frozenset([("tup", tuple(x for x, _ in v))])
        return TOP

    x_ListComp = x_GeneratorExp
    x_SetComp = x_GeneratorExp

    def x_DictComp(self, e, env, act, m):
        self.comp_values(e, env, act, m)
        return TOP

    def ext_call(self, name, args, kw, e, env, act, m):
        n = name.rsplit(".", 1)[-1]
        if name in ("builtins.bool",) and len(args) == 1:
            t = truth(args[0]) if not isinstance(args[0], list) else None
            return TOP if t is None else c(t)
        if name in ("builtins.str", "builtins.repr", "builtins.len", "builtins.int", "builtins.float", "builtins.chr", "builtins.ord", "builtins.format",
                    "builtins.round", "builtins.hex", "builtins.oct", "builtins.bin"):
            self.escape(args, kw, e)
            if name == "builtins.len" and len(args) == 1 and not isinstance(args[0], list) and args[0] is not TOP and args[0] and all(t[0] == "tup" for t in args[0]):
                return frozenset(("c", "int", len(t[1])) for t in args[0])
            if name == "builtins.str" and len(args) == 1 and not isinstance(args[0], list) and args[0] is not TOP and args[0] and all(t[0] == "c" for t in args[0]):
                return frozenset(("c", "str", str(t[2])) for t in args[0])
            return SCALAR
        if name in ("builtins.tuple", "builtins.list", "builtins.iter", "builtins.sorted", "builtins.frozenset", "builtins.set", "builtins.reversed"):
            if len(args) == 1 and not isinstance(args[0], list):
                if args[0] is not TOP and len(args[0]) == 1 and next(iter(args[0]))[0] == "tup":
                    return args[0]
            elif not args:
                return frozenset([("tup", ())])
            self.escape(args, kw, e)
            return TOP
        if name == "functools.partial" and args and not isinstance(args[0], list):
            if all(not isinstance(a, list) for a in args):
                return frozenset([("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items(), key=lambda p: p[0])))])
        if name == "typing.cast" and len(args) == 2:
            return args[1]
        if name == "builtins.getattr" and len(args) >= 2 and not isinstance(args[1], list) and args[1] is not TOP and args[1] and all(t[0] == "c" for t in args[1]):
            r = BOT
            for x in consts(args[1]):
                fake = ast.Attribute(value=e.args[0], attr=str(x), ctx=ast.Load())
                ast.copy_location(fake, e)
                fake.mod_ = e.mod_
                if fake.attr in self.watch_attrs:
                    self.event(self.watch_attrs[fake.attr], e, (fake.attr,))
                r = join(r, self.getattr(args[0] if not isinstance(args[0], list) else TOP, fake.attr, fake))
            return r
        if name == "builtins.super":
            cl = self.fnstack[-1].func.cls if self.fnstack else None
            f = self.fnstack[-1].func if self.fnstack else None
            while cl is None and f is not None and f.parent is not None:
                f = f.parent
                cl = f.cls
            if cl is not None:
                for k in self.prog.mro(cl)[1:]:
                    if isinstance(k, Class):
                        return frozenset([("inst", k)])
            return TOP
        self.escape(args, kw, e)
        if name == "builtins.isinstance" and len(args) == 2 and not isinstance(args[0], list) and not isinstance(args[1], list):
            return self.isinstance_(args[0], args[1])
        return TOP

    def isinstance_(self, a, b):
        if a is TOP or b is TOP or not a or not b:
            return TOP
        kinds = []
        for t in b:
            for u in (t[1] if t[0] == "tup" else (frozenset([t]),)):
                if u is TOP or len(u) != 1:
                    return TOP
                (w,) = u
                if w[0] != "ext" or not w[1].startswith("astroid."):
                    return TOP
                kinds.append(w[1].rsplit(".", 1)[-1])
        res = set()
        for t in a:
            if t[0] != "node":
                return TOP
            anc = node_ancestors(t[1])
            if anc is None:
                return TOP
            res.add(any(k in anc for k in kinds))
        return c(res.pop()) if len(res) == 1 else TOP

    def val_method(self, b, attr, args, kw, e):
        if attr == "format" or attr in ("join", "strip", "lower", "upper", "replace", "lstrip", "rstrip", "title") or (
                attr in SCALAR_METHODS):
            vals = consts(b)
            if attr in ("lower", "upper", "strip", "title") and vals and len(vals) == len(b) and all(isinstance(v, str) for v in vals) and not args:
                return frozenset(("c", "str", getattr(v, attr)()) for v in vals)
            self.escape(args, kw, e)
            if attr == "format" and vals and len(vals) == len(b) and all(not isinstance(a, list) and a is not TOP and a and all(t[0] == "c" for t in a) for a in args) and not kw:
                import itertools
                out = set()
                for fmt in vals:
                    for combo in itertools.product(*[consts(a) for a in args]):
                        try:
                            out.add(("c", "str", fmt.format(*combo)))
                        except Exception:
                            return SCALAR
                return frozenset(out) if len(out) <= MAXT else TOP
            return SCALAR
        self.escape(args, kw, e)
        return SCALAR if attr in SCALAR_METHODS else TOP

    def x_JoinedStr(self, e, env, act, m):
        parts = [[""]]
        ok = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append([v.value])
            else:
                x = self.ev(v.value, env, act, m)
                if v.format_spec is not None:
                    self.ev(v.format_spec, env, act, m)
                if x is TOP or not x or any(t[0] != "c" for t in x) or v.format_spec is not None or v.conversion != -1:
                    ok = False
                else:
                    parts.append([str(t[2]) for t in x])
        if not ok:
            return SCALAR
        out = [""]
        for p in parts:
            out = [a + b for a in out for b in p]
            if len(out) > MAXT:
                return SCALAR
        return frozenset(("c", "str", s) for s in out)

    def binop(self, op, a, b):
        if isinstance(op, ast.Add) and a is not TOP and b is not TOP and a and b:
            if all(t[0] == "c" and isinstance(t[2], str) for t in a | b) and len(a) * len(b) <= MAXT:
                return frozenset(("c", "str", x[2] + y[2]) for x in a for y in b)
            if all(t[0] == "tup" for t in a | b) and len(a) * len(b) <= MAXT:
                return frozenset(("tup", x[1] + y[1]) for x in a for y in b)
        if isinstance(op, ast.Mod) and a is not TOP and a and all(t[0] in ("c", "scalar") for t in a):
            vals = consts(a)
            if len(vals) == len(a) and all(isinstance(v, str) for v in vals) and b is not TOP and b and all(t[0] == "c" for t in b):
                try:
                    return frozenset(("c", "str", x % y) for x in vals for y in consts(b))
                except Exception:
                    return SCALAR
            return SCALAR
        if any(x is not TOP and x and all(t[0] in ("scalar", "c") for t in x) for x in (a, b)):
            return SCALAR
        return TOP

    def x_BinOp(self, e, env, act, m):
        a, b = self.ev(e.left, env, act, m), self.ev(e.right, env, act, m)
        return self.binop(e.op, a, b)

    def x_BoolOp(self, e, env, act, m):
        r = BOT
        isand = isinstance(e.op, ast.And)
        known = True
        for i, v in enumerate(e.values):
            x = self.ev(v, env, act, m)
            t = truth(x)
            if t is (not isand):
                # short circuit: the result is decided here
                if r == BOT:
                    return x
                v = join(r, x)
                return frozenset([("tv", not isand)]) if truth(v) is None else v
            if i < len(e.values) - 1:
                if t is None:
                    # may stop here with a value of the short-circuit polarity
                    r = TOP if x is TOP else join(r, frozenset(y for y in x if truth(frozenset([y])) is not isand))
            else:
                r = join(r, x)
        return r

    def x_UnaryOp(self, e, env, act, m):
        x = self.ev(e.operand, env, act, m)
        if isinstance(e.op, ast.Not):
            t = truth(x)
            return TOP if t is None else c(not t)
        if x is not TOP and x and all(t[0] == "c" and isinstance(t[2], (int, float)) for t in x) and isinstance(e.op, ast.USub):
            return frozenset(("c", type(-t[2]).__name__, -t[2]) for t in x)
        return SCALAR

    def x_Compare(self, e, env, act, m):
        a = self.ev(e.left, env, act, m)
        bs = [self.ev(x, env, act, m) for x in e.comparators]
        if len(bs) != 1:
            return TOP
        op, b = e.ops[0], bs[0]
        if a is TOP or b is TOP or not a or not b:
            return TOP
        res = set()
        for x in a:
            for y in b:
                if x[0] == "enum" and y[0] == "enum" and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                    res.add((x == y) is isinstance(op, (ast.Eq, ast.Is)))
                elif x[0] == "c" and y[0] == "c":
                    if isinstance(op, (ast.Eq, ast.Is)):
                        res.add(x[2] == y[2] and type(x[2]) is type(y[2]))
                    elif isinstance(op, (ast.NotEq, ast.IsNot)):
                        res.add(not (x[2] == y[2] and type(x[2]) is type(y[2])))
                    elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and isinstance(x[2], (int, float)) and isinstance(y[2], (int, float)):
                        res.add({ast.Lt: x[2] < y[2], ast.LtE: x[2] <= y[2], ast.Gt: x[2] > y[2], ast.GtE: x[2] >= y[2]}[type(op)])
                    else:
                        return TOP
                elif isinstance(op, (ast.In, ast.NotIn)) and x[0] in ("c", "enum") and y[0] == "tup" and all(
                        z is not TOP and len(z) == 1 and next(iter(z))[0] in ("c", "enum") for z in y[1]):
                    r = any(next(iter(z)) == x or x[0] == "c" and next(iter(z))[0] == "c" and next(iter(z))[2] == x[2] for z in y[1])
                    res.add(r if isinstance(op, ast.In) else not r)
                elif isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and ("c", "NoneType", None) in (x, y) and (x if y == ("c", "NoneType", None) else y)[0] in (
                        "tup", "nt", "fn", "bm", "cls", "self", "inst"):
                    res.add(isinstance(op, (ast.IsNot, ast.NotEq)))
                else:
                    return TOP
        return c(res.pop()) if len(res) == 1 else TOP

    def x_IfExp(self, e, env, act, m):
        t = truth(self.ev(e.test, env, act, m))
        r = BOT
        if t is not False:
            r = join(r, self.ev(e.body, env, act, m))
        if t is not True:
            r = join(r, self.ev(e.orelse, env, act, m))
        return r

    def x_Lambda(self, e, env, act, m):
        f = self.prog.func_of_node.get(e)
        if f is None:
            return TOP
        return frozenset([("fn", f, act)])

    def x_NamedExpr(self, e, env, act, m):
        v = self.ev(e.value, env, act, m)
        self.assign(e.target, v, env, act)
        return v

    def seq(self, e, env, act, m):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, act, m)
                f = self.flatten([[v]])
                if f is None:
                    for y in e.elts[len(out):]:
                        pass
                    out = None
                    break
                out.extend(f)
            else:
                out.append(self.ev(x, env, act, m))
        if out is None or len(out) > 60:
            return TOP
        v = frozenset([("tup", tuple(out))])
        return v if depth(v) < 5 else TOP

    x_Tuple = seq
    x_List = seq
    x_Set = seq

    def x_Dict(self, e, env, act, m):
        for k in e.keys:
            if k is not None:
                self.ev(k, env, act, m)
        r = BOT
        for v in e.values:
            r = join(r, self.ev(v, env, act, m))
        return frozenset([("map", r)]) if r is not TOP and depth(r) < 3 else TOP

    def x_Subscript(self, e, env, act, m):
        b = self.ev(e.value, env, act, m)
        i = self.ev(e.slice, env, act, m)
        if b is TOP:
            return TOP
        r = BOT
        for t in b:
            if t[0] in ("tup", "nt"):
                vals = list(t[1]) if t[0] == "tup" else [v for _, v in t[2]]
                if isinstance(e.slice, ast.Slice):
                    return TOP
                if i is not TOP and i and all(x[0] == "c" and isinstance(x[2], int) for x in i):
                    for x in i:
                        if -len(vals) <= x[2] < len(vals):
                            r = join(r, vals[x[2]])
                else:
                    for v in vals:
                        r = join(r, v)
            elif t[0] == "map":
                r = join(r, t[1])
            else:
                return TOP
        return r

    def x_Slice(self, e, env, act, m):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, env, act, m)
        return TOP

    def x_Starred(self, e, env, act, m):
        return self.ev(e.value, env, act, m)

    def x_Await(self, e, env, act, m):
        return self.ev(e.value, env, act, m)

    def x_Yield(self, e, env, act, m):
        if e.value is not None:
            self.ev(e.value, env, act, m)
        return TOP

    def x_YieldFrom(self, e, env, act, m):
        self.ev(e.value, env, act, m)
        return TOP


_NODES = None


def node_ancestors(name):
    """names of the astroid classes a node class derives from (itself included)"""
    global _NODES
    if _NODES is None:
        import os
        from .msgs import site_packages
        _NODES = {}
        base = os.path.join(site_packages(), "astroid", "nodes")
        for rel in ("node_classes.py", "node_ng.py", "_base_nodes.py", "scoped_nodes/scoped_nodes.py", "scoped_nodes/mixin.py", "as_string.py"):
            p = os.path.join(base, rel)
            if os.path.exists(p):
                with open(p, encoding="utf-8") as f:
                    for n in ast.parse(f.read()).body:
                        if isinstance(n, ast.ClassDef):
                            bs = [b.value if isinstance(b, ast.Subscript) else b for b in n.bases]
                            _NODES[n.name] = [b.attr if isinstance(b, ast.Attribute) else b.id for b in bs if isinstance(b, (ast.Name, ast.Attribute))]
        if "If" not in _NODES:
            raise AnalysisBroken("astroid node classes not found")
    if name not in _NODES:
        return None
    out, todo = set(), [name]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo.extend(_NODES.get(x, []))
    return out


def visited(name):
    """abstract value of the node a visit method is called with"""
    node_ancestors("If")
    want = name.split("_", 1)[1].replace("_", "")
    for k in _NODES:
        if k.lower() == want:
            return frozenset([("node", k)])
    return TOP


def visits(prog, cl):
    """[(method name, Func, symbols it is required for or None)] of a checker class"""
    out = []
    seen = set()
    for k in prog.mro(cl):
        if not isinstance(k, Class):
            continue
        for n, f in k.methods.items():
            if n in seen or not n.startswith(("visit_", "leave_", "open", "close", "process_")):
                continue
            if not n.startswith(("visit_", "leave_")) and n not in ("open", "close", "process_module", "process_tokens"):
                continue
            seen.add(n)
            out.append((n, f))
    return out


def required_for(prog, fold, f):
    """arguments of only_required_for_messages (None when the visit is unconditional); (names, nodes)"""
    from .fold import Unk
    for d in f.decorators():
        if not isinstance(d, ast.Call):
            continue
        r = prog.resolve_expr(f.module, d.func)
        if r and r[0] == "ext" and r[1].rsplit(".", 1)[-1] in ("only_required_for_messages", "check_messages"):
            out = []
            for a in d.args:
                star = isinstance(a, ast.Starred)
                v = fold.expr(a.value if star else a, f.module)
                if isinstance(v, Unk) and f.cls is not None:
                    x = a.value if star else a
                    if isinstance(x, ast.Name):
                        v = fold.class_attr(f.cls, x.id)
                if isinstance(v, Unk):
                    raise AnalysisBroken(f"{f.qual}: required messages do not fold: {v!r}")
                for x in (v if star else [v]):
                    out.append((x, a))
            return out
    return None
