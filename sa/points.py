"""Whole-program points-to analysis: which objects an expression may denote, in which phase they were made, who changes them.

Inclusion based (Andersen), flow insensitive, field sensitive, with one context per phase: objects and variables of a function are kept
apart according to the phase its caller belongs to ("M" when modules are imported and plugins registered, "A" when the facts about a file
are computed, "C" when its checks run).  Objects of the syntax tree are N (a node) and L (a collection belonging to one).
"""
import ast

from .program import Class, func_locals

N, L, X = ("N",), ("L",), ("X",)        # a syntax tree node; a collection of one; something external of no interest
NODE_LISTS = {"body", "orelse", "handlers", "finalbody", "targets", "elts", "values", "ops", "args", "keywords", "generators", "ifs", "names", "items",
              "defaults", "kw_defaults", "posonlyargs", "kwonlyargs", "annotations", "bases", "nodes", "cases", "patterns", "kwd_patterns", "kwd_attrs",
              "locals", "globals", "type_params", "instance_attrs", "keys", "future_imports", "_astroid_fields", "_other_fields", "_comments"}
NODE_SCALARS = {"name", "attrname", "lineno", "col_offset", "end_lineno", "end_col_offset", "fromlineno", "tolineno", "op", "modname", "pytype", "level",
                "conversion", "file", "path", "position", "is_statement", "blockstart_tolineno", "package", "pure_python", "optional_assign", "asstr",
                "is_function", "newstyle", "type", "ctx", "kind", "arg", "rest", "col", "line", "stream", "file_bytes"}
NODE_CHILDREN = NODE_LISTS | {"target", "value", "test", "iter", "left", "right", "operand", "func", "expr", "slice", "lower", "upper", "step", "elt", "key", "exc", "cause", "msg", "fail",
                              "returns", "decorators", "subject", "pattern", "guard", "cls", "dest", "starargs", "kwargs", "ann", "annotation", "body", "fromname", "doc_node", "name"}
NODE_CHANGERS = {"postinit", "set_local", "add_local_node", "__setattr__", "__delattr__", "_append_node"}
MUTATORS = {"append": {"list", "deque"}, "appendleft": {"deque"}, "popleft": {"deque"}, "extend": {"list", "deque"}, "insert": {"list"}, "pop": {"list", "set", "dict", "deque"},
            "remove": {"list", "set"}, "clear": {"list", "set", "dict"}, "sort": {"list"}, "reverse": {"list"}, "add": {"set"}, "discard": {"set"},
            "update": {"set", "dict"}, "intersection_update": {"set"}, "difference_update": {"set"}, "symmetric_difference_update": {"set"},
            "setdefault": {"dict"}, "popitem": {"dict"}, "move_to_end": {"dict"}, "subtract": {"dict"}}
INSERTERS = {"append", "appendleft", "insert", "add", "extend", "update", "setdefault", "__setitem__"}
MAKERS = {"list": "list", "sorted": "list", "set": "set", "frozenset": "frozenset", "dict": "dict", "tuple": "tuple", "deque": "deque", "defaultdict": "dict",
          "OrderedDict": "dict", "Counter": "dict"}
AUG = {"list": (ast.Add, ast.Mult), "deque": (ast.Add,), "set": (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor), "dict": (ast.BitOr,)}
E = frozenset()
CACHES = ("lru_cache", "cache")


def kinds(o):
    """kinds of built-in collection an object may be"""
    return {"list", "set", "dict"} if o == L else {o[0]} if o[0] in ("list", "set", "dict", "deque", "tuple") else set()


class Points:
    def __init__(self, prog, entries, is_node_class, register=()):
        """entries: [(function, phase, [argument object sets], self objects)]; register: functions run once per process after import"""
        self.p, self.is_node_class = prog, is_node_class
        self.pts, self.sites, self.changed, self.fields = {}, {}, True, {}
        self.reached, self.origin = {}, {}
        self.scopes, self.calls = {}, 0
        self.exc = set()
        self.instances, self.made = set(), set()
        self.passes = 0
        self._locals, self._types, self.narrow = {}, {}, []
        self.arity = {}
        self.ann, self.views = {}, {}
        for m in prog.modules.values():
            if not m.name.endswith("__main__"):
                self.reach(("mod", m.name), "M")
        for f in register:
            self.reach(("fun", f.qual), "M")
        self.entries = entries
        while self.changed:
            self.changed = False
            self.passes += 1
            for f, ph, args, selfs in entries:
                for a, v in zip(f.params(), ([selfs(self)] if selfs else []) + args):
                    self.put(("v", f.qual, ph, a), v)
                self.reach(("fun", f.qual), ph)
            for key in list(self.reached):
                self.run(*key)
            assert self.passes < 60

    # ---- types
    NAMED = {"list": {"list", "L"}, "List": {"list", "L"}, "set": {"set"}, "Set": {"set", "frozenset"}, "FrozenSet": {"frozenset"}, "frozenset": {"frozenset"},
             "dict": {"dict", "L"}, "Dict": {"dict", "L"}, "DefaultDict": {"dict", "L"}, "defaultdict": {"dict", "L"}, "tuple": {"tuple", "inst", "L"}, "Tuple": {"tuple", "inst", "L"},
             "str": set(), "int": set(), "bool": set(), "float": set(), "complex": set(), "bytes": set(), "None": set(), "NoneType": set(),
             "Callable": {"fn", "raw", "bm", "partial", "cls", "ext", "inst"}, "type": {"cls", "ntype", "ext"}, "Type": {"cls", "ntype", "ext"},
             "Iterable": {"list", "set", "frozenset", "tuple", "dict", "gen", "L", "deque", "inst"}, "Deque": {"deque"}, "deque": {"deque"}}
    NAMED["Iterator"] = NAMED["Generator"] = NAMED["Sequence"] = NAMED["Collection"] = NAMED["Iterable"]
    NAMED["Mapping"] = NAMED["dict"]

    def of_type(self, e, m):
        """what an annotation or the second argument of isinstance admits (None: anything)"""
        key = (id(e), m.name)
        if key not in self._types:
            self._types[key] = self._of_type(e, m)
        return self._types[key]

    def _of_type(self, e, m):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Constant):
            return frozenset()
        if isinstance(e, ast.Tuple):
            ts = [self.of_type(x, m) for x in e.elts]
            return None if any(t is None for t in ts) else frozenset().union(*ts)
        if isinstance(e, ast.BinOp):
            ts = [self.of_type(e.left, m), self.of_type(e.right, m)]
            return None if None in ts else ts[0] | ts[1]
        if isinstance(e, ast.Subscript):
            n = e.value.attr if isinstance(e.value, ast.Attribute) else getattr(e.value, "id", None)
            if n == "Optional":
                return self.of_type(e.slice, m)
            if n == "Union":
                return self.of_type(e.slice, m)
            return self.of_type(e.value, m)
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(m, e)
            n = e.attr if isinstance(e, ast.Attribute) else e.id
            if r and r[0] == "class":
                return frozenset({("class", r[1].qual)})
            if r and r[0] == "ext":
                if self.is_node_class(r[1]):
                    return frozenset({"N", "node", "nodecls"})
                if n in self.NAMED and r[1].split(".")[0] in ("builtins", "typing", "collections"):
                    return frozenset(self.NAMED[n])
            return None
        return None

    def fit(self, objs, t, out=False):
        """the objects a type admits (out: those it does not)"""
        if t is None or not objs:
            return E if out and t is None else objs
        return {o for o in objs if self.fits(o, t) != out}

    def fits(self, o, t):
        if o[0] in t:
            return True
        if o[0] == "inst":
            for k in self.classes(o):
                if isinstance(k, Class):
                    if ("class", k.qual) in t:
                        return True
                elif "nodecls" in t and self.is_node_class(k) or k.split(".")[-1] in t:
                    return True
        return o[0] in ("ext", "opaque", "super", "X")

    def narrowing(self, test, pos=True):
        """[(variable, type, negated)] that hold when the test succeeds (or fails)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrowing(test.operand, not pos)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And if pos else ast.Or):
            return [x for v in test.values for x in self.narrowing(v, pos)]
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            t = self.of_type(test.args[1], self.m)
            if t is not None and (pos or "nodecls" not in t):
                return [(test.args[0].id, t, not pos)]
            if t is not None and not pos and "nodecls" in t and self.whole(test.args[1]):
                return [(test.args[0].id, t, True)]
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ("any", "all") and len(test.args) == 1 and isinstance(test.args[0], ast.GeneratorExp) \
                and pos == (test.func.id == "all"):
            g = test.args[0]
            if len(g.generators) == 1 and not g.generators[0].ifs and isinstance(g.generators[0].iter, ast.Name) and isinstance(g.generators[0].target, ast.Name):
                return [(g.generators[0].iter.id, t, neg, "elems") for x, t, neg in self.narrowing(g.elt, pos) if x == g.generators[0].target.id]
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Subscript) \
                and isinstance(test.args[0].value, ast.Name):
            t = self.of_type(test.args[1], self.m)
            if t is not None and (pos or "nodecls" not in t):
                return [(test.args[0].value.id, t, not pos, "elems")]       # sequences hold values of one kind
        return []

    @staticmethod
    def whole(e):
        return ast.unparse(e).split(".")[-1] == "NodeNG"

    def view(self, objs, t, neg, node):
        """the collections, with only those elements the type admits"""
        out = set()
        for o in {x for o in objs for x in self.views.get(o, {o})}:
            if o[0] in ("list", "tuple", "set") or o == L:
                kd = "list" if o == L else o[0]
                v = (kd, f"{self.cur}:{kd}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}" + ("" if o == L else ":" + o[1][-60:]), o[2] if o != L else self.phase)
                self.views.setdefault(v, set()).add(o)
                self.put((v, "[]"), self.fit(self.elems({o}), t, neg))
                out.add(v)
            else:
                out.add(o)
        return out

    # ---- facts
    def put(self, key, objs):
        if any(o[0] == "ext" for o in objs):
            objs = {o for o in objs if o[0] != "ext" or isinstance(key[0], str) and not o[1].startswith(("operator.", "builtins."))}
        if not objs:
            return
        s = self.pts.get(key)
        if s is None:
            s = self.pts[key] = set()
            if isinstance(key[0], tuple):
                self.fields.setdefault(key[0], []).append(key)
        n = len(s)
        s |= objs
        if len(s) != n:
            self.changed = True

    def get(self, key):
        return self.pts.get(key, E)

    def children(self, o):
        """what the fields a node has in a syntax tree refer to"""
        return {x for k in self.fields.get(o, ()) if k[1] in NODE_CHILDREN or k[1] == "*" for x in self.pts[k]}

    def is_node(self, o):
        return o in (N,) or o[0] == "node" or o[0] == "inst" and any(isinstance(k, str) and self.is_node_class(k) for k in self.classes(o))

    def all_of(self, o):
        return {x for k in self.fields.get(o, ()) for x in self.pts[k]}

    def reach(self, what, phase):
        if (what, phase) not in self.reached:
            self.reached[what, phase] = True
            self.changed = True

    def change(self, node, objs, field, how, value=E):
        """record a modification of the objects"""
        if objs:
            key = (id(node), self.phase, field)
            rec = self.sites.setdefault(key, {"node": node, "phase": self.phase, "field": field, "how": how, "objs": set(), "where": self.cur, "value": set()})
            rec["objs"] |= objs
            for o in objs:
                rec["objs"] |= self.views.get(o, E)
            rec["value"] |= value

    # ---- running the code of a scope
    def run(self, what, phase):
        self.phase = self.make_phase = phase
        if what[0] == "mod":
            m = self.p.modules[what[1]]
            self.m, self.cur, self.f = m, m.name, None
            self.env = ("mod", m.name)
            self.block(m.tree.body)
        elif what[0] == "fun":
            f = self.p.funcs[what[1]]
            self.m, self.cur, self.f = f.module, f.qual, f
            self.env = ("fun", f.qual)
            if any(self.deco(d) in CACHES for d in f.decorators()):
                self.make_phase = "M"       # what is remembered between calls outlives the file
            else:
                self.make_phase = phase
            body = f.node.body
            if isinstance(body, list):
                self.block(body)
            else:
                self.put(("ret", f.qual, phase), self.ev(body))
            return

    make_phase = "M"

    @staticmethod
    def deco(d):
        d = d.func if isinstance(d, ast.Call) else d
        return d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", None)

    def locs(self, f):
        if f.qual not in self._locals:
            self._locals[f.qual] = func_locals(f.node)
        return self._locals[f.qual]

    def var_key(self, name, f=None):
        """the variable a name denotes in the current function (or f)"""
        f = f or self.f
        while f is not None:
            loc, gl, nl = self.locs(f)
            if name in loc:
                return ("v", f.qual, self.phase, name)
            if name in gl:
                return ("g", f.module.name, name)
            f = f.parent
        return ("g", self.m.name, name)

    def block(self, body, hold=()):
        depth = len(self.narrow)
        self.narrow += [h for h in hold if not self.rebound(h[0], body)]
        for i, s in enumerate(body):
            self.stmt(s)
            more = []
            if isinstance(s, ast.Assert):
                more = self.narrowing(s.test)
            elif isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                more = self.narrowing(s.test, False)
            self.narrow += [h for h in more if not self.rebound(h[0], body[i + 1:])]
        del self.narrow[depth:]

    @staticmethod
    def rebound(name, body):
        return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for s in body for n in ast.walk(s))

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = self.p.func_of_node[s]
            self.decorate(f)
            self.defaults(f)
            if self.env[0] == "fun":
                self.put(self.var_key(s.name), {("fn", f.qual)})
            return
        if isinstance(s, ast.ClassDef):
            c = self.p.class_of_node[s]
            for b in s.body:
                if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.decorate(self.p.func_of_node[b])
                    self.defaults(self.p.func_of_node[b])
                elif isinstance(b, ast.Assign):
                    v = self.ev(b.value)
                    for t in b.targets:
                        if isinstance(t, ast.Name):
                            self.put((("cls", c.qual), t.id), v)
                elif isinstance(b, ast.AnnAssign) and b.value is not None and isinstance(b.target, ast.Name):
                    self.put((("cls", c.qual), b.target.id), self.ev(b.value))
                elif isinstance(b, (ast.ClassDef, ast.If, ast.Expr)):
                    self.stmt(b)
            if self.env[0] == "fun":
                self.put(self.var_key(s.name), {("cls", c.qual)})
            return
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.bind(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.fit(self.ev(s.value), self.of_type(s.annotation, self.m)), s)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            cur = self.ev(s.target)
            hit = {o for o in cur if any(isinstance(s.op, AUG[k]) for k in kinds(o) if k in AUG)}
            self.change(s, hit, "[]", "augmented assignment")
            ops = {ast.Add: "add", ast.BitOr: "or", ast.BitAnd: "and", ast.Sub: "sub", ast.BitXor: "xor", ast.Mult: "mul"}
            if type(s.op) in ops:
                mine = {o for o in cur if o[0] == "inst"}
                for nm in ("__i%s__", "__%s__"):
                    cur = cur | self.method(mine, nm % ops[type(s.op)], [v], {}, s)
            for o in hit:
                self.put((o, "[]"), self.elems(v))
            if isinstance(s.target, ast.Name):
                if self.env[0] == "fun" and (self.var_key(s.target.id)[0] == "g" or self.var_key(s.target.id)[1] != self.f.qual):
                    self.bind(s.target, cur | v, s)
                else:
                    self.put(self.key_of(s.target.id), cur | v)
            else:
                self.bind(s.target, cur | v, s)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.bind(s.target, self.elems(self.ev(s.iter)), s)
            self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.ev(s.test)
            self.block(s.body, self.narrowing(s.test))
            self.block(s.orelse)
        elif isinstance(s, ast.If):
            if self.env[0] == "mod" and "__name__" in ast.unparse(s.test):
                return
            self.ev(s.test)
            self.block(s.body, self.narrowing(s.test))
            self.block(s.orelse, self.narrowing(s.test, False))
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v | self.method(v, "__enter__", [], {}, s), s)
            self.block(s.body)
        elif isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            self.block(s.body)
            for h in s.handlers:
                if h.name:
                    self.put(self.key_of(h.name), set(self.exc))
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.put(("ret", self.f.qual, self.phase), self.ev(s.value))
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                v = self.ev(s.exc)
                if not v <= self.exc:
                    self.exc |= v
                    self.changed = True
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Attribute):
                    self.change(s, {o for o in self.ev(t.value) if self.attributed(o)}, t.attr, "deletion")
                elif isinstance(t, ast.Subscript):
                    self.change(s, {o for o in self.ev(t.value) if kinds(o) & {"list", "dict"} or self.external(o)}, "[]", "deletion")
                elif isinstance(t, ast.Name) and self.env[0] == "fun" and self.var_key(t.id)[0] == "g":
                    self.change(s, {("mod", self.var_key(t.id)[1])}, t.id, "deletion")
        elif hasattr(ast, "Match") and isinstance(s, ast.Match):
            v = self.ev(s.subject)
            for c in s.cases:
                for n in ast.walk(c.pattern):
                    nm = getattr(n, "name", None) or getattr(n, "rest", None)
                    if isinstance(nm, str):
                        self.put(self.key_of(nm), v | self.elems(v))
                if c.guard:
                    self.ev(c.guard)
                self.block(c.body)

    def decorate(self, f):
        """what the decorators make of a function (a decorator of the program)"""
        v = {("raw", f.qual)}
        for d in reversed(f.node.decorator_list):
            got = self.call({o for o in self.ev(d) if o[0] in ("fn", "bm", "cls", "inst", "partial")}, [v], {}, d)
            v = {o for o in got if o[0] in ("fn", "bm", "inst", "partial", "raw")} or v
        self.put(("deco", f.qual), {o for o in v if o[0] != "raw"})

    def defaults(self, f):
        a = f.node.args
        ph = "M" if self.env[0] == "mod" else self.phase
        pos = a.posonlyargs + a.args
        for prm, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            v = self.ev(d)
            for p2 in ("M", "A", "C") if ph == "M" else (ph,):
                self.put(("v", f.qual, p2, prm.arg), v)

    def key_of(self, name):
        if self.env[0] == "fun":
            return self.var_key(name)
        return ("g", self.m.name, name)

    @staticmethod
    def member(o, name):
        return o if o[1].count(".") >= 4 or o[1].startswith(("operator.", "builtins.")) else ("ext", f"{o[1]}.{name}")

    @staticmethod
    def external(o):
        return o[0] == "ext"

    @staticmethod
    def attributed(o):
        """has attributes that can be stored to"""
        return o[0] in ("inst", "node", "N", "cls", "fn", "ext", "mod")

    def bind(self, t, v, s):
        if isinstance(t, ast.Name):
            k = self.key_of(t.id)
            if self.env[0] == "fun" and k[0] == "g":
                self.change(s, {("mod", k[1])}, t.id, "assignment", v)
            elif self.env[0] == "fun" and self.phase != "M" and k[1] != self.f.qual and (("fun", k[1]), "M") in self.reached:
                self.change(s, {("mod", self.m.name)}, t.id, "assignment", v)
            self.put(k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            flat = {o for o in v if not (o[0] == "tuple" and self.arity.get(o) == len(t.elts))}
            rest = self.elems(flat)
            for i, x in enumerate(t.elts):
                e = rest.union(*[self.get((o, str(i))) for o in v - flat])
                if isinstance(x, ast.Starred):
                    e = self.elems(v)
                self.bind(x.value if isinstance(x, ast.Starred) else x, e | (self.new("list", x, e) if isinstance(x, ast.Starred) else E), s)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, s)
        elif isinstance(t, ast.Attribute):
            self.store(self.ev(t.value), t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            r = self.ev(t.value)
            self.ev(t.slice)
            hit = {o for o in r if kinds(o) & {"list", "dict", "deque"} or self.external(o)}
            self.change(s, hit, "[]", "assignment", v)
            for o in hit:
                self.put((o, "[]"), v)
                if o[0] == "dict":
                    self.put((o, "[k]"), self.ev(t.slice))
            self.method({o for o in r if o[0] == "inst"}, "__setitem__", [self.ev(t.slice), v], {}, s)

    def store(self, recv, attr, v, s, how="assignment"):
        hit = {o for o in recv if self.attributed(o)}
        self.change(s, hit, attr, how, v)
        for o in hit:
            if o[0] == "mod":
                self.put(("g", o[1], attr), v)
            elif o[0] != "ext":
                self.put((o, attr), v)

    # ---- objects
    def new(self, kind, node, elems=E, cls=None):
        o = (kind, getattr(node, "_pid", None) or self.pid(node), self.make_phase) + ((cls,) if cls else ())
        if o not in self.origin:
            self.origin[o] = node
            if kind == "inst":
                self.instances.add(o)
            if self.is_node(o):
                self.made.add(o)
        self.put((o, "[]"), elems)
        return {o}

    def pid(self, node):
        node._pid = f"{self.m.relpath}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}:{type(node).__name__}"
        return node._pid

    def elems(self, objs):
        out = set()
        for o in objs:
            if o == N:
                continue
            if o == L:
                out |= {N, L}
                out |= self.get((L, "[]"))
            elif o[0] == "inst":
                out |= self.get((o, "[]"))
                if self.find(o, "__iter__"):
                    out |= self.elems(self.method({o}, "__iter__", [], {}, None))
            elif o[0] == "cls":
                out |= self.all_of(o)
            else:
                out |= self.get((o, "[]")) | self.get((o, "[k]"))
        return out

    def classes(self, o):
        q = o[3] if o[0] == "inst" else o[1]
        c = self.p.classes.get(q)
        return self.p.mro(c) if c else []

    def find(self, o, name):
        for k in self.classes(o):
            if isinstance(k, Class) and name in k.methods:
                return k.methods[name]
        return None

    def load(self, objs, attr, node):
        out = set()
        for o in objs:
            if o == N:
                out |= self.get((N, attr))
                if attr in NODE_LISTS:
                    out.add(L)
                    if attr == "args":
                        out.add(N)
                elif attr not in NODE_SCALARS and not self.get((N, attr)):
                    out.add(N)
            elif o == L:
                continue
            elif o[0] == "node":
                out |= self.get((o, attr)) | self.get((o, "*"))
                if o[1].endswith("copy") and not out and attr not in NODE_SCALARS | NODE_LISTS:
                    out.add(N)
            elif o[0] == "ext":
                out.add(self.member(o, attr))
            elif o[0] == "mod":
                out |= self.glob(self.p.modules[o[1]], attr)
            elif o[0] in ("inst", "cls"):
                out |= self.get((o, attr)) | self.get((o, "*"))
                out |= self.dynamic(o, attr, node)
                for k in self.classes(o):
                    if isinstance(k, Class):
                        if attr in k.methods:
                            f = k.methods[attr]
                            ds = {self.deco(d) for d in f.decorators()}
                            if o[0] == "inst" and ds & {"property", "cached_property"}:
                                out |= self.invoke(f, [{o}], {}, node)
                            elif "staticmethod" in ds or o[0] == "cls" and "classmethod" not in ds:
                                out.add(("fn", f.qual))
                            else:
                                out.add(("bm", f.qual, ("cls", k.qual) if "classmethod" in ds and o[0] == "inst" else o))
                            break
                        out |= self.get((("cls", k.qual), attr))
                    elif not out and o[0] == "inst" and self.is_node_class(k):
                        out |= {L} if attr in NODE_LISTS else E if attr in NODE_SCALARS else {N}
        return out

    def dynamic(self, o, attr, node):
        """what __getattr__ (of the class, or of its metaclass) makes of a missing attribute"""
        if attr.startswith("__"):
            return E
        cs = [k for k in self.classes(o) if isinstance(k, Class)]
        if any(attr in k.methods or (("cls", k.qual), attr) in self.pts for k in cs) or (o, attr) in self.pts:
            return E
        out = set()
        if o[0] == "inst":
            f = self.find(o, "__getattr__")
            return self.invoke(f, [{o}], {}, node) if f is not None else E
        for k in cs:
            for kwd in k.node.keywords:
                r = self.p.resolve_expr(k.module, kwd.value) if kwd.arg == "metaclass" else None
                f = self.p.find_method(r[1], "__getattr__") if r and r[0] == "class" else None
                if f is not None:
                    self.put(("v", f.qual, self.phase, f.params()[0]), {o})
                    self.reach(("fun", f.qual), self.phase)
                    out |= self.get(("ret", f.qual, self.phase))
        return out

    def glob(self, m, name):
        r = self.p.resolve_global(m, name)
        if r is None:
            return self.get(("g", m.name, name))
        if r[0] == "func":
            return {("fn", r[1].qual)}
        if r[0] == "class":
            return {("cls", r[1].qual)}
        if r[0] == "module":
            return {("mod", r[1])}
        if r[0] == "var":
            return self.get(("g", r[1].name, r[2])) | self.get(("g", m.name, name))
        return {("ext", r[1])} | self.get(("g", m.name, name))

    def name(self, n, node=None):
        if self.env[0] == "fun":
            k = self.var_key(n)
            if k[0] == "v":
                v = self.get(k)
                if self.phase != "M" and k[1] != self.f.qual:
                    v = v | self.get(("v", k[1], "M", n))       # of a function run when the program is imported
                for x, t, neg, *lvl in self.narrow:
                    if x == n:
                        v = self.view(v, t, neg, node) if lvl else self.fit(v, t, neg)
                return v
        return self.glob(self.m, n)

    # ---- expressions
    def ev(self, e):
        if e is None or isinstance(e, ast.Constant):
            return E
        k = type(e).__name__
        h = getattr(self, "e_" + k, None)
        if h:
            return h(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return E

    def e_Name(self, e):
        return self.name(e.id, e)

    def e_Attribute(self, e):
        return self.load(self.ev(e.value), e.attr, e)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.put(self.key_of(e.target.id), v)
        return v

    def e_IfExp(self, e):
        self.ev(e.test)
        return self.under(self.narrowing(e.test), e.body) | self.under(self.narrowing(e.test, False), e.orelse)

    def under(self, hold, e):
        depth = len(self.narrow)
        self.narrow += hold
        v = self.ev(e)
        del self.narrow[depth:]
        return v

    def e_BoolOp(self, e):
        depth, out = len(self.narrow), set()
        for v in e.values:
            out |= self.ev(v)
            self.narrow += self.narrowing(v, isinstance(e.op, ast.And))
        del self.narrow[depth:]
        return out

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        out = set()
        for o in a | b:
            for kd in kinds(o) | ({"list"} if o[0] == "list" else set()):
                if isinstance(e.op, AUG.get(kd, (ast.Add,) if kd == "tuple" else ())):
                    out |= self.new(kd, e, self.elems(a) | self.elems(b))
        out |= self.method({o for o in a if o[0] == "inst"}, {ast.Add: "__add__", ast.BitOr: "__or__", ast.BitAnd: "__and__", ast.Sub: "__sub__"}.get(type(e.op), "-"), [b], {}, e)
        return out

    def e_Subscript(self, e):
        v = self.ev(e.value)
        self.ev(e.slice)
        if isinstance(e.slice, ast.Slice):
            out = set()
            for o in v:
                out |= self.new("list" if o == L else o[0] if o[0] in ("list", "tuple") else "list", e, self.elems({o})) if o != N and o[0] != "ext" else E
            return out
        out = set()
        for o in v:
            if o == L:
                out |= {N, L} | self.get((L, "[]"))
            elif o == N:
                out |= {N}
            elif o[0] == "ext":
                out.add(o)
            elif o[0] == "tuple" and o in self.arity and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and 0 <= e.slice.value < self.arity[o]:
                out |= self.get((o, str(e.slice.value)))
            elif o[0] == "inst":
                out |= self.get((o, "[]")) | self.method({o}, "__getitem__", [self.ev(e.slice)], {}, e)
            else:
                out |= self.get((o, "[]"))
        return out

    def seq(self, e, kind):
        el = set()
        for x in e.elts:
            el |= self.elems(self.ev(x.value)) if isinstance(x, ast.Starred) else self.ev(x)
        return self.new(kind, e, el)

    def e_List(self, e):
        return self.seq(e, "list")

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.seq(e, "tuple")
        return self.tuple_of(e, [self.ev(x) for x in e.elts])

    def tuple_of(self, node, parts):
        out = self.new("tuple", node, set().union(*parts))
        (o,) = out
        self.arity[o] = len(parts)
        for i, v in enumerate(parts):
            self.put((o, str(i)), v)
        return out

    def e_Set(self, e):
        return self.seq(e, "set")

    def e_Dict(self, e):
        out = self.new("dict", e)
        (o,) = out
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.put((o, "[]"), self.values_of(self.ev(v)))
            else:
                self.put((o, "[]"), self.ev(v))
                self.put((o, "[k]"), self.ev(k))
        return out

    def values_of(self, objs):
        return set().union(*[self.elems({o}) if o == L else self.get((o, "[]")) for o in objs]) if objs else E

    def comp(self, e):
        depth = len(self.narrow)
        for g in e.generators:
            self.bind(g.target, self.elems(self.ev(g.iter)), e)
            for i in g.ifs:
                self.ev(i)
                self.narrow += self.narrowing(i)
        out = [self.ev(x) for x in ((e.key, e.value) if isinstance(e, ast.DictComp) else (e.elt,))]
        del self.narrow[depth:]
        return out

    def e_ListComp(self, e):
        return self.new("list", e, self.comp(e)[0])

    def e_SetComp(self, e):
        return self.new("set", e, self.comp(e)[0])

    def e_GeneratorExp(self, e):
        return self.new("gen", e, self.comp(e)[0])

    def e_DictComp(self, e):
        k, v = self.comp(e)
        out = self.new("dict", e, v)
        (o,) = out
        self.put((o, "[k]"), k)
        return out

    def e_Lambda(self, e):
        f = self.p.func_of_node.get(e)
        if f is None:
            return E
        for d in e.args.defaults:
            self.ev(d)
        return {("fn", f.qual)}

    def e_Yield(self, e):
        v = self.ev(e.value)
        if self.f is not None:
            self.put(("yield", self.f.qual, self.phase), v)
        return E

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        if self.f is not None:
            self.put(("yield", self.f.qual, self.phase), self.elems(v))
        return E

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Starred(self, e):
        return self.elems(self.ev(e.value))

    def e_Call(self, e):
        self.calls += 1
        fn = e.func
        args = [self.elems(self.ev(a.value)) if isinstance(a, ast.Starred) else self.ev(a) for a in e.args]
        star = any(isinstance(a, ast.Starred) for a in e.args)
        kw = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
        for k in e.keywords:
            if k.arg is None:
                kw["**"] = kw.get("**", set()) | self.values_of(self.ev(k.value))
        if isinstance(fn, ast.Name) and fn.id == "super" and not e.args:
            return {("super", self.f.cls.qual if self.f and self.f.cls else "", self.phase)}
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                return self.super_call(fn.attr, args, kw, e)
            recv = self.ev(v)
            return self.method(recv, fn.attr, args, kw, e, star)
        return self.call(self.ev(fn), args, kw, e, star)

    def super_call(self, name, args, kw, e):
        f = self.f
        while f is not None and f.cls is None:
            f = f.parent
        if f is None:
            return E
        selfs = self.get(("v", f.qual, self.phase, f.params()[0])) if f.params() else E
        out = set()
        for o in selfs:
            cs = [c for c in self.classes(o)] if o[0] in ("inst", "cls") else []
            after = cs[cs.index(f.cls) + 1:] if f.cls in cs else []
            for k in after:
                if isinstance(k, Class) and name in k.methods:
                    out |= self.invoke(k.methods[name], [{o}] + args, kw, e)
                    break
        if not out and any(a & {N} for a in args):
            out = {N}
        return out

    def method(self, recv, name, args, kw, e, star=False):
        """the result of recv.name(args)"""
        out = set()
        if not recv:
            return out
        flat = set().union(*args, *kw.values()) if args or kw else set()
        bound = set()
        hit = set()
        for o in recv:
            if o == N:
                out |= self.node_method(name, args, kw, e)
                bound |= {x for x in self.get((N, name)) if x[0] in ("fn", "raw", "bm", "cls")}
            elif o == L or o[0] in ("list", "set", "dict", "tuple", "deque", "gen", "frozenset"):
                if name in MUTATORS and kinds(o) & MUTATORS[name]:
                    hit.add(o)
                    if name in INSERTERS:
                        many = name in ("extend", "update")
                        vals = set().union(*[self.elems(a) if many else a for a in args]) if args else set()
                        if name in ("setdefault", "insert"):
                            vals = set().union(*args[1:]) if len(args) > 1 else set()
                            if name == "setdefault" and args:
                                self.put((o, "[k]"), args[0])
                        if name == "update" and o[0] == "dict":
                            vals = set().union(*[self.values_of(a) for a in args], *kw.values()) if args or kw else set()
                            self.put((o, "[k]"), set().union(*[self.get((x, "[k]")) for a in args for x in a]) if args else E)
                        self.put((o, "[]"), vals)
                    if name in ("sort",) and "key" in kw:
                        self.call(kw["key"], [self.elems({o})], {}, e)
                if name in ("pop", "popleft", "get", "setdefault", "__getitem__"):
                    out |= self.elems({o}) if o == L or o[0] != "dict" else self.get((o, "[]"))
                    if name != "__getitem__" and len(args) > 1:
                        out |= args[1]
                elif name in ("values", "__iter__"):
                    out |= self.new("gen", e, self.values_of({o})) if e is not None else E
                elif name == "keys":
                    out |= self.new("gen", e, self.get((o, "[k]")) | ({N} if o == L else E))
                elif name in ("items", "popitem"):
                    pair = self.tuple_of(e.func, [self.get((o, "[k]")) | ({N} if o == L else E), self.values_of({o})])
                    out |= self.new("gen", e, pair) if name == "items" else pair
                elif name in ("copy", "union", "intersection", "difference", "symmetric_difference", "most_common"):
                    k = next(iter(sorted(kinds(o))), "set") if o != L else "list"
                    n = self.new(k, e, (self.get((o, "[]")) if k == "dict" else self.elems({o})) | set().union(*[self.elems(a) for a in args]))
                    if k == "dict":
                        self.put((next(iter(n)), "[k]"), self.get((o, "[k]")))
                    out |= n
            elif o[0] == "ext":
                if name in MUTATORS and name not in ("add", "remove", "insert", "pop", "reverse", "update", "sort") or name in ("append", "update", "pop", "clear_cache", "add") \
                        and any(s in o[1] for s in ("_CONST_PROXY", "MANAGER", "environ", "sys.path", "sys.modules", "[]", "_cache")):
                    hit.add(o)
                bound.add(self.member(o, name))
            elif o[0] == "node":
                if name in NODE_CHANGERS:
                    hit.add(o)
                    self.put((o, "*"), flat)
                    for k, v in kw.items():
                        self.put((o, k), v)
                else:
                    out |= self.load({o}, name, e) | {x for x in self.made if x[2] == o[2]} | ({N} if o[1].endswith("copy") else E)
                    out |= self.visit(args, {o})
            elif o[0] == "mod":
                bound |= self.glob(self.p.modules[o[1]], name)
            elif o[0] == "super":
                out |= self.super_call(name, args, kw, e)
            elif o[0] in ("inst", "cls"):
                got = self.load({o}, name, e)
                bound |= {x for x in got if x[0] in ("fn", "raw", "bm", "cls", "ext", "partial")}
                bound |= {x for x in got if x[0] == "inst" and self.find(x, "__call__")}
                if o[0] == "inst" and not got:
                    if any(isinstance(k, str) and self.is_node_class(k) for k in self.classes(o)):
                        out |= self.node_method(name, args, kw, e)
                    else:
                        out |= self.inherited(o, name, args, kw, e)
                if o[0] == "cls" and name == "__new__":
                    out |= self.make(o, args, kw, e)
                    self.stop = True
        if hit:
            self.change(e, hit, "[]", f".{name}()")
        if bound:
            out |= self.call(bound, args, kw, e, star)
        return out

    def inherited(self, o, name, args, kw, e):
        """a method a class of the program inherits from a library class"""
        if any(isinstance(k, str) and k.split(".")[-1] in ("dict", "list", "set", "UserDict") for k in self.classes(o)):
            fake = [k.split(".")[-1].lower() for k in self.classes(o) if isinstance(k, str)]
            if name in MUTATORS and MUTATORS[name] & set(fake):
                self.change(e, {o}, "[]", f".{name}()")
                self.put((o, "[]"), set().union(*args) if args else E)
            return self.get((o, "[]"))
        out = set()
        for a in args:
            if a & {N} and name.startswith("visit"):
                out |= self.visit([{o}], {N})
        return out

    def node_method(self, name, args, kw, e):
        if name in NODE_CHANGERS:
            self.change(e, {N}, name, f".{name}()")
        if name in NODE_SCALARS or name in ("as_string", "repr_tree", "is_generator", "frame_name", "bool_value", "block_range"):
            self.visit(args, {N})
            return set()
        if name == "accept":
            return self.visit(args, {N})
        if name in ("keys", "values", "items"):
            return self.new("gen", e, {N, L})
        return {N} | (self.new("gen", e, {N, L}) if e is not None else set())

    def visit(self, args, nodes):
        """a syntax tree accepts a visitor: any of its visit methods may be called"""
        out = set()
        for a in args:
            for o in a:
                if o[0] != "inst":
                    continue
                for c in self.classes(o):
                    if isinstance(c, Class):
                        for n, f in c.methods.items():
                            if n.startswith(("visit_", "leave_")):
                                out |= self.invoke(f, [{o}, nodes], {}, None)
        return out

    def call(self, fns, args, kw, e, star=False):
        out = set()
        for o in list(fns):
            if o[0] == "fn":
                out |= self.invoke(self.p.funcs[o[1]], args, kw, e, star)
            elif o[0] == "raw":
                # under a wrapper that passes on whatever it is given, the arguments are those of the call of the wrapper
                out |= self.invoke(self.p.funcs[o[1]], args, kw, e, star, True) if not star else self.get(("ret", o[1], self.phase))
            elif o[0] == "bm":
                out |= self.invoke(self.p.funcs[o[1]], [{o[2]}] + args, kw, e, star)
            elif o[0] == "cls":
                out |= self.make(o, args, kw, e)
            elif o[0] == "inst":
                out |= self.method({o}, "__call__", args, kw, e)
            elif o[0] == "partial":
                i, first = 0, []
                while (o, f"arg{i}") in self.pts or i < 4:
                    first.append(self.get((o, f"arg{i}")))
                    i += 1
                n = self.origin[o]
                first = first[:len(n.args) - 1]
                out |= self.call(self.get((o, "fn")), first + args, {**{k.arg: self.get((o, "kw " + k.arg)) for k in n.keywords if k.arg}, **kw}, e, star)
            elif o[0] == "ext":
                out |= self.external_call(o[1], args, kw, e)
            elif o in (N, L):
                out |= self.node_method("?", args, kw, e) if o == N else E
            elif o[0] == "ntype":
                out |= self.node_new(args, kw, e)
        return out

    def node_new(self, args, kw, e):
        out = self.new("node", e)
        (o,) = out
        for k, v in kw.items():
            self.put((o, "*" if k == "**" else k), v)
        self.put((o, "*"), set().union(*args) if args else E)
        return out

    def make(self, o, args, kw, e):
        """an instance of a class of the program"""
        c = self.p.classes[o[1]]
        inst = self.new("inst", e if e is not None else c.node, cls=c.qual)
        init = self.find(o, "__init__")
        if init is not None:
            self.invoke(init, [inst] + args, kw, e)
            return inst
        names = [b.target.id for k in reversed(self.p.mro(c)) if isinstance(k, Class) for b in k.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
        (i,) = inst
        for n, v in list(zip(names, args)) + list(kw.items()):
            self.put((i, "*" if n == "**" else n), v)
        if any(isinstance(k, str) for k in self.p.mro(c)):
            self.put((i, "[]"), set().union(*args, *kw.values()) if args or kw else E)
        return inst

    def param(self, f, ph, name, v):
        if f.qual not in self.ann:
            a = f.node.args
            self.ann[f.qual] = {x.arg: self.of_type(x.annotation, f.module) if x.annotation is not None else None for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.put(("v", f.qual, ph, name), self.fit(v, self.ann[f.qual].get(name)))

    def invoke(self, f, args, kw, e, star=False, raw=False):
        ph = self.phase
        over = E if raw else self.get(("deco", f.qual))
        if over:
            return self.call(over, args, kw, e, star) | self.invoke(f, args, kw, e, star, True)
        if self.make_phase != self.phase and self.f is not None:
            ph = self.phase
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if star and args:
            rest = set().union(*args)
            args = args + [rest] * max(0, len(pos) - len(args))
        if f.cls is not None and args and pos and not any(self.deco(d) == "staticmethod" for d in f.decorators()):
            args = [{o for o in args[0] if o[0] in ("inst", "cls") and f.cls in self.classes(o)}] + args[1:]
            if not args[0]:
                return set()
        self.reach(("fun", f.qual), ph)
        for n, v in zip(pos, args):
            self.param(f, ph, n, v)
        if a.vararg and len(args) > len(pos):
            self.put(("v", f.qual, ph, a.vararg.arg), {("tuple", f.qual + "*", ph)})
            self.put((("tuple", f.qual + "*", ph), "[]"), set().union(*args[len(pos):]))
        named = set(pos) | {x.arg for x in a.kwonlyargs}
        for n, v in kw.items():
            if n == "**":
                for x in named - set(pos[:len(args)]):
                    self.param(f, ph, x, v)
            elif n in named:
                self.param(f, ph, n, v)
            elif a.kwarg:
                self.put(("v", f.qual, ph, a.kwarg.arg), {("dict", f.qual + "**", ph)})
                self.put((("dict", f.qual + "**", ph), "[]"), v)
        if f.is_generator():
            g = ("gen", f.qual, ph)
            self.put((g, "[]"), self.get(("yield", f.qual, ph)))
            return {g}
        r = set(self.get(("ret", f.qual, ph)))
        return self.fit(r, self.of_type(f.node.returns, f.module)) if getattr(f.node, "returns", None) is not None else r

    def external_call(self, name, args, kw, e):
        short = name.split(".")[-1]
        flat = set().union(*args, *kw.values()) if args or kw else set()
        if name in ("builtins.getattr",) and args:
            at = e.args[1] if len(e.args) > 1 else None
            out = set(args[2]) if len(args) > 2 else set()
            if isinstance(at, ast.Constant):
                return out | self.load(args[0], at.value, e)
            pre = at.values[0].value if isinstance(at, ast.JoinedStr) and at.values and isinstance(at.values[0], ast.Constant) else \
                at.left.value if isinstance(at, ast.BinOp) and isinstance(at.left, ast.Constant) else ""
            for o in args[0]:
                if o == N:
                    out |= {N, L}
                elif o[0] in ("inst", "cls"):
                    for c in self.classes(o):
                        if isinstance(c, Class):
                            for n in c.methods:
                                if pre and n.startswith(str(pre)) and not n.startswith("__"):
                                    out |= self.load({o}, n, e)
                    if not pre:
                        out |= self.children(o) if o[0] == "inst" and self.is_node(o) else self.all_of(o)
                elif o[0] == "node":
                    out |= self.get((o, "*")) | self.children(o)
                elif o[0] == "ext":
                    out.add(self.member(o, "?"))
            return out
        if name == "builtins.setattr" and len(args) > 2:
            at = e.args[1]
            self.store(args[0], at.value if isinstance(at, ast.Constant) else "*", args[2], e, "setattr")
            return E
        if name == "builtins.delattr" and args:
            self.change(e, {o for o in args[0] if self.attributed(o)}, "*", "delattr")
            return E
        if name in ("builtins.vars",) and args:
            return E
        if name == "builtins.type" and args:
            return {("ntype",) if o == N or o[0] == "node" else ("cls", o[3]) if o[0] == "inst" else X for o in args[0]}
        if name in ("builtins.isinstance", "builtins.issubclass", "builtins.len", "builtins.hasattr", "builtins.str", "builtins.repr", "builtins.int", "builtins.bool", "builtins.id",
                    "builtins.hash", "builtins.print", "builtins.range", "builtins.ord", "builtins.chr", "builtins.abs", "builtins.round", "builtins.float", "builtins.callable"):
            if name in ("builtins.str", "builtins.repr"):
                self.method({o for a in args for o in a if o[0] == "inst"}, "__str__", [], {}, e)
            return E
        if name == "builtins.next":
            own = {o for o in (args[0] if args else E) if o[0] in ("gen", "ext", "inst")}
            self.change(e, {o for o in own if o[0] != "inst"}, "[]", "next()")
            return self.elems(args[0] if args else E) | (args[1] if len(args) > 1 else E) | self.method({o for o in own if o[0] == "inst"}, "__next__", [], {}, e)
        if name in ("copy.copy",):
            out = set()
            for o in args[0] if args else E:
                if o == N or o[0] == "node":
                    n = ("node", self.pid(e) + ":copy", self.make_phase)
                    self.origin.setdefault(n, e)
                    for k in list(self.fields.get(o, ())):
                        v = self.pts[k]
                        self.put((n, k[1]), v)
                    if o == N:
                        self.put((n, "*"), {N, L})
                    out.add(n)
                elif o == L or o[0] in ("list", "set", "dict", "deque"):
                    out |= self.new("list" if o == L else o[0], e, self.elems({o}))
                elif o[0] == "inst":
                    n = self.new("inst", e, cls=o[3])
                    for k in list(self.fields.get(o, ())):
                        v = self.pts[k]
                        self.put((next(iter(n)), k[1]), v)
                    out |= n
            return out
        if name == "copy.deepcopy":
            out = set()
            for o in args[0] if args else E:
                if o == N or o[0] == "node":
                    out |= self.new("node", e)
                elif o[0] == "inst":
                    out |= self.new("inst", e, cls=o[3])
                elif kinds(o):
                    out |= self.new(next(iter(kinds(o))), e)
            return out
        if short == "partial":
            o = ("partial", self.pid(e), self.make_phase)
            self.origin.setdefault(o, e)
            self.put((o, "fn"), args[0] if args else E)
            for i, a in enumerate(args[1:]):
                self.put((o, f"arg{i}"), a)
            for k, v in kw.items():
                self.put((o, "kw " + k), v)
            return {o}
        if short in MAKERS and name.split(".")[0] in ("builtins", "collections", "typing"):
            el = set()
            for a in args:
                el |= self.elems(a)
            for f in kw.get("key", ()):
                self.call({f}, [el], {}, e)
            out = self.new(MAKERS[short], e, E if short in ("dict", "defaultdict") else el)
            (o,) = out
            if short in ("dict", "defaultdict"):
                for a in args:
                    for x in a:
                        if x[0] == "dict":
                            self.put((o, "[]"), self.get((x, "[]")))
                            self.put((o, "[k]"), self.get((x, "[k]")))
                        elif x[0] in ("fn", "cls", "ext", "bm"):
                            self.put((o, "[]"), self.call({x}, [], {}, e))
                        else:
                            self.put((o, "[]"), self.elems(self.elems({x})))
                self.put((o, "[]"), set().union(*kw.values()) if kw else E)
            return out
        fns = {o for o in flat if o[0] in ("fn", "raw", "bm", "partial", "cls")}
        el = set().union(*[self.elems(a) for a in args]) if args else set()
        got = set()
        if fns:
            rest = (el | {o for o in flat if o not in fns and o[0] != "ext"})
            for _ in range(1):
                got = self.call(fns, [rest, rest], {}, e) if name.startswith(("builtins.", "functools.", "itertools.")) else self.call(fns, [el, el], {}, e)
        if name in ("builtins.enumerate", "builtins.zip", "itertools.zip_longest", "itertools.pairwise", "itertools.product", "itertools.combinations", "itertools.groupby"):
            if short == "enumerate" and args:
                pair = self.tuple_of(e.func, [E, self.elems(args[0])])
            elif short in ("zip", "zip_longest", "product") and not any(isinstance(a, ast.Starred) for a in e.args):
                pair = self.tuple_of(e.func, [self.elems(a) for a in args])
            else:
                pair = self.new("tuple", e.func, el | (self.new("gen", e.args[0], el) if short == "groupby" and e.args else E))
            return self.new("gen", e, pair)
        if name in ("builtins.map",):
            return self.new("gen", e, got)
        if name in ("builtins.filter", "builtins.reversed", "builtins.iter", "itertools.islice", "itertools.takewhile", "itertools.dropwhile", "itertools.chain", "itertools.cycle",
                    "itertools.accumulate", "itertools.chain.from_iterable"):
            return self.new("gen", e, el | (self.elems(el) if short == "from_iterable" else E) | (got if short == "accumulate" else E))
        if name in ("builtins.min", "builtins.max", "builtins.sum", "functools.reduce"):
            return el | got | flat - fns if short != "sum" else self.new("list", e, self.elems(el)) if any(kinds(o) for o in el) else el
        if name == "itertools.count":
            return self.new("gen", e)
        if name in ("typing.cast",) and len(args) > 1:
            return args[1]
        if self.is_node_class(name):
            return self.node_new(args, kw, e)
        if flat & {N}:
            return {N} | self.new("gen", e, {N})
        return self.new("opaque", e) if e is not None and self.make_phase == "M" else E
