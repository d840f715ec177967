"""Constant folding of table-like expressions of the analysed package.

Literal tables (option definitions, message declarations, precedence and tweak tables, operator maps,
compiled patterns) are reduced to values by folding the defining expressions over the syntax tree.  Only
literals, container displays, comprehensions over folded values, string/dict/list methods, enum members,
dataclass constructions and small pure helper functions are folded; everything else becomes `Unk`.
"""
from __future__ import annotations
import ast
import operator
from .program import Class, Func, AnalysisBroken


class Unk:
    def __init__(self, node=None, why=""):
        self.node, self.why = node, why

    def __repr__(self):
        return f"<unknown {self.why}>"


class Sym:
    """hashable symbolic value"""

    def __init__(self, *key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Sym) and type(self) is type(o) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __lt__(self, o):
        return str(self.key) < str(o.key)

    def __repr__(self):
        return f"{type(self).__name__}{self.key}"


class EnumV(Sym):  # (class qual, member)
    cls = property(lambda s: s.key[0])
    name = property(lambda s: s.key[1])


class ClsV(Sym):  # (qual,)
    qual = property(lambda s: s.key[0])


class Ext(Sym):  # (dotted,)
    dotted = property(lambda s: s.key[0])


class ModV(Sym):
    pass


class FnV(Sym):  # (Func, self value or None)
    func = property(lambda s: s.key[0])
    self_ = property(lambda s: s.key[1])

    def __init__(self, func, self_=None, env=None):
        super().__init__(func, self_)
        self.env = env


class ExtBM(Sym):
    """method of a folded builtin value"""

    def __init__(self, obj, name):
        super().__init__(id(obj), name)
        self.obj, self.name = obj, name


class Inst:
    def __init__(self, cls, fields, node):
        self.cls, self.fields, self.node = cls, fields, node

    def __repr__(self):
        return f"{self.cls.rsplit('.', 1)[-1]}({self.fields})"


class CallV:
    """call of something outside the package that is not folded"""

    def __init__(self, dotted, args, kwargs, node):
        self.dotted, self.args, self.kwargs, self.node = dotted, args, kwargs, node

    def __repr__(self):
        return f"{self.dotted}({self.args},{self.kwargs})"


class FDict(dict):
    node = None
    keynodes = None


class FList(list):
    node = None


class _Unfold(Exception):
    def __init__(self, node, why):
        super().__init__(why)
        self.node, self.why = node, why


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod, ast.BitOr: operator.or_,
       ast.BitAnd: operator.and_, ast.FloorDiv: operator.floordiv, ast.BitXor: operator.xor}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
       ast.GtE: operator.ge}
PURE = {"len": len, "str": str, "int": int, "set": set, "list": FList, "tuple": tuple, "dict": FDict, "frozenset": frozenset,
        "sorted": sorted, "reversed": lambda x: list(reversed(x)), "enumerate": lambda *a: list(enumerate(*a)), "zip": lambda *a: list(zip(*a)),
        "range": range, "bool": bool, "min": min, "max": max, "any": any, "all": all, "chr": chr, "ord": ord, "abs": abs}
STR_OK = {"lower", "upper", "replace", "split", "join", "format", "startswith", "endswith", "strip", "lstrip", "rstrip", "title", "count",
          "splitlines", "partition", "rpartition", "rsplit", "isdecimal", "isdigit", "capitalize", "removeprefix", "removesuffix"}
DICT_OK = {"items", "keys", "values", "get", "update", "copy", "setdefault", "pop"}
LIST_OK = {"append", "extend", "copy", "index", "count", "insert", "remove", "reverse", "pop", "sort"}
SET_OK = {"add", "update", "union", "copy", "discard", "difference", "intersection", "issubset", "remove"}


class Fold:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        self.busy = set()
        self.steps = 0
        self.folded = 0

    # ------------------------------------------------------------ globals
    def glob(self, mod, name):
        """value of a module-level name"""
        m = self.p.module(mod) if isinstance(mod, str) else mod
        key = (m.name, name)
        if key in self.cache:
            return self.cache[key]
        if key in self.busy:
            return Unk(None, f"cyclic {name}")
        r = self.p.resolve_global(m, name)
        v = self.from_res(r, m, name)
        self.cache[key] = v
        return v

    def from_res(self, r, m=None, name=None):
        if r is None:
            return Unk(None, f"unresolved {name}")
        if r[0] == "func":
            return FnV(r[1])
        if r[0] == "class":
            return ClsV(r[1].qual)
        if r[0] == "module":
            return ModV(r[1])
        if r[0] == "ext":
            return Ext(r[1])
        if r[0] == "classattr":
            return self.class_attr(r[1], r[2])
        if r[0] == "var":
            if m is not None and (r[1].name, r[2]) != (m.name, name):
                return self.glob(r[1], r[2])
            return self.module_var(r[1], r[2])
        return Unk(None, str(r))

    def module_var(self, m, name):
        key = (m.name, name)
        self.busy.add(key)
        env = {"__mod__": m}
        try:
            for s in m.tree.body:
                if not self.relevant(s, name):
                    continue
                try:
                    self.exec(s, env, m)
                except _Unfold as u:
                    return Unk(u.node, u.why)
                except _Ret:
                    pass
            return env.get(name, Unk(None, f"no binding of {name}"))
        finally:
            self.busy.discard(key)

    def relevant(self, s, name):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            return False
        if isinstance(s, ast.If) and isinstance(s.test, ast.Name) and s.test.id == "TYPE_CHECKING":
            return False
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == name:
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    return True
                p = getattr(n, "parent", None)
                # mutation through the name
                if isinstance(p, (ast.Subscript, ast.Attribute)) and p.value is n:
                    if isinstance(p.ctx, (ast.Store, ast.Del)):
                        return True
                    pp = getattr(p, "parent", None)
                    if isinstance(p, ast.Attribute) and isinstance(pp, ast.Call) and pp.func is p and p.attr in (
                            "append", "extend", "update", "add", "insert", "setdefault", "pop", "remove", "discard", "clear"):
                        return True
        return False

    def class_attr(self, c, attr):
        key = ("ca", c.qual, attr)
        if key in self.cache:
            return self.cache[key]
        if key in self.busy:
            return Unk(None, "cyclic class attribute")
        if self.is_enum(c) and attr in self.enum_members(c):
            return EnumV(c.qual, attr)
        self.busy.add(key)
        try:
            for k in self.p.mro(c):
                if not isinstance(k, Class):
                    continue
                if attr in k.methods:
                    return FnV(k.methods[attr])
                env = {"__mod__": k.module, "__cls__": k}
                found = False
                for s in k.node.body:
                    if self.relevant(s, attr):
                        found = True
                        try:
                            self.exec(s, env, k.module)
                        except _Unfold as u:
                            self.cache[key] = Unk(u.node, u.why)
                            return self.cache[key]
                if found:
                    self.cache[key] = env.get(attr, Unk(None, f"class attribute {attr}"))
                    return self.cache[key]
            return Unk(None, f"no class attribute {attr}")
        finally:
            self.busy.discard(key)

    def is_enum(self, c):
        return any(isinstance(k, str) and k in ("enum.Enum", "enum.IntEnum", "enum.Flag", "enum.StrEnum") for k in self.p.mro(c))

    def enum_members(self, c):
        return [s.targets[0].id for s in c.node.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
                and not s.targets[0].id.startswith("_") and not isinstance(s.value, ast.Lambda)]

    # ------------------------------------------------------------ statements
    def exec(self, s, env, m):
        self.steps += 1
        if self.steps > 400000:
            raise _Unfold(s, "too long")
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, m)
            for t in s.targets:
                self.bind(t, v, env, m)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env, m), env, m)
        elif isinstance(s, ast.AugAssign):
            cur = self.ev(_load(s.target), env, m)
            v = self.ev(s.value, env, m)
            if isinstance(cur, list) and isinstance(s.op, ast.Add) and isinstance(v, (list, tuple)):
                cur.extend(v)
                return
            if isinstance(cur, dict) and isinstance(s.op, ast.BitOr) and isinstance(v, dict):
                cur.update(v)
                return
            if isinstance(cur, set) and isinstance(s.op, ast.BitOr) and isinstance(v, (set, frozenset)):
                cur.update(v)
                return
            self.bind(s.target, self.binop(s.op, cur, v, s), env, m)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env, m)
        elif isinstance(s, ast.Return):
            raise _Ret(self.ev(s.value, env, m) if s.value is not None else None)
        elif isinstance(s, ast.If):
            t = self.truth(self.ev(s.test, env, m), s.test)
            for x in s.body if t else s.orelse:
                self.exec(x, env, m)
        elif isinstance(s, ast.For):
            broke = False
            for v in self.iter(self.ev(s.iter, env, m), s.iter):
                self.bind(s.target, v, env, m)
                try:
                    for x in s.body:
                        self.exec(x, env, m)
                except _Brk:
                    broke = True
                    break
                except _Cont:
                    continue
            if not broke:
                for x in s.orelse:
                    self.exec(x, env, m)
        elif isinstance(s, ast.Break):
            raise _Brk()
        elif isinstance(s, ast.Continue):
            raise _Cont()
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, env, m), s.test):
                raise _Unfold(s, "assertion fails")
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    o = self.ev(t.value, env, m)
                    try:
                        del o[self.ev(t.slice, env, m)]
                    except Exception as e:
                        raise _Unfold(s, str(e))
                else:
                    raise _Unfold(s, "del")
        elif isinstance(s, (ast.FunctionDef,)):
            f = self.p.func_of_node.get(s)
            env[s.name] = FnV(f, None, env) if not s.decorator_list else Unk(s, "decorated")
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                n = a.asname or a.name.split(".")[0]
                if isinstance(s, ast.ImportFrom):
                    base = self.p.abs_import(m, s)
                    if base in self.p.modules:
                        env[n] = self.from_res(self.p.resolve_global(self.p.modules[base], a.name), self.p.modules[base], None)
                    else:
                        env[n] = Ext(f"{base}.{a.name}")
                else:
                    env[n] = ModV(a.name) if a.name in self.p.modules else Ext(a.name if a.asname else n)
        else:
            raise _Unfold(s, f"statement {type(s).__name__}")

    def bind(self, t, v, env, m):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iter(v, t))
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            if star is None:
                if len(vs) != len(t.elts):
                    raise _Unfold(t, "unpacking arity")
                for e, x in zip(t.elts, vs):
                    self.bind(e, x, env, m)
            else:
                k = len(t.elts) - star - 1
                for e, x in zip(t.elts[:star], vs[:star]):
                    self.bind(e, x, env, m)
                self.bind(t.elts[star].value, FList(vs[star:len(vs) - k]), env, m)
                for e, x in zip(t.elts[star + 1:], vs[len(vs) - k:]):
                    self.bind(e, x, env, m)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, m)
            if isinstance(o, (dict, list)):
                try:
                    k = self.ev(t.slice, env, m)
                    o[k] = v
                    if isinstance(o, FDict) and o.keynodes is not None:
                        o.keynodes[k] = t
                    return
                except _Unfold:
                    raise
                except Exception as e:
                    raise _Unfold(t, str(e))
            raise _Unfold(t, "item assignment")
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, m)
            if isinstance(o, Inst):
                o.fields[t.attr] = v
                return
            raise _Unfold(t, "attribute assignment")
        else:
            raise _Unfold(t, "target")

    def iter(self, v, node):
        if isinstance(v, (list, tuple, set, frozenset, dict, str, range)):
            if isinstance(v, (set, frozenset)):
                try:
                    return sorted(v)
                except TypeError:
                    return sorted(v, key=repr)
            return list(v)
        if type(v).__name__ in ("dict_items", "dict_keys", "dict_values"):
            return list(v)
        if isinstance(v, ClsV):
            c = self.p.classes[v.qual]
            if self.is_enum(c):
                return [EnumV(c.qual, x) for x in self.enum_members(c)]
        raise _Unfold(node, f"iteration over {v!r}")

    def truth(self, v, node):
        if isinstance(v, (Unk, CallV)):
            raise _Unfold(node, f"truth of {v!r}")
        if isinstance(v, (Sym, Inst)):
            return True
        return bool(v)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, m):
        """folded value; raises _Unfold"""
        self.steps += 1
        if self.steps > 400000:
            raise _Unfold(e, "too long")
        fn = getattr(self, "v_" + type(e).__name__, None)
        if fn is None:
            raise _Unfold(e, type(e).__name__)
        return fn(e, env, m)

    def try_ev(self, e, env, m):
        try:
            return self.ev(e, env, m)
        except _Unfold as u:
            return Unk(u.node, u.why)
        except (RecursionError,):
            return Unk(e, "recursion")

    def expr(self, e, m, env=None):
        """fold an expression of module m (public)"""
        return self.try_ev(e, dict(env or {}), m if not isinstance(m, str) else self.p.module(m))

    def v_Constant(self, e, env, m):
        return e.value

    def v_Name(self, e, env, m):
        if e.id in env:
            return env[e.id]
        c = env.get("__cls__")
        if c is not None:
            v = self.class_attr(c, e.id) if any(self.relevant(s, e.id) for s in c.node.body) or e.id in c.methods else None
            if v is not None:
                return v
        if e.id == "__file__":
            return Sym("__file__", m.name)
        if e.id == "__name__":
            return m.name
        v = self.glob(m, e.id)
        if isinstance(v, Unk):
            raise _Unfold(e, f"{e.id}: {v.why}")
        return v

    def v_List(self, e, env, m):
        r = FList()
        r.node = e
        for x in e.elts:
            if isinstance(x, ast.Starred):
                r.extend(self.iter(self.ev(x.value, env, m), x))
            else:
                r.append(self.try_ev(x, env, m))
        return r

    def v_Tuple(self, e, env, m):
        return tuple(self.v_List(e, env, m))

    def v_Set(self, e, env, m):
        try:
            return set(self.v_List(e, env, m))
        except TypeError as x:
            raise _Unfold(e, str(x))

    def v_Dict(self, e, env, m):
        r = FDict()
        r.node, r.keynodes = e, {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, env, m)
                if not isinstance(d, dict):
                    raise _Unfold(v, "** of non-dict")
                r.update(d)
                for kk in d:
                    r.keynodes[kk] = (getattr(d, "keynodes", None) or {}).get(kk, v)
            else:
                kk = self.ev(k, env, m)
                try:
                    if kk in r and getattr(r, "dups", None) is not None:
                        pass
                    r[kk] = self.try_ev(v, env, m)
                except TypeError as x:
                    raise _Unfold(k, str(x))
                r.keynodes[kk] = k
        return r

    def v_JoinedStr(self, e, env, m):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(str(x.value))
            else:
                v = self.ev(x.value, env, m)
                out.append(self.to_str(v, x, env, m))
        return "".join(out)

    def to_str(self, v, node, env, m):
        if isinstance(v, (str, int, float, bool, type(None))):
            return str(v)
        if isinstance(v, EnumV):
            f = self.p.find_method(self.p.classes[v.cls], "__str__")
            if f is not None:
                return self.call(FnV(f, v), [], {}, node)
            return f"{v.cls.rsplit('.', 1)[-1]}.{v.name}"
        raise _Unfold(node, "str() of non-constant")

    def v_BinOp(self, e, env, m):
        return self.binop(e.op, self.ev(e.left, env, m), self.ev(e.right, env, m), e)

    def binop(self, op, a, b, node):
        f = BIN.get(type(op))
        if f is None or isinstance(a, (Unk, CallV, Sym, Inst)) or isinstance(b, (Unk, CallV, Inst)):
            raise _Unfold(node, "operands")
        if isinstance(op, ast.Mult) and isinstance(a, (str, list)) and isinstance(b, int) and b > 1000:
            raise _Unfold(node, "size")
        try:
            r = f(a, b)
        except Exception as x:
            raise _Unfold(node, str(x))
        if isinstance(r, dict) and isinstance(a, FDict):
            r = FDict(r)
            r.keynodes = {**(a.keynodes or {}), **(getattr(b, "keynodes", None) or {})}
        elif type(r) is list:
            r = FList(r)
        return r

    def v_UnaryOp(self, e, env, m):
        v = self.ev(e.operand, env, m)
        if isinstance(e.op, ast.Not):
            return not self.truth(v, e)
        try:
            return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)](v)
        except Exception as x:
            raise _Unfold(e, str(x))

    def v_BoolOp(self, e, env, m):
        v = None
        for x in e.values:
            v = self.ev(x, env, m)
            t = self.truth(v, x)
            if t != isinstance(e.op, ast.And):
                return v
        return v

    def v_Compare(self, e, env, m):
        left = self.ev(e.left, env, m)
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, env, m)
            if isinstance(left, (Unk, CallV)) or isinstance(right, (Unk, CallV)):
                raise _Unfold(e, "comparison of unknown")
            try:
                if isinstance(op, ast.Is):
                    r = left is right or (isinstance(left, Sym) and left == right)
                elif isinstance(op, ast.IsNot):
                    r = not (left is right or (isinstance(left, Sym) and left == right))
                elif isinstance(op, ast.In):
                    r = left in right
                elif isinstance(op, ast.NotIn):
                    r = left not in right
                else:
                    r = CMP[type(op)](left, right)
            except Exception as x:
                raise _Unfold(e, str(x))
            if not r:
                return False
            left = right
        return True

    def v_IfExp(self, e, env, m):
        return self.ev(e.body if self.truth(self.ev(e.test, env, m), e.test) else e.orelse, env, m)

    def v_Lambda(self, e, env, m):
        f = self.p.func_of_node.get(e)
        return FnV(f, None, env)

    def v_NamedExpr(self, e, env, m):
        v = self.ev(e.value, env, m)
        env[e.target.id] = v
        return v

    def comp(self, e, env, m, emit):
        env = dict(env)

        def go(i):
            if i == len(e.generators):
                emit(env)
                return
            g = e.generators[i]
            for v in self.iter(self.ev(g.iter, env, m), g.iter):
                self.bind(g.target, v, env, m)
                if all(self.truth(self.ev(c, env, m), c) for c in g.ifs):
                    go(i + 1)

        go(0)

    def v_ListComp(self, e, env, m):
        r = FList()
        self.comp(e, env, m, lambda en: r.append(self.ev(e.elt, en, m)))
        return r

    v_GeneratorExp = v_ListComp

    def v_SetComp(self, e, env, m):
        r = set()
        self.comp(e, env, m, lambda en: r.add(self.ev(e.elt, en, m)))
        return r

    def v_DictComp(self, e, env, m):
        r = FDict()
        r.keynodes = {}

        def put(en):
            k = self.ev(e.key, en, m)
            r[k] = self.try_ev(e.value, en, m)
            r.keynodes[k] = e.key

        self.comp(e, env, m, put)
        return r

    def v_Subscript(self, e, env, m):
        o = self.ev(e.value, env, m)
        if isinstance(e.slice, ast.Slice):
            parts = [self.ev(x, env, m) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            try:
                return o[slice(*parts)]
            except Exception as x:
                raise _Unfold(e, str(x))
        k = self.ev(e.slice, env, m)
        if isinstance(o, (dict, list, tuple, str)):
            try:
                return o[k]
            except Exception as x:
                raise _Unfold(e, repr(x))
        if isinstance(o, ClsV) and isinstance(k, str):
            c = self.p.classes[o.qual]
            if self.is_enum(c) and k in self.enum_members(c):
                return EnumV(c.qual, k)
            return o
        if isinstance(o, (ClsV, Ext)):
            return o  # typing subscript
        raise _Unfold(e, "subscript")

    def v_Attribute(self, e, env, m):
        return self.attr(self.ev(e.value, env, m), e.attr, e)

    def attr(self, o, attr, e):
        if isinstance(o, ModV):
            return self.glob(o.key[0], attr)
        if isinstance(o, Ext):
            return Ext(f"{o.dotted}.{attr}")
        if isinstance(o, ClsV):
            c = self.p.classes[o.qual]
            if attr == "__members__" and self.is_enum(c):
                return FDict({x: EnumV(c.qual, x) for x in self.enum_members(c)})
            if attr in ("__name__", "__qualname__"):
                return c.name
            v = self.class_attr(c, attr)
            if isinstance(v, Unk):
                raise _Unfold(e, v.why)
            f = self.p.find_method(c, attr)
            if f is not None and any(isinstance(d, ast.Name) and d.id == "classmethod" for d in f.decorators()):
                return FnV(f, o)
            return v
        if isinstance(o, EnumV):
            c = self.p.classes[o.cls]
            if attr in ("name", "_name_"):
                return o.name
            if attr in ("value", "_value_"):
                return self.enum_value(o, e)
            f = self.p.find_method(c, attr)
            if f is not None:
                return FnV(f, o)
            raise _Unfold(e, f"enum attribute {attr}")
        if isinstance(o, Inst):
            if attr in o.fields:
                return o.fields[attr]
            c = self.p.classes[o.cls]
            f = self.p.find_method(c, attr)
            if f is not None:
                return FnV(f, o)
            v = self.class_attr(c, attr)
            if isinstance(v, Unk):
                raise _Unfold(e, v.why)
            return v
        if isinstance(o, (str, dict, list, set, frozenset, tuple)):
            return ExtBM(o, attr)
        if isinstance(o, FnV) and attr == "__func__":
            return o
        raise _Unfold(e, f"attribute {attr}")

    def enum_value(self, o, e):
        """value of a member: literal, auto() or assigned by the class's __new__"""
        c = self.p.classes[o.cls]
        new = self.p.find_method(c, "__new__")
        members = self.enum_members(c)
        pos = members.index(o.name)
        stmt = next(s for s in c.node.body if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == o.name)
        if new is None:
            v = self.ev(stmt.value, {"__cls__": c, "__mod__": c.module}, c.module)
            if isinstance(v, CallV) and v.dotted == "enum.auto":
                return pos + 1
            return v
        # __new__(cls, *args): statements assigning obj._value_ are folded with cls.__members__ of the members before this one
        env = {"__mod__": new.module}
        a = new.node.args
        names = [x.arg for x in a.args]
        cls_name = names[0]
        env[cls_name] = Inst("__partial_enum__", {"__members__": FDict({x: None for x in members[:pos]})}, None)
        obj = Inst("__enum_obj__", {}, None)
        for s in new.node.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "__new__":
                self.bind(s.targets[0], obj, env, new.module)
            elif isinstance(s, ast.Return):
                break
            else:
                self.exec(s, env, new.module)
        if "_value_" not in obj.fields:
            raise _Unfold(e, "enum value")
        return obj.fields["_value_"]

    def v_Call(self, e, env, m):
        f = self.ev(e.func, env, m)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter(self.ev(a.value, env, m), a))
            else:
                args.append(self.try_ev(a, env, m))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, m)
                if not isinstance(d, dict):
                    raise _Unfold(e, "**")
                kw.update(d)
            else:
                kw[k.arg] = self.try_ev(k.value, env, m)
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, e):
        if isinstance(f, ExtBM):
            o, n = f.obj, f.name
            ok = (isinstance(o, str) and n in STR_OK) or (isinstance(o, dict) and n in DICT_OK) or (
                isinstance(o, list) and n in LIST_OK) or (isinstance(o, (set, frozenset)) and n in SET_OK) or (
                isinstance(o, tuple) and n in ("index", "count"))
            if not ok:
                raise _Unfold(e, f"method {n}")
            if isinstance(o, str) and any(isinstance(x, Unk) for x in args):
                raise _Unfold(e, "unknown argument")
            try:
                if n == "join":
                    return o.join(self.iter(args[0], e))
                if n == "copy" and isinstance(o, dict):
                    r = FDict(o)
                    r.keynodes = dict(getattr(o, "keynodes", None) or {})
                    return r
                if n in ("update", "extend") and args and not isinstance(args[0], dict):
                    args = [self.iter(args[0], e)]
                r = getattr(o, n)(*args, **kw)
                if n == "update" and isinstance(o, FDict) and o.keynodes is not None and args and isinstance(args[0], dict):
                    for k in args[0]:
                        o.keynodes[k] = (getattr(args[0], "keynodes", None) or {}).get(k, e)
                return r
            except _Unfold:
                raise
            except Exception as x:
                raise _Unfold(e, repr(x))
        if isinstance(f, ClsV):
            return self.construct(f, args, kw, e)
        if isinstance(f, FnV):
            return self.inline(f, args, kw, e)
        if isinstance(f, Ext):
            d = f.dotted
            if d.startswith("builtins."):
                n = d[9:]
                if n in PURE:
                    if any(isinstance(x, (Unk, CallV)) for x in args):
                        raise _Unfold(e, f"{n}() of unknown")
                    if n == "str" and args:
                        return self.to_str(args[0], e, {}, None)
                    if n in ("set", "list", "tuple", "sorted", "frozenset", "enumerate", "reversed", "any", "all") and args:
                        args = [self.iter(args[0], e)] + args[1:]
                    try:
                        return PURE[n](*args, **kw)
                    except Exception as x:
                        raise _Unfold(e, repr(x))
                if n == "map" and len(args) == 2:
                    return FList(self.call(args[0], [x], {}, e) for x in self.iter(args[1], e))
                if n == "filter" and len(args) == 2:
                    return FList(x for x in self.iter(args[1], e) if self.truth(self.call(args[0], [x], {}, e), e))
            if d in ("types.MappingProxyType", "copy.copy", "copy.deepcopy", "collections.OrderedDict") and len(args) == 1:
                return args[0]
            if d == "itertools.chain":
                return FList(x for a in args for x in self.iter(a, e))
            if d in ("re.escape",) and isinstance(args[0], str):
                import re
                return re.escape(args[0])
            return CallV(d, args, kw, e)
        raise _Unfold(e, f"call of {f!r}")

    def fields_of(self, c):
        out = []
        for k in reversed([k for k in self.p.mro(c) if isinstance(k, Class)]):
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    ann = ast.unparse(s.annotation)
                    if "ClassVar" in ann:
                        continue
                    out = [x for x in out if x[0] != s.target.id] + [(s.target.id, s.value, k)]
        return out

    def is_dataclass(self, c):
        for k in self.p.mro(c):
            if isinstance(k, Class):
                for d in k.node.decorator_list:
                    t = d.func if isinstance(d, ast.Call) else d
                    if (isinstance(t, ast.Name) and t.id == "dataclass") or (isinstance(t, ast.Attribute) and t.attr == "dataclass"):
                        return True
            elif isinstance(k, str) and k in ("typing.NamedTuple",):
                return True
        return False

    def construct(self, f, args, kw, e):
        c = self.p.classes[f.qual]
        if self.is_enum(c):
            raise _Unfold(e, "enum call")
        if self.is_dataclass(c):
            fields = {}
            fl = self.fields_of(c)
            for (name, _, _), v in zip(fl, args):
                fields[name] = v
            fields.update(kw)
            for name, dflt, k in fl:
                if name not in fields and dflt is not None:
                    fields[name] = self.try_ev(dflt, {"__mod__": k.module, "__cls__": k}, k.module)
            return Inst(c.qual, fields, e)
        init = self.p.find_method(c, "__init__")
        inst = Inst(c.qual, {}, e)
        if init is None:
            return inst
        try:
            self.inline(FnV(init, inst), args, kw, e)
        except _Unfold:
            inst.fields["__args__"] = tuple(args)
        return inst

    depth = 0

    def inline(self, f, args, kw, e):
        fn = f.func
        if fn is None:
            raise _Unfold(e, "function")
        if self.depth > 40:
            raise _Unfold(e, "depth")
        a = fn.node.args
        if any(isinstance(x, Unk) for x in args):
            pass
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(f.env or {})
        env.pop("__cls__", None)
        pos = list(args)
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorators())
        if f.self_ is not None and not static:
            pos.insert(0, f.self_)
        if fn.is_generator() or isinstance(fn.node, ast.AsyncFunctionDef):
            raise _Unfold(e, "generator")
        if len(pos) > len(names) and a.vararg is None:
            raise _Unfold(e, "too many arguments")
        bound = dict(zip(names, pos))
        if a.vararg is not None:
            bound[a.vararg.arg] = tuple(pos[len(names):])
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                bound[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise _Unfold(e, f"no parameter {k}")
        if a.kwarg is not None:
            bound[a.kwarg.arg] = FDict(extra)
        m = fn.module
        for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(n, d) for n, d in zip(konly, a.kw_defaults) if d is not None]:
            if n not in bound:
                bound[n] = self.ev(d, {"__mod__": m}, m)
        missing = [n for n in names + konly if n not in bound]
        if missing:
            raise _Unfold(e, f"missing {missing}")
        env.update(bound)
        env["__mod__"] = m
        self.depth += 1
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, env, m)
            for s in fn.node.body:
                self.exec(s, env, m)
            return None
        except _Ret as r:
            return r.v
        finally:
            self.depth -= 1

    def call_func(self, qual, *args, **kw):
        """fold a call of a package function; Unk when it cannot be folded"""
        f = self.p.func(qual)
        try:
            return self.call(FnV(f), list(args), kw, f.node)
        except _Unfold as u:
            return Unk(u.node, u.why)

    def call_method(self, obj, name, *args, **kw):
        try:
            return self.call(self.attr(obj, name, None), list(args), kw, None)
        except _Unfold as u:
            return Unk(u.node, u.why)


def _load(t):
    if isinstance(t, ast.Name):
        n = ast.Name(t.id, ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(t.value, t.attr, ast.Load())
    elif isinstance(t, ast.Subscript):
        n = ast.Subscript(t.value, t.slice, ast.Load())
    else:
        return t
    return ast.copy_location(n, t)


def need(v, what):
    """the folded value, or the analysis is broken (the table is no longer a foldable constant)"""
    if isinstance(v, (Unk, CallV)):
        raise AnalysisBroken(f"{what} does not fold to a constant: {v!r}")
    return v
