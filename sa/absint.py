"""Flow-sensitive, interprocedural abstract interpreter over the package's syntax trees.

Values are finite sets of terms describing where a value comes from (constants, functions, classes,
allocation-site objects, labelled sources, applications of operations).  States join at merge points,
loops run to a fixed point, repository functions are analysed in the context of each call.  Nothing of
the analysed package is executed.
"""
from __future__ import annotations
import math
import operator
import ast
import pathlib
import builtins
import posixpath
import shlex
import string
from . import paths
from .program import Program, Func, Class, Module, func_locals, AnalysisBroken, _is_type_checking

MAX_TERMS = 40
MAX_DEPTH = 9
LIMIT = {"segs": 24, "layers": 60}     # known elements kept apart before a collection is summarised
EMPTY = frozenset()


def C(v):
    return ("c", type(v).__name__, v)


def const(v):
    return frozenset([C(v)])


NONE = const(None)
TRUE, FALSE = const(True), const(False)
STR_METHODS = {n for n in dir(str) if not n.startswith("__")}
LIST_METHODS = {n for n in dir(list) if not n.startswith("__")}
DICT_METHODS = {n for n in dir(dict) if not n.startswith("__")}
SET_METHODS = {n for n in dir(set) if not n.startswith("__")}
TOML_TYPES = frozenset(["str", "int", "float", "bool", "list", "dict", "datetime"])
TYPE_DIR = {
    "str": set(dir(str)), "int": set(dir(int)), "float": set(dir(float)), "bool": set(dir(bool)),
    "list": set(dir(list)), "dict": set(dir(dict)), "none": set(dir(None)), "datetime": set(dir(__import__("datetime").datetime)),
    "tuple": set(dir(tuple)), "set": set(dir(set)),
}
ISINSTANCE_MAP = {
    "builtins.str": {"str"}, "builtins.int": {"int", "bool"}, "builtins.float": {"float"}, "builtins.bool": {"bool"}, "builtins.bytes": {"bytes"}, "builtins.complex": {"complex"},
    "builtins.list": {"list"}, "builtins.dict": {"dict"}, "builtins.tuple": {"tuple"}, "builtins.set": {"set"},
    "builtins.object": TOML_TYPES | {"none"},
    "collections.abc.Mapping": {"dict"}, "typing.Mapping": {"dict"}, "typing.Dict": {"dict"}, "typing.List": {"list"},
    "collections.abc.Sequence": {"list", "str", "tuple"}, "collections.abc.Iterable": {"list", "str", "dict", "tuple", "set"},
    "numbers.Number": {"int", "float", "bool"}, "numbers.Integral": {"int", "bool"},
}


PY_OPERATORS = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "LShift": "lshift", "RShift": "rshift", "BitOr": "or_", "BitXor": "xor", "BitAnd": "and_",
                "USub": "neg", "UAdd": "pos", "Invert": "invert", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}
KNOWN_METHODS = ("bit_length", "bit_count", "is_integer", "conjugate", "__neg__", "__abs__")
KNOWN_BUILTINS = {"builtins." + f.__name__: f for f in (abs, chr, ord, float, divmod, round, bin, hex, oct, len, complex)}
KNOWN_BUILTINS.update({"math." + f.__name__: f for f in (math.isfinite, math.isinf, math.isnan, math.floor, math.ceil)})


def T(path, types):
    return ("T", path, frozenset(types))


_depth = {}
_FLAT = {"c", "fn", "cls", "mod", "ext", "o", "enum", "s", "top"}


def term_depth(t):
    if isinstance(t, tuple):
        if t and t[0] in _FLAT:
            return 1
        d = 0
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                d = max(d, term_depth(x))
        return d + 1
    if isinstance(t, frozenset):
        r = _depth.get(t)
        if r is None:
            r = 0
            for x in t:
                r = max(r, term_depth(x))
            _depth[t] = r
        return r
    return 0


def av_labels(av, out=None, seen=None):
    """Source labels a value is built from (heap not followed)."""
    out = set() if out is None else out
    if isinstance(av, frozenset):
        for t in av:
            av_labels(t, out)
        return out
    t = av
    if not isinstance(t, tuple) or not t:
        return out
    tag = t[0]
    if tag == "s":
        out.add(t[1])
    elif tag == "T":
        out.add(("T", t[1]))
    elif tag == "top":
        out.update(t[1])
    elif tag in ("c", "fn", "cls", "mod", "ext", "o", "enum"):
        pass
    else:
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                av_labels(x, out)
    return out


_normed = set()


def norm(av):
    if av in _normed:
        return av
    r = _norm(av)
    _normed.add(r)
    return r


def _norm(av):
    if len(av) > MAX_TERMS or any(term_depth(t) > MAX_DEPTH for t in av):
        keep, labs = [], set()
        for t in av:
            if t[0] in ("o", "fn", "cls", "enum", "bm", "mod", "ext") or (t[0] == "c" and len(av) <= MAX_TERMS * 4):
                keep.append(t)
            elif t[0] == "T" and term_depth(t) <= MAX_DEPTH:
                keep.append(t)
            elif term_depth(t) <= MAX_DEPTH and len(av) <= MAX_TERMS:
                keep.append(t)
            else:
                av_labels(t, labs)
                if t[0] == "T":
                    keep.append(("T", ("deep",), t[2]))
                    continue
                labs.add("*deep*")
        if labs:
            keep.append(("top", frozenset(labs)))
        return frozenset(keep)
    return av


class Obj:
    """Abstract heap object (immutable; replaced on update)."""
    __slots__ = ("kind", "cls", "fields", "segs", "layers", "_h")

    def __init__(self, kind, cls=None, fields=None, segs=(), layers=()):
        self.kind, self.cls, self.fields, self.segs, self.layers = kind, cls, fields or {}, tuple(segs), tuple(layers)

    def __eq__(self, o):
        return self is o or (self.kind == o.kind and self.cls == o.cls and self.segs == o.segs and self.layers == o.layers
                             and self.fields == o.fields)

    def __hash__(self):
        return hash((self.kind, self.cls, len(self.fields), len(self.segs)))

    def __repr__(self):
        return f"Obj({self.kind},{self.cls},{self.fields},{self.segs},{self.layers})"


def add_seg(segs, kind, av):
    """append with collapsing of equal adjacent summaries"""
    if kind == "*" and segs and segs[-1][0] == "*" and (av <= segs[-1][1]):
        return segs
    segs = segs + ((kind, av),)
    if len(segs) > LIMIT["segs"]:
        u = frozenset().union(*[s[1] for s in segs[8:]])
        segs = segs[:8] + (("*", norm(u)),)
    return segs


def join_segs(a, b):
    if a == b:
        return a
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    # same length, differing only in contents: join pointwise
    if len(a) == len(b):
        return tuple((x[0] if x[0] == y[0] else "*", norm(x[1] | y[1])) for x, y in zip(a, b))
    rest = a[i:] + b[i:]
    u = frozenset().union(*[s[1] for s in rest])
    out = a[:i]
    if out and out[-1][0] == "*" and u <= out[-1][1]:
        return out
    if out and out[-1][0] == "*" and out[-1][1] <= u and False:
        return out[:-1] + (("*", u),)
    return add_seg(out, "*", norm(u))


def join_layers(a, b):
    if a == b:
        return a
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    out = list(a[:i])
    seen = set()
    for l in a[i:] + b[i:]:
        l2 = ("*kv",) + l[1:] if l[0] == "kv" else l
        if l2 not in seen:
            seen.add(l2)
            if l2 not in out:
                out.append(l2)
    if len(out) > 24:
        ks = frozenset().union(*[l[1] for l in out if l[0] != "**"]) if any(l[0] != "**" for l in out) else EMPTY
        vs = frozenset().union(*[l[2] for l in out if l[0] != "**"]) if any(l[0] != "**" for l in out) else EMPTY
        out = [l for l in out if l[0] == "**"] + [("*kv", norm(ks), norm(vs))]
    return tuple(out)


def join_obj(a, b):
    if a == b:
        return a
    fields = dict(a.fields)
    for k, v in b.fields.items():
        o = fields.get(k)
        if o is not v and o != v:
            fields[k] = norm((o or EMPTY) | v)
    return Obj(a.kind, a.cls, fields, join_segs(a.segs, b.segs), join_layers(a.layers, b.layers))


def join_ext(t, a, b):
    """attributes stored on a symbolic object: the value before is the attribute itself"""
    fa, fb = a.fields if a else {}, b.fields if b else {}
    f = {}
    for k in {**fa, **fb}:
        va, vb = fa.get(k), fb.get(k)
        va = va if va is not None else frozenset([("attr", t, k)])
        vb = vb if vb is not None else frozenset([("attr", t, k)])
        f[k] = va if va == vb else norm(va | vb)
    return Obj("inst", None, f)


UNKNOWN = object()
STR_CALLS = {"os.path." + n for n in ("join", "abspath", "normpath", "realpath", "basename", "dirname", "relpath", "expanduser")}


class State:
    __slots__ = ("frames", "heap", "facts", "done", "may", "dead")

    def __init__(self):
        self.frames, self.heap, self.facts, self.done, self.may, self.dead = {}, {}, frozenset(), frozenset(), frozenset(), False

    def copy(self):
        s = State()
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.facts, s.done, s.may, s.dead = self.facts, self.done, self.may, self.dead
        return s

    def put(self, fid, name, av):
        e = self.frames.get(fid)
        e = dict(e) if e is not None else {}
        e[name] = av
        self.frames[fid] = e

    def become(self, o):
        self.frames, self.heap, self.facts, self.done, self.may, self.dead = o.frames, o.heap, o.facts, o.done, o.may, o.dead

    def same(self, o):
        return self.frames == o.frames and self.heap == o.heap and self.facts == o.facts


def join(a, b):
    if a is None or a.dead:
        return b
    if b is None or b.dead:
        return a
    if a is b:
        return a
    s = State()
    s.frames = dict(a.frames)
    for fid, eb in b.frames.items():
        ea = a.frames.get(fid)
        if ea is eb:
            continue
        if ea is None:
            s.frames[fid] = eb
            continue
        e = None
        for k, v in eb.items():
            old = ea.get(k)
            if old is v:
                continue
            if k not in ea:
                nv = v
            elif old == v:
                continue
            else:
                nv = norm(old | v) if isinstance(v, frozenset) else v
            if e is None:
                e = dict(ea)
            e[k] = nv
        if e is not None:
            s.frames[fid] = e
    ah, h = a.heap, dict(a.heap)
    if a.heap is not b.heap:
        get = ah.get
        for oid, ob in [kv for kv in b.heap.items() if get(kv[0]) is not kv[1]]:
            oa = get(oid)
            if oid.__class__ is tuple:
                h[oid] = join_ext(oid[1], oa, ob)
            else:
                h[oid] = ob if oa is None else join_obj(oa, ob)
        for oid in ah:
            if oid.__class__ is tuple and oid not in b.heap:
                h[oid] = join_ext(oid[1], ah[oid], None)
    s.heap = h
    s.facts = a.facts if a.facts is b.facts else a.facts & b.facts
    s.done = a.done if a.done is b.done else a.done & b.done
    s.may = a.may if a.may is b.may else a.may | b.may
    return s


def join_all(sts):
    r = None
    for s in sts:
        if s is not None and not s.dead:
            r = join(r, s) if r is not None else s
    return r


class Event:
    __slots__ = ("kind", "name", "args", "kwargs", "facts", "done", "may", "node", "func", "stack", "recv", "order", "extra")

    def __repr__(self):
        return f"<{self.kind} {self.name} @{getattr(self.node, 'lineno', 0)} args={[show(a) for a in self.args]}>"


class Frame:
    def __init__(self, func, fid, module):
        self.func, self.fid, self.module = func, fid, module
        self.returns = []
        self.loops = []  # [(breaks, continues)]
        self.yields = None
        self.gen = None
        self.yield_hook = None
        self.handling = []  # stack of caught exception keys
        self.locals = None
        self.gl = set()
        self.nl = set()


EXC_BASES = {
    "requests.exceptions.RequestException": ["OSError"],
    "requests.RequestException": ["OSError"],
    "requests.exceptions.ConnectionError": ["requests.exceptions.RequestException"],
    "requests.exceptions.Timeout": ["requests.exceptions.RequestException"],
    "requests.exceptions.ConnectTimeout": ["requests.exceptions.ConnectionError", "requests.exceptions.Timeout"],
    "requests.exceptions.ReadTimeout": ["requests.exceptions.Timeout"],
    "requests.exceptions.SSLError": ["requests.exceptions.ConnectionError"],
    "requests.exceptions.ProxyError": ["requests.exceptions.ConnectionError"],
    "requests.exceptions.HTTPError": ["requests.exceptions.RequestException"],
    "requests.exceptions.TooManyRedirects": ["requests.exceptions.RequestException"],
    "requests.exceptions.ChunkedEncodingError": ["requests.exceptions.RequestException"],
    "requests.exceptions.ContentDecodingError": ["requests.exceptions.RequestException"],
    "requests.exceptions.InvalidURL": ["requests.exceptions.RequestException", "ValueError"],
    "requests.exceptions.MissingSchema": ["requests.exceptions.RequestException", "ValueError"],
    "requests.ConnectionError": ["requests.exceptions.RequestException"],
    "requests.Timeout": ["requests.exceptions.RequestException"],
    "requests.exceptions.JSONDecodeError": ["requests.exceptions.RequestException", "ValueError"],
    "tomli.TOMLDecodeError": ["ValueError"],
    "json.decoder.JSONDecodeError": ["ValueError"],
    "json.JSONDecodeError": ["json.decoder.JSONDecodeError"],
    "dbm.error": ["OSError"],
    "packaging.version.InvalidVersion": ["ValueError"],
    "subprocess.TimeoutExpired": ["Exception"],
    "json.decoder.JSONDecodeError#": [],
}
ALIAS_EXC = {"requests.RequestException": "requests.exceptions.RequestException", "json.JSONDecodeError": "json.decoder.JSONDecodeError",
             "OSError": "OSError", "IOError": "OSError", "EnvironmentError": "OSError"}

# externals that cannot raise (for our purposes) unless the policy says otherwise
PURE_PATH = {"os.path." + n: getattr(posixpath, n) for n in ("join", "dirname", "basename", "isabs", "splitext", "normpath", "split")}
RE_PARAMS = {"match": ("pattern", "string", "flags"), "fullmatch": ("pattern", "string", "flags"), "search": ("pattern", "string", "flags"),
             "sub": ("pattern", "repl", "string", "count", "flags"), "split": ("pattern", "string", "maxsplit", "flags"),
             "findall": ("pattern", "string", "flags"), "escape": ("pattern",), "compile": ("pattern", "flags")}
RE_FUNCS = tuple(RE_PARAMS)


def re_flags(av):
    """flags of a regular expression, when they are known"""
    import re
    if len(av) != 1:
        return None
    t = next(iter(av))
    if t[0] == "c" and isinstance(t[2], int):
        return int(t[2])
    if t[0] == "ext" and t[1].startswith("re."):
        f = getattr(re, t[1][3:].replace("RegexFlag.", ""), None)
        return int(f) if isinstance(f, re.RegexFlag) else None
    if t[0] == "op" and t[1] == "BitOr":
        l, r = re_flags(t[2]), re_flags(t[3])
        return None if l is None or r is None else l | r
    return None


def re_args(name, fa, kw):
    """arguments of re.<name> by position, each a value (flags: known as a number) or None; None: not this signature"""
    params = RE_PARAMS[name]
    if len(fa) > len(params) or not set(kw) <= set(params[len(fa):]):
        return None
    out = [*fa] + [kw.get(p) for p in params[len(fa):]]
    return dict(zip(params, out))
SAFE_EXT_PREFIX = ("loguru.", "re.", "os.path.", "time.", "logging.", "pathlib.PurePath")
SAFE_EXT = {
    "builtins." + n for n in (
        "isinstance len print str repr bool list dict set tuple frozenset enumerate zip map filter sorted reversed any all "
        "type id hash callable getattr hasattr setattr range super min max sum abs iter next object property staticmethod classmethod "
        "issubclass format vars locals globals slice").split()
} | {"io.StringIO", "functools.partial", "platformdirs.PlatformDirs", "enum.auto", "dataclasses.field", "threading.Thread",
     "collections.defaultdict", "collections.namedtuple", "dataclasses_json.config", "marshmallow.fields.Str", "hashlib.sha256",
     "os.path.join", "re.compile", "re.escape", "re.sub", "random.randint", "pathlib.Path", "collections.OrderedDict",
     "itertools.chain", "itertools.chain.from_iterable", "copy.copy", "copy.deepcopy", "contextlib.suppress", "typing.cast",
     "os.path.abspath", "os.fspath", "os.getcwd", "sys.exc_info", "collections.Counter", "collections.deque", "itertools.product"}


def show(av, depth=0):
    if isinstance(av, frozenset):
        if len(av) == 1:
            return show(next(iter(av)), depth)
        return "{" + ", ".join(sorted(show(t, depth) for t in av)[:8]) + ("..." if len(av) > 8 else "") + "}"
    t = av
    if not isinstance(t, tuple) or not t:
        return repr(t)
    tag = t[0]
    if tag == "c":
        return repr(t[2])
    if tag in ("fn", "cls", "ext", "mod"):
        return str(t[1]).split(".")[-1]
    if tag == "s":
        return f"<{t[1]}>" if not isinstance(t[1], tuple) else "<" + ":".join(map(str, t[1])) + ">"
    if tag == "T":
        return "<toml " + "|".join(sorted(t[2])) + ">"
    if tag == "enum":
        return f"{t[1].split('.')[-1]}.{t[2]}"
    if tag == "o":
        return f"obj@{t[1][0] if isinstance(t[1], tuple) else t[1]}"
    if tag == "top":
        return "?" + ",".join(sorted(map(str, t[1]))[:4])
    if tag == "attr":
        return f"{show(t[1], depth + 1)}.{t[2]}"
    if tag == "call":
        return f"{t[1]}({', '.join(show(a, depth + 1) for a in t[2])})" if depth < 4 else f"{t[1]}(..)"
    return f"{tag}({', '.join(show(x, depth + 1) if isinstance(x, (tuple, frozenset)) else str(x) for x in t[1:])})" if depth < 4 else tag


def _single(t):
    """does the term denote one object (not any element of a collection)?"""
    while t[0] == "attr" and isinstance(t[1], tuple):
        t = t[1]
    return t[0] in ("ext", "mod", "cls", "s")


class Interp:
    """One analysis run.  `stubs`: qual/dotted -> fn(interp, args, kwargs, st, node, fr) -> AV"""

    def __init__(self, prog: Program, stubs=None, unknown_raises="EXC?", raises=None, max_depth=30, assert_raises=True,
                 record_attr=False, truth_fold=True):
        self.factories = {}
        self.p = prog
        self.stubs = stubs or {}
        self.events = []
        self._evindex = {}
        self.stack = ()
        self.fnstack = []
        self.sinks = [{}]
        self.unknown_raises = unknown_raises
        self.raises_table = raises or {}
        self.max_depth = max_depth
        self.max_rec = 2
        self.fs = None  # model of the file system (paths.FS)
        self.generic = False  # labels stand for pairwise different values, different from every constant
        self.opaque = None      # (function, arguments, keywords) -> whether a call of it is not looked into
        self.on_attr = None     # (interpreter, value, attribute, state, node) -> what it is, None if not special
        self.truthy = lambda t: False       # which unknown values are known to be true
        self.not_none = lambda t: False     # which unknown values are known not to be None
        self.concrete = False  # operations which fail for sure on known values do so
        self.assert_raises = assert_raises
        self.global_heap = {}
        self.global_frames = {}
        self.exc_attrs = {}  # attribute of a caught exception -> value
        self.oid_tab = {}
        self._locals = {}
        self._nested = {}
        self.tuple_depth = {}
        self.global_cache = {}
        self.enum_cache = {}
        self.record_attr = record_attr
        self.calls_analysed = set()
        self.funcs_analysed = set()
        self.stmts_analysed = 0
        self.unknown_constructs = []
        self.typed_errors = {}
        self.loop_depth = 0
        self.steps = 0

    # ------------------------------------------------------------------ events
    def emit(self, kind, name, args, kwargs, st, node, fr, recv=None, extra=None):
        key = (kind, name, id(node), self.stack)
        e = self._evindex.get(key)
        if e is None:
            e = Event()
            e.kind, e.name, e.args, e.kwargs = kind, name, list(args), dict(kwargs)
            e.facts, e.done, e.may = st.facts, st.done, st.may
            e.node, e.func, e.stack, e.recv, e.order, e.extra = node, fr.func if fr else None, self.stack, recv, len(self.events), extra
            self._evindex[key] = e
            self.events.append(e)
        else:
            n = max(len(e.args), len(args))
            e.args = [norm((e.args[i] if i < len(e.args) else EMPTY) | (args[i] if i < len(args) else EMPTY)) for i in range(n)]
            for k, v in kwargs.items():
                e.kwargs[k] = norm(e.kwargs.get(k, EMPTY) | v)
            e.facts &= st.facts
            e.done &= st.done
            e.may |= st.may
            if recv is not None:
                e.recv = norm((e.recv or EMPTY) | recv)
        if kind == "call":
            st.done = st.done | {name}
            st.may = st.may | {name}
        return e

    # ------------------------------------------------------------------ exceptions
    def raise_exc(self, cls, st, node, msg="", fr=None, origin=None):
        s = st.copy()
        s.dead = False
        o = origin or {(id(node), msg): (node, msg, self.stack, fr.func if fr else None)}
        sink = self.sinks[-1]
        if cls in sink:
            a, oo = sink[cls]
            oo.update(o)
            sink[cls] = (join(a, s), oo)
        else:
            sink[cls] = (s, dict(o))

    def exc_name(self, term):
        if term[0] == "cls":
            return term[1]
        if term[0] == "ext":
            n = term[1]
            if n.startswith("builtins."):
                n = n[9:]
            return ALIAS_EXC.get(n, n)
        if term[0] == "o":
            return None
        return None

    def exc_bases(self, cls):
        """all ancestor names (inclusive)"""
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.append(c)
            if c in self.p.classes:
                for b in self.p.mro(self.p.classes[c])[1:]:
                    n = b.qual if isinstance(b, Class) else b
                    todo.append(n[9:] if isinstance(n, str) and n.startswith("builtins.") else n)
            elif c in EXC_BASES:
                todo.extend(EXC_BASES[c])
            else:
                k = getattr(builtins, c, None)
                if isinstance(k, type):
                    todo.extend(x.__name__ for x in k.__mro__[1:] if x is not object)
        if not any(x in ("BaseException",) for x in out):
            out += ["Exception", "BaseException"]
        return out

    def exc_match(self, key, handler):
        """-> ('full'|'part'|'no', remaining)"""
        if handler in (None, "BaseException"):
            return "full", None
        if handler == "?":
            return "part", key
        if key == "ANY":
            if handler == "Exception":
                return "part", "NONEXC"
            return "part", "ANY"
        if key == "NONEXC":
            if handler in ("SystemExit", "KeyboardInterrupt", "GeneratorExit"):
                return "part", "NONEXC"
            return "no", key
        if key == "EXC?":
            if handler == "Exception":
                return "full", None
            if "Exception" in self.exc_bases(handler):
                return "part", key
            return "no", key
        if handler in self.exc_bases(key):
            return "full", None
        if key in self.exc_bases(handler):
            return "part", key
        return "no", key

    # ------------------------------------------------------------------ entry points
    def new_state(self):
        return State()

    def run(self, func: Func, args=(), kwargs=None, st=None, self_av=None):
        """Analyse `func` as an entry point. -> (AV, State|dead, escaping exceptions)"""
        st = st or self.new_state()
        self.sinks.append({})
        av = self.call_func(func, None, list(args), dict(kwargs or {}), st, func.node, None)
        sink = self.sinks.pop()
        return av, st, sink

    def alloc(self, st, obj, node, tag=""):
        site = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), getattr(getattr(node, "mod_", None), "name", ""), tag)
        oid = self.oid((site, self.stack, self._unroll))
        old = st.heap.get(oid)
        st.heap[oid] = obj if old is None or not self.loop_depth else join_obj(old, obj) if old.kind == obj.kind else obj
        return frozenset([("o", oid)])

    _unroll = ()
    unroll = 24             # how often a loop without known length is carried out step by step (concrete runs)
    real_sort = False       # sequences whose elements and sort keys are known are sorted
    set_order = None        # 1, -1: the elements of sets are met in the order they were put in, or the reverse
    keep_sorted = False     # what is sorted keeps its elements one by one (their order is then not to be relied on)

    def oid(self, key):
        r = self.oid_tab.get(key)
        if r is None:
            r = self.oid_tab[key] = len(self.oid_tab) + 1
        return r

    def tuple_oid(self, segs):
        d = 0
        for _, v in segs:
            for t in v:
                if t[0] == "o":
                    d = max(d, self.tuple_depth.get(t[1], 0))
        if d >= 4:
            segs = tuple((k, frozenset(("top", frozenset(["deep"])) if t[0] == "o" and self.tuple_depth.get(t[1], 0) >= 3 else t for t in v)) for k, v in segs)
        oid = self.oid(("tuple", segs))
        self.tuple_depth[oid] = d + 1
        return oid

    def obj(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            o = self.global_heap.get(oid)
        return o

    def set_obj(self, st, oid, obj):
        st.heap[oid] = obj

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st is None or st.dead:
                return None
            st = self.exec(s, st, fr)
        return st if st is not None and not st.dead else None

    def exec(self, s, st, fr):
        self.stmts_analysed += 1
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisBroken("abstract interpretation budget exceeded")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unknown_constructs.append(s)
            return st
        r = m(s, st, fr)
        return r

    def x_Expr(self, s, st, fr):
        self.eval(s.value, st, fr)
        return st

    def x_Pass(self, s, st, fr):
        return st

    x_Global = x_Nonlocal = x_Pass

    def x_Import(self, s, st, fr):
        for a in s.names:
            name = a.asname or a.name.split(".")[0]
            target = a.name if a.asname else a.name.split(".")[0]
            self.bind_name(name, frozenset([("mod", target) if target in self.p.modules else ("ext", target)]), st, fr)
        return st

    def x_ImportFrom(self, s, st, fr):
        base = self.p.abs_import(fr.module, s)
        for a in s.names:
            r = None
            if base in self.p.modules:
                r = self.p.resolve_global(self.p.modules[base], a.name)
            elif f"{base}.{a.name}" in self.p.modules:
                r = ("module", f"{base}.{a.name}")
            else:
                r = ("ext", f"{base}.{a.name}")
            self.bind_name(a.asname or a.name, self.global_av(r), st, fr)
        return st

    def x_FunctionDef(self, s, st, fr):
        f = self.p.func_of_node[s]
        av = frozenset([("fn", f.qual, fr.fid)])
        for d in reversed(s.decorator_list):
            av = self.apply_decorator(d, av, f, st, fr)
        self.bind_name(s.name, av, st, fr)
        return st

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, st, fr):
        c = self.p.class_of_node[s]
        self.bind_name(s.name, frozenset([("cls", c.qual)]), st, fr)
        return st

    def x_Return(self, s, st, fr):
        av = self.eval(s.value, st, fr) if s.value is not None else NONE
        if st.dead:
            return None
        self.emit("return", fr.func.qual if fr.func else "?", [av], {}, st, s, fr)
        fr.returns.append((st, av))
        return None

    def x_Assign(self, s, st, fr):
        av = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, av, st, fr)
        return st

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)
        return st

    def x_AugAssign(self, s, st, fr):
        load = _as_load(s.target)
        cur = self.eval(load, st, fr)
        v = self.eval(s.value, st, fr)
        # in-place on lists mutates
        av = self.binop(s.op, cur, v, st, fr, s, inplace=True)
        self.assign(s.target, av, st, fr)
        return st

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, fr)
                k = self.eval(t.slice, st, fr) if not isinstance(t.slice, ast.Slice) else EMPTY
                self.emit("del", "[]", [b, k], {}, st, s, fr)
                self._del_item(b, k, t.slice, st, s, fr)
            elif isinstance(t, ast.Name):
                self.bind_name(t.id, EMPTY, st, fr)
        return st

    def _del_item(self, b, k, index, st, node, fr):
        if len(b) != 1 or next(iter(b))[0] != "o":
            return
        x = next(iter(b))
        o = self.obj(st, x[1])
        if o is None or o.kind not in ("list", "dict"):
            return
        if o.kind == "dict":
            return self._del_key(x, o, k, st)
        if not isinstance(index, ast.Slice):
            self.container_method("pop", x, o, [k], {}, st, node, fr)
            return
        ends = [self._const_int(self.eval(e, st, fr)) if e is not None else None for e in (index.lower, index.upper, index.step)]
        if all(q == "1" for q, _ in o.segs) and not self.loop_depth and all(e is None or v is not None for e, v in zip((index.lower, index.upper, index.step), ends)):
            segs = list(o.segs)
            del segs[slice(*ends)]
            self.set_obj(st, x[1], Obj("list", segs=tuple(segs)))
        else:
            self.set_obj(st, x[1], Obj("list", segs=tuple(("*", v) for _, v in o.segs)))

    def _del_key(self, x, o, k, st):
        # a key that is certainly there is gone; in any other case the dictionary may keep what it had
        if len(k) == 1 and next(iter(k))[0] == "c" and not self.loop_depth and all(l[0] == "kv" and len(l[1]) == 1 and next(iter(l[1]))[0] == "c" for l in o.layers):
            self.set_obj(st, x[1], Obj("dict", layers=tuple(l for l in o.layers if l[1] != k)))

    def x_Assert(self, s, st, fr):
        av = self.eval(s.test, st, fr)
        tv = self.truth(av, st)
        if self.assert_raises and tv is not True:
            f = st.copy()
            if self.assume(s.test, av, False, f, fr):
                self.raise_exc("AssertionError", f, s, "assertion may fail", fr)
        if tv is False:
            return None
        ok = self.assume(s.test, av, True, st, fr)
        return st if ok else None

    def x_Raise(self, s, st, fr):
        if s.exc is None:
            keys = fr.handling[-1] if fr.handling else {"EXC?": {}}
            for k, o in keys.items():
                self.raise_exc(k, st, s, "re-raise", fr, origin=o or None)
            return None
        av = self.eval(s.exc, st, fr)
        if s.cause is not None:
            self.eval(s.cause, st, fr)
        names = set()
        for t in av:
            if t[0] == "cls":
                names.add(t[1])
            elif t[0] == "ext":
                names.add(self.exc_name(t))
            elif t[0] == "o":
                o = self.obj(st, t[1])
                names.add(o.cls if o is not None and o.kind == "inst" else "EXC?")
            elif t[0] == "call" and isinstance(t[1], str):
                n = t[1][9:] if t[1].startswith("builtins.") else t[1]
                names.add(ALIAS_EXC.get(n, n))
            elif t[0] == "exc":
                for k in t[1]:
                    names.add(k)
            else:
                names.add("EXC?")
        self.emit("raise", ",".join(sorted(map(str, names))), [av], {}, st, s, fr)
        for n in names or {"EXC?"}:
            origin = None
            if isinstance(s.exc, ast.Name) and fr.handling:
                for k, o in fr.handling[-1].items():
                    if k == n:
                        origin = dict(o)
            self.raise_exc(n or "EXC?", st, s, "raise", fr, origin=origin)
        return None

    def x_If(self, s, st, fr):
        if _is_type_checking(s.test):
            return self.exec_block(s.orelse, st, fr) if s.orelse else st
        return self.branch(s.test, st, fr, lambda a: self.exec_block(s.body, a, fr), lambda b: self.exec_block(s.orelse, b, fr) if s.orelse else b)

    def branch(self, test, st, fr, then, orelse):
        a, b = self.cond(test, st, fr)
        ra = then(a) if a is not None else None
        rb = orelse(b) if b is not None else None
        return join_all([ra, rb])

    def cond(self, test, st, fr):
        """Evaluate a condition with short-circuiting. -> (state if true | None, state if false | None)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.cond(test.operand, st, fr)
            return b, a
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            cur, outs = st, []
            for v in test.values:
                if cur is None:
                    break
                t, f = self.cond(v, cur, fr)
                if isand:
                    outs.append(f)
                    cur = t
                else:
                    outs.append(t)
                    cur = f
            other = join_all(outs)
            if isand:
                if other is not None:
                    pass
                return cur, other
            return other, cur
        if isinstance(test, ast.NamedExpr):
            av = self.eval(test, st, fr)
            nm = ast.copy_location(ast.Name(id=test.target.id, ctx=ast.Load()), test)
            nm.mod_ = getattr(test, "mod_", None)
            test = nm
        else:
            av = self.eval(test, st, fr)
        if st.dead:
            return None, None
        tv = self.truth(av, st)
        a = b = None
        if tv is not False:
            a = st.copy()
            if not self.assume(test, av, True, a, fr):
                a = None
        if tv is not True:
            b = st.copy()
            if not self.assume(test, av, False, b, fr):
                b = None
        return a, b

    def truth(self, av, st):
        vals = set()
        for t in av:
            if t[0] == "c":
                vals.add(bool(t[2]) if not isinstance(t[2], type) else True)
            elif t[0] in ("fn", "cls", "mod", "bm", "enum") or t[0] == "pre" and t[1] or self.truthy(t):
                vals.add(True)
            elif t[0] == "o":
                o = self.obj(st, t[1])
                if o is None:
                    vals.update((True, False))
                elif o.kind in ("list", "tuple", "set"):
                    if not o.segs:
                        vals.add(False)
                    elif any(k == "1" for k, _ in o.segs):
                        vals.add(True)
                    else:
                        vals.update((True, False))
                elif o.kind == "dict":
                    if not o.layers:
                        vals.add(False)
                    elif any(l[0] == "kv" for l in o.layers):
                        vals.add(True)
                    else:
                        vals.update((True, False))
                else:
                    vals.add(True)
            else:
                vals.update((True, False))
        if vals == {True}:
            return True
        if vals == {False}:
            return False
        return None

    def assume(self, test, av, pos, st, fr):
        """Refine `st` with test==pos. False if infeasible."""
        st.facts = st.facts | {(av, pos)}
        if (av, not pos) in st.facts and len(av) == 1 and not self._volatile(av):
            return False
        for t in (av if len(av) == 1 else ()):
            if t[0] == "op" and t[1] == "not":
                st.facts = st.facts | {(t[2], not pos)}
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, EMPTY, not pos, st, fr)
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            if isand == pos:
                for v in test.values:
                    if not self.assume_only(v, pos, st, fr):
                        return False
            return True
        return self.refine(test, av, pos, st, fr)

    def _volatile(self, av):
        return any(t[0] in ("call", "top") or t[0] == "o" and self.concrete for t in av)     # collections are changed

    def assume_only(self, test, pos, st, fr):
        sub = st.copy()
        n = len(self.events)
        self.sinks.append({})
        av = self.eval(test, sub, fr)
        self.sinks.pop()
        return self.assume(test, av, pos, st, fr)

    def refine(self, test, av, pos, st, fr):
        def path_get(e):
            if isinstance(e, ast.NamedExpr):
                e = e.target
            if isinstance(e, ast.Name):
                return self.lookup(e.id, st, fr, quiet=True)
            if isinstance(e, ast.Attribute):
                b = path_get(e.value)
                if b is None or len(b) != 1:
                    return None
                t = next(iter(b))
                if t[0] == "o":
                    o = self.obj(st, t[1])
                    if o is not None and o.kind == "inst" and e.attr in o.fields:
                        return o.fields[e.attr]
                return None
            return None

        def path_set(e, v):
            if isinstance(e, ast.NamedExpr):
                e = e.target
            if isinstance(e, ast.Name):
                self.bind_name(e.id, v, st, fr, refine=True)
            elif isinstance(e, ast.Attribute):
                b = path_get(e.value)
                t = next(iter(b))
                o = self.obj(st, t[1])
                f = dict(o.fields)
                f[e.attr] = v
                self.set_obj(st, t[1], Obj("inst", o.cls, f))

        def filt(e, pred):
            cur = path_get(e)
            if cur is None or not cur:
                return True
            new = frozenset(x for t in cur for x in pred(t))
            if new != cur:
                if not new:
                    return False
                path_set(e, new)
            return True

        if isinstance(test, (ast.Name, ast.Attribute, ast.NamedExpr)):
            return filt(test, lambda t: self._truth_filter(t, pos, st))
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, l, r = test.ops[0], test.left, test.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                eq = isinstance(op, (ast.Is, ast.Eq)) == pos
                for x, y in ((l, r), (r, l)):
                    yv = self._const_of(y, st, fr)
                    if yv is not None:
                        if not filt(x, lambda t: self._eq_filter(t, yv, eq)):
                            return False
                return True
            if isinstance(op, (ast.In, ast.NotIn)):
                isin = isinstance(op, ast.In) == pos
                vals = self._const_set(r, st, fr)
                if vals is not None:
                    return filt(l, lambda t: self._in_filter(t, vals, isin))
            return True
        if isinstance(test, ast.Call):
            f = test.func
            if isinstance(f, ast.Name) and f.id == "isinstance" and len(test.args) == 2:
                types = self.eval_types(test.args[1], st, fr)
                if types is not None:
                    return filt(test.args[0], lambda t: self._isinstance_filter(t, types, pos, st))
        return True

    def _truth_filter(self, t, pos, st):
        if t[0] == "c":
            return [t] if bool(t[2]) == pos else []
        if t[0] in ("fn", "cls", "mod", "enum", "bm") or self.truthy(t):
            return [t] if pos else []
        if t[0] == "T" and not pos:
            return [t]
        if t[0] == "T" and pos:
            ty = t[2] - {"none"}
            return [("T", t[1], ty)] if ty else []
        if t[0] == "o":
            tv = self.truth(frozenset([t]), st)
            return [] if tv is not None and tv != pos else [t]
        return [t]

    def _const_of(self, e, st, fr):
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, (ast.Attribute, ast.Name)):
            self.sinks.append({})
            av = self.eval(e, st.copy(), fr, quiet=True)
            self.sinks.pop()
            if len(av) == 1:
                t = next(iter(av))
                if t[0] in ("enum", "c"):
                    return t
        return None

    def _const_set(self, e, st, fr):
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = []
            for x in e.elts:
                c = self._const_of(x, st, fr)
                if c is None:
                    return None
                out.append(c)
            return out
        return None

    def _eq_filter(self, t, y, eq):
        if t[0] in ("c", "enum"):
            same = t == y or (t[0] == "c" and y[0] == "c" and t[2] == y[2] and type(t[2]) == type(y[2]))
            return [t] if same == eq else []
        if y[0] == "c" and y[2] is None:
            if t[0] in ("fn", "cls", "mod", "o", "bm") or self.not_none(t):
                return [] if eq else [t]
            if t[0] == "T":
                ty = (t[2] & {"none"}) if eq else (t[2] - {"none"})
                return [("T", t[1], ty)] if ty else []
            if eq:
                return [y] if t[0] in ("s", "call", "attr", "elem", "idx", "top") and False else [t]
        elif t[0] == "T" and y[0] == "c" and eq:
            return [t]
        return [t]

    def _in_filter(self, t, vals, isin):
        if t[0] in ("c", "enum"):
            return [t] if (t in vals) == isin else []
        return [t]

    def eval_types(self, e, st, fr):
        av = self.eval(e, st.copy(), fr, quiet=True)
        out = []
        for t in av:
            if t[0] == "o":
                o = self.obj(st, t[1])
                if o is None or o.kind != "tuple":
                    # literal tuple evaluated in the copied state: recompute
                    if isinstance(e, ast.Tuple):
                        res = []
                        for x in e.elts:
                            r = self.eval_types(x, st, fr)
                            if r is None:
                                return None
                            res += r
                        return res
                    return None
                for _, x in o.segs:
                    out.extend(x)
            elif t[0] in ("cls", "ext"):
                out.append(t)
            else:
                return None
        return out

    def _isinstance_filter(self, t, types, pos, st):
        names = [x[1] for x in types]
        if t[0] == "T":
            allowed = set()
            for n in names:
                if n in ISINSTANCE_MAP:
                    allowed |= ISINSTANCE_MAP[n]
                elif not pos:
                    pass
            ty = (t[2] & allowed) if pos else (t[2] - allowed)
            return [("T", t[1], frozenset(ty))] if ty else []
        if t[0] == "c":
            tn = type(t[2]).__name__
            al = set()
            for n in names:
                al |= ISINSTANCE_MAP.get(n, set())
            if n.startswith("builtins.") or al:
                tn = "none" if tn == "NoneType" else tn
                return [t] if (tn in al) == pos else []
            return [t]
        if t[0] == "pre" or t[0] == "call" and t[1] in STR_CALLS or t[0] == "op" and t[1] in ("fstr", "join"):
            al = set()
            for n in names:
                al |= ISINSTANCE_MAP.get(n, set())
            return [t] if ("str" in al) == pos else []
        if t[0] == "o":
            o = self.obj(st, t[1])
            if o is not None and o.kind in ("list", "dict", "tuple", "set"):
                al = set()
                for n in names:
                    al |= ISINSTANCE_MAP.get(n, set())
                return [t] if (o.kind in al) == pos else []
            if o is not None and o.kind == "inst" and o.cls in self.p.classes:
                quals = {(k.qual if isinstance(k, Class) else k) for k in self.p.mro(self.p.classes[o.cls])}
                return [t] if bool(quals & set(names)) == pos else []
        return [t]

    def x_While(self, s, st, fr):
        return self.loop(s, st, fr, None, s.test, s.body, s.orelse)

    def x_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        return self.loop(s, st, fr, it, None, s.body, s.orelse)

    x_AsyncFor = x_For

    def loop(self, s, st, fr, it, test, body, orelse):
        brks, after = [], []

        def one(cur, elem):
            fr.loops.append(([], []))
            if elem is not None:
                self.assign(s.target, elem, cur, fr)
                r = self.exec_block(body, cur, fr)
                f = None
            else:
                t, f = self.cond(test, cur, fr)
                r = self.exec_block(body, t, fr) if t is not None else None
            b, c = fr.loops.pop()
            brks.extend(b)
            return join_all([r] + c), f

        cur = st
        saved = self._unroll
        if it is not None:
            for i, (kind, elem) in enumerate(self.iterate(it, cur, fr, s)):
                if cur is None:
                    break
                self._unroll = saved + (i,)
                if kind == "1":
                    cur, _ = one(cur, elem)
                else:
                    cur = self.fix(cur, lambda c: one(c, elem)[0])
        else:
            exits = []
            for i in range(self.unroll if self.fs is not None or self.concrete else 0):
                v = self.truth(self.eval(test, cur.copy(), fr, quiet=True), cur)
                if v is None:
                    break
                self._unroll = saved + (i,)
                r, f = one(cur, None)
                if f is not None:
                    exits.append(f)
                cur = r
                if cur is None:
                    break

            def stepw(c):
                r, f = one(c, None)
                if f is not None:
                    exits.append(f)
                return r

            if cur is not None:
                self.fix(cur, stepw, widen_exit=False)
            cur = join_all(exits)
        self._unroll = saved
        if cur is not None and orelse:
            cur = self.exec_block(orelse, cur, fr)
        return join_all([cur] + brks)

    def fix(self, st, step, widen_exit=True):
        self.loop_depth += 1
        cur = st
        for i in range(8):
            r = step(cur.copy())
            if r is None:
                break
            new = join(cur, r)
            if new.same(cur):
                break
            cur = new
        self.loop_depth -= 1
        return cur

    def x_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1][0].append(st)
        return None

    def x_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1][1].append(st)
        return None

    def x_With(self, s, st, fr):
        return self._with(s, list(s.items), st, fr)

    x_AsyncWith = x_With

    def _with(self, s, items, st, fr):
        if not items:
            return self.exec_block(s.body, st, fr)
        it, rest = items[0], items[1:]
        # repo @contextmanager generator
        if isinstance(it.context_expr, ast.Call):
            fav = self.eval(it.context_expr.func, st, fr)
            cm = [t for t in fav if t[0] in ("fn", "bm")]
            for t in cm:
                q = t[1] if t[0] == "fn" else (t[1][1] if t[1][0] == "fn" else None)
                f = self.p.funcs.get(q)
                if f is not None and any(self._deco_is(d, f, ("contextlib.contextmanager",)) for d in f.decorators()):
                    args, kw = self.eval_args(it.context_expr, st, fr)
                    if t[0] == "bm":
                        args = [frozenset([t[2]])] + args
                    out = {"st": None}

                    def hook(yst, yav):
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, yav, yst, fr)
                        saved_stack = self.stack
                        r = self._with(s, rest, yst, fr)
                        self.stack = saved_stack
                        return r

                    par = t[2] if t[0] == "fn" else None
                    self.call_func(f, par, args, kw, st, it.context_expr, fr, yield_hook=hook)
                    return None if st.dead else st
        av = self.eval(it.context_expr, st, fr)
        # repo class with __enter__/__exit__
        ent = [t for t in av if t[0] == "o" and self.obj(st, t[1]) is not None and self.obj(st, t[1]).kind == "inst"
               and self.obj(st, t[1]).cls in self.p.classes and self.p.find_method(self.p.classes[self.obj(st, t[1]).cls], "__exit__")]
        if ent:
            t = ent[0]
            c = self.p.classes[self.obj(st, t[1]).cls]
            e = self.p.find_method(c, "__enter__")
            x = self.p.find_method(c, "__exit__")
            v = self.call_func(e, None, [frozenset([t])], {}, st, it.context_expr, fr) if e else av
            if st.dead:
                return None
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
            self.sinks.append({})
            nret = len(fr.returns)
            out = self._with(s, rest, st, fr)
            sink = self.sinks.pop()
            exitargs = [frozenset([t])] + [frozenset([("s", "exc_info")])] * 3
            for k, (es, o) in sink.items():
                self.call_func(x, None, exitargs, {}, es, it.context_expr, fr)
                if not es.dead:
                    self.raise_exc(k, es, s, "", fr, origin=o)
            for i in range(nret, len(fr.returns)):
                rs, rv = fr.returns[i]
                self.call_func(x, None, [frozenset([t]), NONE, NONE, NONE], {}, rs, it.context_expr, fr)
            if out is not None:
                self.call_func(x, None, [frozenset([t]), NONE, NONE, NONE], {}, out, it.context_expr, fr)
            return out
        sup = None
        for t in av:
            if t[0] == "call" and t[1] == "contextlib.suppress":
                sup = [self.exc_name(x) for a in t[2] for x in a if x[0] in ("cls", "ext")]
        if it.optional_vars is not None:
            v = frozenset(("ctx", t) if t[0] not in ("c", "o") else t for t in av)
            self.assign(it.optional_vars, v, st, fr)
        ctxname = [t[1] for t in av if t[0] == "call" and isinstance(t[1], str)]
        self.emit("with", ctxname[0] if ctxname else "?", [av], {}, st, s, fr)
        if sup is not None:
            self.sinks.append({})
            out = self._with(s, rest, st, fr)
            sink = self.sinks.pop()
            outs = [out]
            for k, (es, o) in sink.items():
                rem = k
                for h in sup:
                    m, rem2 = self.exc_match(rem, h)
                    if m != "no":
                        outs.append(es)
                    if m == "full":
                        rem = None
                        break
                    rem = rem2
                if rem is not None:
                    self.raise_exc(rem, es, s, "", fr, origin=o)
            return join_all(outs)
        # redirect_stdout & friends restore by construction
        return self._with(s, rest, st, fr)

    def _deco_is(self, d, f, names):
        e = d.func if isinstance(d, ast.Call) else d
        r = self.p.resolve_expr(f.module, e)
        return r is not None and r[0] == "ext" and r[1] in names

    def x_Try(self, s, st, fr):
        has_fin = bool(s.finalbody)
        outer = None
        if has_fin:
            outer = {}
            self.sinks.append(outer)
        nret = len(fr.returns)
        lmarks = [(len(b), len(c)) for b, c in fr.loops]
        self.sinks.append({})
        out = self.exec_block(s.body, st, fr)
        sink = self.sinks.pop()
        outs = []
        if out is not None and s.orelse:
            out = self.exec_block(s.orelse, out, fr)
        outs.append(out)
        hstates = [None] * len(s.handlers)
        hkeys = [dict() for _ in s.handlers]
        htypes = []
        for h in s.handlers:
            if h.type is None:
                htypes.append([None])
            else:
                av = self.eval(h.type, st.copy() if not st.dead else self._alive(st), fr, quiet=True)
                names = []
                exprs = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for e in exprs:
                    for t in self.eval(e, self._alive(st), fr, quiet=True):
                        if t[0] == "o":
                            o = self.obj(st, t[1])
                            for _, x in (o.segs if o else ()):
                                names += [self.exc_name(y) or "?" for y in x]
                        else:
                            names.append(self.exc_name(t) or "?")
                htypes.append(names or ["?"])
        for k, (es, o) in sink.items():
            rem = k
            for i, names in enumerate(htypes):
                if rem is None:
                    break
                for n in names:
                    if rem is None:
                        break
                    m, rem2 = self.exc_match(rem, n)
                    if m != "no":
                        hstates[i] = join(hstates[i], es) if hstates[i] is not None else es
                        key = rem if m == "full" else (n if n not in (None, "?", "Exception", "BaseException") else ("EXC?" if n == "Exception" and rem == "ANY" else rem))
                        hkeys[i].setdefault(key, {}).update(o)
                        if m == "full":
                            rem = None
                        else:
                            rem = rem2
            if rem is not None:
                self.raise_exc(rem, es, s, "", fr, origin=o)
        for i, h in enumerate(s.handlers):
            if hstates[i] is None:
                continue
            hs = hstates[i].copy()
            if h.name:
                self.bind_name(h.name, frozenset([("exc", frozenset(hkeys[i]))]), hs, fr)
            self.emit("handler", "|".join(sorted(map(str, hkeys[i]))), [], {}, hs, h, fr)
            fr.handling.append(hkeys[i])
            outs.append(self.exec_block(h.body, hs, fr))
            fr.handling.pop()
        out = join_all(outs)
        if has_fin:
            self.sinks.pop()
            for k, (es, o) in outer.items():
                r = self.exec_block(s.finalbody, es.copy(), fr)
                if r is not None:
                    self.raise_exc(k, r, s, "", fr, origin=o)
            new_rets = fr.returns[nret:]
            del fr.returns[nret:]
            for rs, rv in new_rets:
                r = self.exec_block(s.finalbody, rs, fr)
                if r is not None:
                    fr.returns.append((r, rv))
            for (b, c), (nb, nc) in zip(fr.loops, lmarks):
                for lst, n in ((b, nb), (c, nc)):
                    new = lst[n:]
                    del lst[n:]
                    for bs in new:
                        r = self.exec_block(s.finalbody, bs, fr)
                        if r is not None:
                            lst.append(r)
            if out is not None:
                out = self.exec_block(s.finalbody, out, fr)
        return out

    x_TryStar = x_Try

    def _alive(self, st):
        s = st.copy()
        s.dead = False
        return s

    def x_Match(self, s, st, fr):
        self.eval(s.subject, st, fr)
        outs, total = [], False
        for c in s.cases:
            b = st.copy()
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    self.bind_name(n.name, frozenset([("top", frozenset(["match"]))]), b, fr)
            # constant patterns refine the subject
            if isinstance(c.pattern, ast.MatchValue):
                cmp_ = ast.copy_location(ast.Compare(left=s.subject, ops=[ast.Eq()], comparators=[c.pattern.value]), c.pattern)
                ast.fix_missing_locations(cmp_)
                t, f = self.cond(cmp_, b, fr)
                if f is not None:
                    st = f
                b = t
                if b is None:
                    continue
            if c.guard is not None:
                b, _f = self.cond(c.guard, b, fr)
            elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                total = True
            if b is not None:
                outs.append(self.exec_block(c.body, b, fr))
        if not total:
            outs.append(st)
        return join_all(outs)

    # ------------------------------------------------------------------ names
    def frame_names(self, fr):
        if fr.locals is None:
            if fr.func is not None:
                c = self._locals.get(fr.func.qual)
                if c is None:
                    c = self._locals[fr.func.qual] = func_locals(fr.func.node)
                fr.locals, fr.gl, fr.nl = set(c[0]), c[1], c[2]
            else:
                fr.locals = set()
        return fr.locals

    def bind_name(self, name, av, st, fr, refine=False):
        locs = self.frame_names(fr)
        if name in locs or fr.func is None:
            st.put(fr.fid, name, av)
            return
        if name in fr.gl:
            st.put(("global", fr.module.name), name, av)
            self.emit("global-write", f"{fr.module.name}.{name}", [av], {}, st, fr.func.node, fr)
            return
        fid = st.frames.get(fr.fid, {}).get("__parent__")
        while fid is not None and fid in st.frames:
            if name in st.frames[fid]:
                st.put(fid, name, av)
                return
            fid = st.frames[fid].get("__parent__")
        if not refine:
            st.put(fr.fid, name, av)

    def lookup(self, name, st, fr, quiet=False):
        env = st.frames.get(fr.fid, {})
        if name in env:
            return env[name]
        locs = self.frame_names(fr)
        if fr.func is not None and name in locs:
            return EMPTY
        if name in fr.gl or fr.func is None:
            g = st.frames.get(("global", fr.module.name), {})
            if name in g:
                return g[name]
        fid = env.get("__parent__")
        while fid is not None and (fid in st.frames or fid in self.global_frames):
            e = st.frames[fid] if fid in st.frames else self.global_frames[fid]
            if name in e:
                return e[name]
            fid = e.get("__parent__")
        g = st.frames.get(("global", fr.module.name), {})
        if name in g:
            return g[name]
        r = self.p.resolve_global(fr.module, name)
        if r is None:
            return frozenset([("s", ("unresolved", name))])
        return self.global_av(r)

    def global_av(self, r):
        if r is None:
            return frozenset([("s", ("unresolved",))])
        if r[0] == "func":
            key = ("f", r[1].qual)
            if key not in self.global_cache:
                self.global_cache[key] = frozenset([("fn", r[1].qual, None)])
                av = self.global_cache[key]
                f = r[1]
                if f.decorators():
                    fr = Frame(None, ("m", f.module.name), f.module)
                    st = self._gstate()
                    for d in reversed(f.decorators()):
                        av = self.apply_decorator(d, av, f, st, fr)
                    self.global_heap.update(st.heap)
                    self.global_frames.update((f, e) for f, e in st.frames.items() if "__parent__" in e)
                self.global_cache[key] = av
            return self.global_cache[key]
        if r[0] == "class":
            return frozenset([("cls", r[1].qual)])
        if r[0] == "module":
            return frozenset([("mod", r[1])])
        if r[0] == "ext":
            return frozenset([("ext", r[1])])
        if r[0] == "classattr":
            return self.class_attr(r[1], r[2])
        if r[0] == "var":
            return self.global_var(r[1], r[2])
        return EMPTY

    def _gstate(self):
        st = State()
        st.heap = dict(self.global_heap)
        return st

    def global_var(self, m, name):
        key = ("v", m.name, name)
        if key in self.global_cache:
            return self.global_cache[key]
        stub = self.stubs.get(f"{m.name}.{name}")
        if stub is not None and isinstance(stub, frozenset):
            self.global_cache[key] = stub
            return stub
        self.global_cache[key] = frozenset([("s", ("global", m.name, name))])
        out = EMPTY
        fr = Frame(None, ("m", m.name), m)
        st = self._gstate()
        saved, self.stack = self.stack, ()
        sl, self.loop_depth = self.loop_depth, 0
        self.sinks.append({})
        for b in m.names.get(name, []):
            if b[0] == "assign":
                s = b[1]
                if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
                    out = out | self.eval(s.value, st, fr)
                elif isinstance(s, ast.AnnAssign):
                    out = out | self.eval(s.value, st, fr)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        self.assign(t, self.eval(s.value, st, fr), st, fr)
                    out = out | st.frames.get(fr.fid, {}).get(name, EMPTY)
                else:
                    out = out | frozenset([("s", ("global", m.name, name))])
            else:
                fake = Module("", "", "", None, False)
                r = None
                if b[0] == "from":
                    r = self.p.resolve_global(self.p.modules[b[1]], b[2]) if b[1] in self.p.modules else ("ext", f"{b[1]}.{b[2]}")
                elif b[0] == "module":
                    r = ("ext", b[1]) if b[1] not in self.p.modules else ("module", b[1])
                if r is not None:
                    out = out | self.global_av(r)
        self.sinks.pop()
        self.stack = saved
        self.loop_depth = sl
        self.global_heap.update(st.heap)
        self.global_cache[key] = norm(out)
        return self.global_cache[key]

    def class_attr(self, c, attr):
        key = ("ca", c.qual, attr)
        if key in self.global_cache:
            return self.global_cache[key]
        self.global_cache[key] = frozenset([("s", ("classattr", c.qual, attr))])
        for k in self.p.mro(c):
            if not isinstance(k, Class):
                continue
            for s in k.node.body:
                val = None
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in s.targets):
                    val = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == attr and s.value is not None:
                    val = s.value
                if val is not None:
                    fr = Frame(None, ("m", k.module.name), k.module)
                    st = self._gstate()
                    saved, self.stack = self.stack, ()
                    sl, self.loop_depth = self.loop_depth, 0
                    self.sinks.append({})
                    # class-level names are visible while evaluating class attributes
                    for s2 in k.node.body:
                        if isinstance(s2, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            st.put(fr.fid, s2.name, frozenset([("fn", k.methods[s2.name].qual, None)]))
                    av = self.eval(val, st, fr)
                    self.sinks.pop()
                    self.stack = saved
                    self.loop_depth = sl
                    self.global_heap.update(st.heap)
                    self.global_cache[key] = av
                    return av
        self.global_cache.pop(key)
        return None

    # ------------------------------------------------------------------ enums
    def is_enum(self, c):
        return any(isinstance(k, str) and k in ("enum.Enum", "enum.IntEnum", "enum.Flag", "enum.StrEnum") for k in self.p.mro(c))

    def enum_members(self, c):
        out = []
        for s in c.node.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not s.targets[0].id.startswith("_"):
                if isinstance(s.value, ast.Lambda):
                    continue
                out.append(s.targets[0].id)
        return out

    def enum_value(self, c, member):
        """value of an enumeration member: a constant, or numbered by its position"""
        ms = list(self.enum_members(c))
        new = self.p.find_method(c, "__new__")
        if new is None:
            for s in c.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == member for t in s.targets):
                    if isinstance(s.value, ast.Constant):
                        return const(s.value.value)
                    r = self.p.resolve_expr(c.module, s.value.func) if isinstance(s.value, ast.Call) else None
                    if r is not None and r[0] == "ext" and r[1] == "enum.auto":
                        return const(ms.index(member) + 1)
            return None
        env = {}

        def ev(e):
            if isinstance(e, ast.Constant):
                return e.value
            if isinstance(e, ast.Name):
                return env.get(e.id)
            if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
                a, b = ev(e.left), ev(e.right)
                return None if a is None or b is None else a + b if isinstance(e.op, ast.Add) else a - b
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and isinstance(e.args[0], ast.Attribute) and e.args[0].attr == "__members__":
                return ms.index(member)
            return None
        for s in new.node.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = ev(s.value)
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and s.targets[0].attr == "_value_":
                v = ev(s.value)
                return const(v) if isinstance(v, int) else None
        return None

    def enum_fields(self, c, member):
        key = (c.qual, member)
        if key in self.enum_cache:
            return self.enum_cache[key]
        self.enum_cache[key] = {}
        init = self.p.find_method(c, "__init__")
        fields = {}
        val = self.class_attr(c, member)
        if init is not None and val is not None:
            st = self._gstate()
            args = []
            for t in val:
                if t[0] == "o":
                    o = self.obj(st, t[1])
                    if o is not None and o.kind == "tuple":
                        args = [s[1] for s in o.segs]
            if not args:
                args = [val]
            saved, self.stack = self.stack, (("enum", c.qual, member),)
            oid = self.oid(("enum", c.qual, member))
            st.heap[oid] = Obj("inst", c.qual, {})
            self.sinks.append({})
            self.call_func(init, None, [frozenset([("o", oid)])] + args, {}, st, c.node, None)
            self.sinks.pop()
            self.stack = saved
            o = st.heap.get(oid)
            fields = dict(o.fields) if o else {}
            self.global_heap.update({k: v for k, v in st.heap.items() if k != oid})
        self.enum_cache[key] = fields
        return fields

    # ------------------------------------------------------------------ assignment
    def assign(self, t, av, st, fr):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, av, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            parts = self.unpack(av, n, star, st, fr, t)
            for e, p in zip(t.elts, parts):
                if isinstance(e, ast.Starred):
                    lst = self.alloc(st, Obj("list", segs=(("*", p),)), e, "star")
                    self.assign(e.value, lst, st, fr)
                else:
                    self.assign(e, p, st, fr)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st, fr)
            self.set_attr(base, t.attr, av, st, fr, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, fr)
            key = self.eval(t.slice, st, fr) if not isinstance(t.slice, ast.Slice) else None
            self.set_item(base, key, av, st, fr, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, av, st, fr)

    def set_attr(self, base, attr, av, st, fr, node):
        self.emit("setattr", attr, [base, av], {}, st, node, fr)
        objs = [t for t in base if t[0] == "o"]
        for t in objs:
            o = self.obj(st, t[1])
            if o is not None and o.kind == "inst":
                f = dict(o.fields)
                f[attr] = av if len(base) == 1 and not self._summary(t) else norm(f.get(attr, EMPTY) | av)
                self.set_obj(st, t[1], Obj("inst", o.cls, f))
        for t in base:
            if t[0] in ("ext", "cls", "mod", "s", "elem", "attr", "idx", "call", "top", "enum", "ctx"):
                oid = ("extattr", t)
                o = st.heap.get(oid) or Obj("inst", None, {})
                f = dict(o.fields)
                f[attr] = av if len(base) == 1 and _single(t) else norm(f.get(attr, frozenset([("attr", t, attr)])) | av)
                st.heap[oid] = Obj("inst", None, f)

    def _summary(self, t):
        return bool(self.loop_depth)

    def set_item(self, base, key, av, st, fr, node):
        self.emit("setitem", "[]", [base, key if key is not None else EMPTY, av], {}, st, node, fr)
        self.type_op(base, {"list", "dict"}, "item assignment", st, fr, node)
        for t in base:
            if t[0] != "o":
                continue
            o = self.obj(st, t[1])
            if o is None:
                continue
            if o.kind == "dict":
                strong = len(base) == 1
                if strong and key and not o.layers and not self.loop_depth:
                    self.set_obj(st, t[1], Obj("dict", layers=(("kv", key, av),)))
                    continue
                kt = next(iter(key)) if key is not None and len(key) == 1 else None
                if strong and kt is not None and self._certain(kt, st) and (kt[0] in ("c", "enum") or self._distinct(kt, o, st)):
                    if kt[0] == "o":    # an equal key already there
                        key = next((l[1] for l in o.layers if l[0] == "kv" and len(l[1]) == 1 and self._eq(next(iter(l[1])), kt, st) is True), key)
                    same = [i for i, l in enumerate(o.layers) if l[0] == "kv" and l[1] == key]
                    if same and kt[0] not in ("c", "enum") or same and same[-1] == len(o.layers) - 1 or same and not any(l[0] == "**" for l in o.layers):
                        layers = tuple(("kv", key, av) if l[0] == "kv" and l[1] == key else l for l in o.layers if not (l[0] == "*kv" and l[1] == key))
                    else:
                        layers = tuple(l for l in o.layers if not (l[0] in ("kv", "*kv") and l[1] == key)) + (("kv", key, av),)
                else:
                    l = ("*kv", key or EMPTY, av)
                    layers = o.layers if l in o.layers else o.layers + (l,)
                if len(layers) > LIMIT["layers"]:
                    layers = join_layers(layers, layers[:1])
                self.set_obj(st, t[1], Obj("dict", layers=layers))
            elif o.kind == "list":
                kc = self._const_int(key)
                if kc is not None and len(base) == 1 and all(k == "1" for k, _ in o.segs) and -len(o.segs) <= kc < len(o.segs) and not self.loop_depth:
                    segs = list(o.segs)
                    segs[kc] = ("1", av)
                    self.set_obj(st, t[1], Obj("list", segs=segs))
                else:
                    self.set_obj(st, t[1], Obj("list", segs=tuple((k, norm(v | av)) for k, v in o.segs)))

    def _const_int(self, key):
        if key is not None and len(key) == 1:
            t = next(iter(key))
            if t[0] == "c" and isinstance(t[2], int) and not isinstance(t[2], bool):
                return t[2]
        return None

    def unpack(self, av, n, star, st, fr, node):
        outs = [EMPTY] * n
        for t in av:
            got = None
            if t[0] == "o":
                o = self.obj(st, t[1])
                if o is not None and o.kind in ("tuple", "list") and all(k == "1" for k, _ in o.segs):
                    segs = [v for _, v in o.segs]
                    if star is None and len(segs) == n:
                        got = segs
                    elif star is not None and len(segs) >= n - 1:
                        k = len(segs) - (n - 1)
                        mid = frozenset().union(*segs[star:star + k]) if k else EMPTY
                        got = segs[:star] + [mid] + segs[star + k:]
                elif o is not None and o.kind in ("tuple", "list", "set"):
                    u = frozenset().union(*[v for _, v in o.segs]) if o.segs else EMPTY
                    got = [u] * n
            if got is None:
                if t[0] == "c" and t[2] is None:
                    self.raise_exc("TypeError", st, node, "unpacking None", fr)
                    self.typed_err(node, "unpacking None", fr)
                    continue
                if t[0] == "T":
                    self.type_op(frozenset([t]), {"list", "str", "dict", "tuple"}, "unpacking", st, fr, node)
                got = [frozenset([("idx", t, C(i))]) for i in range(n)]
            outs = [norm(a | b) for a, b in zip(outs, got)]
        return outs

    # ------------------------------------------------------------------ typed values
    def typed_err(self, node, msg, fr):
        self.typed_errors[(id(node), msg)] = (node, msg, self.stack, fr.func if fr else None)

    def type_op(self, av, allowed, what, st, fr, node, exc="TypeError"):
        """report use of a loosely typed value at a type that does not support the operation"""
        bad = set()
        for t in av:
            if t[0] == "T":
                b = t[2] - set(allowed)
                if b:
                    bad |= b
            elif t[0] == "c" and t[2] is None and "none" not in allowed:
                bad.add("none")
        if bad:
            msg = f"{what} on a value that may be of type {'/'.join(sorted(bad))}"
            self.raise_exc(exc, st, node, msg, fr)
            self.typed_err(node, msg, fr)

    def _pytype(self, t, st):
        if t[0] == "c":
            return type(t[2])
        o = self.obj(st, t[1]) if t[0] == "o" else None
        return {"list": list, "tuple": tuple, "set": set, "dict": dict}.get(o.kind) if o is not None else None

    def certain(self, av, st, node, fr, why):
        """in concrete mode: the given operation fails on every one of the values"""
        errs = [why(t) for t in av] if self.concrete and av else [None]
        for e in errs:
            if e:
                self.raise_exc(e, st, node, "", fr)
        if all(errs):
            st.dead = True
        return all(errs)

    def _item_error(self, t, k, st):
        ty = self._pytype(t, st)
        if ty is None:
            return None
        if ty not in (str, bytes, list, tuple, dict):
            return "TypeError"
        kt = next(iter(k)) if len(k) == 1 else None
        if kt is None or kt[0] != "c":
            return None
        if ty is dict:
            o = self.obj(st, t[1])
            ls = self.flat_layers(o, st)
            if all(l[0] in ("kv", "*kv") and len(l[1]) == 1 and next(iter(l[1]))[0] == "c" for l in ls) and not any(kt in l[1] for l in ls) and "default" not in o.fields:
                return "KeyError"
            return None
        if type(kt[2]) is not int:
            return "TypeError"
        if t[0] == "c":
            return "IndexError" if not -len(t[2]) <= kt[2] < len(t[2]) else None
        o = self.obj(st, t[1])
        return "IndexError" if all(x == "1" for x, _ in o.segs) and not -len(o.segs) <= kt[2] < len(o.segs) else None

    # ------------------------------------------------------------------ iteration
    def iterate(self, av, st, fr, node):
        """-> list of (kind, elemAV)"""
        if self.certain(av, st, node, fr, lambda t: "TypeError" if self._pytype(t, st) in (int, float, bool, type(None)) else None):
            return []
        segs_all = []
        for t in av:
            segs_all.append(self.iter_term(t, st, fr, node))
        segs_all = [s for s in segs_all if s is not None]
        if not segs_all:
            return []
        if len(segs_all) == 1:
            return list(segs_all[0])
        r = tuple(segs_all[0])
        for s in segs_all[1:]:
            r = join_segs(r, tuple(s))
        return list(r)

    def iter_term(self, t, st, fr, node):
        tag = t[0]
        if tag == "o":
            o = self.obj(st, t[1])
            if o is None:
                return (("*", frozenset([("elem", t)])),)
            if o.kind == "set" and self.set_order is not None:
                return tuple(o.segs)[::self.set_order]
            if o.kind == "set" and len(o.segs) > 1 and any(x[0] not in ("c", "enum") for _, v in o.segs for x in v):
                return (("*", norm(frozenset().union(*[v for _, v in o.segs]))),)    # no order
            if o.kind in ("list", "tuple", "set", "iter"):
                return o.segs
            if o.kind == "dict":
                return self.dict_view(o, "keys", st, node)
            if o.kind == "inst" and o.cls in self.p.classes:
                it = self.p.find_method(self.p.classes[o.cls], "__iter__")
                if it is not None:
                    r = self.call_func(it, None, [frozenset([t])], {}, st, node, fr)
                    return self.iterate(r, st, fr, node)
            return (("*", frozenset([("elem", t)])),)
        if tag == "cls":
            c = self.p.classes.get(t[1])
            if c is not None and self.is_enum(c):
                return tuple(("1", frozenset([("enum", c.qual, m)])) for m in self.enum_members(c))
        if tag == "c":
            if isinstance(t[2], str):
                if len(t[2]) <= 40:
                    return tuple(("1", frozenset([C(x)])) for x in t[2])
                return (("*", frozenset([("elem", t)])),)
            if t[2] is None:
                self.raise_exc("TypeError", st, node, "iterating None", fr)
                self.typed_err(node, "iterating None", fr)
                return ()
            return ()
        if tag == "T":
            self.type_op(frozenset([t]), {"str", "list", "dict", "tuple", "set"}, "iteration", st, fr, node)
            el = set()
            if "str" in t[2] or "dict" in t[2]:
                el.add(T(("key", t[1]), {"str"}))
            if t[2] & {"list", "tuple", "set"}:
                el.add(T(("elem", t[1]), self.elem_types(t[1])))
            return (("*", frozenset(el)),) if el else ()
        if tag == "top":
            return (("*", frozenset([t])),)
        return (("*", frozenset([("elem", t)])),)

    def elem_types(self, path):
        if isinstance(path, tuple) and path and path[0] == "strlist":
            return {"str"}
        return TOML_TYPES

    def _certain(self, t, st, depth=0):
        """the value denotes one run-time value only"""
        if t[0] in ("c", "enum", "fn", "cls", "mod"):
            return True
        if t[0] in ("s", "pre"):
            return self.generic or not self.loop_depth
        if self.generic and t[0] in ("elem", "op", "call", "head"):
            return True
        if t[0] == "o" and depth < 4:
            o = self.obj(st, t[1])
            if o is None:
                return False
            if o.kind == "tuple":
                return all((k == "1" or self.generic) and len(v) == 1 and self._certain(next(iter(v)), st, depth + 1) for k, v in o.segs)
            if self.generic and o.kind == "set":
                return all(len(v) == 1 and self._certain(next(iter(v)), st, depth + 1) for k, v in o.segs)
            if self.generic and o.kind == "dict":
                return all(l[0] == "kv" and len(l[1]) == len(l[2]) == 1 and self._certain(next(iter(l[1])), st, depth + 1) and self._certain(next(iter(l[2])), st, depth + 1) for l in self.flat_layers(o, st))
            if o.kind == "inst" and o.cls in self.p.classes and self.dataclass_fields(self.p.classes[o.cls]) is not None:
                return all(len(v) == 1 and self._certain(next(iter(v)), st, depth + 1) for v in o.fields.values())
            if self.concrete and not self.loop_depth and o.kind == "inst" and self._by_identity(o):
                return True
        return False

    def _distinct(self, kt, o, st):
        """the key is certainly the same as, or different from, every key there"""
        for l in o.layers:
            if l[0] != "kv" or len(l[1]) != 1 or self._eq(next(iter(l[1])), kt, st) is None and l[1] != frozenset([kt]):
                return False
        return True

    def flat_layers(self, o, st, depth=0):
        out = []
        for l in o.layers:
            if l[0] == "**" and len(l[1]) == 1 and depth < 8:
                t = next(iter(l[1]))
                d = self.obj(st, t[1]) if t[0] == "o" else None
                new = self.flat_layers(d, st, depth + 1) if d is not None and d.kind == "dict" else [l]
            else:
                new = [l]
            for n in new:
                if n[0] == "kv" and len(n[1]) == 1:
                    for i, x in enumerate(out):
                        if x[0] == "kv" and x[1] == n[1] and self._certain(next(iter(n[1])), st):
                            out[i] = n
                            break
                    else:
                        out.append(n)
                else:
                    out.append(n)
        return out

    def dict_view(self, o, what, st, node):
        out = ()
        for l in self.flat_layers(o, st):
            if l[0] == "**":
                for t in l[1]:
                    if t[0] == "o" and self.obj(st, t[1]) is not None and self.obj(st, t[1]).kind == "dict":
                        for s in self.dict_view(self.obj(st, t[1]), what, st, node):
                            out = add_seg(out, "*", s[1])
                        continue
                    if t[0] == "T":
                        k = frozenset([T(("key", t[1]), {"str"})])
                        v = frozenset([T(("val", t[1]), TOML_TYPES)])
                    else:
                        k = frozenset([("elem", ("keys", t))])
                        v = frozenset([("elem", ("vals", t))])
                    out = add_seg(out, "*", self._kv(k, v, what, st, node))
            else:
                kind = "1" if l[0] == "kv" else "*"
                out = add_seg(out, kind, self._kv(l[1], l[2], what, st, node))
        return out

    def _kv(self, k, v, what, st, node):
        if what == "keys":
            return k
        if what == "values":
            return v
        return self.mk_tuple(st, [k, v])

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st, fr, quiet=False):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown_constructs.append(e)
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.eval(c, st, fr)
            return frozenset([("top", frozenset(["unknown"]))])
        return norm(m(e, st, fr))

    def e_Constant(self, e, st, fr):
        return const(e.value) if e.value is not Ellipsis else frozenset([("c", "ellipsis", "...")])

    pkg_dir = None      # where the packages are installed, when that is to be known

    def e_Name(self, e, st, fr):
        if e.id == "__file__" and self.pkg_dir:
            return const(f"{self.pkg_dir}/{fr.module.name.replace('.', '/')}" + ("/__init__.py" if fr.module.path.endswith("__init__.py") else ".py"))
        return self.lookup(e.id, st, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def _segs_of_elts(self, elts, st, fr):
        segs = ()
        for x in elts:
            if isinstance(x, ast.Starred):
                for k, v in self.iterate(self.eval(x.value, st, fr), st, fr, x):
                    segs = add_seg(segs, k, v)
            else:
                segs = segs + (("1", self.eval(x, st, fr)),)
        return segs

    def e_List(self, e, st, fr):
        return self.alloc(st, Obj("list", segs=self._segs_of_elts(e.elts, st, fr)), e)

    def e_Tuple(self, e, st, fr):
        segs = self._segs_of_elts(e.elts, st, fr)
        # tuples are values: identify by content
        oid = self.tuple_oid(segs)
        st.heap[oid] = Obj("tuple", segs=segs)
        return frozenset([("o", oid)])

    def mk_tuple(self, st, avs):
        segs = tuple(("1", a) for a in avs)
        oid = self.tuple_oid(segs)
        st.heap[oid] = Obj("tuple", segs=segs)
        return frozenset([("o", oid)])

    def e_Set(self, e, st, fr):
        return self.alloc(st, Obj("set", segs=self._segs_of_elts(e.elts, st, fr)), e)

    def e_Dict(self, e, st, fr):
        layers = ()
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st, fr)
            if k is None:
                self.type_op(vv, {"dict"}, "'**' unpacking", st, fr, v)
                vv = frozenset(t for t in vv if not (t[0] == "c"))
                layers += (("**", vv),)
                if len(vv) == 1:
                    t = next(iter(vv))
                    o = self.obj(st, t[1]) if t[0] == "o" else None
                    if o is not None and o.kind == "dict":
                        layers = layers[:-1] + (("**", vv),)
            else:
                layers += (("kv", self.eval(k, st, fr), vv),)
        return self.alloc(st, Obj("dict", layers=layers), e)

    def _comp(self, gens, st, fr, emit):
        if not gens:
            emit(st)
            return
        g = gens[0]
        it = self.eval(g.iter, st, fr)

        def body(cur, elem, kind):
            self.assign(g.target, elem, cur, fr)
            weak = 0
            for c in g.ifs:
                t, f = self.cond(c, cur, fr)
                if t is None:
                    self._compmaybe -= weak
                    return f
                if f is not None and not weak:
                    weak = 1
                    self._compmaybe += 1
                skipped.append(f)
                cur = t
            self._comp(gens[1:], cur, fr, emit)
            self._compmaybe -= weak
            return join_all([cur] + [s for s in skipped if s is not None])

        saved = self._unroll
        for i, (kind, elem) in enumerate(self.iterate(it, st, fr, g.iter)):
            self._unroll = saved + (i,)
            skipped = []
            if kind == "1" and not self._compweak:
                r = body(st.copy() if g.ifs else st, elem, kind)
                if r is not None and r is not st:
                    st.become(r)
            else:
                self._compmaybe += 1

                def step(c):
                    skipped.clear()
                    return body(c, elem, kind)

                r = self.fix(st.copy(), step)
                self._compmaybe -= 1
                if r is not None:
                    st.become(r)
        self._unroll = saved

    _compweak = False
    _compmaybe = 0

    def _comp_collect(self, e, st, fr, kind):
        # comprehension variables live in the frame (names are unique enough here)
        out = {"segs": (), "layers": ()}
        saved = self._compmaybe
        self._compmaybe = 0

        def emit(s):
            if isinstance(e, ast.DictComp):
                k = self.eval(e.key, s, fr)
                v = self.eval(e.value, s, fr)
                l = ("kv" if not self._compmaybe else "*kv", k, v)
                if l not in out["layers"]:
                    out["layers"] += (l,)
            else:
                v = self.eval(e.elt, s, fr)
                if self._compmaybe:
                    segs = out["segs"]
                    # fixpoint re-evaluation of the same summary
                    if segs and segs[-1][0] == "*" and (segs[-1][1] <= v or v <= segs[-1][1]):
                        out["segs"] = segs[:-1] + (("*", norm(segs[-1][1] | v)),)
                    else:
                        out["segs"] = add_seg(segs, "*", v)
                else:
                    out["segs"] = out["segs"] + (("1", v),)

        vars_ = set()
        for g in e.generators:
            vars_ |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        env = st.frames.get(fr.fid, {})
        savedv = {v: env.get(v) for v in vars_}
        # comprehension targets are local to it, make them visible as locals
        locs = self.frame_names(fr)
        added = vars_ - locs
        locs |= added
        self._comp(e.generators, st, fr, emit)
        env = dict(st.frames.get(fr.fid, {}))
        for v, old in savedv.items():
            if old is None:
                env.pop(v, None)
            else:
                env[v] = old
        st.frames[fr.fid] = env
        self._compmaybe = saved
        return out

    def e_ListComp(self, e, st, fr):
        o = self._comp_collect(e, st, fr, "list")
        return self.alloc(st, Obj("list", segs=o["segs"]), e)

    def e_GeneratorExp(self, e, st, fr):
        o = self._comp_collect(e, st, fr, "iter")
        return self.alloc(st, Obj("iter", segs=o["segs"]), e)

    def e_SetComp(self, e, st, fr):
        o = self._comp_collect(e, st, fr, "set")
        return self.alloc(st, Obj("set", segs=o["segs"]), e)

    def e_DictComp(self, e, st, fr):
        o = self._comp_collect(e, st, fr, "dict")
        return self.alloc(st, Obj("dict", layers=o["layers"]), e)

    def e_Lambda(self, e, st, fr):
        f = self.p.func_of_node.get(e)
        if f is None:
            return frozenset([("top", frozenset(["lambda"]))])
        return frozenset([("fn", f.qual, fr.fid)])

    def e_IfExp(self, e, st, fr):
        a, b = self.cond(e.test, st, fr)
        va = self.eval(e.body, a, fr) if a is not None else EMPTY
        vb = self.eval(e.orelse, b, fr) if b is not None else EMPTY
        j = join_all([a, b])
        if j is not None:
            st.become(j)
        else:
            st.dead = True
        return va | vb

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        out, cur = EMPTY, st
        states = []
        for i, v in enumerate(e.values):
            if i == len(e.values) - 1:
                out |= self.eval(v, cur, fr)
                states.append(cur)
                break
            c2 = cur.copy()
            av = self.eval(v, c2, fr)
            tv = self.truth(av, c2)
            # value if evaluation stops here
            keep = frozenset(x for t in av for x in self._truth_filter(t, not isand, c2)) if tv is not (True if isand else False) else EMPTY
            t, f = self.cond(v, cur, fr)
            if isand:
                stop, go = f, t
            else:
                stop, go = t, f
            if stop is not None:
                out |= keep
                states.append(stop)
            if go is None:
                break
            cur = go
        j = join_all(states)
        if j is not None:
            st.become(j)
        # boolean combination is also recorded as an operation for facts
        if not out:
            return out
        return out

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            tv = self.truth(v, st)
            if tv is not None:
                return const(not tv)
            return frozenset([("op", "not", v)])
        if isinstance(e.op, ast.USub) and len(v) == 1:
            t = next(iter(v))
            if t[0] == "c" and isinstance(t[2], (int, float)):
                return const(-t[2])
        known = self.known_operator(type(e.op).__name__, [v], st, e, fr)
        if known is not None:
            return known
        return frozenset([("op", type(e.op).__name__, v)])

    def e_BinOp(self, e, st, fr):
        l = self.eval(e.left, st, fr)
        r = self.eval(e.right, st, fr)
        return self.binop(e.op, l, r, st, fr, e)

    def as_segs(self, t, st, kinds=("list", "tuple")):
        if t[0] == "o":
            o = self.obj(st, t[1])
            if o is not None and o.kind in kinds:
                return o.kind, o.segs
        return None, None

    def const_set(self, av, st, chars=False, kinds=("set",)):
        """the elements of a set of known constants, else None"""
        t = next(iter(av)) if len(av) == 1 else None
        if t is None:
            return None
        if chars and t[0] == "c" and isinstance(t[2], str) and len(t[2]) <= 300:
            return frozenset(C(x) for x in t[2])
        o = self.obj(st, t[1]) if t[0] == "o" else None
        if o is None or o.kind not in kinds or not all(k == "1" and len(v) == 1 and next(iter(v))[0] in ("c", "enum") for k, v in o.segs):
            return None
        return frozenset(next(iter(v)) for _, v in o.segs)

    def set_of(self, items, st, node, tag):
        return self.alloc(st, Obj("set", segs=tuple(("1", frozenset([x])) for x in sorted(items, key=str))), node, tag)

    def _known_empty(self, av, st):
        """every value is a set/list/tuple known to have no elements"""
        if not av:
            return False
        for t in av:
            o = self.obj(st, t[1]) if t[0] == "o" else None
            if o is None or o.kind not in ("set", "list", "tuple") or o.segs:
                return False
        return True

    def merge_seqs(self, av, st, node, tag):
        """fold many list objects into one summary object"""
        ls = [t for t in av if t[0] == "o" and self.obj(st, t[1]) is not None and self.obj(st, t[1]).kind == "list"]
        if len(ls) < 2:
            return av
        segs = self.obj(st, ls[0][1]).segs
        for t in ls[1:]:
            segs = join_segs(segs, self.obj(st, t[1]).segs)
        return frozenset(t for t in av if t not in ls) | self.alloc(st, Obj("list", segs=segs), node, ("merge", tag))

    def binop(self, op, l, r, st, fr, node, inplace=False):
        out = set()
        name = type(op).__name__
        known = self.known_operator(name, [l, r], st, node, fr)
        if known is not None:
            return known
        if isinstance(op, ast.Add):
            if len(l) * len(r) > 6:
                l, r = self.merge_seqs(l, st, node, "l"), self.merge_seqs(r, st, node, "r")
            for a in l:
                for b in r:
                    ka, sa = self.as_segs(a, st)
                    kb, sb = self.as_segs(b, st)
                    if sa is not None or sb is not None:
                        kind = ka or kb
                        if sa is None:
                            if a[0] == "T":
                                self.type_op(frozenset([a]), {kind}, "'+'", st, fr, node)
                            sa = (("*", frozenset([("elem", a)] if a[0] not in ("T", "c") else [T(("elem", a[1]), TOML_TYPES)] if a[0] == "T" else [])),)
                        if sb is None:
                            if b[0] == "T":
                                self.type_op(frozenset([b]), {kind}, "'+'", st, fr, node)
                            sb = (("*", frozenset([("elem", b)] if b[0] not in ("T", "c") else [T(("elem", b[1]), TOML_TYPES)] if b[0] == "T" else [])),)
                        segs = tuple(sa)
                        for k, v in sb:
                            segs = add_seg(segs, k, v) if k == "*" else segs + ((k, v),)
                        if inplace and a[0] == "o" and ka == "list":
                            self.emit("mutate", "+=", [l, r], {}, st, node, fr)
                            self.set_obj(st, a[1], Obj("list", segs=segs))
                            out.add(a)
                        elif kind == "tuple":
                            oid = self.tuple_oid(segs)
                            st.heap[oid] = Obj("tuple", segs=segs)
                            out.add(("o", oid))
                        else:
                            out |= self.alloc(st, Obj("list", segs=segs), node, ("+", len(out)))
                        continue
                    if a[0] == "c" and b[0] == "c":
                        try:
                            out.add(C(a[2] + b[2]))
                            continue
                        except Exception:
                            pass
                    if (a[0] == "pre" or b[0] == "pre") and (a[0] in ("c", "pre")):
                        joined = self.prefix_join([frozenset([a]), frozenset([b])])
                        if joined is not None:
                            out |= joined
                            continue
                    if a[0] == "T" or b[0] == "T":
                        other, tt = (b, a) if a[0] == "T" else (a, b)
                        if other[0] == "c" and isinstance(other[2], str):
                            self.type_op(frozenset([tt]), {"str"}, "string '+'", st, fr, node)
                            out.add(T(("+", tt[1]), {"str"}))
                            continue
                        if other[0] == "T":
                            bad = (a[2] | b[2]) - {"str"}
                            if bad:
                                self.type_op(frozenset([T("x", bad)]), set(), "'+'", st, fr, node)
                    out.add(("op", "Add", frozenset([a]), frozenset([b])))
            return frozenset(out)
        if isinstance(op, ast.Mod):
            for a in l:
                if a[0] == "c" and isinstance(a[2], str):
                    out.add(("op", "format%", frozenset([a]), r))
                else:
                    out.add(("op", name, frozenset([a]), r))
            return frozenset(out)
        if isinstance(op, ast.BitOr):
            # set / dict union
            for a in l:
                for b in r:
                    oa = self.obj(st, a[1]) if a[0] == "o" else None
                    ob = self.obj(st, b[1]) if b[0] == "o" else None
                    if (oa is not None and oa.kind == "dict") or (ob is not None and ob.kind == "dict"):
                        out |= self.alloc(st, Obj("dict", layers=(("**", frozenset([a])), ("**", frozenset([b])))), node, ("|", len(out)))
                        continue
                    if (oa is not None and oa.kind == "set") or (ob is not None and ob.kind == "set"):
                        segs = (oa.segs if oa is not None else (("*", frozenset([("elem", a)])),)) + (ob.segs if ob is not None else (("*", frozenset([("elem", b)])),))
                        out |= self.alloc(st, Obj("set", segs=segs), node, ("|", len(out)))
                        continue
                    out.add(("op", "BitOr", frozenset([a]), frozenset([b])))
            return frozenset(out)
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            a, b = self.const_set(l, st), self.const_set(r, st)
            if a is not None and b is not None:
                return self.set_of({"Sub": a - b, "BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[name], st, node, name)
        if isinstance(op, ast.BitAnd) and any(self._known_empty(x, st) for x in (l, r)):
            return self.alloc(st, Obj("set"), node, "&")
        if isinstance(op, ast.Mult):
            for x, y in ((l, r), (r, l)):
                n = self._const_int(y) if len(y) == 1 else None
                o = self.obj(st, next(iter(x))[1]) if len(x) == 1 and next(iter(x))[0] == "o" else None
                if n is not None and o is not None and (o.kind == "list" or o.kind == "tuple" and all(k == "1" for k, _ in o.segs)) and len(o.segs) * n <= 24:
                    segs = tuple(o.segs) * max(n, 0)
                    return self.alloc(st, Obj("list", segs=segs), node, "*") if o.kind == "list" else self.mk_tuple(st, [v for _, v in segs])
        if isinstance(op, ast.Div) and l and r and all(isinstance(paths.text(frozenset([t])), (str, paths.P)) for t in l | r) and any(isinstance(t[2], paths.P) for t in l | r):
            return frozenset(C(paths.P(a[2]) / b[2]) for a in l for b in r)
        if len(l) == 1 and len(r) == 1:
            a, b = next(iter(l)), next(iter(r))
            if a[0] == "c" and b[0] == "c" and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)):
                try:
                    if isinstance(op, ast.Sub):
                        return const(a[2] - b[2])
                    if isinstance(op, ast.Mult) and abs(a[2]) < 1e9 and abs(b[2]) < 1e9:
                        return const(a[2] * b[2])
                except Exception:
                    pass
        return frozenset([("op", name, l, r)])

    def e_Compare(self, e, st, fr):
        l = self.eval(e.left, st, fr)
        res = None
        out = EMPTY
        for op, c in zip(e.ops, e.comparators):
            r = self.eval(c, st, fr)
            v = self.compare(op, l, r, st, fr, e)
            out = v if not out or out == const(True) else out if v == const(True) and st.dead is False else frozenset([("op", "and", out, v)])
            if out == const(False) or st.dead:
                return out
            l = r
        return out

    def compare(self, op, l, r, st, fr, node):
        name = type(op).__name__
        neg = {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}.get(name)
        base = neg or name
        if base in ("Lt", "Gt", "LtE", "GtE"):
            known = self.known_operator(base, [l, r], st, node, fr)
            if known is not None:
                return known
            a, b = self.const_set(l, st), self.const_set(r, st)
            if a is not None and b is not None:
                return const({"Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[base])
            for av, other in ((l, r), (r, l)):
                if any(t[0] == "T" for t in av):
                    if any(t[0] == "c" and isinstance(t[2], (int, float)) for t in other):
                        self.type_op(av, {"int", "float", "bool"}, "ordering comparison", st, fr, node)
                    elif any(t[0] == "c" and isinstance(t[2], str) for t in other):
                        self.type_op(av, {"str"}, "ordering comparison", st, fr, node)
        if base == "In":
            for t in r:
                if t[0] == "T":
                    self.type_op(frozenset([t]), {"list", "str", "dict", "tuple", "set"}, "membership test", st, fr, node)
                elif t[0] == "c" and t[2] is None:
                    self.type_op(r, set(), "membership test", st, fr, node)
            # unhashable left in dict/set
            if any(t[0] == "o" and self.obj(st, t[1]) is not None and self.obj(st, t[1]).kind in ("dict", "set") for t in r):
                if any(t[0] == "T" and t[2] & {"list", "dict"} for t in l):
                    self.type_op(l, TOML_TYPES - {"list", "dict"}, "hashing", st, fr, node)
        vals = set()
        unknown = False
        v = self._len_cmp(base, l, r, st)
        if v is not None:
            return const(v if neg is None else not v)
        if base in ("Eq", "Is"):
            for a in l:
                for b in r:
                    v = self._eq(a, b, st)
                    if v is None:
                        unknown = True
                    else:
                        vals.add(v)
        elif base == "In":
            for a in l:
                for b in r:
                    v = self._in(a, b, st)
                    if v is None:
                        unknown = True
                    else:
                        vals.add(v)
        else:
            unknown = True
            if len(l) == 1 and len(r) == 1:
                a, b = next(iter(l)), next(iter(r))
                if a[0] == "c" and b[0] == "c" and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)):
                    unknown = False
                    vals.add({"Lt": a[2] < b[2], "Gt": a[2] > b[2], "LtE": a[2] <= b[2], "GtE": a[2] >= b[2]}[base])
        if not unknown and len(vals) == 1:
            v = vals.pop()
            return const(v if neg is None else not v)
        t = ("op", "cmp" + base, l, r)
        if neg:
            return frozenset([("op", "not", frozenset([t]))])
        return frozenset([t])

    def _len_cmp(self, base, l, r, st):
        """len(x) against a constant, when x is known to have at least so many elements"""
        if len(l) != 1 or len(r) != 1 or self.loop_depth:
            return None
        a, b = next(iter(l)), next(iter(r))
        if b[0] == "op" and b[1] == "len":
            a, b = b, a
            base = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(base, base)
        if not (a[0] == "op" and a[1] == "len" and len(a[2]) == 1 and b[0] == "c" and isinstance(b[2], int)):
            return None
        t = next(iter(a[2]))
        o = self.obj(st, t[1]) if t[0] == "o" else None
        if o is not None and o.kind in ("list", "tuple"):
            lo = sum(k == "1" for k, _ in o.segs)
            hi = lo if lo == len(o.segs) else None
        elif o is not None and o.kind == "set":
            lo = int(any(k == "1" for k, _ in o.segs))
            hi = len(o.segs) if all(k == "1" and len(v) == 1 for k, v in o.segs) else None
        elif o is not None and o.kind == "dict":
            ls = self.flat_layers(o, st)
            sure = [l[1] for l in ls if l[0] == "kv" and len(l[1]) == 1 and next(iter(l[1]))[0] in ("c", "enum")]
            lo = len(set(sure)) or int(any(l[0] == "kv" for l in ls))
            hi = lo if len(sure) == len(ls) else None
        else:
            return None
        n = b[2]
        if base in ("Eq", "Is", "NotEq", "IsNot"):
            r = False if n < lo or hi is not None and n > hi else True if lo == hi == n else None
            return r
        if base in ("Gt", "GtE"):
            n += base == "Gt"
            return True if lo >= n else False if hi is not None and hi < n else None
        if base in ("Lt", "LtE"):
            n += base == "LtE"
            return False if lo >= n else True if hi is not None and hi < n else None
        return None

    def _eq(self, a, b, st, depth=0):
        if a[0] == "c" and b[0] == "c":
            return a[2] == b[2]
        if a[0] == "enum" and b[0] == "enum":
            return a == b
        if a[0] in ("enum", "fn", "cls", "mod", "o") and b[0] == "c":
            return False if (b[2] is None or a[0] != "o") else None
        if b[0] in ("enum", "fn", "cls", "mod", "o") and a[0] == "c":
            return False if (a[2] is None or b[0] != "o") else None
        if a == b and a[0] in ("s", "pre") and not self.loop_depth:
            return True
        if self.concrete and a[0] == b[0] == "ext" and a[1].startswith("builtins.") and b[1].startswith("builtins."):
            return a == b
        if self.concrete and a[0] == b[0] == "ext" and all(x[1].startswith("astroid.") and x[1].split(".")[-1][:1].isupper() for x in (a, b)):
            return a[1].split(".")[-1] == b[1].split(".")[-1]
        if b[0] == "pre" or (self.generic and b[0] == "s"):
            a, b = b, a
        if self.generic and a[0] in ("s", "pre", "elem", "op", "call") and b[0] in ("s", "pre", "elem", "op", "call", "c", "enum"):
            return a == b
        if a[0] == "pre":
            if b[0] == "c":
                return None if isinstance(b[2], str) and b[2].startswith(a[1]) else False
            if b[0] in ("enum", "fn", "cls", "mod"):
                return False
            if b[0] == "pre":
                return None if a[1].startswith(b[1]) or b[1].startswith(a[1]) else False
            return None
        if a[0] == "o" and b[0] == "o":
            x, y = self.obj(st, a[1]), self.obj(st, b[1])
            if self.concrete and not self.loop_depth and x is not None and y is not None and x.kind == y.kind == "inst" and self._by_identity(x) and self._by_identity(y):
                return a == b
            if x is None or y is None or x.kind != y.kind or depth > 4:
                return None
            if x.kind == "set":
                u, v = self.const_set(frozenset([a]), st), self.const_set(frozenset([b]), st)
                if u is not None and v is not None and all(w[0] == "c" for w in u | v):
                    return {w[2] for w in u} == {w[2] for w in v}
            if x.kind in ("list", "tuple") and (self.generic or all(k == "1" for k, _ in x.segs + y.segs)):
                if [k for k, _ in x.segs] != [k for k, _ in y.segs]:
                    return False
                pairs = [(v, w) for (_, v), (_, w) in zip(x.segs, y.segs)]
            elif x.kind == "inst" and x.cls == y.cls and x.cls in self.p.classes and self.dataclass_fields(self.p.classes[x.cls]) is not None:
                pairs = [(v, y.fields.get(k, EMPTY)) for k, v in x.fields.items()]
            elif self.generic and x.kind == "dict":
                lx, ly = self.flat_layers(x, st), self.flat_layers(y, st)
                if any(l[0] != "kv" or len(l[1]) != 1 or next(iter(l[1]))[0] not in ("c", "enum") for l in lx + ly):
                    return None
                dx, dy = {l[1]: l[2] for l in lx}, {l[1]: l[2] for l in ly}
                if set(dx) != set(dy):
                    return False
                pairs = [(dx[k], dy[k]) for k in dx]
            elif self.generic and x.kind == "set":
                if any(len(v) != 1 for _, v in x.segs + y.segs):
                    return None
                ex, ey = [[next(iter(v)) for _, v in z.segs] for z in (x, y)]
                rs = [[self._eq(v, w, st, depth + 1) for w in b] for a, b in ((ex, ey), (ey, ex)) for v in a]
                return False if any(all(r is False for r in row) for row in rs) else True if all(True in row for row in rs) else None
            else:
                return None
            rs = [self._eq(next(iter(v)), next(iter(w)), st, depth + 1) if len(v) == len(w) == 1 else None for v, w in pairs]
            return False if False in rs else True if all(r is True for r in rs) else None
        if a[0] == "T" and b[0] == "c" and b[2] is None:
            return None if "none" in a[2] else False
        if b[0] == "T" and a[0] == "c" and a[2] is None:
            return None if "none" in b[2] else False
        return None

    def _by_identity(self, o):
        """whether objects of this class are equal only to themselves"""
        c = self.p.classes.get(o.cls)
        if c is None:
            return isinstance(o.cls, str) and o.cls.startswith("astroid.")
        return self.p.find_method(c, "__eq__") is None and self.dataclass_fields(c) is None and all(not isinstance(k, str) or k == "builtins.object" for k in self.p.mro(c))

    def _in(self, a, b, st):
        if a[0] == "pre" and b[0] == "o":
            o = self.obj(st, b[1])
            if o is not None and o.kind in ("list", "tuple", "set") and all(self._eq(a, x, st) is False for _, v in o.segs for x in v):
                return False
            return None
        if a[0] == "c" and b[0] == "pre" and isinstance(a[2], str):
            return True if a[2] in b[1] else None
        if self.concrete and b[0] == "o" and a[0] in ("c", "enum", "ext", "o"):
            o = self.obj(st, b[1])
            if o is not None and o.kind in ("list", "tuple", "set") and all(k == "1" and len(v) == 1 for k, v in o.segs):
                rs = [self._eq(a, next(iter(v)), st) for _, v in o.segs]
                return True if True in rs else None if None in rs else False
        if a[0] in ("c", "enum", "pre", "o", "s") and b[0] == "o":
            o = self.obj(st, b[1])
            if o is not None and o.kind == "dict":
                may = False
                for l in self.flat_layers(o, st):
                    if l[0] == "**":
                        may = True
                        continue
                    vs = [self._eq(a, x, st) for x in l[1]]
                    if l[0] == "kv" and len(vs) == 1 and vs[0] is True:
                        return True
                    if any(v is not False for v in vs):
                        may = True
                return None if may else False
            if o is not None and o.kind in ("list", "tuple", "set"):
                allc = a[0] not in ("o", "s")
                maybe = False
                for k, v in o.segs:
                    for x in v:
                        if x == a and a[0] in ("c", "enum") and len(v) == 1 and k == "1":
                            return True
                        if x[0] not in ("c", "enum"):
                            allc = False
                        elif x == a:
                            maybe = True
                return False if allc and not maybe else None
        if a[0] == "c" and b[0] == "c" and isinstance(a[2], str) and isinstance(b[2], str):
            return a[2] in b[2]
        return None

    def e_JoinedStr(self, e, st, fr):
        parts = []
        plain = True
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                av = self.eval(v.value, st, fr)
                same = v.conversion in (-1, 115) and v.format_spec is None
                if same and any(self.has_str(t, st) for t in av):
                    av = self.b_str([av], {}, st, e, fr)
                parts.append(av)
                plain = plain and same
            else:
                parts.append(const(v.value))
        if plain and all(len(p) == 1 and next(iter(p))[0] == "c" for p in parts):
            return const("".join(str(next(iter(p))[2]) for p in parts))
        if plain:
            r = self.prefix_join(parts)
            if r is not None:
                return r
        return frozenset([("op", "fstr") + tuple(parts)])

    def has_str(self, t, st):
        o = self.obj(st, t[1]) if t[0] == "o" else None
        return o is not None and o.kind == "inst" and o.cls in self.p.classes and self.p.find_method(self.p.classes[o.cls], "__str__") is not None

    def prefix_join(self, parts):
        """concatenation of constants followed by a string with a known beginning"""
        if any(len(p) != 1 for p in parts):
            return None
        ts = [next(iter(p)) for p in parts]
        head = ""
        for i, t in enumerate(ts):
            if t[0] == "c" and isinstance(t[2], str):
                head += t[2]
                continue
            if t[0] != "pre":
                return None
            rest = t[2] if i == len(ts) - 1 else ("op", "fstr", frozenset([t]), *parts[i + 1:])
            return frozenset([("pre", head + t[1], rest)])
        return None

    def e_FormattedValue(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Slice(self, e, st, fr):
        parts = [self.eval(x, st, fr) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
        return frozenset([("op", "slice") + tuple(parts)])

    def e_Await(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.eval(e.value, st, fr) if e.value is not None else NONE
        if fr.yield_hook is not None:
            r = fr.yield_hook(st.copy(), v)
            if r is None:
                st.dead = True
            else:
                st.become(r)
            return NONE
        if fr.yields is not None:
            self._yielded(fr, st, "1", v)
            self.emit("yield", fr.func.qual, [v], {}, st, e, fr)
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        if fr.yields is not None:
            for k, x in self.iterate(v, st, fr, e):
                self._yielded(fr, st, k, x)
        return NONE

    def _yielded(self, fr, st, kind, v):
        """what a generator gives: all of it in fr.yields, and along each path in an object of the state"""
        fr.yields.append(("*", v))
        o = self.obj(st, fr.gen) if fr.gen is not None else None
        if o is not None:
            self.set_obj(st, fr.gen, Obj("list", segs=self._loop_append(o.segs, v) if kind == "1" else add_seg(o.segs, "*", v)))

    # ---- subscripts
    def e_Subscript(self, e, st, fr):
        b = self.eval(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            sl = self.eval(e.slice, st, fr)
            self.emit("part", "[:]", [b, *next(iter(sl))[2:5]], {}, st, e, fr)
            out = set()
            for t in b:
                k, segs = self.as_segs(t, st)
                if segs is not None:
                    lo = e.slice
                    full = all(kk == "1" for kk, _ in segs)
                    consts = [self._const_int(self.eval(x, st, fr)) if x is not None else None for x in (lo.lower, lo.upper, lo.step)]
                    given = [x is not None for x in (lo.lower, lo.upper, lo.step)]
                    if full and all((not g) or c is not None for g, c in zip(given, consts)):
                        ns = tuple(segs[slice(*consts)])
                    elif not any(given[:2]) and consts[2] == -1:
                        ns = tuple(reversed(segs))
                    elif given[0] and not given[1] and not given[2] and consts[0] == 0:
                        ns = segs
                    elif not any(given):
                        ns = segs
                    else:
                        ns = tuple(("*", v) for _, v in segs)
                    out |= self.alloc(st, Obj(k, segs=ns), e, ("sl", len(out)))
                elif t[0] == "T":
                    self.type_op(frozenset([t]), {"str", "list"}, "slicing", st, fr, e)
                    out.add(T(("slice", t[1]), t[2] & {"str", "list"} or {"str"}))
                elif t[0] == "c" and isinstance(t[2], str):
                    c = [self._const_int(self.eval(x, st, fr)) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                    if all((x is None) or (cc is not None) for x, cc in zip((e.slice.lower, e.slice.upper, e.slice.step), c)):
                        out.add(C(t[2][slice(*c)]))
                    else:
                        out.add(("op", "slice", frozenset([t]), sl))
                else:
                    out.add(("op", "slice", frozenset([t]), sl))
            return frozenset(out)
        k = self.eval(e.slice, st, fr)
        if b == frozenset([("ext", "typing.Union")]) and len(k) == 1:
            _, segs = self.as_segs(next(iter(k)), st)
            if segs is not None and all(kk == "1" and len(v) == 1 and next(iter(v))[0] in ("cls", "ext") for kk, v in segs):
                return k    # isinstance treats both alike
        return self.get_item(b, k, st, fr, e)

    def get_item(self, b, k, st, fr, node):
        out = set()
        if self.certain(b, st, node, fr, lambda t: self._item_error(t, k, st)):
            return EMPTY
        for t in b:
            if t[0] == "o":
                o = self.obj(st, t[1])
                if o is None:
                    out.add(("idx", t, next(iter(k)) if len(k) == 1 else ("top", frozenset(av_labels(k)))))
                    continue
                if o.kind in ("list", "tuple", "iter"):
                    i = self._const_int(k)
                    if i is not None and all(x == "1" for x, _ in o.segs):
                        if -len(o.segs) <= i < len(o.segs):
                            out |= o.segs[i][1]
                        continue
                    if i is not None and i >= 0 and len(o.segs) > i and all(x == "1" for x, _ in o.segs[:i + 1]):
                        out |= o.segs[i][1]
                        continue
                    if i == -1 and o.segs and o.segs[-1][0] == "1":
                        out |= o.segs[-1][1]
                        continue
                    if i is not None and o.segs:
                        # first/last of a summarised sequence
                        for _, v in o.segs:
                            out |= v
                        continue
                    for _, v in o.segs:
                        out |= v
                elif o.kind == "dict":
                    v, miss = self.dict_get(o, k, st, node, fr)
                    out |= v
                    if miss and t[1] in self.factories:
                        new = self.call(self.factories[t[1]], [], {}, st, node, fr)
                        self.set_item(frozenset([t]), k, new | v, st, fr, node)
                        out |= new
                elif o.kind == "inst" and o.cls in self.p.classes:
                    gi = self.p.find_method(self.p.classes[o.cls], "__getitem__")
                    if gi is not None:
                        out |= self.call_func(gi, None, [frozenset([t]), k], {}, st, node, fr)
                    else:
                        out.add(("idx", t, self._kterm(k)))
                else:
                    out.add(("idx", t, self._kterm(k)))
            elif t[0] == "cls":
                c = self.p.classes.get(t[1])
                if c is not None and self.is_enum(c) and len(k) == 1 and next(iter(k))[0] == "c":
                    out.add(("enum", c.qual, next(iter(k))[2]))
                else:
                    out.add(t)
            elif t[0] == "T":
                self.type_op(frozenset([t]), {"dict", "list", "str"}, "subscript", st, fr, node)
                if "dict" in t[2]:
                    self.raise_exc("KeyError", st, node, "missing key in a configuration table", fr)
                    self.typed_err(node, "missing key", fr)
                out.add(T(("val", t[1]), TOML_TYPES))
            elif t[0] == "c":
                if t[2] is None:
                    self.type_op(frozenset([t]), set(), "subscript", st, fr, node)
                elif isinstance(t[2], str):
                    i = self._const_int(k)
                    if i is not None and -len(t[2]) <= i < len(t[2]):
                        out.add(C(t[2][i]))
                    else:
                        out.add(("op", "charof", frozenset([t])))
            elif t[0] == "ext":
                out.add(("idx", t, self._kterm(k)) if not t[1].startswith(("typing.", "builtins.")) else t)
            elif t[0] == "enum":
                out.add(("idx", t, self._kterm(k)))
            else:
                out.add(("idx", t, self._kterm(k)))
        if any(x[0] == "T" and x[2] & {"list", "dict"} for x in k) and any(t[0] == "o" and self.obj(st, t[1]) is not None and self.obj(st, t[1]).kind == "dict" for t in b):
            self.type_op(k, TOML_TYPES - {"list", "dict"}, "hashing", st, fr, node)
        return frozenset(out)

    def _kterm(self, k):
        return next(iter(k)) if len(k) == 1 else ("top", frozenset(map(str, av_labels(k))))

    def dict_get(self, o, key, st, node, fr, depth=0):
        """-> (values, may be missing)"""
        out, missing = set(), True
        kt = next(iter(key)) if len(key) == 1 else None
        for l in reversed(self.flat_layers(o, st)):
            if l[0] == "**":
                for t in l[1]:
                    if t[0] == "o" and self.obj(st, t[1]) is not None and self.obj(st, t[1]).kind == "dict" and depth < 5:
                        v, miss = self.dict_get(self.obj(st, t[1]), key, st, node, fr, depth + 1)
                        out |= v
                        if not miss and len(l[1]) == 1:
                            return frozenset(out), False
                    elif t[0] == "T":
                        out.add(T(("val", t[1]), TOML_TYPES))
                    else:
                        out.add(("idx", t, self._kterm(key)))
                continue
            k, v = l[1], l[2]
            if kt is not None and kt[0] in ("c", "enum") and len(k) == 1:
                k0 = next(iter(k))
                if k0[0] in ("c", "enum"):
                    if k0 == kt:
                        out |= v
                        if l[0] == "kv":
                            return frozenset(out), False
                    continue
            if kt is not None and (kt[0] == "o" or self.generic) and len(k) == 1 and self._eq(next(iter(k)), kt, st) is False:
                continue
            out |= v
            if l[0] == "kv" and k == key and len(key) == 1 and kt[0] not in ("top", "call") or l[0] == "kv" and kt is not None and kt[0] == "o" and len(k) == 1 and self._eq(next(iter(k)), kt, st) is True:
                return frozenset(out), False
        return frozenset(out), missing

    # ---- attributes
    def e_Attribute(self, e, st, fr):
        b = self.eval(e.value, st, fr)
        return self.get_attr(b, e.attr, st, fr, e)

    def get_attr(self, b, attr, st, fr, node):
        out = set()
        if self.certain(b, st, node, fr, lambda t: "AttributeError" if self._pytype(t, st) is not None and not hasattr(self._pytype(t, st), attr) and not (t[0] == "c" and isinstance(t[2], (str, pathlib.PurePath)) and hasattr(pathlib.Path, attr)) else None):
            return EMPTY
        for t in b:
            out |= self.attr_term(t, attr, st, fr, node)
        return norm(frozenset(out))

    def attr_term(self, t, attr, st, fr, node):
        tag = t[0]
        if self.on_attr is not None:
            r = self.on_attr(self, t, attr, st, node)
            if r is not None:
                return r
        if t == ("ext", "string") and isinstance(getattr(string, attr, None), str):
            return const(getattr(string, attr))
        if tag == "exc" and attr in self.exc_attrs:
            return self.exc_attrs[attr]
        if tag in ("ext", "mod", "cls", "s", "elem", "attr", "idx", "call", "top", "enum", "ctx"):
            o = st.heap.get(("extattr", t))
            if o is not None and attr in o.fields:
                return o.fields[attr]
        if tag == "o":
            o = self.obj(st, t[1])
            if o is None:
                return frozenset([("attr", t, attr)])
            if o.kind == "inst":
                if attr in o.fields:
                    return o.fields[attr]
                if attr == "__dict__":
                    return self.alloc(st, Obj("dict", layers=tuple(("kv", const(k), v) for k, v in o.fields.items())), node, "dict")
                c = self.p.classes.get(o.cls)
                if attr == "__class__" and c is not None:
                    return frozenset([("cls", c.qual)])
                if c is not None:
                    f = self.p.find_method(c, attr)
                    if f is not None:
                        return self.bind_method(f, t, st, fr, node, c)
                    v = self.class_attr(c, attr)
                    if v is not None:
                        return v
                return frozenset([("attr", t, attr)])
            return frozenset([("em", attr, t)])
        if tag == "enum":
            c = self.p.classes.get(t[1])
            if attr == "name":
                return const(t[2])
            if attr == "value" or attr == "_value_":
                v = self.enum_value(c, t[2]) if c is not None else None
                return v if v is not None else frozenset([("op", "enumvalue", frozenset([t]))])
            if c is not None:
                fields = self.enum_fields(c, t[2])
                if attr in fields:
                    return fields[attr]
                f = self.p.find_method(c, attr)
                if f is not None:
                    return self.bind_method(f, t, st, fr, node, c)
            return frozenset([("attr", t, attr)])
        if tag == "cls":
            c = self.p.classes.get(t[1])
            if c is None:
                return frozenset([("ext", f"{t[1]}.{attr}")])
            if self.is_enum(c) and attr in self.enum_members(c):
                return frozenset([("enum", c.qual, attr)])
            if attr == "__name__":
                return const(c.name)
            if attr == "__members__":
                return frozenset([("attr", t, attr)])
            f = self.p.find_method(c, attr)
            if f is not None:
                if self._has_deco(f, "builtins.classmethod"):
                    return frozenset([("bm", ("fn", f.qual, None), t)])
                av = self._decorated(f, st, fr)
                return av
            v = self.class_attr(c, attr)
            if v is not None:
                return v
            return frozenset([("attr", t, attr)])
        if tag == "mod":
            r = self.p.resolve_global(self.p.modules[t[1]], attr) if t[1] in self.p.modules else ("ext", f"{t[1]}.{attr}")
            if r is None or (r[0] == "ext" and r[1] == f"builtins.{attr}"):
                sub = f"{t[1]}.{attr}"
                if sub in self.p.modules:
                    return frozenset([("mod", sub)])
                return frozenset([("attr", t, attr)])
            g = st.frames.get(("global", t[1]), {})
            if attr in g:
                return g[attr]
            return self.global_av(r)
        if tag == "ext":
            return frozenset([("ext", f"{t[1]}.{attr}")])
        if tag == "T":
            have = frozenset(x for x in t[2] if attr in TYPE_DIR.get(x, ()))
            bad = t[2] - have
            if bad:
                self.type_op(frozenset([t]), have, f"attribute '{attr}'", st, fr, node, exc="AttributeError")
            return frozenset([("em", attr, ("T", t[1], have))]) if have else EMPTY
        if tag == "c":
            if t[2] is None:
                if attr not in TYPE_DIR["none"]:
                    self.type_op(frozenset([t]), set(), f"attribute '{attr}'", st, fr, node, exc="AttributeError")
                return EMPTY
            if isinstance(t[2], paths.P):
                r = paths.attr(self, t[2], attr, st, node)
                if r is not None:
                    return r
            return frozenset([("em", attr, t)])
        if tag == "fn" and attr in ("__func__", "__wrapped__"):
            return frozenset([t])
        if tag == "bm" and attr == "__func__":
            return frozenset([t[1]])
        if tag == "super":
            c = self.p.classes.get(t[1])
            if c is not None:
                for k in self.p.mro(c)[1:]:
                    if isinstance(k, Class) and attr in k.methods:
                        return frozenset([("bm", ("fn", k.methods[attr].qual, None), t[2])])
            return frozenset([("em", attr, ("s", ("super", t[1])))])
        return frozenset([("attr", t, attr)])

    def _has_deco(self, f, name):
        return any(self._deco_is(d, f, (name,)) for d in f.decorators())

    def _decorated(self, f, st, fr):
        return self.global_av(("func", f))

    def bind_method(self, f, self_t, st, fr, node, c):
        if self._has_deco(f, "builtins.staticmethod"):
            return frozenset([("fn", f.qual, None)])
        if self._has_deco(f, "builtins.classmethod"):
            return frozenset([("bm", ("fn", f.qual, None), ("cls", c.qual))])
        if self._has_deco(f, "builtins.property") or self._has_deco(f, "functools.cached_property"):
            return self.call_func(f, None, [frozenset([self_t])], {}, st, node, fr)
        av = self._decorated(f, st, fr)
        return frozenset(("bm", t, self_t) for t in av if t[0] in ("fn", "bm")) or av

    def apply_decorator(self, d, av, f, st, fr):
        r = self.p.resolve_expr(f.module, d.func if isinstance(d, ast.Call) else d)
        if r is None or r[0] == "ext":
            return av
        dav = self.eval(d, st, fr)
        res = EMPTY
        for t in dav:
            if t[0] in ("fn", "bm"):
                res |= self.call(frozenset([t]), [av], {}, st, d, fr)
        return res or av

    # ---- calls
    def eval_args(self, e, st, fr):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                segs = self.iterate(v, st, fr, a)
                if all(k == "1" for k, _ in segs):
                    args.extend(x for _, x in segs)
                else:
                    args.append(("*", frozenset().union(*[x for _, x in segs])))
            else:
                args.append(self.eval(a, st, fr))
        for k in e.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                for t in v:
                    if t[0] == "o" and self.obj(st, t[1]) is not None and self.obj(st, t[1]).kind == "dict":
                        for l in self.obj(st, t[1]).layers:
                            if l[0] == "kv" and len(l[1]) == 1 and next(iter(l[1]))[0] == "c":
                                kw[next(iter(l[1]))[2]] = l[2]
            else:
                kw[k.arg] = v
        return args, kw

    def e_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr.func
            c = None
            n = e
            while n is not None and c is None:
                n = getattr(n, "parent", None)
                c = self.p.class_of_node.get(n)
            slf = self.lookup(fr.func.params()[0], st, fr) if fr.func and fr.func.params() else EMPTY
            return frozenset(("super", c.qual if c else "?", s) for s in slf) or frozenset([("s", "super")])
        fav = self.eval(e.func, st, fr)
        args, kw = self.eval_args(e, st, fr)
        if st.dead:
            return EMPTY
        return self.call(fav, args, kw, st, e, fr)

    def call(self, fav, args, kw, st, node, fr):
        self.calls_analysed.add((getattr(node, "lineno", 0), getattr(node, "col_offset", 0), getattr(getattr(node, "mod_", None), "name", "")))
        outs, states = EMPTY, []
        terms = list(fav)
        if not terms:
            return EMPTY
        for i, t in enumerate(terms):
            s = st if len(terms) == 1 else st.copy()
            v = self.call_term(t, args, kw, s, node, fr)
            if not s.dead:
                outs |= v
                states.append(s)
        if len(terms) > 1:
            j = join_all(states)
            if j is None:
                st.dead = True
            else:
                st.become(j)
        return norm(outs)

    @staticmethod
    def flat(args):
        return [a if isinstance(a, frozenset) else a[1] for a in args]

    def call_term(self, t, args, kw, st, node, fr):
        tag = t[0]
        if tag == "fn":
            f = self.p.funcs[t[1]]
            return self.call_func(f, t[2], args, kw, st, node, fr)
        if tag == "bm":
            return self.call_term(t[1], [frozenset([t[2]])] + args, kw, st, node, fr)
        if tag == "partial":
            return self.call(t[1], list(t[2]) + args, {**dict(t[3]), **kw}, st, node, fr)
        if tag == "cls":
            return self.instantiate(self.p.classes[t[1]], args, kw, st, node, fr)
        if tag == "em":
            if self.concrete and t[1] in KNOWN_METHODS and t[2][0] == "c" and isinstance(t[2][2], (int, float, complex)) and not args and not kw:
                r = self._known(getattr(type(t[2][2]), t[1], None) or abs, [t[2][2]], {}, st, node, fr, t[1])
                if r is not None:
                    return r
            return self.call_method(t[1], t[2], args, kw, st, node, fr)
        if tag == "ext":
            return self.call_ext(t[1], args, kw, st, node, fr)
        if tag == "enum":
            c = self.p.classes.get(t[1])
            f = self.p.find_method(c, "__call__") if c is not None else None
            if f is not None:
                return self.call_func(f, None, [frozenset([t])] + args, kw, st, node, fr)
        if tag == "o":
            o = self.obj(st, t[1])
            if o is not None and o.kind == "inst" and o.cls in self.p.classes:
                f = self.p.find_method(self.p.classes[o.cls], "__call__")
                if f is not None:
                    return self.call_func(f, None, [frozenset([t])] + args, kw, st, node, fr)
        if tag == "attr":
            # method of a symbolic / external value
            return self.call_method(t[2], t[1], args, kw, st, node, fr)
        if tag == "c" and t[2] is None:
            self.type_op(frozenset([t]), set(), "call", st, fr, node)
            return EMPTY
        self.emit("call", "?" + show(t), self.flat(args), kw, st, node, fr)
        self.ext_may_raise("?", args, st, node, fr)
        return frozenset([("call", "?" + tag, (frozenset([t]),) + tuple(self.flat(args)))])

    def ext_may_raise(self, name, args, st, node, fr, recv=None):
        exc = self.raises_table.get(name)
        if callable(exc):
            exc = exc(self, name, args, recv, st)
        if exc is None:
            if name in SAFE_EXT or name.startswith(SAFE_EXT_PREFIX) or (name.startswith("builtins.") and name[9:] in
                    [x for x in dir(builtins) if isinstance(getattr(builtins, x), type) and issubclass(getattr(builtins, x), BaseException)]):
                exc = ()
            else:
                exc = self.unknown_raises
        if isinstance(exc, str):
            exc = (exc,)
        for x in exc or ():
            self.raise_exc(x, st, node, f"call of {name}", fr)

    def instantiate(self, c, args, kw, st, node, fr):
        stub = self.stubs.get(c.qual)
        if stub is not None:
            self.emit("call", c.qual, self.flat(args), kw, st, node, fr)
            return stub(self, self.flat(args), kw, st, node, fr)
        if self.is_enum(c):
            return frozenset([("op", "enum:" + c.qual, *self.flat(args))])
        self.emit("new", c.qual, self.flat(args), kw, st, node, fr)
        st.may = st.may | {c.qual}
        st.done = st.done | {c.qual}
        bases = self.p.mro(c)
        if any(isinstance(k, str) and (k.split(".")[-1] in dir(builtins)) and isinstance(getattr(builtins, k.split(".")[-1]), type)
               and issubclass(getattr(builtins, k.split(".")[-1]), BaseException) for k in bases):
            return self.alloc(st, Obj("inst", c.qual, {"args": self.mk_tuple(st, self.flat(args))}), node, c.qual)
        if any(k == "builtins.dict" for k in bases):
            layers = tuple(("**", a) for a in self.flat(args)) + tuple(("kv", const(k), v) for k, v in kw.items())
            return self.alloc(st, Obj("dict", layers=layers), node, c.qual)
        fields = {}
        init = self.p.find_method(c, "__init__")
        av = self.alloc(st, Obj("inst", c.qual, {}), node, c.qual)
        t = next(iter(av))
        if init is not None:
            self.call_func(init, None, [av] + args, kw, st, node, fr)
            return av
        dc = self.dataclass_fields(c)
        if dc is not None:
            pos = [a for a in args]
            starred = None
            for i, a in enumerate(pos):
                if not isinstance(a, frozenset):
                    starred = a[1]
                    pos = pos[:i]
                    break
            for i, (name, default, dfactory, cls_) in enumerate(dc):
                if i < len(pos):
                    fields[name] = pos[i]
                elif name in kw:
                    fields[name] = kw[name]
                elif starred is not None:
                    fields[name] = starred
                elif dfactory is not None:
                    f2 = Frame(None, ("m", cls_.module.name), cls_.module)
                    fv = self.eval(dfactory, st, f2)
                    fields[name] = self.call(fv, [], {}, st, node, fr)
                elif default is not None:
                    v = self.class_attr(c, name)
                    fields[name] = v if v is not None else EMPTY
                else:
                    fields[name] = EMPTY
        else:
            for i, a in enumerate(self.flat(args)):
                fields[f"arg{i}"] = a
        o = self.obj(st, t[1])
        merged = dict(o.fields)
        for k, v in fields.items():
            merged[k] = norm(merged.get(k, EMPTY) | v) if self.loop_depth else v
        self.set_obj(st, t[1], Obj("inst", c.qual, merged))
        pi = self.p.find_method(c, "__post_init__")
        if pi is not None:
            self.call_func(pi, None, [av], {}, st, node, fr)
        return av

    def dataclass_fields(self, c):
        is_dc = False
        out = []
        for k in reversed([k for k in self.p.mro(c) if isinstance(k, Class)]):
            for d in k.node.decorator_list:
                e = d.func if isinstance(d, ast.Call) else d
                r = self.p.resolve_expr(k.module, e)
                if r is not None and r[0] == "ext" and r[1] in ("dataclasses.dataclass",):
                    is_dc = True
            if any(isinstance(b, str) and b in ("typing.NamedTuple",) for b in self.p.mro(k)):
                is_dc = True
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    ann = ast.unparse(s.annotation)
                    if "ClassVar" in ann:
                        continue
                    default, fac = None, None
                    if s.value is not None:
                        default = s.value
                        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "field":
                            for kwd in s.value.keywords:
                                if kwd.arg == "default_factory":
                                    fac = kwd.value
                            if fac is None and not any(kwd.arg == "default" for kwd in s.value.keywords):
                                default = None
                    out = [o for o in out if o[0] != s.target.id] + [(s.target.id, default, fac, k)]
        return out if is_dc else None

    def call_func(self, f, parent_fid, args, kw, st, node, caller, yield_hook=None):
        stub = self.stubs.get(f.qual)
        if stub is not None:
            self.emit("call", f.qual, self.flat(args), kw, st, node, caller or Frame(f, None, f.module))
            return stub(self, self.flat(args), kw, st, node, caller)
        if self.opaque is not None and self.fnstack and self.opaque(f, self.flat(args), kw):
            return frozenset([("call", f.qual, tuple(self.flat(args)))])
        self.emit("enter", f.qual, self.flat(args), kw, st, node, caller)
        st.may = st.may | {f.qual}
        depth = len(self.fnstack)
        rec = self.fnstack.count(f.qual)
        if depth > self.max_depth or rec >= self.max_rec:
            self.emit("cut", f.qual, self.flat(args), kw, st, node, caller)
            st.done = st.done | {f.qual}
            labs = set()
            for a in self.flat(args):
                labs |= av_labels(a)
            return frozenset([("top", frozenset(labs | {("rec", f.qual)}))])
        saved_stack, saved_unroll = self.stack, self._unroll
        pos = (getattr(getattr(node, "mod_", None), "name", ""), getattr(node, "lineno", 0), getattr(node, "col_offset", 0), f.qual)
        self.stack = saved_stack + (pos,)
        self.fnstack.append(f.qual)
        self.funcs_analysed.add(f.qual)
        fid = (f.qual, self.stack)
        fr = Frame(f, fid, f.module)
        env = {"__parent__": parent_fid}
        self.bind_params(f, args, kw, env, st, node, fr)
        st.frames[fid] = env
        if f.is_generator() and yield_hook is None:
            fr.yields = []
            if yield_hook is None:
                (_, fr.gen), = self.alloc(st, Obj("list"), f.node, ("yields", f.qual))
        fr.yield_hook = yield_hook
        body = f.node.body
        catch_all = None
        for d in f.decorators():
            if self._deco_is(d, f, ("loguru.logger.catch",)):
                catch_all = d
        if catch_all is not None:
            self.sinks.append({})
        if isinstance(f.node, ast.Lambda):
            v = self.eval(body, st, fr)
            if not st.dead:
                fr.returns.append((st.copy(), v))
            end = None
        else:
            end = self.exec_block(body, st.copy(), fr)
        if catch_all is not None:
            sink = self.sinks.pop()
            dv = NONE
            reraise = False
            excl = None
            if isinstance(catch_all, ast.Call):
                for k in catch_all.keywords:
                    if k.arg == "default":
                        dv = self.eval(k.value, st, Frame(None, ("m", f.module.name), f.module))
                    if k.arg == "reraise" and isinstance(k.value, ast.Constant) and k.value.value:
                        reraise = True
            for k, (es, o) in sink.items():
                m, rem = self.exc_match(k, "Exception")
                if m != "no" and not reraise:
                    fr.returns.append((es, dv))
                    self.emit("swallow", "logger.catch", [dv], {"exc": const(str(k))}, es, catch_all, fr, extra=o)
                if reraise:
                    rem = k
                if rem is not None:
                    self.raise_exc(rem, es, node, "", caller, origin=o)
        if end is not None:
            self.emit("return", f.qual, [NONE], {}, end, f.node, fr)
            fr.returns.append((end, NONE))
        self.fnstack.pop()
        self.stack, self._unroll = saved_stack, saved_unroll
        if not fr.returns:
            st.dead = True
            return EMPTY
        out = EMPTY
        for s, v in fr.returns:
            out |= v
        j = join_all([s for s, _ in fr.returns])
        if j is None:
            st.dead = True
            return EMPTY
        has_nested = self._nested.get(f.qual)
        if has_nested is None:
            has_nested = self._nested[f.qual] = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)) for n in ast.walk(f.node) if n is not f.node)
        if not has_nested:
            j.frames.pop(fid, None)
        facts0 = st.facts
        st.become(j)
        st.dead = False
        st.done = st.done | {f.qual}
        if fr.yields is not None:
            segs = ()
            for k, v in fr.yields:
                segs = add_seg(segs, k, v)
            o = st.heap.pop(fr.gen, None)
            if o is not None:
                along = EMPTY.union(*[v for _, v in o.segs])
                if all(v <= along for _, v in fr.yields):
                    segs = o.segs
            return self.alloc(st, Obj("iter", segs=segs), node, ("gen", f.qual))
        return norm(out)

    def bind_params(self, f, args, kw, env, st, node, fr):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        pos = list(args)
        star = None
        for i, x in enumerate(pos):
            if not isinstance(x, frozenset):
                star = x[1]
                rest = [y if isinstance(y, frozenset) else y[1] for y in pos[i + 1:]]
                star = frozenset().union(star, *rest)
                pos = pos[:i]
                break
        for name, v in zip(params, pos):
            env[name] = v
        if a.vararg:
            extra = pos[len(params):]
            segs = tuple(("1", x) for x in extra) + ((("*", star),) if star is not None else ())
            oid = self.tuple_oid(segs)
            st.heap[oid] = Obj("tuple", segs=segs)
            env[a.vararg.arg] = frozenset([("o", oid)])
        for name in params[len(pos):]:
            if name in kw:
                env[name] = kw[name]
            elif star is not None:
                env[name] = star
        for name in kwonly:
            if name in kw:
                env[name] = kw[name]
        for name, v in kw.items():
            if name in params and name not in env:
                env[name] = v
        if a.kwarg:
            extra = {k: v for k, v in kw.items() if k not in params and k not in kwonly}
            env[a.kwarg.arg] = self.alloc(st, Obj("dict", layers=tuple(("kv", const(k), v) for k, v in extra.items())), f.node, "kwargs")
        # defaults
        dfr = Frame(None, ("m", f.module.name), f.module)
        defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(params) - len(a.defaults):], a.defaults))
        for name, d in list(defaults.items()) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if name not in env:
                key = ("dflt", f.qual, name)
                if key not in self.global_cache:
                    gs = self._gstate()
                    sv, self.stack = self.stack, ()
                    self.sinks.append({})
                    self.global_cache[key] = self.eval(d, gs, dfr)
                    self.sinks.pop()
                    self.stack = sv
                    self.global_heap.update(gs.heap)
                env[name] = self.global_cache[key]
        for name in params + kwonly:
            env.setdefault(name, frozenset([("s", ("param", f.qual, name))]))

    # ---- builtin methods on abstract containers / strings
    def call_method(self, name, t, args, kw, st, node, fr):
        fa = self.flat(args)
        recv = frozenset([t])
        if t[0] == "o":
            o = self.obj(st, t[1])
            r = self.match_method(o, name, fa, st, node) if o is not None and o.kind == "inst" and o.cls == "re.Match" else None
            if r is None:
                r = self.container_method(name, t, o, args, kw, st, node, fr) if o is not None else None
            if r is not None:
                return r
        if t[0] == "call" and t[1] == "re.compile" and name in RE_FUNCS:
            flags = [next(iter(a))[2] if len(a) == 1 and next(iter(a))[0] == "kw" else a for a in t[2][1:]]
            r = self._regex(name, [t[2][0], *fa], {**kw, **({"flags": flags[0]} if flags else {})}, st, node)
            if r is not None:
                return r
        if t[0] == "c" and isinstance(t[2], str):
            r = self.str_method(name, t, args, kw, st, node, fr)
            if r is not None:
                return r
        if t[0] == "T":
            return self.typed_method(name, t, args, kw, st, node, fr)
        if t[0] == "pre":
            r = self.prefix_method(name, t, fa, kw, st, node)
            if r is not None:
                return r
        stub = self.stubs.get("." + name)
        ev = self.emit("call", "." + name, fa, kw, st, node, fr, recv=recv)
        if stub is not None:
            r = stub(self, [recv] + fa, kw, st, node, fr)
            if r is not None:
                return r
        if t[0] == "c" and isinstance(t[2], paths.P):
            r = paths.method(self, t[2], name, fa, kw, st, node)
            if r is not None:
                return r
        self.ext_may_raise("." + name, args, st, node, fr, recv=recv)
        # callbacks handed to unknown methods may run
        if name in ("items", "keys", "values") and not fa:
            if name == "items":
                k, v = frozenset([("elem", ("keys", t))]), frozenset([("elem", ("vals", t))])
                pair = self._kv(k, v, "items", st, node)
                return self.alloc(st, Obj("iter", segs=(("*", pair),)), node, "items")
            return self.alloc(st, Obj("iter", segs=(("*", frozenset([("elem", (("keys" if name == "keys" else "vals"), t))])),)), node, name)
        return frozenset([("call", "." + name, (recv,) + tuple(fa) + tuple(v for _, v in sorted(kw.items())))])

    def _regex(self, name, fa, kw, st, node):
        """matching constants: None, or a match with known groups"""
        import re
        if name == "compile":
            return None
        args = re_args(name, fa, kw)
        if args is None:
            return None
        vals = {}
        for k, a in args.items():
            if a is None:
                continue
            v = re_flags(a) if k == "flags" else next(iter(a))[2] if len(a) == 1 and next(iter(a))[0] == "c" else None
            if not isinstance(v, (str, int)) or isinstance(v, str) and len(v) > 2000:
                return None
            vals[k] = v
        try:
            r = getattr(re, name)(**vals)
        except (re.error, TypeError, RecursionError):
            return None
        if isinstance(r, str):
            return const(r)
        if isinstance(r, list):
            return self.alloc(st, Obj("list", segs=tuple(("1", const(x)) for x in r)), node, name) if all(isinstance(x, (str, type(None))) for x in r) else None
        if r is None:
            return NONE
        return self.alloc(st, Obj("inst", "re.Match", {"<groups>": (r.group(0), *r.groups()), "<names>": tuple(sorted(r.groupdict().items()))}), node, ("match", r.group(0)))

    def match_method(self, o, name, fa, st, node):
        gs, names = o.fields["<groups>"], dict(o.fields["<names>"])
        if name in ("group", "__getitem__"):
            ks = [next(iter(a))[2] if len(a) == 1 and next(iter(a))[0] == "c" else None for a in fa] or [0]
            out = [const(gs[k]) if isinstance(k, int) and k < len(gs) else const(names[k]) if k in names else None for k in ks]
            return None if any(x is None for x in out) else out[0] if len(out) == 1 else self.mk_tuple(st, out)
        if name == "groups" and not fa:
            return self.mk_tuple(st, [const(x) for x in gs[1:]])
        if name == "groupdict" and not fa:
            return self.alloc(st, Obj("dict", layers=tuple(("kv", const(k), const(v)) for k, v in names.items())), node, "groupdict")
        return None

    def prefix_method(self, name, t, fa, kw, st, node):
        """methods of ("pre", prefix, rest): a string with a known beginning"""
        pre = t[1]

        def cv(a):
            x = next(iter(a)) if len(a) == 1 else None
            if x is not None and x[0] == "o":
                o = self.obj(st, x[1])
                if o is not None and o.kind == "tuple" and all(len(v) == 1 and next(iter(v))[0] == "c" for _, v in o.segs):
                    return tuple(next(iter(v))[2] for _, v in o.segs)
            return x[2] if x is not None and x[0] == "c" else None
        vals = [cv(a) for a in fa]
        if kw or any(v is None for v in vals):
            return None
        if name == "startswith" and len(vals) == 1:
            opts = vals[0] if isinstance(vals[0], tuple) else (vals[0],)
            if any(pre.startswith(x) for x in opts):
                return TRUE
            if not any(x.startswith(pre) for x in opts):
                return FALSE
            return None
        if name in ("lower", "upper", "casefold") and not vals:
            return frozenset([("pre", getattr(pre, name)(), ("call", "." + name, (frozenset([t[2]]),)))])
        if name == "split" and len(vals) == 1 and isinstance(vals[0], str) and len(vals[0]) == 1 and pre and vals[0] not in pre:
            rest = frozenset([("call", ".split", (frozenset([t]), const(vals[0])))])
            return self.alloc(st, Obj("list", segs=(("1", frozenset([("pre", pre, ("head", t[2]))])), ("*", frozenset([("elem", next(iter(rest)))])))), node, ("split", t))
        if name in ("split", "partition") and vals and isinstance(vals[0], str) and vals[0] in pre and (name == "partition" or vals[1:] == [1]):
            a, sep, b = pre.partition(vals[0])
            segs = [const(a)] + ([const(sep)] if name == "partition" else []) + [frozenset([("pre", b, t[2])])]
            return self.alloc(st, Obj("list", segs=tuple(("1", x) for x in segs)), node, name)
        return None

    def str_method(self, name, t, args, kw, st, node, fr):
        fa = self.flat(args)
        s = t[2]
        if name in ("startswith", "endswith") and len(fa) == 1 and not kw and len(fa[0]) == 1:
            o = self.obj(st, next(iter(fa[0]))[1]) if next(iter(fa[0]))[0] == "o" else None
            if o is not None and o.kind == "tuple" and all(k == "1" and len(v) == 1 and next(iter(v))[0] == "c" for k, v in o.segs):
                return const(getattr(s, name)(tuple(next(iter(v))[2] for _, v in o.segs)))
        if all(len(a) == 1 and next(iter(a))[0] == "c" for a in fa) and not kw and name in (
                "lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "isdecimal", "title", "capitalize", "count", "isdigit", "isidentifier", "isalnum", "isalpha", "isascii", "isnumeric", "isspace", "isupper", "islower", "isprintable", "casefold", "swapcase", "find", "rfind", "zfill", "removeprefix", "removesuffix"):
            try:
                return const(getattr(s, name)(*[next(iter(a))[2] for a in fa]))
            except Exception:
                return None
        if name == "split" and all(len(a) == 1 and next(iter(a))[0] == "c" for a in fa):
            try:
                parts = s.split(*[next(iter(a))[2] for a in fa])
                return self.alloc(st, Obj("list", segs=tuple(("1", const(p)) for p in parts)), node, "split")
            except Exception:
                return None
        if name in ("partition", "rpartition", "rsplit", "splitlines") and not kw and all(len(a) == 1 and next(iter(a))[0] == "c" for a in fa):
            try:
                parts = getattr(s, name)(*[next(iter(a))[2] for a in fa])
            except Exception:
                return None
            return self.mk_tuple(st, [const(x) for x in parts]) if isinstance(parts, tuple) else self.alloc(st, Obj("list", segs=tuple(("1", const(p)) for p in parts)), node, name)
        if name == "join" and fa:
            segs = self.iterate(fa[0], st, fr, node)
            for k, v in segs:
                bad = set()
                for x in v:
                    if x[0] == "T" and x[2] - {"str"}:
                        self.type_op(frozenset([x]), {"str"}, "str.join element", st, fr, node)
                    elif x[0] == "c" and not isinstance(x[2], str):
                        self.type_op(frozenset([T("x", {type(x[2]).__name__})]), {"str"}, "str.join element", st, fr, node)
            if segs and all(k == "1" and len(v) == 1 and next(iter(v))[0] == "c" and isinstance(next(iter(v))[2], str) for k, v in segs):
                return const(s.join(next(iter(v))[2] for _, v in segs))
            if not segs and self.generic and len(fa[0]) == 1 and next(iter(fa[0]))[0] == "o":
                return const("")
            if any(x[0] == "T" for _, v in segs for x in v):
                return frozenset([T(("join",), {"str"})])
            if segs and all(k == "1" for k, _ in segs):
                r = self.prefix_join([x for i, (_, v) in enumerate(segs) for x in ([const(s)] if i and s else []) + [v]])
                if r is not None:
                    return r
            return frozenset([("op", "join", frozenset([t])) + tuple(v for _, v in segs)])
        if name == "format":
            self.emit("call", "str.format", [frozenset([t])] + fa, kw, st, node, fr)
            return frozenset([("call", ".format", (frozenset([t]),) + tuple(fa) + tuple(kw.values()))])
        if name == "encode":
            try:
                return const(s.encode(*[x[2] for a in fa for x in a], **{k: x[2] for k, v in kw.items() for x in v}))
            except Exception:
                return frozenset([("call", ".encode", (frozenset([t]),))])
        return None

    def typed_method(self, name, t, args, kw, st, node, fr):
        fa = self.flat(args)
        types = t[2]
        if not types:
            return EMPTY
        out = set()
        if "str" in types and name in STR_METHODS:
            # argument types
            if name in ("startswith", "endswith", "split", "strip", "replace", "join", "partition", "rsplit", "lstrip", "rstrip", "removeprefix"):
                for a in fa:
                    if name == "join":
                        for k, v in self.iterate(a, st, fr, node):
                            self.type_op(v, {"str"}, "str.join element", st, fr, node)
                    else:
                        self.type_op(frozenset(x for x in a if x[0] == "T"), {"str", "tuple"}, f"argument of str.{name}", st, fr, node)
            if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
                self.emit("call", "str." + name, fa, kw, st, node, fr, recv=frozenset([t]))
                ns = self.alloc(st, Obj("list", segs=(("*", frozenset([T((name, t[1]), {"str"})])),)), node, name)
                out |= ns
            elif name in ("startswith", "endswith", "isdecimal", "isdigit", "isidentifier", "isalpha", "isalnum", "isupper", "islower"):
                out.add(("call", "." + name, (frozenset([t]),) + tuple(fa)))
            elif name in ("find", "index", "count", "rfind"):
                out.add(T((name, t[1]), {"int"}))
                if name == "index":
                    self.raise_exc("ValueError", st, node, "str.index", fr)
            elif name == "format":
                self.emit("call", "T.format", fa, kw, st, node, fr, recv=frozenset([t]))
                for x in ("IndexError", "KeyError", "ValueError", "AttributeError"):
                    self.raise_exc(x, st, node, "str.format with a user-supplied template", fr)
                out.add(T(("format", t[1]), {"str"}))
            elif name == "encode":
                out.add(("call", ".encode", (frozenset([t]),)))
            else:
                self.emit("call", "str." + name, fa, kw, st, node, fr, recv=frozenset([t]))
                out.add(T((name, t[1]), {"str"}))
        if "dict" in types and name in DICT_METHODS:
            k = frozenset([T(("key", t[1]), {"str"})])
            v = frozenset([T(("val", t[1]), TOML_TYPES)])
            if name in ("get", "pop", "setdefault"):
                key = fa[0] if fa else EMPTY
                vv = frozenset([T(("val", t[1], self._ckey(key)), TOML_TYPES)])
                out |= vv
                if name == "pop" and len(fa) < 2:
                    self.raise_exc("KeyError", st, node, "missing key in a configuration table", fr)
                    self.typed_err(node, "missing key", fr)
                out |= fa[1] if len(fa) > 1 else (NONE if name == "get" else EMPTY)
            elif name == "items":
                pair = self._kv(k, v, "items", st, node)
                out |= self.alloc(st, Obj("iter", segs=(("*", pair),)), node, "items")
            elif name == "keys":
                out |= self.alloc(st, Obj("iter", segs=(("*", k),)), node, "keys")
            elif name == "values":
                out |= self.alloc(st, Obj("iter", segs=(("*", v),)), node, "values")
            elif name == "copy":
                out.add(t)
            else:
                out |= NONE
        if "list" in types and name in LIST_METHODS:
            if name == "copy":
                out.add(t)
            elif name == "pop":
                out.add(T(("elem", t[1]), TOML_TYPES))
            elif name in ("count", "index"):
                out.add(T((name, t[1]), {"int"}))
            else:
                out |= NONE
        if not out:
            out.add(T((name, t[1]), {"str"}))
        return frozenset(out)

    def _ckey(self, key):
        if len(key) == 1:
            t = next(iter(key))
            if t[0] == "c":
                return t[2]
        return None

    def container_method(self, name, t, o, args, kw, st, node, fr):
        fa = self.flat(args)
        recv = frozenset([t])
        MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "update", "discard", "setdefault",
               "popitem", "appendleft", "popleft", "extendleft", "difference_update", "intersection_update"}
        if o.kind in ("list", "set", "iter", "tuple", "dict") and name in MUT:
            self.emit("mutate", name, [recv] + fa, kw, st, node, fr, recv=recv)
        if o.kind in ("list", "set", "iter", "tuple", "dict") and name == "__iter__" and not fa:
            return self._mk("iter", [recv], st, node, fr)
        maybe = self.loop_depth  # inside a loop an update may or may not have happened: fix() joins
        if o.kind in ("list", "iter"):
            if name == "append":
                self.set_obj(st, t[1], Obj(o.kind, segs=self._loop_append(o.segs, fa[0] if fa else EMPTY)))
                return NONE
            if name == "extend":
                segs = o.segs
                for k, v in self.iterate(fa[0], st, fr, node):
                    segs = self._loop_append(segs, v, k)
                self.set_obj(st, t[1], Obj(o.kind, segs=segs))
                return NONE
            if name == "insert":
                i = self._const_int(fa[0])
                v = fa[1] if len(fa) > 1 else EMPTY
                if i == 0:
                    segs = (("1" if not self.loop_depth else "*", v),) + o.segs
                    if self.loop_depth and o.segs and o.segs[0] == ("*", v):
                        segs = o.segs
                else:
                    segs = tuple(("*", x) for _, x in o.segs) + (("*", v),)
                    u = frozenset().union(v, *[x for _, x in o.segs])
                    segs = (("*", norm(u)),)
                self.set_obj(st, t[1], Obj(o.kind, segs=segs))
                return NONE
            if name == "pop":
                i = self._const_int(fa[0]) if fa else -1
                if all(k == "1" for k, _ in o.segs) and o.segs and i is not None and -len(o.segs) <= i < len(o.segs) and not self.loop_depth:
                    v = o.segs[i][1]
                    segs = list(o.segs)
                    del segs[i]
                    self.set_obj(st, t[1], Obj(o.kind, segs=segs))
                    return v
                self.set_obj(st, t[1], Obj(o.kind, segs=tuple(("*", v) for _, v in o.segs)))
                return frozenset().union(*[v for _, v in o.segs]) if o.segs else EMPTY
            if name == "reverse":
                self.set_obj(st, t[1], Obj(o.kind, segs=tuple(reversed(o.segs))))
                return NONE
            if name == "sort":
                key = kw.get("key")
                self._call_key(key, o.segs, st, node, fr)
                if self._sortable(o.segs, key):
                    done = self._sorted(o.segs, key, kw, st, node, fr)
                    if done is not None:
                        self.set_obj(st, t[1], Obj(o.kind, segs=done))
                return NONE
            if name == "copy":
                return self.alloc(st, Obj("list", segs=o.segs), node, "copy")
            if name in ("index", "count"):
                return frozenset([("call", "." + name, (recv,) + tuple(fa))])
            if name == "remove" and len(fa) == 1 and len(fa[0]) == 1 and all(k == "1" and len(v) == 1 for k, v in o.segs):
                # the first equal element, when it is known which one that is
                (x,) = fa[0]
                for i, (_, v) in enumerate(o.segs):
                    (y,) = v
                    r = x == y or self._eq(y, x, st)
                    if r is True:
                        self.set_obj(st, t[1], Obj(o.kind, segs=o.segs[:i] + o.segs[i + 1:]))
                        return NONE
                    if r is None:
                        break
            if name in ("remove", "clear"):
                self.set_obj(st, t[1], Obj(o.kind, segs=tuple(("*", v) for _, v in o.segs) if name == "remove" else ()))
                return NONE
        if o.kind == "tuple":
            if name in ("index", "count"):
                return frozenset([("call", "." + name, (recv,) + tuple(fa))])
        if o.kind == "dict":
            if name in ("get", "pop", "setdefault"):
                v, miss = self.dict_get(o, fa[0] if fa else EMPTY, st, node, fr)
                if any(x[0] == "T" and x[2] & {"list", "dict"} for x in (fa[0] if fa else EMPTY)):
                    self.type_op(fa[0], TOML_TYPES - {"list", "dict"}, "hashing", st, fr, node)
                if miss:
                    d = fa[1] if len(fa) > 1 else NONE
                    if name == "pop" and len(fa) < 2:
                        d = EMPTY
                    v = v | d
                if name == "setdefault" and miss:
                    self.set_item(recv, fa[0], fa[1] if len(fa) > 1 else NONE, st, fr, node)
                if name == "pop" and fa:
                    self._del_key(t, o, fa[0], st)
                return norm(v)
            if name in ("items", "keys", "values"):
                return self.alloc(st, Obj("iter", segs=self.dict_view(o, name, st, node)), node, name)
            if name == "copy":
                return self.alloc(st, Obj("dict", layers=o.layers), node, "copy")
            if name == "update":
                layers = o.layers
                for a in fa:
                    self.type_op(a, {"dict", "list"}, "dict.update", st, fr, node)
                    l = ("**", frozenset(x for x in a if x[0] != "c"))
                    if layers and layers[-1] == l:
                        continue
                    layers += (l,)
                for k, v in kw.items():
                    layers += (("kv", const(k), v),)
                if len(layers) > LIMIT["layers"]:
                    layers = join_layers(layers, layers[:1])
                self.set_obj(st, t[1], Obj("dict", layers=layers))
                return NONE
            if name in ("clear",):
                self.set_obj(st, t[1], Obj("dict", layers=()))
                return NONE
            if name == "popitem":
                return self.mk_tuple(st, [EMPTY, EMPTY])
        if o.kind == "set":
            if name == "add":
                self.set_obj(st, t[1], Obj("set", segs=self._loop_append(o.segs, fa[0] if fa else EMPTY)))
                return NONE
            if name in ("issubset", "issuperset", "isdisjoint", "intersection", "difference", "symmetric_difference") and len(fa) == 1:
                a, b = self.const_set(recv, st), self.const_set(fa[0], st, True, ("set", "list", "tuple", "iter"))
                if a is not None and b is not None:
                    if name.startswith("is"):
                        return const({"issubset": a <= b, "issuperset": a >= b, "isdisjoint": not a & b}[name])
                    return self.set_of({"intersection": a & b, "difference": a - b, "symmetric_difference": a ^ b}[name], st, node, name)
            if name in ("update", "union", "intersection", "difference", "symmetric_difference"):
                segs = o.segs
                if name == "intersection" and any(self._known_empty(a, st) for a in fa):
                    return self.alloc(st, Obj("set"), node, name)
                for a in fa:
                    for k, v in self.iterate(a, st, fr, node):
                        segs = self._loop_append(segs, v, "*")
                if name == "update":
                    self.set_obj(st, t[1], Obj("set", segs=segs))
                    return NONE
                return self.alloc(st, Obj("set", segs=segs if name in ("union", "symmetric_difference") else tuple(("*", v) for _, v in o.segs)), node, name)
            if name == "copy":
                return self.alloc(st, Obj("set", segs=o.segs), node, "copy")
            if name in ("discard", "remove", "clear"):
                self.set_obj(st, t[1], Obj("set", segs=tuple(("*", v) for _, v in o.segs)))
                return NONE
            if name == "pop":
                return frozenset().union(*[v for _, v in o.segs]) if o.segs else EMPTY
            if name in ("issubset", "isdisjoint") and (not o.segs or (name == "isdisjoint" and fa and self._known_empty(fa[0], st))):
                return TRUE
            if name in ("issubset", "issuperset", "isdisjoint"):
                return frozenset([("call", "." + name, (recv,) + tuple(fa))])
        return None

    def _loop_append(self, segs, v, kind="1"):
        if self.loop_depth:
            kind = "*"
            if segs and segs[-1][0] == "*" and (v <= segs[-1][1]):
                return segs
            # an older iteration of the same summary at the tail
            if segs and segs[-1][0] == "*" and segs[-1][1] <= v:
                return segs[:-1] + (("*", v),)
            for i, (k, x) in enumerate(segs):
                if k == "*" and v <= x and i >= len(segs) - 3 and all(kk == "*" for kk, _ in segs[i:]):
                    return segs
            return add_seg(segs, "*", v)
        if kind == "*":
            return add_seg(segs, "*", v)
        return add_seg(segs + (("1", v),), "*", EMPTY) if False else segs + (("1", v),) if len(segs) < 24 else add_seg(segs, "*", v)

    def _call_key(self, key, segs, st, node, fr):
        if key is None:
            return EMPTY
        u = frozenset().union(*[v for _, v in segs]) if segs else frozenset([("s", "sort-elem")])
        r = self.call(key, [u], {}, st.copy(), node, fr)
        self.emit("sortkey", "sort", [u, r], {}, st, node, fr)
        return r

    def _sortable(self, segs, key):
        return self.real_sort or (key is None or key == NONE) and all(len(v) == 1 and next(iter(v))[0] == "c" for _, v in segs)

    def _sorted(self, segs, key, kw, st, node, fr):
        """the segments in the order sorting gives, or None when that is not known"""
        if any(k != "1" or len(v) != 1 for k, v in segs):
            return None
        rev = kw.get("reverse")
        rev = False if rev is None else self.pyval(rev, st)
        if not isinstance(rev, (bool, int)):
            return None
        keys = []
        for _, v in segs:
            r = v if key is None or key == NONE else self.call(key, [v], {}, st, node, fr)
            keys.append(self.pyval(r, st))
        if any(k is UNKNOWN for k in keys):
            return None
        try:
            order = sorted(range(len(keys)), key=lambda i: keys[i], reverse=bool(rev))
        except TypeError:
            self.raise_exc("TypeError", st, node, "sorting values that have no order", fr)
            return None
        return tuple(segs[i] for i in order)

    def pyval(self, av, st):
        """the Python value of a known constant or sequence of constants, else UNKNOWN"""
        t = next(iter(av)) if len(av) == 1 else None
        if t is None:
            return UNKNOWN
        if t[0] == "c":
            return t[2]
        o = self.obj(st, t[1]) if t[0] == "o" else None
        if o is not None and o.kind in ("list", "tuple") and all(k == "1" for k, _ in o.segs):
            xs = [self.pyval(v, st) for _, v in o.segs]
            return UNKNOWN if any(x is UNKNOWN for x in xs) else tuple(xs) if o.kind == "tuple" else xs
        return UNKNOWN

    # ---- externals
    def call_ext(self, name, args, kw, st, node, fr):
        fa = self.flat(args)
        stub = self.stubs.get(name)
        if stub is not None:
            self.emit("call", name, fa, kw, st, node, fr)
            r = stub(self, fa, kw, st, node, fr)
            if r is not None:
                return r
        if self.concrete and name in KNOWN_BUILTINS and stub is None and not kw and all(len(a) == 1 and next(iter(a))[0] == "c" and not isinstance(next(iter(a))[2], (paths.P, pathlib.PurePath)) for a in fa):
            r = self._known(KNOWN_BUILTINS[name], [next(iter(a))[2] for a in fa], {}, st, node, fr, name[9:])
            if r is not None:
                return r
        if name.startswith("builtins."):
            m = getattr(self, "b_" + name[9:], None)
            if m is not None:
                r = m(args, kw, st, node, fr)
                if r is not None:
                    return r
        else:
            m = getattr(self, "b_" + name.replace(".", "_"), None)
            if m is not None:
                r = m(args, kw, st, node, fr)
                if r is not None:
                    return r
        if stub is None:
            self.emit("call", name, fa, kw, st, node, fr)
            if name.startswith("re.") and name[3:] in RE_FUNCS:
                r = self._regex(name[3:], fa, kw, st, node)
                if r is not None:
                    return r
            if self.concrete and name.startswith("operator.") and not kw and all(len(a) == 1 and next(iter(a))[0] == "c" for a in fa):
                r = self._operator(name[9:], [next(iter(a))[2] for a in fa], st, node, fr)
                if r is not None:
                    return r
            r = paths.ext(self, name, fa, kw, st, node)
            if r is not None:
                return r
            if name in PURE_PATH and not kw and fa and all(len(a) == 1 and next(iter(a))[0] == "c" and isinstance(next(iter(a))[2], (str, paths.P)) for a in fa):
                r = PURE_PATH[name](*[str(next(iter(a))[2]) for a in fa])
                return const(r) if not isinstance(r, tuple) else self.mk_tuple(st, [const(x) for x in r])
        self.ext_may_raise(name, args, st, node, fr)
        if name.startswith("builtins."):
            short = name[9:]
            k = getattr(builtins, short, None)
            if isinstance(k, type) and issubclass(k, BaseException):
                return frozenset([("call", name, tuple(fa))])
        if name == "sys.exit" or name in ("os._exit", "os.abort") or name in ("builtins.exit", "builtins.quit"):
            self.raise_exc("SystemExit", st, node, "sys.exit", fr)
            st.dead = True
            return EMPTY
        return frozenset([("call", name, tuple(fa) + tuple(frozenset([("kw", k, v)]) for k, v in sorted(kw.items())))])

    def b_isinstance(self, args, kw, st, node, fr):
        fa = self.flat(args)
        if len(fa) != 2:
            return None
        types = []
        for t in fa[1]:
            if t[0] == "o":
                o = self.obj(st, t[1])
                for _, v in (o.segs if o else ()):
                    types += list(v)
            else:
                types.append(t)
        names = [t[1] for t in types if t[0] in ("cls", "ext")]
        if len(names) != len(types):
            return frozenset([("op", "isinstance", fa[0], fa[1])])
        vals = set()
        for t in fa[0]:
            pos = self._isinstance_filter(t, types, True, st)
            neg = self._isinstance_filter(t, types, False, st)
            if pos and not neg:
                vals.add(True)
            elif neg and not pos:
                vals.add(False)
            else:
                vals.update((True, False))
        if len(vals) == 1:
            return const(vals.pop())
        return frozenset([("op", "isinstance", fa[0], frozenset(types))])

    def b_len(self, args, kw, st, node, fr):
        fa = self.flat(args)
        self.type_op(frozenset(t for t in fa[0] if t[0] == "T" or t[0] == "c" and t[2] is None), {"str", "list", "dict", "tuple", "set"}, "len()", st, fr, node)
        if len(fa[0]) == 1:
            t = next(iter(fa[0]))
            if t[0] == "o":
                o = self.obj(st, t[1])
                if o is not None and o.kind in ("list", "tuple") and all(k == "1" for k, _ in o.segs) and not self.loop_depth:
                    return const(len(o.segs))
            if t[0] == "c" and isinstance(t[2], str):
                return const(len(t[2]))
        return frozenset([("op", "len", fa[0])])

    def _mk(self, kind, args, st, node, fr):
        fa = self.flat(args)
        segs = tuple(self.iterate(fa[0], st, fr, node)) if fa else ()
        if kind == "tuple":
            oid = self.tuple_oid(segs)
            st.heap[oid] = Obj("tuple", segs=segs)
            return frozenset([("o", oid)])
        return self.alloc(st, Obj(kind, segs=segs), node, kind)

    def b_list(self, args, kw, st, node, fr):
        return self._mk("list", args, st, node, fr)

    def b_tuple(self, args, kw, st, node, fr):
        return self._mk("tuple", args, st, node, fr)

    def b_set(self, args, kw, st, node, fr):
        fa = self.flat(args)
        if len(fa) == 1:
            c = self.const_set(fa[0], st, True, ())
            if c is not None:
                return self.set_of(c, st, node, "set")
        return self._mk("set", args, st, node, fr)

    b_frozenset = b_set

    def b_iter(self, args, kw, st, node, fr):
        return self._mk("iter", args, st, node, fr)

    def b_itertools_chain(self, args, kw, st, node, fr):
        segs = ()
        for a in self.flat(args):
            for k, v in self.iterate(a, st, fr, node):
                segs = add_seg(segs, k, v) if k == "*" else segs + ((k, v),)
        return self.alloc(st, Obj("iter", segs=segs), node, "chain")

    def b_itertools_chain_from_iterable(self, args, kw, st, node, fr):
        segs = ()
        for k, v in self.iterate(self.flat(args)[0], st, fr, node):
            for k2, v2 in self.iterate(v, st, fr, node):
                segs = add_seg(segs, "*" if k == "*" else k2, v2) if (k == "*" or k2 == "*") else segs + ((k2, v2),)
        return self.alloc(st, Obj("iter", segs=segs), node, "chain")

    def b_collections_deque(self, args, kw, st, node, fr):
        return self._mk("list", args, st, node, fr)

    def b_copy_copy(self, args, kw, st, node, fr):
        fa = self.flat(args)
        out = set()
        for t in fa[0]:
            o = self.obj(st, t[1]) if t[0] == "o" else None
            if o is not None:
                out |= self.alloc(st, Obj(o.kind, o.cls, o.fields, o.segs, o.layers), node, ("copy", len(out)))
            else:
                out.add(t)
        return frozenset(out)

    b_copy_deepcopy = b_copy_copy

    def b_dict(self, args, kw, st, node, fr):
        fa = self.flat(args)
        layers = ()
        for a in fa:
            self.type_op(frozenset(t for t in a if t[0] == "T" or (t[0] == "c" and t[2] is None)), {"dict", "list"}, "dict()", st, fr, node)
            rest = set()
            for t in a:
                if t[0] == "o":
                    o = self.obj(st, t[1])
                    if o is not None and o.kind in ("list", "iter", "tuple"):
                        for k, v in o.segs:
                            kv = self.unpack(v, 2, None, st, fr, node)
                            layers += (("kv" if k == "1" else "*kv", kv[0], kv[1]),)
                        continue
                if t[0] != "c":
                    rest.add(t)
            if rest:
                layers += (("**", frozenset(rest)),)
        for k, v in kw.items():
            layers += (("kv", const(k), v),)
        return self.alloc(st, Obj("dict", layers=layers), node, "dict")

    def b_collections_OrderedDict(self, args, kw, st, node, fr):
        return self.b_dict(args, kw, st, node, fr)

    def b_collections_defaultdict(self, args, kw, st, node, fr):
        out = self.b_dict(args[1:], kw, st, node, fr)
        fa = self.flat(args[:1])
        if fa and fa[0] != NONE:
            for x in out:
                self.factories[x[1]] = fa[0]
        return out

    def b_sorted(self, args, kw, st, node, fr):
        fa = self.flat(args)
        segs = tuple(self.iterate(fa[0], st, fr, node))
        key = kw.get("key")
        kr = self._call_key(key, segs, st, node, fr)
        self.emit("call", "builtins.sorted", fa + [kr], kw, st, node, fr)
        if self._sortable(segs, key):
            done = self._sorted(segs, key, kw, st, node, fr)
            if done is not None:
                return self.alloc(st, Obj("list", segs=done), node, "sorted")
        if len(segs) == 1 and segs[0][0] == "1" or self.keep_sorted:
            return self.alloc(st, Obj("list", segs=segs), node, "sorted")
        u = frozenset().union(*[v for _, v in segs]) if segs else EMPTY
        return self.alloc(st, Obj("list", segs=(("*", norm(u)),) if segs else ()), node, "sorted")

    def b_reversed(self, args, kw, st, node, fr):
        fa = self.flat(args)
        segs = tuple(reversed(self.iterate(fa[0], st, fr, node)))
        return self.alloc(st, Obj("iter", segs=segs), node, "reversed")

    def b_enumerate(self, args, kw, st, node, fr):
        fa = self.flat(args)
        segs = ()
        start = self._const_int(fa[1]) if len(fa) > 1 else (self._const_int(kw["start"]) if "start" in kw else 0)
        for i, (k, v) in enumerate(self.iterate(fa[0], st, fr, node)):
            idx = const(start + i) if k == "1" and start is not None and all(s[0] == "1" for s in segs) else frozenset([("op", "enumidx", fa[0], const(start))])
            segs += ((k, self.mk_tuple(st, [idx, v])),)
        return self.alloc(st, Obj("iter", segs=segs), node, "enum")

    def b_zip(self, args, kw, st, node, fr):
        fa = self.flat(args)
        its = [self.iterate(a, st, fr, node) for a in fa]
        if its and all(all(k == "1" for k, _ in i) for i in its):
            n = min(len(i) for i in its)
            segs = tuple(("1", self.mk_tuple(st, [i[j][1] for i in its])) for j in range(n))
        else:
            us = [frozenset().union(*[v for _, v in i]) if i else EMPTY for i in its]
            segs = (("*", self.mk_tuple(st, us)),)
        return self.alloc(st, Obj("iter", segs=segs), node, "zip")

    def _operator(self, name, vals, st, node, fr):
        """an operator applied to constants of modest size"""
        fn = getattr(operator, name, None)
        if fn is None or name.startswith("_") or name.startswith("i") and name[1:] in dir(operator) or name in ("attrgetter", "itemgetter", "methodcaller"):
            return None
        if not all(x is None or x is ... or isinstance(x, (bool, int, float, complex)) or isinstance(x, (str, bytes)) and len(x) < 5001 for x in vals):
            return None
        big = [abs(x) if isinstance(x, int) else len(x) if isinstance(x, (str, bytes)) else 1 for x in vals]
        if name == "lshift" and big[1] > 5000 or name == "pow" and isinstance(vals[1], int) and big[0].bit_length() * big[1] > 5000 or name == "mul" and any(isinstance(x, (str, bytes)) for x in vals) and big[0] * big[1] > 5000 \
                or name == "mod" and isinstance(vals[0], (str, bytes)):
            return None
        return self._known(fn, vals, {}, st, node, fr, "operator." + name)

    def _known(self, fn, vals, kw, st, node, fr, what):
        """the outcome of a function on constants"""
        try:
            r = fn(*vals, **kw)
        except Exception as e:
            self.raise_exc(type(e).__name__, st, node, f"{what} on constants", fr)
            st.dead = True
            return EMPTY
        return const(r) if r is None or r is ... or isinstance(r, (bool, int, float, complex, str, bytes)) else None

    def known_operator(self, name, avs, st, node, fr):
        """in concrete mode: an operator all of whose operands are constants"""
        if not self.concrete or not all(len(a) == 1 and next(iter(a))[0] == "c" and not isinstance(next(iter(a))[2], (paths.P, pathlib.PurePath)) for a in avs):
            return None
        return self._operator(PY_OPERATORS[name], [next(iter(a))[2] for a in avs], st, node, fr) if name in PY_OPERATORS else None

    def b_functools_reduce(self, args, kw, st, node, fr):
        fa = self.flat(args)
        if len(fa) < 2:
            return None
        segs = list(self.iterate(fa[1], st, fr, node))
        if any(k == "*" for k, _ in segs):
            return None
        vals = ([fa[2]] if len(fa) > 2 else []) + [v for _, v in segs]
        if not vals:
            self.raise_exc("TypeError", st, node, "reduce", fr)
            st.dead = True
            return EMPTY
        acc = vals[0]
        for v in vals[1:]:
            acc = self.call(fa[0], [acc, v], {}, st, node, fr)
        return acc

    def b_map(self, args, kw, st, node, fr):
        fa = self.flat(args)
        segs = ()
        its = [self.iterate(a, st, fr, node) for a in fa[1:]]
        if len(its) == 1:
            for k, v in its[0]:
                if k == "*":
                    box = {}

                    def step(c):
                        box["r"] = self.call(fa[0], [v], {}, c, node, fr)
                        return c if not c.dead else None

                    r = self.fix(st.copy(), step)
                    if r is not None:
                        st.become(r)
                    segs = add_seg(segs, "*", box.get("r", EMPTY))
                else:
                    saved = self._unroll
                    self._unroll = saved + (len(segs),)
                    segs = segs + (("1", self.call(fa[0], [v], {}, st, node, fr)),)
                    self._unroll = saved
        else:
            us = [frozenset().union(*[v for _, v in i]) if i else EMPTY for i in its]
            segs = (("*", self.call(fa[0], us, {}, st, node, fr)),)
        return self.alloc(st, Obj("iter", segs=segs), node, "map")

    def b_filter(self, args, kw, st, node, fr):
        fa = self.flat(args)
        segs = ()
        for k, v in self.iterate(fa[1], st, fr, node):
            none = len(fa[0]) == 1 and next(iter(fa[0]))[0] == "c"
            tv = self.truth(v if none else self.call(fa[0], [v], {}, st, node, fr), st)
            if tv is False:
                continue
            if tv is True and k == "1":
                segs = segs + ((k, v),)
                continue
            segs = add_seg(segs, "*", v)
        return self.alloc(st, Obj("iter", segs=segs), node, "filter")

    def b_shlex_split(self, args, kw, st, node, fr):
        fa = self.flat(args)
        v = paths.text(fa[0]) if len(fa) == 1 and not kw else None
        if not isinstance(v, str):
            return None
        try:
            words = shlex.split(v)
        except ValueError:
            return None
        return self.alloc(st, Obj("list", segs=tuple(("1", const(w)) for w in words)), node, "split")

    def b_functools_partial(self, args, kw, st, node, fr):
        fa = self.flat(args)
        return frozenset([("partial", fa[0], tuple(fa[1:]), tuple(sorted(kw.items())))])

    def b_any(self, args, kw, st, node, fr):
        fa = self.flat(args)
        segs = self.iterate(fa[0], st, fr, node)
        if not segs:
            return FALSE
        tvs = [self.truth(v, st) for _, v in segs]
        if any(t is True and k == "1" for t, (k, _) in zip(tvs, segs)):
            return TRUE
        if all(t is False for t in tvs):
            return FALSE
        return frozenset([("op", "any") + tuple(v for _, v in segs)])

    def b_all(self, args, kw, st, node, fr):
        fa = self.flat(args)
        segs = self.iterate(fa[0], st, fr, node)
        if not segs:
            return TRUE
        tvs = [self.truth(v, st) for _, v in segs]
        if all(t is True for t in tvs):
            return TRUE
        if any(t is False and k == "1" for t, (k, _) in zip(tvs, segs)):
            return FALSE
        return frozenset([("op", "all") + tuple(v for _, v in segs)])

    def b_str(self, args, kw, st, node, fr):
        fa = self.flat(args)
        if not fa:
            return const("")
        out = set()
        for t in fa[0]:
            if t[0] == "c":
                out.add(C(str(t[2])))
            elif t[0] == "T":
                out.add(T(("str", t[1]), {"str"}))
            elif t[0] == "enum":
                c = self.p.classes.get(t[1])
                f = self.p.find_method(c, "__str__") if c else None
                if f is not None:
                    out |= self.call_func(f, None, [frozenset([t])], {}, st, node, fr)
                else:
                    out.add(("op", "str", frozenset([t])))
            elif t[0] == "o" and self.obj(st, t[1]) is not None and self.obj(st, t[1]).kind == "inst" and self.obj(st, t[1]).cls in self.p.classes:
                f = self.p.find_method(self.p.classes[self.obj(st, t[1]).cls], "__str__")
                if f is not None:
                    out |= self.call_func(f, None, [frozenset([t])], {}, st, node, fr)
                else:
                    out.add(("op", "str", frozenset([t])))
            else:
                out.add(("op", "str", frozenset([t])))
        return frozenset(out)

    def b_int(self, args, kw, st, node, fr):
        fa = self.flat(args)
        if not fa:
            return const(0)
        out = set()
        for t in fa[0]:
            if t[0] == "c" and isinstance(t[2], (int, str, float, bytes)):
                try:
                    out.add(C(int(t[2])))
                    continue
                except ValueError:
                    self.raise_exc("ValueError", st, node, "int()", fr)
            if t[0] == "enum":
                c = self.p.classes.get(t[1])
                f = self.p.find_method(c, "__int__") if c else None
                if f is not None:
                    out |= self.call_func(f, None, [frozenset([t])], {}, st, node, fr)
                    continue
            if t[0] == "T":
                self.type_op(frozenset([t]), {"int", "float", "bool", "str"}, "int()", st, fr, node)
                if "str" in t[2]:
                    guarded = any(pos and len(a) == 1 and next(iter(a))[:2] in (("call", ".isdecimal"), ("call", ".isdigit")) and
                                  any(x[0] == "T" and x[1] == t[1] for x in next(iter(a))[2][0]) for a, pos in st.facts)
                    if not guarded:
                        self.raise_exc("ValueError", st, node, "int() of arbitrary text", fr)
                        self.typed_err(node, "int() of arbitrary text", fr)
                out.add(T(("int", t[1]), {"int"}))
                continue
            out.add(("op", "int", frozenset([t])))
        return frozenset(out)

    def b_bool(self, args, kw, st, node, fr):
        fa = self.flat(args)
        if not fa:
            return FALSE
        tv = self.truth(fa[0], st)
        if tv is not None:
            return const(tv)
        return frozenset([("op", "bool", fa[0])])

    def b_type(self, args, kw, st, node, fr):
        fa = self.flat(args)
        if len(fa) == 1 and len(fa[0]) == 1:
            t = next(iter(fa[0]))
            if t[0] == "o" and self.obj(st, t[1]) is not None and self.obj(st, t[1]).kind == "inst":
                return frozenset([("cls", self.obj(st, t[1]).cls)])
            if t[0] == "c" and self.concrete and not isinstance(t[2], (paths.P, pathlib.PurePath)):
                return frozenset([("ext", "builtins." + type(t[2]).__name__)])
        return frozenset([("op", "type", fa[0] if fa else EMPTY)])

    def b_getattr(self, args, kw, st, node, fr):
        fa = self.flat(args)
        if len(fa) >= 2 and len(fa[1]) == 1 and next(iter(fa[1]))[0] == "c":
            v = self.get_attr(fa[0], next(iter(fa[1]))[2], st, fr, node)
            return v | (fa[2] if len(fa) > 2 else EMPTY)
        return frozenset([("call", "builtins.getattr", tuple(fa))])

    def b_setattr(self, args, kw, st, node, fr):
        fa = self.flat(args)
        if len(fa) == 3 and len(fa[1]) == 1 and next(iter(fa[1]))[0] == "c":
            self.set_attr(fa[0], next(iter(fa[1]))[2], fa[2], st, fr, node)
            return NONE
        self.emit("setattr", "?", fa[:1] + fa[2:3], {}, st, node, fr)
        return NONE

    def b_next(self, args, kw, st, node, fr):
        fa = self.flat(args)
        segs = self.iterate(fa[0], st, fr, node)
        if segs and segs[0][0] == "1":
            if self.concrete and len(fa[0]) == 1 and next(iter(fa[0]))[0] == "o":
                x = next(iter(fa[0]))[1]
                if self.obj(st, x).kind == "iter":
                    self.set_obj(st, x, Obj("iter", segs=tuple(segs[1:])))
            return segs[0][1]
        if not segs and len(fa) == 1 and self.concrete:
            self.raise_exc("StopIteration", st, node, "next() of an empty iterable", fr)
            st.dead = True
            return EMPTY
        u = frozenset().union(*[v for _, v in segs]) if segs else EMPTY
        if len(fa) > 1:
            u = u | fa[1]
        else:
            self.raise_exc("StopIteration", st, node, "next() of a possibly empty iterable", fr)
        return u

    def b_range(self, args, kw, st, node, fr):
        fa = self.flat(args)
        ints = [self._const_int(a) for a in fa]
        if all(i is not None for i in ints) and ints and len(range(*ints)) <= 12:
            return self.alloc(st, Obj("iter", segs=tuple(("1", const(i)) for i in range(*ints))), node, "range")
        return self.alloc(st, Obj("iter", segs=(("*", frozenset([("op", "range") + tuple(fa)])),)), node, "range")

    def b_min(self, args, kw, st, node, fr, pick=min):
        fa = self.flat(args)
        if len(fa) > 1 and not kw and all(len(a) == 1 and next(iter(a))[0] == "c" and isinstance(next(iter(a))[2], (int, float)) for a in fa):
            return const(pick(next(iter(a))[2] for a in fa))
        return frozenset([("op", "minmax") + tuple(fa)])

    def b_max(self, args, kw, st, node, fr):
        return self.b_min(args, kw, st, node, fr, max)

    def b_print(self, args, kw, st, node, fr):
        self.emit("call", "builtins.print", self.flat(args), kw, st, node, fr)
        return NONE

    def b_threading_Thread(self, args, kw, st, node, fr):
        fa = self.flat(args)
        self.emit("call", "threading.Thread", fa, kw, st, node, fr)
        return frozenset([("call", "threading.Thread", (kw.get("target", fa[1] if len(fa) > 1 else EMPTY), kw.get("args", EMPTY)))])

    def b_typing_cast(self, args, kw, st, node, fr):
        return self.flat(args)[1]


def _as_load(t):
    if isinstance(t, ast.Name):
        n = ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    elif isinstance(t, ast.Attribute):
        n = ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    else:
        n = ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
    n.mod_ = getattr(t, "mod_", None)
    n.parent = getattr(t, "parent", None)
    return n
