"""Shared builders for the rules about configuration and linting."""
from ..absint import Obj, EMPTY, C, NONE
from ..view import reach

OPTION = "edulint.options.Option"
LINTER = "edulint.linters.Linter"
CONF = "edulint.config.config"
LINT = "edulint.linting.linting"


def S(x):
    return frozenset([("s", x)])


def opt(name):
    return frozenset([("enum", OPTION, name)])


def linter(name):
    return frozenset([("enum", LINTER, name)])


def const(v):
    return frozenset([C(v)])


def giving(av):
    return lambda it, args, kw, st, node, fr: av if isinstance(av, frozenset) else av(it, args, st, node)


def raising(cls):
    def stub(it, args, kw, st, node, fr):
        it.raise_exc(cls, st, node, "injected", fr)
        st.dead = True
        return EMPTY
    return stub


def options(ctx):
    """members of the option enumeration, in order"""
    return list(ctx.fold.enum_members(ctx.prog.classes[OPTION]))


def lst(it, st, node, *segs, kind="list", tag=""):
    """segs: values ("1") or ("*", value) pairs"""
    out = tuple(x if isinstance(x, tuple) else ("1", x) for x in segs)
    return it.alloc(st, Obj(kind, segs=out), node, "lst" + tag + str(out))


def inst(it, st, node, cls, tag="", **fields):
    return it.alloc(st, Obj("inst", cls, fields), node, "inst" + tag)


def arg(it, st, node, option, val, tag=""):
    o = option if isinstance(option, frozenset) else opt(option)
    return it.alloc(st, Obj("inst", "edulint.config.arg.Arg", {"option": o, "val": val}), node, f"arg{tag}{sorted(map(str, o))}{sorted(map(str, val))}")


def parses(ctx, it, st):
    av, st, _ = it.run(ctx.prog.func("edulint.option_parses.get_option_parses"), [], st=st)
    return av, st


def config(it, st, node, op, segs, tag, enablers=None):
    l = it.alloc(st, Obj("list", segs=tuple(segs)), node, "cl" + tag)
    en = it.alloc(st, Obj("dict", layers=(("**", S("EN" + tag)),)), node, "ce" + tag) if enablers is None else enablers
    return it.alloc(st, Obj("inst", CONF + ".Config", {"config": l, "option_parses": op, "enablers": en}), node, "cfg" + tag)


def immutable(ctx, it, st, node, vals, default=None, tag="", enablers=None):
    """an ImmutableConfig whose value for each option is given or labelled with the option's name"""
    segs = []
    for o in options(ctx):
        v = vals.get(o)
        if v is None:
            v = default(o) if default else S("VAL:" + o)
        segs.append(("1", arg(it, st, node, o, v, "imm" + tag)))
    t = it.alloc(st, Obj("tuple", segs=tuple(segs)), node, "immtuple" + tag)
    return it.alloc(st, Obj("inst", CONF + ".ImmutableConfig", {"config": t, "enablers": S("ENABLERS") if enablers is None else enablers}), node, "imm" + tag)


def one(it, st, av):
    """the single object of a value, or None"""
    if len(av) != 1:
        return None
    t = next(iter(av))
    return it.obj(st, t[1]) if t[0] == "o" else None


def flat_segs(it, st, av):
    """the segments of a sequence; of several possible objects, those of all in the order of creation"""
    os = [it.obj(st, t[1]) if t[0] == "o" else None for t in sorted(av, key=str)]
    if not os or any(o is None for o in os):
        return None
    if len(os) == 1:
        return list(os[0].segs)
    return max((list(o.segs) for o in os), key=len)


def labels_in(it, st, av):
    ts = reach(it, st, av)
    return {t[1] for t in ts if t[0] == "s"} | {x for t in ts if t[0] == "top" for x in t[1] if x != "*deep*"}


# ---- whole configuration of a run, with symbolic sources

class L(tuple):
    """a string that begins with `prefix` and goes on in a way known only by its label"""
    def __new__(cls, prefix, label):
        return tuple.__new__(cls, (prefix, label))


def build(it, st, node, x, tag=""):
    if isinstance(x, frozenset):
        return x
    if isinstance(x, L):
        return frozenset([("pre", x[0], ("s", x[1]))])
    if isinstance(x, (list, tuple)):
        return lst(it, st, node, *[build(it, st, node, v, f"{tag}.{i}") for i, v in enumerate(x)], kind="list" if isinstance(x, list) else "tuple", tag=tag)
    if isinstance(x, dict):
        ls = tuple(("kv", const(k), build(it, st, node, v, f"{tag}.{k}")) for k, v in x.items())
        return it.alloc(st, Obj("dict", layers=ls), node, "d" + tag + str(len(ls)))
    return const(x)


class Run:
    """get_config_many interpreted for given command line, in-file arguments and configuration files"""

    def __init__(self, ctx, files, cmd, toml, implicit=None, raises=None, dirs=(), listing=None, names=None, generic=False, fs=None, other=S("TOML?")):
        f = ctx.prog.func(CONF + ".get_config_many")
        it = self.it = ctx.interp(unknown_raises=raises)
        it.max_rec = 6
        it.generic = generic
        it.fs = fs
        st = it.new_state()
        op, st = parses(ctx, it, st)
        names = list(files) if names is None else names
        self.loads, self.read, self.searched, self.opened = [], [], [], []

        def extract(itp, args, kw, s, node, fr):
            p = cval(args[0]) if args else None
            self.read.append(p)
            return build(itp, s, node, list(files[p]), "in" + p) if p in files else S("INFILE?")

        def load(itp, args, kw, s, node, fr):
            p = cval(args[0]) if args else None
            self.loads.append(p if p is not None else args[0] if args else None)
            if p in toml:
                return build(itp, s, node, toml[p], "toml" + p) if toml[p] is not None else NONE
            return NONE if other is None else build(itp, s, node, other, "tomlother")

        def search(itp, args, kw, s, node, fr):
            p = cval(args[0]) if args else None
            self.searched.append(p)
            r = (implicit or {}).get(p)
            return NONE if r is None else const(r)
        it.stubs[CONF + ".extract_args"] = extract
        it.stubs["edulint.config.file_config.load_toml_file"] = load
        if fs is None:
            it.stubs[CONF + ".search_for_config_in_parents"] = search
        def opened(itp, args, kw, s, node, fr):
            self.opened.append(cval(args[0]) if args else None)
            return S("CONTENT")
        it.stubs["builtins.open"] = opened
        if fs is None:
            it.stubs["os.path.isdir"] = lambda i, a, k, s, n, fr: const(cval(a[0]) in dirs)
        if listing is not None:
            it.stubs["os.listdir"] = lambda i, a, k, s, n, fr: build(i, s, n, listing.get(cval(a[0]), []), "ls")
        av, st, exc = it.run(f, [build(it, st, f.node, names, "files"), build(it, st, f.node, list(cmd), "cmd"), op], st=st)
        ctx.absorb(it)
        self.av, self.st, self.exc, self.f = av, st, exc, f
        self.results = []
        for r in flat_segs(it, st, av) or []:
            for t in r[1]:
                o = it.obj(st, t[1]) if t[0] == "o" else None
                if o is None or o.kind != "tuple" or len(o.segs) != 3:
                    ctx.broken("get_config_many does not give triples of paths, configuration and translations")
                self.results.append((r[0], *[v for _, v in o.segs]))

    def value(self, ctx, i, option):
        """the value of an option in the i-th result, as its consumers read it"""
        g = ctx.prog.func(CONF + ".ImmutableConfig.__getitem__")
        v, st, _ = self.it.run(g, [self.results[i][2], opt(option)], st=self.st)
        self.st = st
        return v

    def enablers(self, i, key):
        o = one(self.it, self.st, self.results[i][2])
        en = one(self.it, self.st, o.fields["enablers"])
        return self.it.dict_get(en, const(key), self.st, self.f.node, None)

    def translation(self, i, key):
        d = one(self.it, self.st, self.results[i][3])
        return (EMPTY, True) if d is None else self.it.dict_get(d, const(key), self.st, self.f.node, None)

    def paths(self, i):
        """the constant paths of the i-th result"""
        v = py(self.it, self.st, self.results[i][1])
        return list(v) if isinstance(v, tuple) else None

    def render(self, av):
        """a value with the objects it is built of spelled out"""
        out = []
        for t in sorted(av, key=str):
            if t[0] == "o":
                o = self.it.obj(self.st, t[1])
                if o.kind in ("list", "tuple", "set"):
                    out.append((o.kind, tuple((k, self.render(v)) for k, v in o.segs)))
                elif o.kind == "dict":
                    out.append(("dict", tuple((l[0], *(self.render(x) for x in l[1:])) for l in self.it.flat_layers(o, self.st))))
                else:
                    out.append((o.cls, tuple(sorted((k, self.render(v)) for k, v in o.fields.items()))))
            elif t[0] == "pre":
                out.append(("pre", t[1], str(t[2])))
            else:
                out.append(t)
        return tuple(out)

    def labels(self, av):
        return labels_in(self.it, self.st, av)

    def seq(self, av):
        """(kind, labels and constants) of the elements of a sequence"""
        o = one(self.it, self.st, av)
        if o is None or o.kind not in ("list", "tuple"):
            return None
        return [(k, self.labels(v) | {t[2] for t in v if t[0] == "c"}) for k, v in o.segs]


def cval(av):
    t = next(iter(av)) if len(av) == 1 else None
    return t[2] if t is not None and t[0] == "c" else None


def py(it, st, av):
    """the Python value of a constant (sequence), or None when it is not one"""
    t = next(iter(av)) if len(av) == 1 else None
    if t is None:
        return None
    if t[0] == "c":
        return t[2]
    o = it.obj(st, t[1]) if t[0] == "o" else None
    if o is not None and o.kind in ("list", "tuple") and all(k == "1" for k, _ in o.segs):
        return tuple(py(it, st, v) for _, v in o.segs)
    return None


def ctx_where(ctx, qual):
    return ctx.prog.func(qual)


def is_main_guard(s):
    """if __name__ == "__main__" """
    import ast
    return isinstance(s, ast.If) and any(isinstance(n, ast.Name) and n.id == "__name__" for n in ast.walk(s.test))
