"""Message identifiers are unique, well-formed and registered."""
import ast
import glob
import os
import re
import tomllib
from ..msgs import own_checkers, pylint_msgs, is_checker
from ..program import Class
from ..fold import Unk, ClsV

MIN = {"code-unique": 60, "symbol-unique": 60, "well-formed": 60, "registered": 8, "plugin-exists": 7, "one-prefix": 8}


def plugins(ctx):
    """plugin module -> toml files that load it"""
    out = {}
    for f in sorted(glob.glob(os.path.join(ctx.root, "edulint", "config", "files", "*.toml"))):
        with open(f, "rb") as h:
            d = tomllib.load(h)
        for name, val in d.get("pylint", {}).items() if isinstance(d.get("pylint"), dict) else ():
            if name == "load-plugins":
                for m in val if isinstance(val, list) else str(val).split(","):
                    out.setdefault(m.strip(), []).append(os.path.relpath(f, ctx.root))
    return out


def registered(ctx, m):
    """classes whose instances the plugin's register() hands to the linter"""
    reg = ctx.prog.funcs.get(f"{m.name}.register")
    if reg is None:
        return None
    out, todo, seen = set(), [reg], set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        ctx.funcs.add(f.qual)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) or isinstance(n, ast.Attribute):
                r = ctx.prog.resolve_expr(f.module, n)
                if r and r[0] == "class":
                    out.add(r[1].qual)
                elif r and r[0] == "func":
                    todo.append(r[1])
                elif r and r[0] == "var":
                    v = ctx.fold.glob(r[1], r[2])
                    if isinstance(v, (list, tuple, set)):
                        out.update(x.qual for x in v if isinstance(x, ClsV))
    return out


def check(ctx):
    problems = []
    own = own_checkers(ctx.prog, ctx.fold, problems)
    for c, what in problems:
        if isinstance(what, tuple):
            ctx.bad("well-formed", f"{c.qual}.{what[0]}", c.node, f"message {what[0]!r} of {c.name} is not a (text, symbol, description) declaration: {what[1]!r}")
        else:
            ctx.broken(f"messages of {c.qual} do not fold: {what!r}")
    by_code, by_sym, _, _ = pylint_msgs()
    pl = plugins(ctx)
    # modules of checkers that no packaged configuration loads (superseded ones) are not in use
    used = {c: ds for c, ds in own.items() if c.module.name in pl}
    ctx.need(len(used) >= 8, f"only {len(used)} loaded checker classes found")
    ctx.count("checker_classes", len(used))
    codes, syms = {}, {}
    for c, ds in used.items():
        literal_keys(ctx, c)
        for d in ds:
            ok = bool(re.fullmatch(r"[CREFWI]\d{4}", d.code)) and isinstance(d.symbol, str) and bool(re.fullmatch(r"[a-z0-9]+(-[a-z0-9]+)*", d.symbol))
            ctx.expect(ok, "well-formed", f"{c.qual}.{d.code}", d.node, f"{c.name} declares a message with code {d.code!r} and symbol {d.symbol!r}", d.code)
            try:
                d.text % tuple(_Any() for _ in range(count_placeholders(d.text) or 0))
                fmt = True
            except (TypeError, ValueError):
                fmt = False
            ctx.expect(fmt, "text-is-template", f"{c.qual}.{d.code}", d.node, f"text of {d.code} is not a valid template: {d.text!r}")
            o = codes.setdefault(d.code, d)
            ctx.expect(o is d or o.cls is c, "code-unique", d.code, d.node, f"{c.name} and {o.cls.name} both declare message code {d.code}", d.code)
            o = syms.setdefault(d.symbol, d)
            ctx.expect(o is d, "symbol-unique", str(d.symbol), d.node, f"{c.name} {d.code} and {o.cls.name} {o.code} share the symbol {d.symbol}", d.symbol)
            p = by_code.get(d.code)
            p = None if p is not None and p.cls.module.name.startswith("pylint.extensions") else p  # optional plugins, not built in
            ctx.expect(p is None, "code-not-pylint", d.code, d.node, f"{d.code} ({d.symbol}) is already Pylint's {p.symbol if p else ''}")
            p = by_sym.get(d.symbol)
            p = None if p is not None and p.cls.module.name.startswith("pylint.extensions") else p
            ctx.expect(p is None, "symbol-not-pylint", str(d.symbol), d.node, f"symbol {d.symbol} is already used by Pylint's {p.code if p else ''}")
        pre = {d.code[1:3] for d in ds}
        ctx.expect(len(pre) <= 1, "one-prefix", c.qual, c.node,
                   f"message codes of {c.name} have different checker prefixes {sorted(pre)}; Pylint rejects the class when the plugin is loaded", c.name)
    for m in sorted({c.module.name for c in own}):
        if m not in pl:
            continue
        reg = registered(ctx, ctx.prog.modules[m])
        for c in own:
            if c.module.name != m:
                continue
            if any(c in ctx.prog.mro(k)[1:] for k in own if k.module is c.module):
                continue
            ctx.expect(reg is not None and c.qual in reg, "registered", c.qual, c.node,
                       f"{c.name} declares messages but register() of its plugin does not hand it to Pylint", c.name)
    ctx.need(pl, "no packaged configuration loads a plugin")
    for m, files in sorted(pl.items()):
        ok = m in ctx.prog.modules
        ctx.expect(ok, "plugin-exists", m, files[0], f"{', '.join(files)}: plugin module {m} does not exist", m)
        if ok:
            ctx.expect(f"{m}.register" in ctx.prog.funcs, "plugin-exists", f"{m}.register", files[0],
                       f"plugin {m} loaded by {', '.join(files)} has no register()", f"{m}.register")
    # every module that declares checkers is loaded by the base configuration chain of each packaged configuration that sets load-plugins
    for c in used:
        for fld in ("name",):
            v = ctx.fold.class_attr(c, fld)
            ctx.expect(isinstance(v, str) and bool(v), "checker-name", c.qual, c.node, f"{c.name} has no name; its options and messages cannot be addressed")


class _Any:
    def __str__(self):
        return "x"

    __repr__ = __str__

    def __int__(self):
        return 1

    __index__ = __int__

    def __float__(self):
        return 1.0


def count_placeholders(text):
    n = 0
    i = 0
    rx = re.compile(r"%(%|(\(\w+\))?[#0\- +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?[diouxXeEfFgGcrsa])")
    while True:
        i = text.find("%", i)
        if i < 0:
            return n
        m = rx.match(text, i)
        if not m:
            return None
        if m.group(1) != "%":
            n += 1
        i = m.end()


def literal_keys(ctx, c):
    """a key written twice in the message table silently replaces the first declaration"""
    for k in ctx.prog.mro(c):
        if not isinstance(k, Class):
            continue
        for s in k.node.body:
            if not isinstance(s, (ast.Assign, ast.AnnAssign)) or s.value is None:
                continue
            if not any(isinstance(n, ast.Name) and n.id == "msgs" and isinstance(n.ctx, ast.Store) for n in ast.walk(s)):
                continue
            for d in ast.walk(s.value):
                if isinstance(d, ast.Dict):
                    seen = {}
                    for kn in d.keys:
                        if isinstance(kn, ast.Constant):
                            ctx.expect(kn.value not in seen, "declared-once", f"{c.qual}.{kn.value}", kn,
                                       f"{c.name} declares {kn.value} twice; the first declaration is lost", str(kn.value))
                            seen[kn.value] = kn
