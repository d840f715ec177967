"""What the rules about checks share: loaded checker classes, their visits, runs of the partial evaluator."""
from __future__ import annotations
import glob
import os
import tomllib
from ..msgs import own_checkers
from ..pe import PE, TOP, visits, visited, required_for


def plugins(ctx):
    """plugin module -> toml files that load it"""
    out = {}
    for f in sorted(glob.glob(os.path.join(ctx.root, "edulint", "config", "files", "*.toml"))):
        with open(f, "rb") as h:
            d = tomllib.load(h)
        for name, val in d.get("pylint", {}).items() if isinstance(d.get("pylint"), dict) else ():
            if name == "load-plugins":
                for m in val if isinstance(val, list) else str(val).split(","):
                    out.setdefault(m.strip(), []).append(os.path.relpath(f, ctx.root))
    return out


class Checks:
    def __init__(self, ctx):
        self.ctx = ctx
        pl = plugins(ctx)
        own = own_checkers(ctx.prog, ctx.fold)
        self.own = {c: ds for c, ds in own.items() if c.module.name in pl}
        ctx.need(len(self.own) >= 8, f"only {len(self.own)} loaded checker classes found")
        self.by_id = {}
        for c, ds in self.own.items():
            for d in ds:
                self.by_id[d.code] = d
                self.by_id[d.symbol] = d
        self.visits = []  # (class, name, Func, required or None)
        for c in self.own:
            for n, f in visits(ctx.prog, c):
                self.visits.append((c, n, f, required_for(ctx.prog, ctx.fold, f)))
        ctx.need(len(self.visits) >= 15, f"only {len(self.visits)} visit methods found")

    def entry(self, c, n, f):
        args = [frozenset([("self", c)])]
        if n.startswith(("visit_", "leave_")):
            args.append(visited(n))
        return (f"{c.name}.{n}", f, args)

    def run(self, c, n, f, **kw):
        watch = kw.pop("watch", None)
        attrs = kw.pop("attrs", None)
        skip = kw.pop("skip", ())
        pe = PE(self.ctx.prog, self.ctx.fold, **kw)
        pe.skip |= set(skip)
        if watch:
            pe.watch_names.update(watch)
        if attrs:
            pe.watch_attrs.update(attrs)
        ev = pe.run_entries([self.entry(c, n, f)])
        self.ctx.funcs |= pe.funcs
        self.ctx.calls += len(pe.calls)
        self.ctx.stmts += pe.steps
        return pe, ev

    def path(self, pe, target, start):
        """a call path from the entry to a function, as text"""
        prev, todo = {start: None}, [start]
        while todo:
            x = todo.pop(0)
            if x == target:
                break
            for (a, b) in pe.edges:
                if a == x and b not in prev:
                    prev[b] = x
                    todo.append(b)
        if target not in prev:
            return ""
        out, x = [], target
        while x:
            out.append(x.rsplit(".", 1)[-1])
            x = prev[x]
        return " -> ".join(reversed(out))
