"""Book-keeping of one check run: obligations decided, violations found, what was analysed."""
from __future__ import annotations
import ast
from .program import Program, AnalysisBroken, Func
from .absint import Interp
from .fold import Fold, Unk, need as fneed


class Ctx:
    def __init__(self, root, prop, tier):
        self.root, self.prop, self.tier = root, prop, tier
        self.prog = Program(root)
        self.violations, self.rules, self.samples = [], {}, []
        self.assumptions = []
        self.counts = {}
        self.funcs = set()
        self.calls = 0
        self.stmts = 0
        self.unknown = 0
        self.fold = Fold(self.prog)

    # ---- obligations
    def ok(self, rule, what=None):
        r = self.rules.setdefault(rule, {"obligations": 0, "violated": 0})
        r["obligations"] += 1
        if what and len(self.samples) < 40:
            self.samples.append(f"{rule}: {what}")

    def bad(self, rule, key, where, msg, **extra):
        r = self.rules.setdefault(rule, {"obligations": 0, "violated": 0})
        r["obligations"] += 1
        r["violated"] += 1
        if not isinstance(where, str):
            where = self.where(where)
        key = f"{rule}:{key}"
        if any(v["key"] == key and v["where"] == where for v in self.violations):
            return
        self.violations.append({"property": self.prop, "rule": rule, "key": key, "where": where, "msg": msg, **extra})

    def expect(self, cond, rule, key, where, msg, what=None):
        if cond:
            self.ok(rule, what or key)
        else:
            self.bad(rule, key, where, msg)
        return bool(cond)

    def broken(self, msg):
        raise AnalysisBroken(msg)

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def table(self, qual, *args):
        """value a package function without side effects folds to"""
        v = fneed(self.fold.call_func(qual, *args), qual)
        self.funcs.add(qual)
        return v

    def where(self, node):
        if isinstance(node, Func):
            node = node.node
        return self.prog.where(node)

    # ---- analysis
    def interp(self, **kw):
        it = Interp(self.prog, **kw)
        return it

    def absorb(self, it):
        self.funcs |= it.funcs_analysed
        self.calls += len(it.calls_analysed)
        self.stmts += it.stmts_analysed
        self.unknown += len(it.unknown_constructs)

    def finish(self, mod):
        need = getattr(mod, "MIN", {})
        for rule, n in need.items():
            got = self.rules.get(rule, {"obligations": 0})["obligations"]
            if got < n:
                raise AnalysisBroken(f"rule {rule}: only {got} instances found, {n} confirmed by hand")

    def coverage(self):
        ob = sum(r["obligations"] for r in self.rules.values())
        bad = sum(r["violated"] for r in self.rules.values())
        return {
            "explanation": "Static analysis of the source below /repo/edulint as it is now; an obligation is one instance of a rule "
                           "(construct, call site, path or table entry) that was decided.",
            "obligations": ob, "discharged": ob - bad, "rules": self.rules,
            "modules_parsed": len(self.prog.modules), "functions_parsed": len(self.prog.funcs),
            "functions_analysed": sorted(self.funcs), "call_sites_interpreted": self.calls, "statements_interpreted": self.stmts,
            "constructs_not_modelled": self.unknown, "counts": self.counts, "samples": self.samples,
        }

    def summary(self):
        ob = sum(r["obligations"] for r in self.rules.values())
        return f"{ob} obligations over {len(self.rules)} rules, {len(self.funcs)} functions interpreted, no violation"
