"""Message tables: what EduLint's own checks declare, and what the installed linters declare (read from their source)."""
from __future__ import annotations
import ast
import glob
import os
import re
from .program import Program, Class, AnalysisBroken
from .fold import Fold, Unk

_SITE = None


def site_packages():
    global _SITE
    if _SITE is None:
        cands = sorted(glob.glob("/opt/venv/lib/python3*/site-packages")) + sorted(glob.glob("/usr/lib/python3*/site-packages")) + \
            sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"))
        for c in cands:
            if os.path.isdir(os.path.join(c, "pylint")):
                _SITE = c
                break
        else:
            raise AnalysisBroken("no installed pylint found to read the message tables from")
    return _SITE


class Decl:
    """one declared message"""

    def __init__(self, code, symbol, text, cls, node, old=(), desc=""):
        self.code, self.symbol, self.text, self.cls, self.node, self.old, self.desc = code, symbol, text, cls, node, old, desc


def _decls(prog, fold, c, problems=None):
    v = fold.class_attr(c, "msgs")
    if isinstance(v, Unk):
        if "no class attribute" in v.why:
            return None
        if problems is not None:
            problems.append((c, v))
        return None
    out = []
    if not isinstance(v, dict):
        return None
    for code, t in v.items():
        node = (getattr(v, "keynodes", None) or {}).get(code, c.node)
        if not isinstance(t, (tuple, list)) or len(t) < 2 or not isinstance(t[0], str):
            if problems is not None:
                problems.append((c, (code, t)))
            continue
        old = []
        if len(t) > 3 and isinstance(t[3], dict):
            for on in t[3].get("old_names", []) or []:
                old.append(tuple(on))
        out.append(Decl(code, t[1], t[0], c, node, old, t[2] if len(t) > 2 and isinstance(t[2], str) else ""))
    return out


def is_checker(prog, c):
    return any(isinstance(k, str) and (k.startswith("pylint.") or k.startswith("astroid.")) and k.rsplit(".", 1)[-1].endswith("Checker")
               for k in prog.mro(c)) or any(isinstance(k, Class) and k.name.endswith("Checker") and k is not c for k in prog.mro(c))


def own_checkers(prog, fold, problems=None):
    """checker class -> [Decl]; classes that are pylint checkers and declare messages"""
    out = {}
    for c in prog.classes.values():
        if not is_checker(prog, c):
            continue
        if not any(isinstance(k, Class) and any(
                isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(n, ast.Name) and n.id == "msgs" and isinstance(n.ctx, ast.Store) for n in ast.walk(s))
                for s in k.node.body) for k in prog.mro(c)):
            continue
        d = _decls(prog, fold, c, problems)
        if d is not None:
            out[c] = d
    return out


_PYL = None


def pylint_msgs():
    """-> (by code, by symbol, checker names) of the installed pylint"""
    global _PYL
    if _PYL is None:
        p = Program(site_packages(), "pylint")
        f = Fold(p)
        by_code, by_sym, names = {}, {}, set()
        for c in p.classes.values():
            for d in _decls(p, f, c) or []:
                by_code.setdefault(d.code, d)
                by_sym.setdefault(d.symbol, d)
                for on in d.old:
                    by_code.setdefault(on[0], d)
                    by_sym.setdefault(on[1], d)
            n = f.class_attr(c, "name")
            if isinstance(n, str) and n:
                names.add(n.lower())
        if len(by_code) < 300:
            raise AnalysisBroken(f"only {len(by_code)} pylint messages found")
        _PYL = (by_code, by_sym, names, p)
    return _PYL


def flake8_codes():
    """codes flake8 can emit (pyflakes table, pycodestyle and mccabe sources)"""
    site = site_packages()
    out = {"E902", "E999", "C901"}
    path = os.path.join(site, "flake8", "plugins", "pyflakes.py")
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r"F\d{3}", n.value):
            out.add(n.value)
    with open(os.path.join(site, "pycodestyle.py"), encoding="utf-8") as f:
        tree = ast.parse(f.read())
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            out.update(re.findall(r"\b[EW]\d{3}\b", n.value))
    if len(out) < 100:
        raise AnalysisBroken("flake8 code tables not found")
    return out
