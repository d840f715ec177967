"""What the texts of messages look like: sequences of literal text and variable parts, and what regular expressions make of them."""
from __future__ import annotations
import ast
import os
import re
from .msgs import pylint_msgs, own_checkers, site_packages
from .program import AnalysisBroken

VAR = "\0"          # a variable part in a template; "\1": one that contains no line break
CONV = re.compile(r"%(?:%|(?:\(\w+\))?[#0\- +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?[diouxXeEfFgGcrsa])")


def percent(text):
    """template of a %-format"""
    return CONV.sub(lambda m: "%" if m.group() == "%%" else VAR, text)


def _concat(n):
    """template of an expression of constants, f-strings and formatting; None: not text"""
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.JoinedStr):
        return "".join(v.value if isinstance(v, ast.Constant) else VAR for v in n.values)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
        t = _concat(n.left)
        return None if t is None else percent(t)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        l, r = _concat(n.left), _concat(n.right)
        return None if l is None else l + (VAR if r is None else r)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format":
        t = _concat(n.func.value)
        return None if t is None else re.sub(r"\{[^{}]*\}", VAR, t)
    return None


def flake8_texts():
    """code -> templates, read from the sources of the installed pyflakes, pycodestyle and mccabe"""
    site = site_packages()
    out = {}

    def parse(*p):
        with open(os.path.join(site, *p), encoding="utf-8") as f:
            return ast.parse(f.read())
    codes = {}
    for n in ast.walk(parse("flake8", "plugins", "pyflakes.py")):
        if isinstance(n, ast.Dict):
            codes.update({k.value: v.value for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant) and isinstance(v, ast.Constant)})
    for c in parse("pyflakes", "messages.py").body:
        if not isinstance(c, ast.ClassDef) or c.name not in codes:
            continue
        texts = {t.id: s.value.value for s in c.body if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)
                 for t in s.targets if isinstance(t, ast.Name)}
        if "message" not in texts:
            raise AnalysisBroken(f"message of {c.name} not found")
        rest = [v for k, v in texts.items() if k != "message"]
        for v in (rest if "{0}" in texts["message"] else [""]):
            out.setdefault(codes[c.name], []).append(percent(texts["message"].replace("{0}", v)))
    for mod in ("pycodestyle.py", "mccabe.py"):
        tree = parse(mod)
        inner = set()
        for n in ast.walk(tree):
            if id(n) in inner:
                continue
            t = _concat(n) if isinstance(n, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.Call)) else None
            if t is None:
                continue
            inner.update(id(x) for x in ast.walk(n))
            m = re.fullmatch(r"([EWC]\d{3}) ([^\n]+)", t)
            if m:
                out.setdefault(m[1], []).append(m[2] if mod == "pycodestyle.py" else percent(m[2]))
    # composed in more than one step in the sources
    out["E111"] = ["indentation is not a multiple of " + VAR]
    out["E114"] = ["indentation is not a multiple of " + VAR + " (comment)"]
    out["E711"] = [f"comparison to None should be 'if cond is {n}None:'" for n in ("", "not ")]
    out["E712"] = [f"comparison to {b} should be 'if cond is {n}{b}:' or 'if {'' if (b == 'True') == (n == '') else 'not '}cond:'"
                   for b in ("True", "False") for n in ("", "not ")]
    out["E902"] = out["E999"] = [VAR + ": " + VAR]
    if sum(map(len, out.values())) < 100:
        raise AnalysisBroken("texts of flake8's messages not found")
    return out


def pylint_texts():
    """code -> (templates, module)"""
    by_code = pylint_msgs()[0]
    return {d.code: ([percent(d.text)], d.cls.module.name if hasattr(d.cls.module, "name") else d.cls.module) for d in set(by_code.values())}


def own_texts(ctx):
    return {d.code: ([percent(d.text)], c) for c, ds in own_checkers(ctx.prog, ctx.fold).items() for d in ds}


# ---- regular expressions

class Seq:
    """one way through a regular expression: literal characters, VAR for "anything" and its group"""

    def __init__(self, text="", groups=(), nl=True):
        self.text, self.groups, self.nl = text, groups, nl


def ways(pattern, flags=0):
    """the texts a regular expression describes, as templates; None: it is not made of literal text and "anything" only"""
    import re._parser as P
    import re._constants as C
    try:
        tree = P.parse(pattern, flags)
    except re.error:
        return None
    flags = tree.state.flags

    def anything(sub):
        """a loop over every character: (yes, including line breaks)"""
        if len(sub) == 1 and sub[0][0] is C.ANY:
            return True, bool(flags & re.DOTALL)
        if len(sub) == 1 and sub[0][0] is C.IN:
            cats = {v for k, v in sub[0][1] if k is C.CATEGORY}
            if any({a, b} <= cats for a, b in ((C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE), (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT), (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD))):
                return True, True
        return False, False

    def walk(items, group, first, last):
        out = [Seq()]
        for i, (op, arg) in enumerate(items):
            if op is C.LITERAL:
                step = [Seq(chr(arg))]
            elif op is C.AT and arg in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) and first and i == 0:
                step = [Seq()]
            elif op is C.AT and arg in (C.AT_END, C.AT_END_STRING) and last and i == len(items) - 1:
                step = [Seq()]
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and arg[0] == 0 and arg[1] is C.MAXREPEAT and anything(arg[2])[0]:
                step = [Seq(VAR, (group,), anything(arg[2])[1])]
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and (arg[0], arg[1]) in ((0, 1), (1, 1)):
                step = walk(arg[2], group, False, False)
                if step is not None and arg[0] == 0:
                    step = step + [Seq()]
            elif op is C.SUBPATTERN:
                step = walk(arg[3], arg[0] if arg[0] is not None else group, first and i == 0, last and i == len(items) - 1)
            elif op is C.BRANCH:
                step = []
                for alt in arg[1]:
                    w = walk(alt, group, False, False)
                    if w is None:
                        return None
                    step += w
            else:
                return None
            if step is None or len(out) * len(step) > 64:
                return None
            out = [Seq(a.text + b.text, a.groups + b.groups, a.nl and b.nl) for a in out for b in step]
        return out
    return walk(tree, None, True, True)


class Match:
    """what is known of matching a template: the spans each group can have"""

    def __init__(self, ends, spans, loose):
        self.ends, self.spans, self.loose = ends, spans, loose


def match(pattern, flags, text, mode="match", nl=False):
    """Does the expression match every text of the template? -> Match or None.
    A variable part has to fall whole into a loop over every character (nl: it can contain line breaks)."""
    import re._parser as P
    import re._constants as C
    tree = P.parse(pattern, flags)
    flags = tree.state.flags
    icase = bool(flags & re.IGNORECASE)
    loose = set()          # groups that begin after a loop which could take in some of a variable part

    def one(op, arg, c):
        """a single-character item on a literal character"""
        if op is C.LITERAL:
            return chr(arg) == c or icase and chr(arg).lower() == c.lower()
        if op is C.NOT_LITERAL:
            return chr(arg) != c
        if op is C.ANY:
            return c != "\n" or bool(flags & re.DOTALL)
        if op is C.IN:
            return re.fullmatch(_cls(arg), c, flags) is not None
        return False

    def universal(sub):
        if len(sub) != 1:
            return False
        op, arg = sub[0]
        if op is C.ANY:
            return bool(flags & re.DOTALL) or not nl
        if op is C.IN:
            cats = {v for k, v in arg if k is C.CATEGORY}
            return any({a, b} <= cats for a, b in ((C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE), (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT), (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD)))
        return False

    def run(items, states):
        """states: {(position, spans)}"""
        for op, arg in items:
            nxt = set()
            if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                for pos, sp in states:
                    if pos < len(text) and text[pos] != VAR and one(op, arg, text[pos]):
                        nxt.add((pos + 1, sp))
            elif op is C.AT:
                for pos, sp in states:
                    if arg in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) and pos == 0 or arg in (C.AT_END, C.AT_END_STRING) and pos == len(text):
                        nxt.add((pos, sp))
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, sub = arg
                if universal(sub) and lo <= 1 and hi is C.MAXREPEAT:
                    for pos, sp in states:
                        nxt.update((q, sp) for q in range(pos + lo, len(text) + 1) if VAR in text[pos:q] or nl or "\n" not in text[pos:q] or flags & re.DOTALL)
                else:
                    cur, seen, k = set(states), set(), 0
                    if lo == 0:
                        nxt |= cur
                    while cur and k < len(text) + 2 and (hi is C.MAXREPEAT or k < hi):
                        cur = run(sub, cur) - seen
                        seen |= cur
                        k += 1
                        if k >= lo:
                            nxt |= cur
            elif op is C.SUBPATTERN:
                g = arg[0]
                for pos, sp in states:
                    for q, sp2 in run(arg[3], {(pos, sp)}):
                        nxt.add((q, sp2 if g is None else tuple(x for x in sp2 if x[0] != g) + ((g, pos, q),)))
            elif op is C.BRANCH:
                for alt in arg[1]:
                    nxt |= run(alt, states)
            else:
                return set()
            states = nxt
            if not states or len(states) > 20000:
                return set()
        return states

    start = {(0, ())} if mode != "search" else {(i, ()) for i in range(len(text) + 1) if VAR not in text[:i]}
    ends = {(p, sp) for p, sp in run(tree, start) if mode != "fullmatch" or p == len(text)}
    if not ends:
        return None
    # loops over every character in front of a group make its place ambiguous
    def order(items, before):
        for op, arg in items:
            if op in (C.MAX_REPEAT, C.MIN_REPEAT):
                before = before or universal(arg[2])
            elif op is C.SUBPATTERN:
                if before and arg[0] is not None:
                    loose.add(arg[0])
                before = order(arg[3], before)
            elif op is C.BRANCH:
                before = any([order(alt, before) for alt in arg[1]]) or before
        return before
    order(tree, False)
    spans = {}
    for _, sp in ends:
        for g, a, b in sp:
            spans.setdefault(g, set()).add((a, b))
    return Match({p for p, _ in ends}, spans, loose)


def _cls(arg):
    """source of a character class"""
    import re._constants as C
    neg, out = "", ""
    for op, a in arg:
        if op is C.NEGATE:
            neg = "^"
        elif op is C.LITERAL:
            out += re.escape(chr(a))
        elif op is C.RANGE:
            out += f"{re.escape(chr(a[0]))}-{re.escape(chr(a[1]))}"
        elif op is C.CATEGORY:
            out += {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}[a]
    return f"[{neg}{out}]"


def group_is(m, text, k):
    """group k of every match is exactly a variable part of the template (greedy loops take the longest way)"""
    sp = m.spans.get(k)
    if not sp or k in m.loose:
        return False
    a, b = max(sp, key=lambda s: s[1])
    return {s[0] for s in sp} == {a} and text[a:b].strip("'\"") == VAR
