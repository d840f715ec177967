"""Text and JSON output present the same problems and configuration completely."""
import ast
import json
from ..absint import show, NONE, C
from ..view import reach
from . import _edl as E
from . import _lint as P
from ._edl import S
from .L06 import cuts, carries

MIN = {"text": 60, "heading": 14, "json-problems": 3, "json-config": 20, "json-document": 3, "json-field": 10}
TEXT = ["line", "column", "code", "text"]

# given paths, which of them are directories, paths of the problems in result order
CASES = {
    "one file": (["x.py"], [], ["x.py", "x.py"]),
    "one file, nothing found": (["x.py"], [], []),
    "two files": (["x.py", "y.py"], [], ["x.py", "x.py", "y.py"]),
    "two files, one with problems": (["x.py", "y.py"], [], ["y.py"]),
    "a directory": (["d"], ["d"], ["d/x.py", "d/y.py", "d/y.py"]),
    "files of the same name": (["d", "e"], ["d", "e"], ["d/x.py", "d/x.py", "e/x.py"]),
    "back and forth": (["d", "e"], ["d", "e"], ["d/x.py", "d/z/x.py", "d/x.py"]),
    "many": (["d", "y.py"], ["d"], ["d/a.py", "d/b.py", "d/c.py", "y.py", "y.py"]),
    "directories and nothing found": (["d", "e"], ["d", "e"], []),
}


def present(ctx, as_json, case, enabled=True):
    given, dirs, paths = case
    f = ctx.prog.func("edulint.edulint.check_and_print")
    it = ctx.interp(unknown_raises=None)
    it.generic = it.keep_sorted = True
    st = it.new_state()
    box = {}
    OUT = it.oid(("written",))      # what has been written so far is part of the state, so that joins of branches show
    st.heap[OUT] = E.Obj("list", segs=())

    def put(s, *xs):
        s.heap[OUT] = E.Obj("list", segs=(*s.heap[OUT].segs, *(("1", x) for x in xs)))

    def result(i, a, k, s, n, fr):
        ps = [P.problem(ctx, i, s, n, f"p{j}", path=E.const(p), **({} if enabled else {"enabled_by": NONE})) for j, p in enumerate(paths)]
        cf = [i.mk_tuple(s, [S(f"files{j}"), E.immutable(ctx, i, s, n, {}, default=lambda o, j=j: S(f"VAL{j}:{o}"), tag=str(j)), S(f"tr{j}")]) for j in range(2)]
        box["problems"], box["configs"] = ps, [i.obj(s, next(iter(c))[1]).segs[1][1] for c in cf]
        return i.mk_tuple(s, [E.lst(i, s, n, *cf, tag="cf"), E.lst(i, s, n, *ps, tag="ps")])

    def to_stdout(v):
        return all(t in (("attr", ("ext", "sys"), "stdout"), ("ext", "sys.stdout"), C(None)) for t in v)

    def text_of(i, x, s, n, fr):
        return i.call(frozenset([("ext", "builtins.str")]), [x], {}, s, n, fr)

    def printed(i, a, k, s, n, fr):
        if to_stdout(k.get("file", NONE)):
            for j, x in enumerate(a):
                put(s, *([k.get("sep", E.const(" "))] if j else []), text_of(i, x, s, n, fr))
            put(s, k.get("end", E.const("\n")))
            box["node"] = n
        return NONE

    def written(i, a, k, s, n, fr):
        if a and to_stdout(a[0]) and len(a) == 2:
            put(s, text_of(i, a[1], s, n, fr))
            box["node"] = n
            return NONE
        return None
    it.stubs["edulint.edulint._check_code"] = result
    it.stubs["builtins.print"] = printed
    it.stubs[".write"] = written
    it.stubs["sys.stdout.write"] = lambda i, a, k, s, n, fr: written(i, [NONE, *a], k, s, n, fr)
    it.stubs["os.path.isdir"] = lambda i, a, k, s, n, fr: E.const(E.cval(a[0]) in dirs)
    args = E.inst(it, st, f.node, "argparse.Namespace", json=E.const(as_json), files_or_dirs=E.build(it, st, f.node, given, "n"), options=E.build(it, st, f.node, [], "o"))
    av, st, exc = it.run(f, [args, S("PARSES")], st=st)
    ctx.absorb(it)
    ctx.need(box, "the check command does not obtain a result")
    out = [(v, box.get("node", f)) for k, v in st.heap[OUT].segs]
    box["sure"] = all(k == "1" for k, _ in st.heap[OUT].segs)
    for e in it.events:
        if e.kind in ("sortkey",) or e.kind == "call" and e.name in ("builtins.sorted", "builtins.reversed"):
            if any(carries(it, st, a) for a in e.args):
                ctx.bad("text", "resorted", e.node, "the problems of a result are put into another order before they are written")
    cuts(ctx, it, st, "output")
    return f, it, st, out, box


def atoms(it, st, av, out):
    """the pieces a text is put together from: constant strings, and everything else as a term"""
    if len(av) != 1:
        out.append(("?", av))
        return out
    t = next(iter(av))
    if t[0] == "c":
        out.append(str(t[2]))
    elif t[0] == "op" and t[1] in ("fstr", "str", "Add", "concat"):
        for x in t[2:]:
            atoms(it, st, x, out)
    elif t[0] == "op" and t[1] == "join":
        for i, x in enumerate(t[3:]):
            if i:
                atoms(it, st, t[2], out)
            atoms(it, st, x, out)
    elif t[0] == "pre":
        out.append(t[1])
        atoms(it, st, frozenset([t[2]]), out)
    elif t[0] == "call" and t[1] == ".join" and len(t[2]) == 2:
        segs = E.flat_segs(it, st, t[2][1])
        if segs is None or any(k != "1" for k, _ in segs):
            out.append(("?", av))
            return out
        for i, (_, x) in enumerate(segs):
            if i:
                atoms(it, st, t[2][0], out)
            atoms(it, st, x, out)
    else:
        out.append(t)
    return out


def joined(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def check(ctx):
    for name, case in CASES.items():
        for enabled in (True, False):
            text(ctx, name, case, enabled)
    for name in ("one file", "one file, nothing found", "files of the same name"):
        document(ctx, name, CASES[name])
    definition(ctx)


def text(ctx, name, case, enabled):
    given, dirs, paths = case
    f, it, st, out, box = present(ctx, False, case, enabled)
    got = joined(y for x, _ in out for y in atoms(it, st, x, []))
    where = out[0][1] if out else f
    ctx.expect(box["sure"], "text", name + ":always", where, f"not everything is written for every problem ({name})", f"{name}: unconditional")
    pos, single = 0, len(given) == 1 and not dirs
    prev = None
    labels = [x[1] for x in got if isinstance(x, tuple) and x[0] == "s"]
    for j, path in enumerate(paths):
        want = [f"p{j}.{n}" for n in TEXT] + ([f"p{j}.enabled_by"] if enabled else [])
        for n in want:
            ctx.expect(labels.count(n) == 1, "text", f"{name}:{n}", where, f"{n.split('.')[1]} of a problem is written {labels.count(n)} times, altered or not at all ({name})", f"{name}: {n}")
        idx = [got.index(("s", n)) for n in want if ("s", n) in got]
        ctx.expect(idx == sorted(idx) and (not idx or idx[0] >= pos), "text", f"{name}:{j}:order", where, f"the parts of a problem are not written in the order path, line, column, code, text, or not in result order ({name})", f"{name}: order of {j}")
        if not idx:
            continue
        before = got[idx[0] - 1] if idx[0] else ""
        before = before if isinstance(before, str) else ""
        lines = before.split("\n")
        ctx.expect(lines[-1].startswith(path), "text", f"{name}:{j}:path", where, f"a problem of {path} is written as one of {lines[-1]!r} ({name})", f"{name}: path of {j}")
        heads = [x for x in (lines[1:-1] if j else lines[:-1]) if x.strip()]
        base = path.rsplit("/", 1)[-1]
        if not single and path != prev:
            ctx.expect(len(heads) == 1 and base in heads[0], "heading", f"{name}:{j}", where, f"the problems of {path} start with {heads or 'no heading'} although several inputs are linted ({name})", f"{name}: heading of {path}")
        elif path == prev:
            ctx.expect(not heads, "heading", f"{name}:{j}:again", where, f"problems of {path} are interrupted by {heads} ({name})", f"{name}: no heading within {path}")
        if j:
            ctx.expect("\n" in before, "text", f"{name}:{j}:line", where, f"two problems are written on one line ({name})", f"{name}: a line each")
        prev, pos = path, idx[-1]
    if not paths:
        ctx.expect(not labels, "text", f"{name}:none", f, f"something is written for problems that do not exist ({name})", f"{name}: nothing")


def document(ctx, name, case):
    f, it, st, out, box = present(ctx, True, case)
    where = out[0][1] if out else f
    parts = joined(y for x, _ in out for y in atoms(it, st, x, []))
    doc = "".join(x if isinstance(x, str) else "null" for x in parts)
    try:
        json.loads(doc)
        ok = True
    except ValueError:
        ok = False
    ctx.expect(ok and bool(parts), "json-document", name, where, f"the JSON output has the form {doc.strip()[:80]!r}, which is not one JSON document", f"{name}: one document")
    terms = [t for x in parts if not isinstance(x, str) for t in (reach(it, st, x[1]) if x[0] == "?" else reach(it, st, frozenset([x])))]
    # problems: a sequence that has exactly the result's problems, in order, is part of the document
    want = [next(iter(p)) for p in box["problems"]]
    seqs = [[(k, v) for k, v in o.segs] for t in terms if t[0] == "o" for o in [it.obj(st, t[1])] if o is not None and o.kind in ("list", "tuple", "iter")]
    good = [s for s in seqs if len(s) == len(want) and all(k == "1" and w in reach(it, st, v) for (k, v), w in zip(s, want))]
    ctx.expect(bool(good), "json-problems", name, where, f"the JSON output does not have all {len(want)} problems of the result in order", f"{name}: {len(want)} problems")
    ctx.expect(box["sure"], "json-document", name + ":always", where, "the JSON output is not always written", f"{name}: unconditional")
    ins = [s for s in seqs if len(s) == 2 and all(k == "1" and (next(iter(c)) in reach(it, st, v) or any(x[0] == "s" and str(x[1]).startswith(f"VAL{j}:") for x in reach(it, st, v))) for j, ((k, v), c) in enumerate(zip(s, box["configs"])))]
    ctx.expect(bool(ins), "json-config", name + ":all", where, "the JSON output does not certainly have every configuration", f"{name}: all configurations")
    # configurations: every option's value under its name
    found = {}
    for t in terms:
        if t[0] == "o":
            collect(it, st, frozenset([t]), found)
        if t[0] == "call" and t[1] in ("json.dumps",):
            for fn in callbacks(t):
                for c in box["configs"]:
                    if any(next(iter(c)) == x for x in terms):
                        s = st.copy()
                        r = it.call(frozenset([fn]), [c], {}, s, f.node, None)
                        collect(it, s, r, found)
    for o in E.options(ctx):
        label = o.lower().replace("_", "-")
        for j in range(2):
            got = found.get(f"VAL{j}:{o}")
            ctx.expect(got == {label}, "json-config", f"{name}:{j}:{o}", where, f"the JSON output has the value of option {label} of {'the first' if j == 0 else 'another'} configuration under {sorted(map(str, got)) if got else 'no name at all'}", f"{name}: {label}")


def callbacks(t):
    """functions given to json.dumps for values it cannot represent"""
    out = []
    for x in t[2]:
        for y in (x if isinstance(x, frozenset) else [x]):
            if isinstance(y, tuple) and y and y[0] in ("kw", "op") and "default" in y:
                for z in y:
                    if isinstance(z, frozenset):
                        out += list(z)
                    elif isinstance(z, tuple) and z and isinstance(z[0], str):
                        out.append(z)
            elif isinstance(y, tuple) and y and y[0] == "default":
                out += list(y[1])
    return out


def collect(it, st, av, found):
    for t in reach(it, st, av):
        o = it.obj(st, t[1]) if t[0] == "o" else None
        if o is None or o.kind != "dict":
            continue
        for l in it.flat_layers(o, st):
            if l[0] == "kv":
                for x in l[2]:
                    if x[0] == "s" and str(x[1]).startswith("VAL"):
                        found.setdefault(x[1], set()).add(E.cval(l[1]) if E.cval(l[1]) is not None else show(l[1]))


def definition(ctx):
    """nothing about the definition of a problem leaves a field out of its JSON form"""
    c = ctx.prog.classes[P.PROBLEM]
    for n in c.node.body:
        if not (isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)):
            continue
        bad = []
        for call in ast.walk(n.value) if n.value is not None else ():
            if isinstance(call, ast.keyword) and (call.arg in ("exclude", "field_name", "letter_case", "load_only", "data_key") or call.arg == "encoder" and n.target.id != "source"):
                bad.append(call.arg)
        ctx.expect(not bad, "json-field", n.target.id, n, f"field {n.target.id} of a problem is left out of, renamed or altered in JSON output ({', '.join(bad)})", f"field {n.target.id}")
    for d in c.node.decorator_list:
        if isinstance(d, ast.Call) and any(k.arg == "letter_case" for k in d.keywords):
            ctx.bad("json-field", "class", d, "the fields of a problem are renamed in JSON output")
    for m in c.node.body:
        if isinstance(m, ast.FunctionDef) and m.name in ("to_dict", "to_json", "schema"):
            ctx.bad("json-field", m.name, m, f"Problem.{m.name} replaces the generated conversion to JSON")
    f, it, st, out, box = present(ctx, True, CASES["one file"])
    for t in (x for v, _ in out for x in reach(it, st, v)):
        if t[0] == "call" and t[1] in (".schema", ".dumps", ".dump", ".to_dict", ".asdict"):
            for a in t[2][1:] if t[1] == ".schema" else ():
                for x in a:
                    if x[0] == "o" or x[0] == "c" and isinstance(x[2], str):
                        ctx.bad("json-field", t[1], out[0][1], f"the schema for JSON output is made for only a part of the fields: {show(a)}")
