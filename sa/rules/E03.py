"""Downloaded explanations are used when they are whole and valid, the packaged ones otherwise."""
from ..world import World, const, body, label, cval, MISSING
from . import _bg as B
from . import _edl as E

MIN = {"selection": 20, "stored": 6, "history": 8, "interrupted": 6, "requested": 6}
GET = "edulint.explanations.get_explanations"
ASK = "edulint.edulint.get_message_explanations"
UPDATE = B.EXPLAIN
DAY = 86400
READ = ["PermissionError", "IsADirectoryError", "UnicodeDecodeError", "OSError", "MemoryError", "RecursionError", "FileNotFoundError"]


def table(name, ids=("E1", "E2")):
    return {i: {"why": frozenset([("s", f"{name} why {i}")]), "examples": frozenset([("s", f"{name} examples {i}")])} for i in ids}


def world(ctx, **kw):
    w = B.world(ctx, **kw)
    w.rest = lambda p: body("PACKAGED") if p.startswith("/site/") else MISSING
    w.parse["PACKAGED"] = table("packaged", ("E1", "E2", "E3"))
    for i in range(4):
        w.parse[f"B{i}"] = table(f"B{i}")
    w.parse["BROKEN"] = None
    w.parse["EMPTY"] = {}
    return w


def names(w, av):
    """of which table the given explanations are"""
    found = set()

    def walk(x):
        if isinstance(x, (tuple, frozenset)):
            for y in x:
                walk(y)
        elif isinstance(x, str) and (" why " in x or " examples " in x):
            found.add(x.split()[0])
    for t in av:
        o = w.it.obj(w.st, t[1]) if t[0] == "o" else None
        if o is not None and o.kind == "dict" and not w.it.flat_layers(o, w.st):
            found.add("nothing")
            continue
        walk(w.freeze(w.st, frozenset([t])) if o is not None else t)
        if o is None:
            found.add("nothing" if t == next(iter(const(None))) else "unknown")
    return found


def shown(w, disabled=True):
    av, exc = w.run(GET, [const(disabled)])
    return names(w, av) | {f"exception {e}" for e in exc}


def downloaded(ctx):
    """path of the stored explanations: the file that holds the body of the response"""
    w = world(ctx, net=lambda u: ("ok", 200, "B1"))
    w.run(UPDATE, [const(False)])
    w.done()
    ps = [p for p, v in w.files().items() if v == body("B1")]
    return ps


def check(ctx):
    f = ctx.prog.func(GET)
    up = ctx.prog.func(UPDATE)
    stored = downloaded(ctx)
    ctx.need(len(stored) == 1, "the downloaded explanations are not stored in a single file")
    path = stored[0]
    selection(ctx, f, path)
    download(ctx, f, up, path)
    interrupted(ctx, f, up)
    requested(ctx, path)


def selection(ctx, f, path):
    cases = [("missing", None, None, "packaged"), ("valid", "B1", None, "B1"), ("not TOML", "BROKEN", None, "packaged"), ("empty", "EMPTY", None, "packaged")]
    cases += [(f"not readable ({k}: {e})", "B1", (k, e), "packaged") for k in ("open", "read") for e in READ if (k, e) != ("read", "FileNotFoundError")]
    for disabled in (True, False):
        for what, text, fail, want in cases:
            w = world(ctx, net=lambda u: ("raise", "requests.exceptions.ConnectTimeout"))
            if text is not None:
                w.put(w.st, path, body(text))
            if fail:
                w.fail = lambda k, p: fail[1] if k == fail[0] and str(p) == path else None
            got = shown(w, disabled)
            w.done()
            ctx.expect(got == {want}, "selection", f"{what}:{disabled}", f, f"with a downloaded file that is {what}, the explanations given are {sorted(got)} instead of {want}", f"{what} -> {want}")


def download(ctx, f, up, path):
    """histories of downloads and what is shown after each"""
    bad = [("status", c, "ERR") for c in (404, 500, 304, 204, 301)] + [("raise", e) for e in ("requests.exceptions.ConnectTimeout", "OSError", "requests.exceptions.ChunkedEncodingError")]

    def history(key, steps):
        w = world(ctx)
        want, when = "packaged", None
        told = []
        for outcome, wait in steps:
            w.now += wait
            w.net = lambda u: outcome
            n = len(w.log)
            w.run(UPDATE, [const(False)])
            asked = when is None or w.now - when > 3600
            if w.of("request", start=n):
                when = w.now
            if asked and outcome[0] == "ok" and outcome[2].startswith("B"):
                want = outcome[2] if outcome[2] != "BROKEN" else "packaged"
            told.append(f"+{wait} s {' '.join(map(str, outcome))}")
            got = shown(w)
            what = "; ".join(told)
            ctx.expect(got == {want}, "history", what, f, f"after downloads ({what}) the explanations given are {sorted(got)} instead of {want}", what)
            held = [p for p, v in w.files().items() if v & body("ERR")]
            ctx.expect(not held, "stored", what, next((x.node for x in w.of("write") if x.more.get("data") and x.more["data"] & body("ERR")), up), f"the body of an unsuccessful response is stored ({what})", what)
        w.done()
    ok = [("ok", 200, f"B{i}") for i in range(4)]
    for i, b in enumerate(bad):
        history(i, [(ok[1], 0), (b, DAY), (ok[2], DAY)])
        history((i, 2), [(b, 0), (ok[1], DAY), (b, DAY)])
    history("many", [(ok[1], 0), (ok[2], DAY), (ok[3], DAY)])
    history("broken", [(ok[1], 0), (("ok", 200, "BROKEN"), DAY), (ok[2], DAY)])
    # nothing can be stored
    for kind in ("open", "write"):
        for exc in ("PermissionError", "OSError"):
            w = world(ctx, net=lambda u: ok[1])
            w.fail = lambda k, p: exc if k == kind and str(p).startswith("/data") else None
            w.run(UPDATE, [const(False)])
            w.fail = lambda k, p: None
            got = shown(w)
            w.done()
            ctx.expect(got <= {"packaged", "B1"}, "history", f"{kind}:{exc}", f, f"after a download that could not be stored ({exc} on {kind}) the explanations given are {sorted(got)}", f"{kind} fails with {exc}")


def interrupted(ctx, f, up):
    """the program ends, or another one reads, between any two changes of the stored files"""
    w = world(ctx, net=lambda u: ("ok", 200, "B1"))
    w.run(UPDATE, [const(False)])
    first, w.trace[:] = list(w.trace), []
    w.now += DAY
    w.net = lambda u: ("ok", 200, "B2")
    w.run(UPDATE, [const(False)])
    fresh = world(ctx)
    shown(fresh)
    packaged = {p: v for p, v in fresh.files().items() if p.startswith("/site/")}
    for n, trace, allowed in (("first", first, {"packaged", "B1"}), ("second", list(w.trace), {"B1", "B2"})):
        ctx.need(trace, "no file is written for downloaded explanations")
        for i, (files, node) in enumerate(trace):
            w.restore({**files, **packaged})
            got = shown(w)
            ctx.expect(got <= allowed, "interrupted", f"{n}:{i}", node, f"when the {n} download is interrupted here, the explanations given are {sorted(got - allowed)}, which is no complete download", f"{n} download, step {i}")
    w.done()


def fields(w, av):
    """of one explanation: what is given under which name"""
    t = next(iter(av)) if len(av) == 1 else None
    o = w.it.obj(w.st, t[1]) if t is not None and t[0] == "o" else None
    ls = w.it.flat_layers(o, w.st) if o is not None and o.kind == "dict" else ()
    return {cval(l[1]): l[2] for l in ls}


def requested(ctx, path):
    """explanations are given for the messages asked for, and for no others"""
    f = ctx.prog.func(ASK)
    for ids, want in ((None, None), ([], []), (["E1"], ["E1"]), (["E2", "E1"], ["E2", "E1"]), (["E9"], []), (["E9", "E2"], ["E2"]), (["E1", "E1"], ["E1"])):
        for text in (None, "B1"):
            w = world(ctx)
            if text:
                w.put(w.st, path, body(text))
            arg = const(None) if ids is None else E.build(w.it, w.st, f.node, ids, "ids")
            av, exc = w.run(ASK, [arg, const(True)])
            t = next(iter(av)) if len(av) == 1 else None
            o = w.it.obj(w.st, t[1]) if t is not None and t[0] == "o" else None
            keys = vals = None
            if o is not None and o.kind == "dict":
                ls = w.it.flat_layers(o, w.st)
                keys = [cval(l[1]) for l in ls if l[0] == "kv"]
                vals = {n for l in ls for n in names(w, l[2])} - {"nothing"}
                if any(l[0] != "kv" for l in ls):
                    keys = None
            src = text or "packaged"
            if ids is None:
                want = ["E1", "E2"] + ([] if text else ["E3"])
            right = keys == want and not exc and vals <= {src} and (vals == {src} or not want)
            ids_ok = right and all(fields(w, l[2]) == {n: frozenset([("s", f"{src} {n} {i}")]) for n in ("why", "examples")} for i, l in zip(want, w.it.flat_layers(o, w.st)))
            w.done()
            ctx.expect(right and ids_ok, "requested", f"{ids}:{text}", f, f"for messages {ids}, explanations of {keys} (from {sorted(vals or [])}) are given instead of {want}", f"{ids} -> {want}")
