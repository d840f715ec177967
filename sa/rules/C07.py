"""The cache of remote configurations serves whole downloads of the requested URL only."""
from ..absint import C
from ..world import World, const, body, label, cval

MIN = {"served": 100, "request": 100, "stored": 20, "interrupted": 12, "unusable-cache": 12}
LOAD = "edulint.config.file_config.load_toml_file"
MIN_, DAY = 60, 86400
FRESH, STALE = 4 * MIN_, 6 * MIN_
U, V = "https://example.org/a.toml", "https://example.org/b.toml"
FAILURES = [("status", 404, "ERR"), ("status", 500, "ERR"), ("status", 301, "ERR"), ("status", 204, "ERR"), ("raise", "requests.exceptions.ConnectTimeout"),
            ("raise", "requests.exceptions.ReadTimeout"), ("raise", "requests.exceptions.SSLError"), ("raise", "requests.exceptions.TooManyRedirects")]
# URLs whose copies must not be mistaken for each other
PAIRS = [(U, V), (U, "http://example.org/a.toml"), (U, "https://example.org/x/a.toml"), (U, "https://example.com/a.toml"), (U, U + "?v=1"), (U + "?v=1", U + "?v=2"),
         (U, U + "#x"), (U, "https://example.org/A.toml"), (U, "https://example.org/a"), ("https://example.org/a/b.toml", "https://example.org/a_b.toml"),
         ("https://example.org/" + "x" * 300 + "1", "https://example.org/" + "x" * 300 + "2"), (U, U + ".metadata"), ("https://example.org/é", "https://example.org/è"),
         ("https://example.org/a b", "https://example.org/a%20b")]


class Cache:
    """what is promised: last successful download of each URL and when it was made"""

    def __init__(self):
        self.got = {}


def load(w, url, outcome):
    """loads a configuration with the network in a given state -> (labels of what is returned, requests made)"""
    w.net = lambda u: outcome
    for x in outcome[1:]:
        if isinstance(x, str):
            w.parse[x] = frozenset([("s", "PARSED " + x)])
    n = len(w.log)
    av, exc = w.run(LOAD, [const(url)])
    names = {("none" if t == C(None) else t[1][7:] if t[0] == "s" and str(t[1]).startswith("PARSED ") else "?") for t in av}
    names |= {"exception " + e for e in exc}
    return names, w.of("request", start=n)


def check(ctx):
    f = ctx.prog.func(LOAD)
    for fail in FAILURES:
        history(ctx, f, [(U, ("ok", 200, "B1"), 0), (U, fail, FRESH)])
        history(ctx, f, [(U, ("ok", 200, "B1"), 0), (U, fail, STALE), (U, fail, DAY)])
        history(ctx, f, [(U, fail, 0), (U, fail, 10), (U, ("ok", 200, "B1"), 10), (U, fail, DAY)])
        history(ctx, f, [(V, ("ok", 200, "B1"), 0), (U, fail, 10)])
    ok = [("ok", 200, f"B{i}") for i in range(4)]
    history(ctx, f, [(U, ok[0], 0), (U, ok[1], 1), (U, ok[1], 200), (U, ok[1], 200), (U, FAILURES[0], 10)])
    history(ctx, f, [(U, ok[0], 0), (U, ok[1], STALE), (U, FAILURES[4], FRESH), (U, FAILURES[4], STALE), (U, ok[2], 10)])
    history(ctx, f, [(U, ok[0], 0), (U, ok[1], 3 * DAY), (U, FAILURES[4], DAY)])
    for a, b in PAIRS:
        for one, two in ((a, b), (b, a)):
            history(ctx, f, [(one, ok[0], 0), (two, ok[1], 10), (one, FAILURES[0], 10), (two, FAILURES[4], 10), (one, FAILURES[4], DAY), (two, FAILURES[0], 10)])
            history(ctx, f, [(one, ok[0], 0), (two, FAILURES[4], 10)])
    for a, b in PAIRS[:4]:
        history(ctx, f, [(a, ok[0], 0), (b, ok[1], DAY), (a, ok[2], 10), (b, ok[3], 10)])
    interrupted(ctx, f)
    unusable(ctx, f)


def history(ctx, f, steps):
    w = World(ctx)
    want = {}
    told = []
    for url, outcome, wait in steps:
        w.now += wait
        told.append(f"{'+' + str(wait) + ' s ' if wait else ''}{url[:60]} {' '.join(map(str, outcome))}")
        what = "; ".join(told)
        got, requests = load(w, url, outcome)
        when, last = want.get(url, (None, None))
        fresh = when is not None and w.now - when <= FRESH
        if fresh:
            expected = last
        elif outcome[0] == "ok":
            expected = outcome[2]
            want[url] = (w.now, expected)
        else:
            expected = last if last is not None else "none"
        ctx.expect(got == {expected}, "served", what, requests[0].node if requests else f, f"after {what}, {sorted(got)} is given instead of {expected}", what)
        urls = [r.what for r in requests]
        ctx.expect(urls == ([] if fresh else [url]), "request", what, requests[0].node if requests else f,
                   f"{urls} is requested although {'a recent copy of it is stored' if fresh else 'only ' + url + ' is asked for and no recent copy is stored'} ({what})", what)
        for r in requests:
            t = cval(r.more["timeout"]) if r.more["timeout"] is not None else None
            ctx.expect(t is not None and not isinstance(t, bool), "timeout", "get", r.node, "the request of a remote configuration has no timeout", "timeout")
    err = [p for p, v in w.files().items() if mentions(v, "ERR")]
    ctx.expect(not err, "stored", "; ".join(told), next((x.node for x in w.of("write") if mentions(x.more.get("data"), "ERR")), f), "the body of an unsuccessful response is stored", "; ".join(told))
    w.done()


def mentions(x, name):
    if isinstance(x, (tuple, frozenset)):
        return any(mentions(y, name) for y in x)
    return x == name


def interrupted(ctx, f):
    """a run ends, or another one reads, between any two changes of the stored files"""
    w = World(ctx)
    load(w, U, ("ok", 200, "B1"))
    first, w.trace[:] = list(w.trace), []
    w.now += DAY
    load(w, U, ("ok", 200, "B2"))
    for n, trace, allowed in (("first", first, {"none", "B1"}), ("second", list(w.trace), {"none", "B1", "B2"})):
        ctx.need(trace, "no file is written for a downloaded configuration")
        for i, (files, node) in enumerate(trace):
            for wait in (1, STALE, DAY):
                for outcome in (("raise", "requests.exceptions.ConnectTimeout"), ("status", 404, "ERR")):
                    w.restore(files)
                    start = w.now
                    w.now += wait
                    got, _ = load(w, U, outcome)
                    w.now = start
                    ctx.expect(got <= allowed, "interrupted", f"{n}:{i}:{wait}", node,
                               f"when the {n} download is interrupted here, {sorted(got - allowed)} is given {wait} s later, which is not a complete download", f"{n} download, step {i}, {wait} s later")
    w.done()


def unusable(ctx, f):
    """a cache that cannot be used does not keep a configuration from being downloaded"""
    for kind in ("open", "read", "write", "mkdir"):
        for exc in ("PermissionError", "OSError"):
            w = World(ctx)
            w.fail = lambda k, what, kind=kind, exc=exc: exc if k == kind else None
            got, r = load(w, U, ("ok", 200, "B1"))
            ctx.expect(got == {"B1"}, "unusable-cache", f"{kind}:{exc}", r[0].node if r else f, f"a downloaded configuration is not given when the cache fails with {exc} on {kind}: {sorted(got)}", f"{kind} {exc}")
            w.done()
    w = World(ctx)
    load(w, U, ("ok", 200, "B1"))
    stored = w.files()
    for p in stored:
        for what, bad in (("empty", const("")), ("gone", None), ("not JSON", const("{x")), ("not a record", const("[]")), ("incomplete", const("{}")), ("null", const("null"))):
            if any(t[0] == "pre" for t in stored[p]) and what not in ("empty", "gone"):
                continue        # not a record
            w.restore({q: (bad if q == p else v) for q, v in stored.items() if q != p or bad is not None})
            got, r = load(w, U, ("ok", 200, "B2"))
            ctx.expect(got <= {"B1", "B2"}, "unusable-cache", f"{what}:{'copy' if any(t[0] == 'pre' for t in stored[p]) else 'record'}", f, f"a stored file that is {what} makes loading give {sorted(got)}", f"{what}")
    w.done()
