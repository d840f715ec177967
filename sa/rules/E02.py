"""Version check and explanation updates can neither delay nor break a run."""
from ..world import World, const, cval, body, MISSING
from . import _bg as B
from . import _edl as E

MIN = {"background": 6, "timeout": 2, "no-escape": 40, "status": 3, "no-notice": 20, "notice": 1, "once-per-period": 6, "import": 2}
UPDATES = {"version check": B.UPDATES, "explanation update": B.EXPLAIN}
RAISED = ["requests.exceptions.ConnectTimeout", "requests.exceptions.ReadTimeout", "requests.exceptions.SSLError", "requests.exceptions.ChunkedEncodingError", "UnicodeError", "OSError", "RecursionError", "EXC?"]
MALFORMED = ["", "{", "null", "[]", "5", '"x"', "{}", '{"releases": null}', '{"releases": []}', '{"releases": {}}', '{"releases": {"1.0": null}}', '{"releases": {"1.0": [5]}}',
             '{"releases": {"zzz": [{}]}}', '{"releases": {"9.9": []}}', '{"releases": {"9.9": [{"yanked": true}]}}']
STORED = ["", "{", "null", "[]", "5", '{"edulint": null}', '{"edulint": []}', '{"edulint": {"version": 5}}', '{"edulint": {"last_update_started": "x"}}', '{"edulint": {"last_update_started": null}}', '{"other": {}}']
GOOD = '{"releases": {"9.9.9": [{"yanked": false}]}}'


def check(ctx):
    main = ctx.prog.func(B.MAIN)
    known = {}
    for name, q in UPDATES.items():
        w = B.world(ctx)
        w.run(q, [const(False)])
        w.done()
        known[name] = w.of("request")
        ctx.expect(bool(known[name]) and bool(w.of("thread")), "background", name, ctx.prog.func(q), f"the {name} makes no request in the background", name)
        for r in known[name]:
            ctx.expect(r.more["timeout"] is not None and cval(r.more["timeout"]) is not None or r.more["timeout"] is not None and r.more["timeout"] != E.const(None), "timeout", f"{name}:{r.func.qual if r.func else ''}", r.node,
                       f"the request of the {name} has no timeout", f"{name}: {r.what}")
    for cmd in B.COMMANDS:
        w = B.world(ctx)
        av, exc = B.command(w, cmd)
        w.done()
        front = [x for x in w.of("request", "sleep") if not x.thread]
        ctx.expect(not front, "background", cmd, front[0].node if front else main, f"'edulint {cmd}' waits for {front[0].what if front else ''} in its main flow", f"{cmd}: nothing in the main flow")
        joined = [x for x in w.of("join") if not x.thread]
        ctx.expect(not joined, "background", cmd + ":join", joined[0].node if joined else main, f"'edulint {cmd}' waits for a background thread", f"{cmd}: no waiting")
        quiet = B.world(ctx)
        av2, exc2 = B.command(quiet, cmd, True, True)
        quiet.done()
        broken = B.world(ctx, net=lambda u: ("raise", "OSError"))
        broken.fail = lambda kind, what: "PermissionError" if str(what).startswith("/data") else None
        av3, exc3 = B.command(broken, cmd)
        broken.done()
        ctx.expect(av == av2 == av3 and not exc and not exc3, "status", cmd, main, f"the exit status of 'edulint {cmd}' depends on its background work: {sorted(map(str, av | av2 | av3 | set(exc) | set(exc3)))}", cmd)
    for q in ("edulint.explanations.get_explanations", "edulint.edulint.get_message_explanations"):
        w = B.world(ctx)
        w.run(q)
        w.done()
        front = [x for x in w.of("request", "sleep", "join") if not x.thread]
        ctx.expect(not front, "background", q, front[0].node if front else ctx.prog.func(q), f"{q} waits for {front[0].what if front else ''} in its main flow", f"{q}: nothing in the main flow")
    escapes(ctx)
    notices(ctx)
    period(ctx, known)
    imports(ctx)


def escape(ctx, w, q, name, key, what):
    av, exc = w.run(q, [const(False)])
    w.done()
    got = {**{e: ctx.prog.func(q) for e in exc}, **w.thread_exc}
    ctx.expect(not got, "no-escape", f"{name}:{key}", next(iter(got.values()), ctx.prog.func(q)), f"{sorted(got)} leaves the {name} {what}", f"{name}: {what}")


def escapes(ctx):
    for name, q in UPDATES.items():
        for local in ("1.0.0", None):
            # whatever is called outside of the package fails with any exception
            w = B.world(ctx, raises="EXC?", net=lambda u: ("raise", "EXC?"), local=local)
            escape(ctx, w, q, name, f"any:{local}", "when anything it calls fails")
            for exc in RAISED:
                w = B.world(ctx, net=lambda u: ("raise", exc), local=local)
                escape(ctx, w, q, name, f"net:{exc}:{local}", f"when its request ends with {exc}")
        for code in (404, 500, 204):
            escape(ctx, B.world(ctx, net=lambda u: ("status", code, "ERR")), q, name, f"code:{code}", f"when the response has status {code}")
        for kind in ("open", "read", "write", "mkdir"):
            for exc in ("PermissionError", "FileNotFoundError", "OSError", "UnicodeDecodeError", "dbm.error"):
                w = B.world(ctx)
                w.fail = lambda k, what: exc if k == kind and str(what).startswith("/data") else None
                escape(ctx, w, q, name, f"{kind}:{exc}", f"when {kind} of its files ends with {exc}")
        for text in MALFORMED:
            w = B.world(ctx, net=lambda u: ("ok", 200, const(text)))
            w.it.concrete = True
            escape(ctx, w, q, name, f"body:{text}", f"when the response is {text!r}")
        for text in STORED:
            for local in ("1.0.0", None):
                w = B.world(ctx, local=local)
                w.it.concrete = True
                w.run(q, [const(False)])
                for p, v in w.files().items():
                    if p.startswith("/data/") and not any(t[0] == "pre" for t in v):
                        w.put(w.st, p, const(text))
                w.thread_exc.clear()
                w.now += 10000
                escape(ctx, w, q, name, f"stored:{text}:{local}", f"when what it stored is {text!r}")


def notice(w):
    return any(e.kind == "call" and e.name.startswith("loguru.logger.") and e.name.split(".")[-1] in ("warning", "error", "critical", "info", "success") for e in w.it.events)


def told(w, q):
    """runs a version check -> is anything told to the user, and is that certain"""
    w.it.events.clear()
    w.it._evindex.clear()
    w.run(q, [const(False)])
    return notice(w)


def notices(ctx):
    q = B.UPDATES
    f = ctx.prog.func(q)

    def none(w, key, what):
        w.done()
        ctx.expect(not told(w, q), "no-notice", key, f, f"an update is announced although {what}", what)
    for exc in RAISED:
        w = B.world(ctx, net=lambda u: ("raise", exc))
        none(w, f"net:{exc}", f"no version was ever learned (the request ended with {exc})")
        w.now += 5
        none(w, f"net:{exc}:again", f"no version was ever learned (the request ended with {exc} shortly before)")
    for text in MALFORMED:
        w = B.world(ctx, net=lambda u: ("ok", 200, const(text)))
        w.it.concrete = True
        none(w, f"body:{text}", f"the response {text!r} names no released version")
        w.now += 5
        none(w, f"body:{text}:again", f"the response {text!r} named no released version shortly before")
    w = B.world(ctx, net=lambda u: ("ok", 200, const(GOOD)), local="9.9.9")
    none(w, "same", "the installed version is the newest one")
    w.now += 5
    none(w, "same:again", "the installed version is the newest one, as found shortly before")
    w = B.world(ctx, net=lambda u: ("ok", 200, const(GOOD)), local=None)
    none(w, "unknown", "the installed version is not known")
    w = B.world(ctx, net=lambda u: ("ok", 200, const(GOOD)), local="1.0.0")
    got = told(w, q)
    w.now += 5
    again = told(w, q)
    w.done()
    ctx.expect(got or again, "notice", "newer", f, "an update is never announced", "a newer version is announced")


def period(ctx, known):
    """attempts are not repeated within a short time, whatever their outcome"""
    for name, q in UPDATES.items():
        for what, net in (("success", ("ok", 200, const(GOOD))), ("failure", ("raise", "requests.exceptions.ConnectTimeout")), ("an error status", ("status", 404, "ERR")), ("malformed data", ("ok", 200, const("{")))):
            w = B.world(ctx, net=lambda u: net)
            w.run(q, [const(False)])
            n = len(w.log)
            w.now += 60
            w.run(q, [const(False)])
            again = w.of("request", start=n)
            ctx.expect(not again, "once-per-period", f"{name}:{what}", again[0].node if again else ctx.prog.func(q), f"the {name} repeats its request a minute after {what}", f"{name} after {what}")
            n = len(w.log)
            w.now += 86400
            w.run(q, [const(False)])
            ctx.expect(bool(w.of("request", start=n)), "once-per-period", f"{name}:{what}:later", ctx.prog.func(q), f"the {name} makes no request a day after {what}", f"{name} a day after {what}")
            w.done()


def imports(ctx):
    """loading the modules concerned does not fail when directories cannot be created"""
    mods = {ctx.prog.func(q).module.name for q in UPDATES.values()} | {"edulint.config.file_config", "edulint.versions.version_checker"}
    from ..absint import Frame
    for name in sorted(mods):
        m = ctx.prog.modules[name]
        w = B.world(ctx)
        w.fail = lambda kind, what: "PermissionError"
        w.it.sinks.append({})
        w.it.exec_block([s for s in m.tree.body if not E.is_main_guard(s)], w.st, Frame(None, ("m", m.name), m))
        exc = w.it.sinks.pop()
        w.done()
        ctx.expect(not exc, "import", name, m.tree.body[0], f"loading {name} ends with {sorted(exc)} when the user's directory cannot be used", name)
