"""Access to configuration files respects the switches for local and remote files, and packaged names stay in the package."""
import ast
from ..world import World, const, body, cval
from . import _edl as E

MIN = {"packaged": 60, "local-off": 60, "remote-off": 30, "reached": 16, "timeout": 2, "restricted": 32}
LOAD = "edulint.config.file_config.load_toml_file"
MOD = "edulint.config.file_config"
PACKAGE = "/site/edulint/config/files/"
PLAIN = ["abc", "default", "a-b_c", "A9", "_", "-", "edulint", "0"]
OTHER = ["a.toml", "./abc", "../abc", "/etc/passwd", "d/x", "d\\x", "..", ".", "~", "~/x", "a b", "é", "٣", "ａ", "a/../../b", "../../../secret", "file:///etc/passwd",
         "ftp://x/y", "x:y", "a\n", "abc/", "abc.", "%2e%2e", "..\\x", "C:\\x", "a/../abc", "…", "a+b", "abc.toml", "abc\t"]
REMOTE = ["http://h/x", "https://h/x", "http://h/../x", "https://", "HTTP://h/x", "Https://h/x", "https:/h/x", "http://abc"]


def flags(w, local, remote):
    w.it.stubs[MOD + ".ALLOW_UNRESTRICTED_LOCAL_PATHS"] = const(local)
    w.it.stubs[MOD + ".ALLOW_HTTP_S_PATHS"] = const(remote)


def accesses(ctx, name, local=True, remote=True):
    w = World(ctx)
    w.rest = lambda p: body("FILE:" + p)
    w.net = lambda u: ("ok", 200, "REMOTE")
    flags(w, local, remote)
    w.run(LOAD, [const(name)])
    w.done()
    opened = [x for x in w.of("open") if not str(x.what).startswith("/data/")]
    return opened, w.of("request"), [x for x in w.of("write", "remove") if not str(x.what).startswith("/data/")]


def check(ctx):
    f = ctx.prog.func(LOAD)
    for g in ("ALLOW_UNRESTRICTED_LOCAL_PATHS", "ALLOW_HTTP_S_PATHS"):
        ctx.need(ctx.prog.modules[MOD].names.get(g), f"the switch {g} is gone")
    for name in PLAIN + OTHER + REMOTE:
        for local in (True, False):
            for remote in (True, False):
                opened, requests, changes = accesses(ctx, name, local, remote)
                key = f"{name!r}:{'local' if local else '-'}:{'remote' if remote else '-'}"
                out = [x for x in opened if not (isinstance(x.what, str) and x.what.startswith(PACKAGE))]
                if name in PLAIN:
                    ctx.expect(not out and not requests and {x.what for x in opened} <= {PACKAGE + name + ".toml"}, "packaged", key, (out or opened or requests or [f])[0].node if (opened or requests) else f,
                               f"{name!r} names a packaged configuration, but {[x.what for x in opened + requests]} is accessed", key)
                else:
                    ctx.expect(len(out) == len(opened) or name.startswith("/site"), "packaged", key, (opened or [f])[0].node if opened else f,
                               f"{name!r} is not the name of a packaged configuration, but {[x.what for x in opened]} is opened for it", key)
                if not local:
                    ctx.expect(not out, "local-off", key, out[0].node if out else f, f"{[x.what for x in out]} is opened for {name!r} although local paths are switched off", key)
                if not remote:
                    ctx.expect(not requests, "remote-off", key, requests[0].node if requests else f, f"{name!r} is requested although remote configurations are switched off", key)
                ctx.expect(not changes, "unchanged", key, changes[0].node if changes else f, f"loading {name!r} writes {[x.what for x in changes]}", key)
                for r in requests:
                    t = r.more["timeout"]
                    ctx.expect(t is not None and t != E.const(None), "timeout", key, r.node, "a remote configuration is requested without a timeout", key)
    routes(ctx)


def routes(ctx):
    """every way of naming a file"""
    f = ctx.prog.func(E.CONF + ".get_config_many")
    names = {"a local path": "/w/conf/x.toml", "a relative path": "../conf/x.toml", "a URL": "https://h/x.toml", "another URL": "http://h/y"}
    ways = ["command line", "in-file", "configuration", "inherited"]
    for what, name in names.items():
        for opt in ("config-file", "language-file"):
            for way in ways:
                route(ctx, f, f"{opt} on {way} is {what}", name, opt, way)
    route(ctx, f, "implicit configuration", "/w/d/edulint.toml", None, "implicit")


def route(ctx, f, key, name, opt, way):
    for allowed in (True, False):
        w = World(ctx)
        w.it.max_rec = 6
        remote = name.startswith("http")
        w.put(w.st, "/w/d/f.py", body("SOURCE"))
        for p in ("/w/conf/x.toml", "/conf/x.toml"):
            w.put(w.st, p, body("LOCAL"))
        if way == "implicit":
            w.put(w.st, name, body("LOCAL"))
        for l in ("LOCAL", "REMOTE"):
            w.parse[l] = {}
        for p, data in (("default", {opt: name} if way == "configuration" and opt else {}), ("empty", {}), ("child", {"config-file": "parent"}), ("parent", {opt: name} if opt else {})):
            w.put(w.st, f"{PACKAGE}{p}.toml", body("PKG:" + p))
            w.parse["PKG:" + p] = data
        w.net = lambda u: ("ok", 200, "REMOTE")
        flags(w, allowed or remote, allowed or not remote)
        infile = [f"{opt}={name}"] if way == "in-file" else []
        cmd = [f"{opt}={name}"] if way == "command line" else ["config-file=child"] if way == "inherited" else []
        w.it.stubs[E.CONF + ".extract_args"] = lambda i, a, k, s, n, fr: E.build(i, s, n, infile, "in")
        op, w.st = E.parses(ctx, w.it, w.st)
        n = f.node
        w.run(f, [E.build(w.it, w.st, n, ["d/f.py"], "files"), E.build(w.it, w.st, n, cmd, "cmd"), op])
        w.done()
        opened = [x for x in w.of("open") if not str(x.what).startswith(("/data/", "/site/")) and x.what != "/w/d/f.py"]
        got = w.of("request") if remote else opened
        if allowed:
            ctx.expect(bool(got), "reached", key, f, f"{name} is not accessed at all ({key})", key)
        else:
            ctx.expect(not got, "restricted", key, got[0].node if got else f, f"{[x.what for x in got]} is accessed although {'remote configurations' if remote else 'local paths'} are switched off ({key})", key)
