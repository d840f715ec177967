"""The flags that switch version check and explanation updates off prevent their requests."""
import ast
from ..world import const, cval, label
from . import _bg as B
from . import _edl as E

MIN = {"off": 12, "separate": 12, "flag": 8, "no-request": 3, "site": 3, "on": 2}
NETWORK = ("requests.", "urllib.request.", "urllib3.", "http.client.", "httpx.", "aiohttp.", "socket.", "ftplib.", "smtplib.", "xmlrpc.client.")


def check(ctx):
    f = ctx.prog.func(B.MAIN)
    version, expl = B.network_kinds(ctx)
    vu, eu = ({x.what for x in version}, {x.what for x in expl})
    ctx.expect(bool(vu) and not vu & eu, "on", "version", ctx.prog.func(B.UPDATES), "the version check requests nothing, or what the update of explanations requests", "version check")
    ctx.expect(bool(eu), "on", "explanations", ctx.prog.func(B.EXPLAIN), "the update of explanations requests nothing", "explanations")
    seen = []
    for cmd in B.COMMANDS:
        for dv in (False, True):
            for du in (False, True):
                for ids in (("E1",), ("all",)) if cmd == "explain" else ((),):
                    w = B.world(ctx)
                    B.command(w, cmd, dv, du, ids=ids)
                    w.done()
                    req = w.of("request")
                    seen += req
                    key = f"{cmd} {' '.join(ids)}{' --disable-version-check' if dv else ''}{' --disable-explanations-update' if du else ''}"
                    if dv:
                        bad = [x for x in req if x.what not in eu]
                        ctx.expect(not bad, "off", key + ":v", bad[0].node if bad else f, f"'edulint {key}' requests {[x.what for x in bad]}", key)
                    if du:
                        bad = [x for x in req if x.what not in vu]
                        ctx.expect(not bad, "off", key + ":e", bad[0].node if bad else f, f"'edulint {key}' requests {[x.what for x in bad]}", key)
                    bad = [x for x in req if x.what not in vu | eu]
                    ctx.expect(not bad, "separate", key, bad[0].node if bad else f, f"'edulint {key}' requests {[x.what for x in bad]}", key)
    seen += version + expl
    api(ctx, seen)
    flags(ctx)
    sites(ctx, seen)


def api(ctx, seen):
    """functions of the programming interface"""
    for q, args, kw in (("edulint.edulint.get_message_explanations", [E.const(None), const(True)], {}), ("edulint.edulint.get_message_explanations", [E.const(None)], {"disable_explanations_update": const(True)}),
                        ("edulint.explanations.get_explanations", [const(True)], {})):
        w = B.world(ctx)
        w.run(q, args, kw)
        w.done()
        req = w.of("request")
        ctx.expect(not req, "no-request", f"{q}:{len(kw)}", req[0].node if req else ctx.prog.func(q), f"{q} requests {[x.what for x in req]} although updates are disabled", q)
    # a run with packaged configuration: everything but the linters themselves
    w = B.world(ctx)
    w.it.max_rec = 6
    w.put(w.st, "/w/a.py", E.const("x = 1\n"))
    for n in ("default", "empty"):
        w.parse[f"FILE:/site/edulint/config/files/{n}.toml"] = {}
    w.it.stubs["edulint.linting.linting.lint_many"] = lambda i, a, k, s, n, fr: E.lst(i, s, n)
    w.it.stubs[E.CONF + ".extract_args"] = lambda i, a, k, s, n, fr: E.build(i, s, n, [], "in")
    f = ctx.prog.func("edulint.edulint.check_code")
    w.run(f, [E.build(w.it, w.st, f.node, ["a.py"], "f")])
    w.done()
    req = w.of("request")
    seen += req
    ctx.expect(not req, "no-request", "check_code", req[0].node if req else f, f"checking files requests {[x.what for x in req]}", "check_code")


def flags(ctx):
    """both flags are understood by every command and end up where they are read"""
    f = ctx.prog.func("edulint.edulint.setup_argparse")
    it = ctx.interp(unknown_raises=None)
    it.generic = True
    op, st = E.parses(ctx, it, it.new_state())
    parsers = {}

    def new(i, a, k, s, n, fr):
        return i.alloc(s, E.Obj("inst", "argparse.ArgumentParser", {"parents": k.get("parents", E.EMPTY), "cmd": E.const(None)}), n, ("parser", n.lineno))

    def of(i, av, s):
        t = next(iter(av)) if len(av) == 1 else None
        o = i.obj(s, t[1]) if t is not None and t[0] == "o" else None
        return (t, o) if o is not None and o.kind == "inst" and o.cls == "argparse.ArgumentParser" else (None, None)

    def sub(i, a, k, s, n, fr):
        return i.alloc(s, E.Obj("inst", "argparse.Subparsers", {}), n, "sub")

    def add_parser(i, a, k, s, n, fr):
        return i.alloc(s, E.Obj("inst", "argparse.ArgumentParser", {"parents": k.get("parents", E.EMPTY), "cmd": a[1] if len(a) > 1 else E.EMPTY}), n, ("cmd", str(a[1:])))
    options = {}

    def add(i, a, k, s, n, fr):
        t, o = of(i, a[0], s)
        if o is None:
            return None
        names = [cval(x) for x in a[1:]]
        options.setdefault(t, []).append((names, k, n))
        return E.NONE
    it.stubs["argparse.ArgumentParser"] = new
    it.stubs[".add_subparsers"] = sub
    it.stubs[".add_parser"] = add_parser
    it.stubs[".add_argument"] = add
    it.stubs[".add_argument_group"] = it.stubs[".add_mutually_exclusive_group"] = lambda i, a, k, s, n, fr: a[0]
    it.run(f, [op], st=st)
    ctx.absorb(it)
    end = st
    cmds = {}
    for oid, o in end.heap.items():
        if o.kind == "inst" and o.cls == "argparse.ArgumentParser" and cval(o.fields["cmd"]) in B.COMMANDS:
            cmds[cval(o.fields["cmd"])] = ("o", oid)
    for cmd in B.COMMANDS:
        if cmd not in cmds:
            ctx.broken(f"no parser is defined for the command {cmd}")
        have = list(options.get(cmds[cmd], []))
        for t in it.obj(end, cmds[cmd][1]).fields["parents"]:
            segs = it.obj(end, t[1]).segs if t[0] == "o" and it.obj(end, t[1]) is not None else ()
            for _, p in segs:
                for x in p:
                    have += options.get(x, [])
        for flag in ("--disable-version-check", "--disable-explanations-update"):
            got = [(names, k, n) for names, k, n in have if flag in names]
            ctx.expect(len(got) == 1, "flag", f"{cmd}:{flag}", f, f"'edulint {cmd}' does not understand {flag}", f"{cmd} {flag}")
            for names, k, n in got:
                long = next((x for x in names if x.startswith("--")), names[0]).lstrip("-").replace("-", "_")
                dest = cval(k["dest"]) if "dest" in k else long
                ctx.expect(cval(k.get("action", E.EMPTY)) == "store_true" and dest == flag[2:].replace("-", "_") and cval(k.get("default", E.const(False))) in (False, None), "flag", f"{cmd}:{flag}:meaning", n,
                           f"{flag} does not set {flag[2:].replace('-', '_')} when it is given, and only then", f"{cmd} {flag} sets its value")


def sites(ctx, seen):
    """network functions are used where the interpreted commands and configuration files use them, and nowhere else"""
    known = {x.func.qual for x in seen if x.func}
    w = B.world(ctx)
    w.run("edulint.config.file_config.load_toml_file", [const("https://h/x")])
    w.done()
    known |= {x.func.qual for x in w.of("request") if x.func}
    found = 0
    for m in ctx.prog.modules.values():
        if m.name.startswith("edulint.prepare_explanations"):
            continue
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            r = ctx.prog.resolve_expr(m, n.func)
            if r is None or r[0] != "ext" or not r[1].startswith(NETWORK):
                continue
            if r[1].split(".")[-1] in ("quote", "urlparse", "gethostname") or r[1].startswith("requests.exceptions"):
                continue
            fn = ctx.prog.enclosing_func(n)
            found += 1
            ctx.expect(fn is not None and fn.qual in known, "site", f"{m.name}:{fn.qual if fn else ''}", n, f"{r[1]} is called {'in ' + fn.qual if fn else 'when a module is loaded'}, not by version check, explanation update or loading of remote configuration", f"{r[1]} in {fn.qual if fn else m.name}")
