"""Commands interpreted with their background work, in a model of files and network."""
from ..world import World, body, const, MISSING, cval
from ..absint import NONE
from . import _edl as E

MAIN = "edulint.edulint.main"
UPDATES = "edulint.edulint.check_for_updates"
EXPLAIN = "edulint.explanations.update_explanations"
COMMANDS = ("check", "explain", "version")


def world(ctx, raises=None, net=None, local="1.0.0", **kw):
    w = World(ctx, raises=raises, net=net or (lambda u: ("ok", 200, "BODY")), **kw)
    w.local_version = local
    if local is None:
        def missing(i, a, k, st, n, fr):
            i.raise_exc("pkg_resources.DistributionNotFound", st, n, "", fr)
            st.dead = True
            return E.S("none")
        w.it.stubs["pkg_resources.get_distribution"] = missing
    w.rest = lambda p: body("FILE:" + p) if p.startswith("/site/") else MISSING
    return w


def command(w, cmd, dv=False, du=False, json=False, ids=("E1",), code=NONE):
    """main() for a command line -> (exit status, escaping exceptions)"""
    def args(i, a, k, s, n, fr):
        return E.inst(i, s, n, "argparse.Namespace", command=const(cmd), json=const(json), disable_version_check=const(dv), disable_explanations_update=const(du),
                      options=E.build(i, s, n, [], "o"), files_or_dirs=E.build(i, s, n, ["a.py"], "f"), message_ids=E.build(i, s, n, list(ids), "m"))
    w.it.stubs["edulint.edulint.setup_argparse"] = args
    if code is not None:
        w.it.stubs["edulint.edulint._check_code"] = lambda i, a, k, s, n, fr: code(i, s, n) if callable(code) else code
    return w.run(MAIN)


def hosts(accesses):
    """the hosts that are contacted"""
    out = set()
    for x in accesses:
        out.add(str(x.what).split("/")[2] if isinstance(x.what, str) and str(x.what).count("/") > 2 else "?")
    return out


def network_kinds(ctx):
    """URLs requested by the version check, and by the update of explanations"""
    out = []
    for q in (UPDATES, EXPLAIN):
        w = world(ctx)
        w.run(q, [const(False)])
        w.done()
        out.append(w.of("request"))
    return out
