"""Every emitted message is declared and filled with the right number of values."""
from ._checks import Checks
from .K03 import count_placeholders

MIN = {"declared": 55, "arity": 45, "text": 60}


def check(ctx):
    ck = Checks(ctx)
    n_of = {}
    for c, ds in ck.own.items():
        for d in ds:
            n_of[d] = count_placeholders(d.text)
            ctx.expect(n_of[d] is not None, "text", f"{c.name}:{d.symbol}", d.node, f"the text of {d.symbol} is not a valid template: {d.text!r}", d.symbol)
    for c, n, f, req in ck.visits:
        ctx.count("visit_methods")
        pe, ev = ck.run(c, n, f)
        for e in ev:
            if e.kind != "add_message":
                continue
            mid, cq, arity = e.data
            where = f"{e.func.name if e.func else ''}:{mid}"
            if mid == "?":
                ctx.count("emissions with undetermined message")
                continue
            owner = next((k for k in ck.own if k.qual == cq), c)
            d = next((d for d in ck.own[owner] if mid in (d.code, d.symbol)), None)
            if not ctx.expect(d is not None, "declared", where, e.node,
                              f"{owner.name} emits {mid!r}, which it does not declare (reached by {ck.path(pe, e.func.qual, f.qual) if e.func else n})",
                              f"{owner.name}: {mid}"):
                continue
            want = n_of[d]
            if arity is None:
                ctx.count("emissions with undetermined values")
                continue
            for a in arity:
                # no values at all leaves the text as it is, which is only right when there is nothing to fill in
                ctx.expect(want is None or a == want, "arity", f"{where}:{a}", e.node,
                           f"{d.symbol} ({d.text!r}) has {want} placeholder(s) but is given {a} value(s) here "
                           f"(reached by {ck.path(pe, e.func.qual, f.qual) if e.func else n})", f"{mid}: {a}")
