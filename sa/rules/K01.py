"""Enabling one check works whatever other checks are enabled."""
from ._checks import Checks

MIN = {"visit-listed": 40, "reached-alone": 40, "listed-exists": 40}


def check(ctx):
    ck = Checks(ctx)
    emitted = set()
    for c, n, f, req in ck.visits:
        listed = None
        declared = {x for d in ck.own[c] for x in (d.code, d.symbol)}
        if req is not None:
            listed = set()
            for x, node in req:
                listed.add(ck.by_id[x].symbol if x in ck.by_id else x)
                ctx.expect(x in declared, "listed-exists", f"{c.name}.{n}:{x}", node,
                           f"{c.name}.{n} is only carried out when {x!r} is enabled, but {c.name} declares no such check: "
                           "the check meant here cannot cause the visit", f"{c.name}.{n}: {x}")
        pe, ev = ck.run(c, n, f)
        sites = {}
        for e in ev:
            if e.kind == "add_message" and e.data[0] in ck.by_id:
                sites.setdefault(ck.by_id[e.data[0]], {})[id(e.node)] = e
        ctx.count("visit_methods")
        for d, ss in sorted(sites.items(), key=lambda p: p[0].code):
            emitted.add(d)
            e0 = next(iter(ss.values()))
            if listed is not None and not ctx.expect(
                    d.symbol in listed, "visit-listed", f"{c.name}.{n}:{d.symbol}", e0.node,
                    f"{c.name}.{n} can report {d.symbol} (here) but is only carried out when one of {sorted(listed)} is enabled: "
                    f"enabling just {d.symbol} finds nothing", f"{c.name}.{n}: {d.symbol}"):
                continue
            if listed is None:
                ctx.ok("visit-listed", f"{c.name}.{n}: unconditional")
            pe1, ev1 = ck.run(c, n, f, enabled={d.symbol, d.code})
            alone = {id(e.node) for e in ev1 if e.kind == "add_message" and e.data[0] in (d.symbol, d.code)}
            for k, e in ss.items():
                ctx.expect(k in alone, "reached-alone", f"{c.name}.{n}:{d.symbol}:{e.func.name if e.func else ''}", e.node,
                           f"with only {d.symbol} enabled, {c.name}.{n} never gets here to report it: a test for other checks being "
                           f"enabled stands in the way ({ck.path(pe, e.func.qual, f.qual) if e.func else ''})", f"{d.symbol} from {c.name}.{n}")
    for c, ds in ck.own.items():
        for d in ds:
            ctx.expect(d in emitted or d.symbol == "noop" or len(ck.own[c]) == 0, "check-carried-out", f"{c.name}:{d.symbol}", d.node,
                       f"{d.symbol} is declared but no visit of {c.name} can report it", d.symbol)
