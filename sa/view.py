"""Queries over abstract values and heaps."""
from __future__ import annotations


def terms(av, out=None):
    """all terms nested in a value (heap objects not followed)"""
    out = [] if out is None else out
    if isinstance(av, frozenset):
        for t in av:
            terms(t, out)
    elif isinstance(av, tuple) and av:
        if isinstance(av[0], str):
            out.append(av)
            for x in av[1:]:
                if isinstance(x, (tuple, frozenset)):
                    terms(x, out)
        else:
            for x in av:
                if isinstance(x, (tuple, frozenset)):
                    terms(x, out)
    return out


def reach(it, st, av, out=None, seen=None):
    """all terms reachable from a value, following heap objects"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    for t in terms(av):
        if t in seen:
            continue
        seen.add(t)
        out.append(t)
        if t[0] == "o":
            o = it.obj(st, t[1])
            if o is None:
                continue
            for _, v in o.segs:
                reach(it, st, v, out, seen)
            for l in o.layers:
                for x in l[1:]:
                    if isinstance(x, frozenset):
                        reach(it, st, x, out, seen)
            for v in o.fields.values():
                if isinstance(v, frozenset):
                    reach(it, st, v, out, seen)
    return out


def objs(it, st, av):
    """direct heap objects of a value"""
    return [(t[1], it.obj(st, t[1])) for t in av if t[0] == "o" and it.obj(st, t[1]) is not None]


def fields_read(it, st, av, base):
    """attribute names of label `base` that the value is built from"""
    return {t[2] for t in reach(it, st, av) if t[0] == "attr" and ("s", base) in terms(t[1] if isinstance(t[1], frozenset) else frozenset([t[1]]))}


def has(it, st, av, term):
    return term in reach(it, st, av)


def labels(it, st, av):
    return {t[1] for t in reach(it, st, av) if t[0] == "s"} | {x for t in reach(it, st, av) if t[0] == "top" for x in t[1]}
