"""Ownership rules on the effect events of the engine."""
from vg import *

MUT = ('put', 'append', 'del', 'sort', 'popitem')


def root(t):
    while t.op in ('idx', 'attr', 'items', 'keys', 'values', 'perm', 'aslist', 'slice'):
        t = t.args[0]
    return t


def roots(E, t):
    """Roots of every alternative of an object term (loop elements resolved to their collection)."""
    out = []
    for c, x in tm.cases(t, BT):
        r = root(x)
        n = 0
        while r.op == 'elem' and n < 10:
            ln = E.loops.get(r.args[0])
            if ln is None or ln.dom is None:
                break
            r = root(ln.dom)
            n += 1
        out.append((c, r, x))
    return out


def stores_into(E, params, kinds=MUT):
    """(bad, unknown, total): mutation events whose target belongs to one of the parameters."""
    bad, unk, tot = [], [], 0
    for e, ch in E.events(kinds):
        if e.obj is None:
            continue
        tot += 1
        for c, r, x in roots(E, e.obj):
            if r in params:
                if not unsat(band(e.guard, c)):
                    bad.append(e)
            elif r.op not in ('new', 'param', 'const'):
                unk.append(e)
    return bad, unk, tot
