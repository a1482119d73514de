"""C05: comparing two memory maps changes neither of them."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import own
from report import main
from vg import *

RULE = ('ownership analysis of memorymap.diff and everything it calls: no store, deletion, append or in-place sort may '
        'have a target that belongs to an argument, and every dictionary reachable in the result (each level, for '
        'entries of either or both arguments) must be an object created by diff itself.')


def check(c):
    P = Project()
    shapes(c, P)
    node = P.func('memorymap', 'diff')
    cur, ref = T('param', 'cur'), T('param', 'ref')
    facts = mm.facts(cur, ref)
    h = {}

    def start():
        E, v, _ = run(P, 'memorymap', 'diff', positional=[cur, ref], facts=facts)
        h.update(E=E, v=v)
        c.counts.update(loops=E.stats['loops'], effects=E.stats['events'], functions=sorted(E.stats['functions']))
    if not c.group('analyse', 'effects of memorymap.diff', start):
        return
    E, v = h['E'], h['v']
    where = loc(P, node)
    m = P.func_module(node)

    def pure():
        bad, unk, tot = own.stores_into(E, (cur, ref))
        c.counts['stores'] = tot
        if bad:
            e = bad[0]
            return REFUTED, f'{e.kind} into {cut(show(e.obj))} which belongs to an argument of diff', \
                f'{m.path}:{getattr(e.node, "lineno", "?")} {e.fn}'
        ops = [e for e, _ in E.events(('opaque',)) if True]
        if unk or ops:
            return UNKNOWN, f'store with unknown owner: {cut((unk or ops)[0])}'
        if tot < 1:
            return UNKNOWN, 'no stores seen'
        return PROVED, f'{tot} stores, all into objects created by diff'
    c.ob('stores', 'no store into an argument', pure, where)

    def owned(o, what):
        alts = own.roots(E, E.canon(o))
        st = PROVED
        for g, r, x in alts:
            if r in (cur, ref):
                return REFUTED, f'{what} of the result is {cut(show(x))}, an object of an argument'
            if r.op != 'new' and r.op != 'missing':
                st = UNKNOWN
        return st, f'{what}: {cut(show(o), 200)}'

    c.ob('result', 'the result is a new object', lambda: owned(v, 'result'), where)
    for who in ('both', 'cur', 'ref'):
        o = v
        for n in range(0, 5):
            gc, gr = mm.present(cur, n + 1), mm.present(ref, n + 1)
            g = {'both': band(gc, gr), 'cur': band(gc, bnot(gr)), 'ref': band(gr, bnot(gc))}[who]

            def step(n=n, g=g):
                nonlocal o
                x = lookup(E, o, const(mm.LEVELS[n]), g, m)
                r = owned(x, mm.LEVELS[n])
                y = lookup(E, x, T('param', f'K{n + 1}'), g, m)
                o = y
                r2 = owned(y, f'entry of {mm.LEVELS[n]}')
                for z in (r, r2):
                    if z[0] != PROVED:
                        return z
                return r2
            c.ob(f'{mm.LEVELS[n]}/{who}', 'result shares no dictionary with an argument', step, where)


def shapes(c, P):
    """Small maps with unknown sizes: the arguments afterwards, and the dictionaries of the result."""
    import small
    f = small.function(P, 'memorymap', 'diff')
    where = loc(P, P.func('memorymap', 'diff'))
    for name, order in small.ORDERS.items():
        def body(I, order=order):
            a, b = small.union(order)
            cur, ref = small.build(I, a, 'current'), small.build(I, b, 'reference')
            c0, r0 = small.clone(cur), small.clone(ref)
            d = I.call(f, [cur, ref], {})
            small.equal(I, cur, c0, 'the first argument')
            small.equal(I, ref, r0, 'the second argument')
            x = small.containers(d)
            for who, y in (('first', small.containers(cur)), ('second', small.containers(ref))):
                for i in x:
                    if i in y:
                        raise small.Bad(f'the result holds the dictionary of {sorted(map(str, x[i]))[:4]} of the {who} argument')
        small.ob(c, P, f'shape.{name}', 'difference of small maps leaves them alone', where, body)


if __name__ == '__main__':
    main('C05', RULE, check, floor=10, assumptions=['both arguments have the documented memory map structure',
                                                    'copy.deepcopy returns an independent copy'])
