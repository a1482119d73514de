"""C06: every difference value is current minus reference."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
from vg import *

RULE = ('value-graph analysis of memorymap.diff: for an arbitrary entry at each level of the tree, present on the '
        'current side, on the reference side or on both, the final heap value of every field of the result must be the '
        'closed form current minus reference (missing side zero), and the entry must be present.')


def check(c):
    P = Project()
    node = P.func('memorymap', 'diff')
    cur, ref = T('param', 'cur'), T('param', 'ref')
    facts = mm.facts(cur, ref)
    holder = {}
    shapes(c, P)

    def start():
        E, v, _ = run(P, 'memorymap', 'diff', positional=[cur, ref], facts=facts)
        holder.update(E=E, D=E.canon(v))
        c.counts['loops'] = E.stats['loops']
        c.counts['effects'] = E.stats['events']
        c.counts['functions'] = sorted(E.stats['functions'])
    if not c.group('analyse', 'value graph of memorymap.diff', start):
        return
    E, D = holder['E'], holder['D']
    where = loc(P, node)

    def field(o, f, exp, g, tag):
        def go():
            return verdict(E.walk(o, const(f), 'load', St({}, g)), exp, g, facts, c.seed, E=E, what=f'{tag}.{f}')
        c.ob(f'{tag}.{f}', 'field of the difference map', go, where)

    i = lambda r, f: T('idx', r, const(f))
    field(D, 'image_size_diff', tm.sub(i(cur, 'image_size'), i(ref, 'image_size')), BT, 'map')
    field(D, 'image_size', i(cur, 'image_size'), BT, 'map')
    field(D, 'target', i(cur, 'target'), BT, 'map')
    field(D, 'target_diff', i(ref, 'target'), BT, 'map')
    field(D, 'project_path', i(cur, 'project_path'), BT, 'map')
    field(D, 'project_path_diff', i(ref, 'project_path'), BT, 'map')
    for n in range(1, 6):
        gc, gr = mm.present(cur, n), mm.present(ref, n)
        for who in ('both', 'cur', 'ref', 'none'):
            g = {'both': band(gc, gr), 'cur': band(gc, bnot(gr)), 'ref': band(gr, bnot(gc)),
                 'none': band(bnot(gc), bnot(gr))}[who]
            tag = f'{mm.LEVELS[n - 1]}/{who}'
            parent = T('idx', mm.path(D, n - 1), const(mm.LEVELS[n - 1]))
            k = T('param', f'K{n}')
            if who == 'none':
                # an entry in neither map does not appear (asked below parents that do appear)
                pg = band(bor(mm.present(cur, n - 1), mm.present(ref, n - 1)), g)

                def gone(parent=parent, k=k, pg=pg, tag=tag):
                    return vguard(E.walk(parent, k, 'in', St({}, pg)), BF, pg, facts, c.seed, what=f'{tag} present')
                c.ob(f'{tag}.absent', 'entry in neither map does not appear', gone, where)
                continue

            def pres(parent=parent, k=k, g=g, tag=tag):
                return vguard(E.walk(parent, k, 'in', St({}, g)), BT, g, facts, c.seed, E=E, what=f'{tag} present')
            c.ob(f'{tag}.present', 'entry of either map appears in the result', pres, where)
            o = mm.path(D, n)
            oc, orf = mm.path(cur, n), mm.path(ref, n)
            for f in ('size', 'used') if n == 1 else ('size',):
                cv = i(oc, f) if who != 'ref' else tm.ZERO
                rv = i(orf, f) if who != 'cur' else tm.ZERO
                field(o, f, cv, g, tag)
                field(o, f + '_diff', tm.sub(cv, rv), g, tag)
            if n > 1 and who != 'both':
                field(o, 'abbrev_name', i(oc if who != 'ref' else orf, 'abbrev_name'), g, tag)


def shapes(c, P):
    """Small maps with unknown sizes."""
    import small
    f = small.function(P, 'memorymap', 'diff')
    where = loc(P, P.func('memorymap', 'diff'))

    def compare(I, d, cur, ref, lv, what):
        small.keys(d, {**cur, **ref}, what)
        for k in d:
            x, y = cur.get(k), ref.get(k)
            w = {}
            for g in ('size', 'used') if lv == 0 else ('size',):
                v, r = x[g] if x else 0, y[g] if y else 0
                w[g], w[g + '_diff'] = v, small.nadd(v, r, -1)
            if lv:
                w['abbrev_name'] = (x or y)['abbrev_name']
            small.fields(I, d[k], w, f'{what}/{k}')
            if lv < 4:
                nx = small.LEVELS[lv + 1]
                if nx not in d[k]:
                    raise small.Bad(f'{what}/{k} has no {nx}')
                compare(I, d[k][nx], x[nx] if x else {}, y[nx] if y else {}, lv + 1, f'{what}/{k}')

    for name, order in small.ORDERS.items():
        def body(I, order=order):
            a, b = small.union(order)
            cur, ref = small.build(I, a, 'current'), small.build(I, b, 'reference')
            c0, r0 = small.clone(cur), small.clone(ref)
            d = I.call(f, [cur, ref], {})
            small.fields(I, d, {'image_size': c0['image_size'], 'image_size_diff': small.nadd(c0['image_size'], r0['image_size'], -1)}, 'the map')
            compare(I, d['memory_types'], c0['memory_types'], r0['memory_types'], 0, 'difference')
        small.ob(c, P, f'shape.{name}', 'difference of small maps with unknown sizes', where, body)


if __name__ == '__main__':
    main('C06', RULE, check, floor=50, assumptions=[
        'both arguments have the documented memory map structure (all fields present, entries non-empty dictionaries)'])
