"""C11: unifying by abbreviated names conserves all sizes."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
from vg import *

RULE = ('value-graph analysis of memorymap.unify: for an arbitrary memory type and an arbitrary chain of names, the entry '
        'present at each level of the result must exist exactly when some original entry has these abbreviated names, '
        'and its size and size_diff must be the closed-form sum over all such original entries; memory type fields and '
        'the map header must keep their values.')


def check(c):
    P = Project()
    shapes(c, P)
    node = P.func('memorymap', 'unify')
    M = T('param', 'memory_map')
    facts = mm.facts(M)
    h = {}

    def start():
        E, v, _ = run(P, 'memorymap', 'unify', positional=[M], facts=facts)
        h.update(E=E)
        c.counts.update(loops=E.stats['loops'], effects=E.stats['events'], functions=sorted(E.stats['functions']))
    if not c.group('analyse', 'value graph of memorymap.unify', start):
        return
    E = h['E']
    where = loc(P, node)
    m = P.func_module(node)
    K = T('param', 'K1')
    i = lambda r, f: T('idx', r, const(f))
    A = [T('param', f'A{n}') for n in range(5)]
    mt0 = T('idx', i(M, 'memory_types'), K)
    g0 = batom(T('in', K, i(M, 'memory_types')))

    for f in ('version', 'target', 'image_size', 'image_size_diff', 'project_path'):
        c.ob(f'map.{f}', 'header field unchanged',
             lambda f=f: verdict(lookup(E, M, const(f), BT, m), i(M, f), BT, facts, c.seed, E=E, what=f), where)
    cont = {}

    def types():
        cont['mt'] = lookup(E, M, const('memory_types'), BT, m)
        return vguard(E.contains(K, cont['mt'], St({}, BT)), g0, BT, facts, c.seed, E=E, what='memory type present')
    c.ob('types.present', 'exactly the original memory types remain', types, where)
    if 'mt' not in cont:
        return
    o = lookup(E, cont['mt'], K, g0, m)
    for f in ('size', 'size_diff', 'used', 'used_diff'):
        c.ob(f'type.{f}', 'memory type figures unchanged',
             lambda f=f: verdict(lookup(E, o, const(f), g0, m), i(mt0, f), g0, facts, c.seed, E=E, what=f), where)

    def chain(n, leaf):
        """Nested quantification over original entries whose abbreviated names are A1..An."""
        def rec(lv, par, conds):
            dom = i(par, mm.LEVELS[lv])

            def body(k):
                e = T('idx', dom, k)
                g = band(conds, E.eq(A[lv], i(e, 'abbrev_name')))
                if lv == n:
                    return leaf(g, e)
                return rec(lv + 1, e, g)
            return dom, body
        return rec

    def expect_sum(n, f):
        def rec(lv, par, conds):
            dom = i(par, mm.LEVELS[lv])

            def body(k):
                e = T('idx', dom, k)
                g = band(conds, E.eq(A[lv], i(e, 'abbrev_name')))
                if lv == n:
                    return g, i(e, f)
                return BT, rec(lv + 1, e, g)
            return Sum(dom, body)
        return rec(1, mt0, BT)

    def expect_ex(n):
        def rec(lv, par, conds):
            dom = i(par, mm.LEVELS[lv])

            def body(k):
                e = T('idx', dom, k)
                g = band(conds, E.eq(A[lv], i(e, 'abbrev_name')))
                if lv == n:
                    return g
                return batom(rec(lv + 1, e, g))
            return Ex(dom, body)
        return batom(rec(1, mt0, BT))

    def unseen(a):
        return BF if a.op == 'inmu' else batom(a)

    g = g0
    for n in range(1, 5):
        lv = mm.LEVELS[n]
        st = {}

        def pres():
            st['d'] = lookup(E, o, const(lv), g, m)
            st['p'] = E.contains(A[n], st['d'], St({}, g))
            return vguard(st['p'], expect_ex(n), g, facts, c.seed, E=E, what=f'{lv} entry present')
        c.ob(f'{lv}.present', 'an entry exists exactly for the abbreviated names of original entries', pres, where)
        if 'p' not in st:
            return
        gp, g = g, band(g, expect_ex(n))
        o2 = {}

        def ent():
            o2['o'] = lookup(E, st['d'], A[n], g, m)
            return verdict(lookup(E, o2['o'], const('abbrev_name'), g, m), A[n], g, facts, c.seed, E=E, what='abbrev_name')
        c.ob(f'{lv}.abbrev_name', 'entry is found under its abbreviated name', ent, where)
        if 'o' not in o2:
            return
        o = o2['o']
        if n < 4:
            def below(o=o, n=n, g=gp):
                p = E.contains(const(mm.LEVELS[n + 1]), o, St({}, g))
                # an entry is set up for the first of its originals, so 'not set up before' holds for one of them
                first = {}
                for t in {t for a in tm.batoms(p) for t in subterms(a)}:
                    if t.op == 'ex':
                        first[t] = T('ex', t.args[0], tm.bmap(t.args[1], unseen), *t.args[2:])
                for t in sorted(first, key=lambda t: len(show(t))):
                    q = tm.replace(p, {t: first[t]})
                    if vguard(q, expect_ex(n), g, facts, c.seed, E=E)[0] == PROVED:
                        return PROVED, f'{lv} entries are created with {mm.LEVELS[n + 1]}'
                return vguard(p, expect_ex(n), g, facts, c.seed, E=E, what=f'{lv} entry has {mm.LEVELS[n + 1]}')
            c.ob(f'{lv}.children', 'every entry above the symbols has its own table of children', below, where)
        for f in ('size', 'size_diff'):
            c.ob(f'{lv}.{f}', 'sum over all original entries with these abbreviated names',
                 lambda f=f: verdict(lookup(E, o, const(f), g, m), expect_sum(n, f), g, facts, c.seed, E=E, what=f'{lv}.{f}'),
                 where)


def shapes(c, P):
    """Small maps with unknown sizes and differences whose entries share abbreviated names."""
    import small
    f = small.function(P, 'memorymap', 'unify')
    where = loc(P, P.func('memorymap', 'unify'))

    def compare(I, got, orig, lv, what):
        """orig: the tables of children to merge"""
        groups = {}
        for d in orig:
            for e in d.values():
                groups.setdefault(e['abbrev_name'], []).append(e)
        small.keys(got, groups, what)
        for k, es in groups.items():
            w = {'abbrev_name': k}
            for g in ('size', 'size_diff'):
                v = 0
                for e in es:
                    v = small.nadd(v, e[g])
                w[g] = v
            small.fields(I, got[k], w, f'{what}/{k}')
            if lv < 4:
                nx = small.LEVELS[lv + 1]
                if nx not in got[k]:
                    raise small.Bad(f'{what}/{k} has no {nx}')
                compare(I, got[k][nx], [e[nx] for e in es], lv + 1, f'{what}/{k}')

    def short(lv, x):
        return x.split('-')[0]
    for name, spec in (('two names for one', {'T': small.several(('a-1', 'a-2'), 4)}), ('apart', {'T': small.several(('a', 'b'), 4), 'U': small.several(('a',), 4)}),
                       ('mixed', small.mixed()), ('swapped', {'T': small.several(('b-1', 'a', 'b-2'), 4)}),
                       ('deep', {'T': {'s-1': {'x-1': {'o-1': {'f': {}}, 'o-2': {'f': {}, 'g': {}}}}, 's-2': {'x-2': {'o-3': {'g': {}}}, 'x-3': {'p': {'f': {}}}}}})):
        def body(I, spec=spec):
            x = small.build(I, spec, 'map', diffs=True, abbrev=short)
            x0 = small.clone(x)
            I.call(f, [x], {})
            for k in x0:
                if k != 'memory_types':
                    small.equal(I, x.get(k), x0[k], k)
            small.keys(x['memory_types'], x0['memory_types'], 'memory types')
            for k, t in x0['memory_types'].items():
                small.fields(I, x['memory_types'][k], {g: t[g] for g in ('size', 'size_diff', 'used', 'used_diff')}, k)
                compare(I, x['memory_types'][k]['sections'], [t['sections']], 1, k)
        small.ob(c, P, f'shape.{name}', 'aggregation of small maps with unknown sizes', where, body)


if __name__ == '__main__':
    main('C11', RULE, check, floor=20, assumptions=['the argument has the documented memory map structure'])
