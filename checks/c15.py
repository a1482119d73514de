"""C15: entries are hidden only as the options say."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
import linear
import pipe
from place import onbools
from vg import *

RULE = ('value-graph analysis of memorymap.get_summary_filtered, rem_summary_unchanged, trim and remove_unused: the exact condition '
        'under which an arbitrary entry of each level is kept is compared with the one the options describe, and every field of a '
        'kept entry must keep its value; the report builders must show exactly what these functions return.')

f = lambda t, k: T('idx', t, const(k))
AR = T('param', 'args')
LEVELS = ('memory_types', 'sections', 'archives', 'object_files', 'symbols')
opt = lambda k: batom(T('truthy', f(AR, k)))
KEYS = {'memory_types': ('name', 'size', 'size_diff', 'used', 'used_diff'),
        'sections': ('abbrev_name', 'size', 'size_diff'), 'archives': ('abbrev_name', 'size', 'size_diff'),
        'object_files': ('abbrev_name', 'size', 'size_diff'), 'symbols': ('abbrev_name', 'size', 'size_diff')}


def iff(c, E, a, e, g, what, facts=None):
    r = vguard(a, e, g, facts, c.seed, E=E, what=what)
    if r[0] == UNKNOWN:
        w = linear.witness(band(g, a, bnot(e))) or linear.witness(band(g, e, bnot(a)))
        if w is not None:
            return REFUTED, f'{what} holds iff {cut(show_b(a, 3))} but must hold iff {cut(show_b(e, 3))}; witness {cut(w, 200)}'
    return r


def filtered(c, P):
    node = P.func('memorymap', 'get_summary_filtered')
    m = P.func_module(node)
    where = loc(P, node)
    EN, K = T('param', 'entries'), T('param', 'entry_name')
    h = {}

    def start():
        E, v, _ = run(P, 'memorymap', node.name, positional=[EN, AR])
        h.update(E=E, v=v)
    if not c.group('filter', 'value graph of memorymap.get_summary_filtered', start):
        return
    E, v = h['E'], h['v']
    none = batom(T('isnone', f(AR, 'filter')))
    PTS = (T('param', 'pattern'), T('param', 'other_pattern'))
    ins = batom(T('in', K, EN))
    for nm, g in (('off', none), ('on', bnot(none))):
        cs = [(band(g, q), x) for q, x in tm.cases(v, g) if not tm.unsat(band(g, q))]

        def kept(nm=nm, g=g, cs=cs):
            for q, x in cs:
                have = E.contains(K, x, St({}, q))
                if nm == 'off':
                    r = iff(c, E, have, ins, q, 'kept without a filter')
                    if r[0] != PROVED:
                        return r
                    continue
                r = match(q, have)
                if r[0] != PROVED:
                    return r
            return r

        def match(q, have):
            # two arbitrary patterns stand for all: kept iff one of them matches
            mine = set()
            for a in tm.batoms(have):
                for t in subterms(a):
                    if t.op == 'elem' and t.args[0] in E.loops and pipe_base(E.loops[t.args[0]].dom) is f(AR, 'filter'):
                        mine.add(t)

            def at(a):
                if a.op == 'exists' and a.args[0] in E.loops and pipe_base(E.loops[a.args[0]].dom) is f(AR, 'filter'):
                    return bor(*[tm.replace(a.args[1], {E.mk_elem(a.args[0]): p}) for p in PTS])
                if a.op == 'ex' and a.args[0] is f(AR, 'filter') and isinstance(a.args[1], B):
                    return bor(*[tm.replace(a.args[1], {t: p for b in tm.batoms(a.args[1]) for t in subterms(b) if t.op in ('be', 'bk')})
                                 for p in PTS])
                return batom(a)
            b = tm.bmap(have, at)
            if mine:
                b = bor(*[tm.replace(b, {t: p for t in mine}) for p in PTS])
            b = tm.replace(b, {T('str', p): p for p in PTS + (K,)})
            b = lift_calls(b)
            if any(t.op in ('exists', 'ex', 'elem', 'opaque') for a in tm.batoms(b) for t in subterms(a)):
                return UNKNOWN, f'kept iff {cut(show_b(b), 200)}'

            def fm(name):
                return bor(*[batom(T('truthy', T('call', 'fnmatch.fnmatch', (name, E.cat([const('*'), p, const('*')]))))) for p in PTS])
            exp = band(ins, bor(band(opt('abbrev'), fm(f(T('idx', EN, K), 'abbrev_name'))), band(bnot(opt('abbrev')), fm(K))))
            if implies(band(q, b), exp) and implies(band(q, exp), b):
                return PROVED, f'kept iff {cut(show_b(exp), 200)} for some pattern'
            ok = all(x.op in pipe.PLAIN or x.op in ('cat', 'truthy', 'in', 'isnone', 'eq', 'eqc', 'str', 'aff', 'neg') and
                     True
                     for a in tm.batoms(b) for x in subterms(a))
            if ok:
                return REFUTED, f'kept iff {cut(show_b(b), 250)}; must be iff {cut(show_b(exp), 250)}'
            return UNKNOWN, f'kept iff {cut(show_b(b), 200)}'
        c.ob(f'filter.{nm}', 'without a filter every row is kept; otherwise those whose displayed name matches a pattern anywhere',
             kept, where)

        def values(nm=nm, cs=cs):
            r = UNKNOWN, 'nothing returned'
            for q, x in cs:
                have = band(q, E.contains(K, x, St({}, q)))
                r = verdict(lookup(E, x, K, have, m), T('idx', EN, K), have, None, c.seed, E=E, what='row')
                if r[0] != PROVED:
                    return r
            return r
        c.ob(f'filter.{nm}.values', 'filtering does not change a row', values, where)

        def names(cs=cs):
            n = 0
            for e, ch in E.events(('put',)):
                if any(e.obj is x for q, x in cs):
                    n += 1
                    for q, v in tm.cases(e.val, e.guard):
                        if v.op != 'idx' or v.args[0] is not EN:
                            return UNKNOWN, f'line {e.node.lineno} keeps {cut(show(v), 80)}'
                        for q2, k in tm.cases(e.key, q):
                            if k is not v.args[1]:
                                if pipe.plain(k) or all(t.op in pipe.PLAIN or t.op in ('key', 'L') for t in subterms(k)):
                                    return REFUTED, f'line {e.node.lineno} renames a row to {cut(show(k), 100)}'
                                return UNKNOWN, f'row name {cut(show(k), 100)}'
            return PROVED, f'{n} stores keep the name'
        c.ob(f'filter.{nm}.names', 'filtering does not rename rows', names, where)
        c.ob(f'filter.{nm}.pure', 'filtering does not change what it is given', lambda: pure(E, EN), where)


def pipe_base(d):
    while d is not None and d.op in ('aslist', 'perm'):
        d = d.args[0]
    return d


def lift_calls(b):
    """Conditions on f(x if p else y) become conditions on p, f(x), f(y)."""
    def at(a):
        for t in subterms(a):
            if t.op == 'phi':
                return bor(band(t.args[0], lift_calls(batom(tm.replace(a, {t: t.args[1]})))),
                           band(bnot(t.args[0]), lift_calls(batom(tm.replace(a, {t: t.args[2]})))))
        return batom(a)
    return tm.bmap(b, at)


def pure(E, root):
    for e, ch in E.events(('put', 'append', 'del', 'popitem', 'opaque')):
        o = e.obj
        if o is not None and any(t is root for t in subterms(o)) and o.op in ('idx', 'param', 'elem', 'mu'):
            return REFUTED, f'line {e.node.lineno} changes {cut(show(o), 80)}'
    return PROVED, 'no store into its input'


def unchanged(c, P):
    node = P.func('memorymap', 'rem_summary_unchanged')
    m = P.func_module(node)
    where = loc(P, node)
    EN, K = T('param', 'entries'), T('param', 'entry_name')
    h = {}

    def start():
        E, v, _ = run(P, 'memorymap', node.name, positional=[EN, AR])
        h.update(E=E, v=v)
    if not c.group('unchanged', 'value graph of memorymap.rem_summary_unchanged', start):
        return
    E, v = h['E'], h['v']
    keep = band(batom(T('in', K, EN)), changed(E, f(T('idx', EN, K), 'size_diff')))

    def kept():
        for q, x in tm.cases(v):
            r = iff(c, E, E.contains(K, x, St({}, q)), keep, q, 'row kept')
            if r[0] != PROVED:
                return r
        return r

    def values():
        for q, x in tm.cases(v):
            have = band(q, E.contains(K, x, St({}, q)))
            r = verdict(lookup(E, x, K, have, m), T('idx', EN, K), have, None, c.seed, E=E, what='row')
            if r[0] != PROVED:
                return r
        return r
    c.ob('unchanged.rows', 'rows are hidden only in a comparison, when their difference is zero and unchanged ones were not requested',
         kept, where)
    c.ob('unchanged.values', 'hiding rows does not change the others', values, where)


def changed(E, d):
    return bor(bnot(opt('diff')), opt('show_unchanged'), batom(T('truthy', d)))


def tree(c, P, name, args, keepers, fields, label, title):
    M = T('param', 'memory_map')
    facts = mm.facts(M)
    node = P.func('memorymap', name)
    m = P.func_module(node)
    where = loc(P, node)
    h = {}

    def start():
        E, v, _ = run(P, 'memorymap', name, positional=[M] + args, facts=facts)
        h.update(E=E)
        c.counts['loops'] = c.counts.get('loops', 0) + E.stats['loops']
        c.counts['effects'] = c.counts.get('effects', 0) + E.stats['events']
    if not c.group(label, f'value graph of memorymap.{name}', start):
        return
    E = h['E']
    par, orig, g = M, M, BT
    N = [T('param', f'{n[:-1]}_name') for n in LEVELS]
    for lv, K in zip(LEVELS, N):
        dom0 = f(orig, lv)
        cont = {}

        def present(lv=lv, K=K, par=par, orig=orig, g=g, dom0=dom0):
            d = lookup(E, par, const(lv), g, m)
            cont['d'] = d
            e = T('idx', dom0, K)
            return iff(c, E, E.contains(K, d, St({}, g)), band(batom(T('in', K, dom0)), keepers(E, lv, e)), g,
                       f'{lv[:-1].replace("_", " ")} kept', facts)
        c.ob(f'{label}.{lv}', title, present, where)
        if 'd' not in cont:
            return
        g = band(g, batom(T('in', K, dom0)), keepers(E, lv, T('idx', dom0, K)))
        e = T('idx', dom0, K)
        o = lookup(E, cont['d'], K, g, m)
        for k in KEYS[lv]:
            if (lv, k) in fields:
                exp = fields[lv, k](E, e)
            else:
                exp = f(e, k)
            c.ob(f'{label}.{lv}.{k}', 'kept entries keep their figures',
                 lambda o=o, k=k, exp=exp, g=g: verdict(lookup(E, o, const(k), g, m), exp, g, facts, c.seed, E=E, what=k), where)
        par, orig = o, e


def trims(c, P):
    ad, ar, fi = opt('archive_details'), opt('archives'), opt('files')

    def keep(E, lv, e):
        if lv == 'memory_types':
            return changed(E, f(e, 'used_diff'))
        k = changed(E, f(e, 'size_diff'))
        if lv == 'archives':
            return band(k, bor(bnot(ad), E.eq(f(e, 'abbrev_name'), f(AR, 'archive_details'))))
        if lv == 'object_files':
            return band(k, bor(ad, bnot(ar)))
        if lv == 'symbols':
            return band(k, bor(ad, ar, bnot(fi)))
        return k
    tree(c, P, 'trim', [AR], keep, {}, 'trim', 'entries are cut exactly below the requested detail, by archive, and when unchanged in a comparison')


def unused(c, P):
    def keep(E, lv, e):
        if lv == 'memory_types':
            return batom(T('truthy', f(e, 'used')))
        if lv == 'sections':
            return batom(T('truthy', f(e, 'archives')))
        return BT

    def used(E, e):
        d = f(e, 'sections')
        return Sum(d, lambda k: (batom(T('truthy', f(T('idx', d, k), 'archives'))), f(T('idx', d, k), 'size')))
    tree(c, P, 'remove_unused', [], keep, {('memory_types', 'used'): used}, 'unused',
         'exactly memory types without usage and sections without archives disappear')


def shown(c, P):
    """The table builders show what the filter returned for their summary."""
    for fn, summ in (('get_archives_table', 'get_archives_summary'), ('get_object_files_table', 'get_object_files_summary'),
                     ('get_symbols_table', 'get_symbols_summary')):
        node = P.func('format_table', fn)
        where = loc(P, node)
        MM = T('param', 'memmap')
        h = {}

        def start():
            E, v, _ = run(P, 'format_table', fn, positional=[MM, AR],
                          stop={'memorymap.get_summary_filtered', f'memorymap.{summ}', 'format_table._get_table_sorted'})
            h.update(E=E, v=v)
        if not c.group(f'shown.{fn}', f'value graph of format_table.{fn}', start):
            continue
        E = h['E']
        want = T('call', 'memorymap.get_summary_filtered', (T('call', f'memorymap.{summ}', (MM, AR)), AR))

        def rows():
            ev = E.events(('call',))
            rs = [(e, ch) for e, ch in ev if e.key.args and str(e.key.args[0]).endswith('_get_table_sorted')]
            if rs:
                for e, ch in rs:
                    a = e.val.args[0][0] if e.val.args and e.val.args[0] else None
                    r = same_call(a, want, 'entries shown')
                    if r[0] != PROVED:
                        return r
                return r
            calls = [e for e, ch in ev if e.key.args and e.key.args[0] == 'memorymap.get_summary_filtered']
            return UNKNOWN, f'rows not recognised ({len(calls)} calls of the filter)'
        c.ob(f'shown.{fn}', 'the rows shown are those the filter keeps', rows, where)


def same_call(a, want, what):
    if a is None:
        return UNKNOWN, f'{what}: not found'
    for g, x in tm.cases(a):
        if x is want or (x.op == 'call' and x.args[:2] == want.args[:2]):
            continue
        if pipe.plain(x):
            return REFUTED, f'{what}: {cut(show(x), 120)}, must be {cut(show(want), 120)}, when {cut(show_b(g), 100)}'
        return UNKNOWN, f'{what}: {cut(show(x), 120)}'
    return PROVED, f'{what}: {cut(show(want), 120)}'


def shapes(c, P):
    """Small maps: what trim and remove_unused leave."""
    import small
    where = loc(P, P.func('memorymap', 'trim'))
    f, u = small.function(P, 'memorymap', 'trim'), small.function(P, 'memorymap', 'remove_unused')
    rank = {lv: i for i, lv in enumerate(small.LEVELS)}
    FIG = ('size', 'size_diff', 'used', 'used_diff', 'abbrev_name')

    def compare(I, got, orig, lv, keep, what):
        want = {k: e for k, e in orig.items() if keep(lv, e)}
        small.keys(got, want, what)
        for k, e in want.items():
            small.fields(I, got[k], {g: e[g] for g in FIG if g in e}, f'{what}/{k}')
            if lv < 4:
                nx = small.LEVELS[lv + 1]
                if nx not in got[k]:
                    raise small.Bad(f'{what}/{k} has no {nx}')
                compare(I, got[k][nx], e[nx], lv + 1, keep, f'{what}/{k}')
    maps = {'mixed': small.mixed(), 'two': {'T': small.several(('A', 'B'), 4)}, 'three': {'T': {'S': small.several(('B', 'A', 'C'), 3)}}}
    for name, spec in maps.items():
        for tag, o in (('all', {}), ('archives', {'archives': True}), ('files', {'files': True}), ('details', {'archive_details': 'A'})):
            for step in (None, 2, 3):
                for uc in (False, True) if step else (False,):
                    kw = dict(o, diff='ref.map' if step else None, show_unchanged=uc)

                    def body(I, spec=spec, kw=kw, step=step):
                        x = small.build(I, spec, 'map')
                        num = [0]

                        def mark(d, lv):
                            for e in d.values():
                                num[0] += 1
                                v = (0, 5, -3, 0, 0, 7)[num[0] * step % 6] if step else 0
                                if lv != 2 and step == 3:
                                    v = v or 1
                                e['size_diff'] = v
                                if lv == 0:
                                    e['used_diff'] = 0 if num[0] % 7 == 5 else 4
                                if lv < 4:
                                    mark(e[small.LEVELS[lv + 1]], lv + 1)
                        mark(x['memory_types'], 0)
                        x0 = small.clone(x)

                        def keep(lv, e):
                            if kw['diff'] and not kw['show_unchanged'] and not e['used_diff' if lv == 0 else 'size_diff']:
                                return False
                            if lv == 2 and kw.get('archive_details') and e['abbrev_name'] != kw['archive_details']:
                                return False
                            return not (lv >= 3 and kw.get('archives') or lv >= 4 and kw.get('files'))
                        I.call(f, [x, small.options(**kw)], {})
                        compare(I, x['memory_types'], x0['memory_types'], 0, keep, 'map')
                    small.ob(c, P, f'trim.shape.{name}.{tag}.{step}.{uc}', 'what the options leave of a small map', where, body)

    def unused(I, spec):
        x = small.build(I, spec, 'map')
        for t in x['memory_types'].values():
            for s in t['sections'].values():
                small.atleast(I, s['size'], 1)
        x0 = small.clone(x)
        I.call(u, [x], {})
        want = {}
        for k, t in x0['memory_types'].items():
            if not t['sections']:
                continue
            t = want[k] = dict(t)
            t['sections'] = {a: s for a, s in t['sections'].items() if s['archives']}
            v = 0
            for s in t['sections'].values():
                v = small.nadd(v, s['size'])
            t['used'] = v
        compare(I, x['memory_types'], want, 0, lambda lv, e: True, 'map')
    some = {'A': {'o': {'f': {}}}}
    for name, spec in (('mixed', small.mixed()), ('first empty', {'T0': {}, 'T1': {'S0': {}, 'S1': some}, 'T2': {'S0': {}}}),
                       ('last empty', {'T1': {'S1': some, 'S0': {}, 'S2': some}, 'T2': {'S1': some}, 'T0': {}})):
        small.ob(c, P, f'unused.shape.{name}', 'what remains of a small map without unused entries', loc(P, P.func('memorymap', 'remove_unused')),
                 lambda I, spec=spec: unused(I, spec))


def check(c):
    P = Project()
    shapes(c, P)
    filtered(c, P)
    unchanged(c, P)
    trims(c, P)
    unused(c, P)
    shown(c, P)


if __name__ == '__main__':
    main('C15', RULE, check, floor=25, assumptions=['every entry of the memory map carries the fields of the raw format'])
