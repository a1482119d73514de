"""C12: per-archive, per-file and per-symbol reports add up."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
import linear
import pipe
from place import onbools
from vg import *

RULE = ('value-graph analysis of the three report builders of memorymap: for one arbitrary entry of the memory map, the figures it '
        'adds to the row, to its memory type column and to its section column are extracted with their conditions and must be, '
        'once each, exactly its own size and difference, into the row, type and section it belongs to; rows must start from zero '
        'with columns of their own.')

F = ('size', 'size_diff')
f = lambda t, k: T('idx', t, const(k))
M, AR = T('param', 'memory_map'), T('param', 'args')
LEVELS = ('memory_types', 'sections', 'archives', 'object_files', 'symbols')


class Walk:
    def __init__(self, c, P, name, depth, unify):
        self.c, self.P, self.name, self.depth = c, P, name, depth
        u = batom(T('truthy', f(AR, 'unify')))
        self.given = u if unify else bnot(u)
        self.unify = unify
        self.facts = mm.facts(M)
        self.node = P.func('memorymap', name)
        self.m = P.func_module(self.node)
        self.E, self.v, _ = run(P, 'memorymap', name, positional=[M, AR], facts=self.facts, stop={'memorymap.rem_summary_unchanged'},
                                guard=self.given)
        E = self.E
        self.ev = E.events(('put', 'copyfrom', 'fresh', 'append'))
        v = self.v
        cs = [x for g, x in tm.cases(v, self.given)]
        self.D = None
        if len(cs) == 1:
            v = cs[0]
            if v.op == 'call' and v.args[0] == 'memorymap.rem_summary_unchanged' and v.args[1]:
                v = v.args[1][0]
            if v.op == 'new':
                self.D = v
        # the visited entry: the last `depth` loops
        self.keys, self.entry = None, None
        chains = {tuple(l.L for l in ch) for e, ch in self.ev if e.kind == 'put' and e.key in (const('size'), const('size_diff'))
                  and len(ch) >= 3}
        self.chains = chains
        if len(chains) == 1:
            Ls = next(iter(chains))
            t, ks = M, []
            ok = len(Ls) == depth
            for lv, L in zip(LEVELS, Ls):
                if base(E.loops[L].dom) is not f(t, lv):
                    ok = False
                    break
                k = E.mk_key(L)
                ks.append(k)
                t = T('idx', f(t, lv), k)
            if ok:
                self.keys, self.entry, self.Ls = ks, t, Ls
        self.puts = {}
        for e, ch in self.ev:
            if e.kind == 'put' and e.val is not None and e.val.op == 'new':
                self.puts.setdefault(e.val, []).append(e)

    def path(self, o, depth=0):
        if depth > 12:
            return None
        if o.op == 'idx' or (o.op == 'mu' and len(o.args) == 3):
            a, k = (o.args[0], o.args[1]) if o.op == 'idx' else (o.args[1], o.args[2])
            p = self.path(a, depth + 1)
            return None if p is None else p + (k,)
        if o.op == 'new':
            if o is self.D or o not in self.puts:
                return (o,)
            ps = {None if q is None else q + (e.key,) for e in self.puts[o] for q in [self.path(e.obj, depth + 1)]}
            return next(iter(ps)) if len(ps) == 1 else None
        if o.op == 'phi':
            ps = {self.path(x, depth + 1) for g, x in tm.cases(o)}
            return next(iter(ps)) if len(ps) == 1 else None
        return (o,)


NAMES = ('type', 'section', 'archive', 'file', 'symbol')


def local_(w, x):
    """One arbitrary entry: names of the visited levels, the state of its row."""
    m = {}
    ats = tm.batoms(x) if isinstance(x, B) else [x]
    todo = list(ats)
    seen = set()
    while todo:
        a = todo.pop()
        for t in subterms(a):
            if t in seen:
                continue
            seen.add(t)
            if t.op == 'phi':
                todo += tm.batoms(t.args[0])
            if t.op == 'mu' and len(t.args) == 3:
                q = w.path(t)
                if q is not None and q[0] is w.D and len(q) in (3, 5, 7) and q[-1].op == 'const':
                    m[t] = T('idx', T('param', {3: 'row', 5: 'type_column', 7: 'section_column'}[len(q)]), q[-1])
    x = tm.replace(x, m)

    def at(a):
        if a.op in ('inmu', 'in') and a.args[1 if a.op == 'inmu' else 1] is w.D or \
                a.op == 'in' and len(a.args) > 1 and a.args[1] is w.D:
            return batom(T('truthy', T('param', 'row_exists')))
        return batom(a)
    x = onbools(x, lambda b: tm.bmap(b, at))
    y = tm.replace(x, {w.entry: T('param', 'entry')})
    y = tm.replace(y, {k: T('param', n) for k, n in zip(w.keys, NAMES)})
    return tm.replace(y, {T('str', T('param', n)): T('param', n) for n in NAMES})


def base(d):
    while d is not None and d.op in ('aslist', 'perm'):
        d = d.args[0]
    return d


def inj(w, k):
    """Are two entries with the same row, type and section the same entry?"""
    return k in w.keys and w.depth == 3


def report(c, P, name, depth, label):
    for unify in (False, True):
        tag = f'{label}.{"unify" if unify else "plain"}'
        h = {}

        def start():
            h['w'] = Walk(c, P, name, depth, unify)
            E = h['w'].E
            c.counts['loops'] = c.counts.get('loops', 0) + E.stats['loops']
            c.counts['effects'] = c.counts.get('effects', 0) + E.stats['events']
        if not c.group(tag, f'value graph of memorymap.{name}', start):
            continue
        w = h['w']
        E = w.E
        where = loc(P, w.node)

        def covers():
            if w.D is None:
                return UNKNOWN, f'returns {cut(show(w.v), 100)}'
            if w.keys is None:
                for Ls in w.chains:
                    t = M
                    for lv, L in zip(LEVELS, Ls):
                        d = base(E.loops[L].dom)
                        if d is not f(t, lv) and d is not None and d.op == 'slice':
                            return REFUTED, f'visits only {cut(show(d), 100)}'
                        t = T('idx', f(t, lv), E.mk_key(L))
                return UNKNOWN, f'{len(w.chains)} walks over the map'
            return PROVED, f'visits every {LEVELS[depth - 1][:-1].replace("_", " ")} of every {LEVELS[depth - 2][:-1].replace("_", " ")}'
        r = c.ob(f'{tag}.walk', 'every entry of the map is visited once', covers, where)
        if w.D is None or w.keys is None:
            continue
        K, entry = w.keys, w.entry
        arch = T('idx', f(T('idx', f(T('idx', f(M, 'memory_types'), K[0]), 'sections'), K[1]), 'archives'), K[2])
        match = E.eq(f(arch, 'abbrev_name'), f(AR, 'archive_details')) if label == 'symbols' else BT
        if depth == 3:
            key = K[2]
        elif unify:
            key = f(entry, 'abbrev_name')
        else:
            key = E.cat([y for k in K[2:depth] for y in (const(':'), k)][1:])
        adds = {}
        bad = []
        for e, ch in w.ev:
            if e.kind != 'put' or tuple(l.L for l in ch) != w.Ls or e.key not in (const('size'), const('size_diff')):
                continue
            if e.val is tm.ZERO and e.obj.op == 'new':
                continue
            p = w.path(e.obj)
            if p is None or p[0] is not w.D or len(p) not in (2, 4, 6):
                bad.append(e)
                continue
            adds.setdefault((len(p), e.key.args[0]), []).append((p, e))

        def sub(g):
            return tm.constrain(g, w.given)

        for n, what in ((2, 'row'), (4, 'type'), (6, 'section')):
            for fld in F:
                def fig(n=n, fld=fld, what=what):
                    es = adds.get((n, fld), [])
                    if bad and not es:
                        return UNKNOWN, f'line {bad[0].node.lineno} stores into {cut(show(bad[0].obj), 100)}'
                    if not es:
                        return (UNKNOWN if bad else REFUTED), f'nothing is added to {fld} of the {what}'
                    total = tm.ZERO
                    for p, e in es:
                        want = (w.D, None, const('memory_types'), K[0], const('sections'), K[1])[:n]
                        for i, (a, b) in enumerate(zip(p, want)):
                            if b is not None and a is not b:
                                return (REFUTED if pipe.plain(a) or a in K else UNKNOWN), \
                                    f'line {e.node.lineno}: {fld} is added to the {what} {cut(show(a), 80)}, not {cut(show(b), 80)}'
                        rest, amount = split(w, e, p, fld)
                        if amount is None:
                            return rest
                        if rest == 'overwrites':
                            if n == 6 and inj(w, p[1]):
                                pass
                            elif n == 6 and not unify:
                                return UNKNOWN, f'line {e.node.lineno} overwrites {fld} of the {what}'
                            else:
                                return REFUTED, f'line {e.node.lineno} overwrites {fld} of the {what} with that of the last entry'
                        total = tm.add(total, tm.phi(sub(e.guard), amount, tm.ZERO))
                    return verdict(local_(w, total), local_(w, tm.phi(match, f(entry, fld), tm.ZERO)), local_(w, w.given), None, c.seed, E=E,
                                   what=f'{fld} added to the {what}')
                c.ob(f'{tag}.{what}.{fld}', 'each entry adds its own figure exactly once', fig, where)

        def rowkey():
            ks = {p[1] for (n, _), es in adds.items() for p, e in es}
            if not ks:
                return UNKNOWN, 'no rows found'
            names = [T('param', n) for n in NAMES]
            strs = {T('str', n): n for n in names + [f(T('param', 'entry'), 'abbrev_name')]}
            for k in ks:
                for g, x in tm.cases(k, w.given):
                    x = tm.replace(local_(w, x), strs)
                    key_ = local_(w, key)
                    if x is key_:
                        continue
                    if x.op == 'cat' and key_.op == 'cat' and E.cat(list(x.args)) is key_:
                        continue
                    have = set(subterms(x))
                    if unify and depth > 3:
                        return (REFUTED if all(y.op in pipe.PLAIN or y.op in ('cat', 'str') for y in have) else UNKNOWN), \
                            f'row {cut(show(x), 120)}, must be {cut(show(key_), 120)}'
                    miss = [q for q in names[2:depth] if q not in have]
                    if miss and all(y.op in pipe.PLAIN or y.op in ('cat', 'call', 'str') for y in have):
                        return REFUTED, f'row {cut(show(x), 120)} is the same for different {", ".join(LEVELS[names.index(q)] for q in miss)}'
                    return UNKNOWN, f'row {cut(show(x), 120)}'
            return PROVED, f'row {cut(show(key), 120)}'
        c.ob(f'{tag}.key', 'entries are told apart as the option says', rowkey, where)

        # --- creation of rows
        rows = [(e, ch) for e, ch in w.ev if e.kind == 'put' and e.obj is w.D]

        def create():
            if not rows:
                return UNKNOWN, 'no row is created'
            out = []
            for e, ch in rows:
                absent = [a for a in tm.batoms(e.guard) if a.op in ('inmu', 'in') and a.args[1] is w.D]
                if not absent:
                    return (REFUTED if e.val.op == 'new' and tuple(l.L for l in ch) == w.Ls else UNKNOWN), \
                        f'line {e.node.lineno} replaces the row by a new one for every entry'
                if not all(unsat(band(e.guard, batom(a))) for a in absent if a.args[2] is e.key):
                    lg = local_(w, e.guard)
                    x = linear.witness(band(lg, batom(T('truthy', T('param', 'row_exists')))))
                    if x is not None:
                        return REFUTED, f'line {e.node.lineno} replaces an existing row by a new one when {cut(show_b(lg), 200)}'
                    return UNKNOWN, f'line {e.node.lineno}: created when {cut(show_b(lg), 200)}'
                if not any(a.args[2] is e.key for a in absent):
                    return UNKNOWN, 'test for another key'
            return PROVED, 'created once, when the first entry needs it'
        c.ob(f'{tag}.create', 'a row is created once', create, where)
        row = rows[0][0].val if len(rows) == 1 and rows[0][0].val.op == 'new' else None

        def fresh():
            if row is None:
                return UNKNOWN, 'row not recognised'
            fr = [ch for e, ch in w.ev if e.kind == 'fresh' and e.obj is row]
            if not fr or tuple(l.L for l in fr[0]) != w.Ls:
                return REFUTED, 'all rows are the same object'
            first = {}
            for e, ch in w.ev:
                if e.kind == 'put' and e.obj is row:
                    first.setdefault(e.key, e)
            for fld in F:
                e = first.get(const(fld))
                if e is None:
                    return UNKNOWN, f'{fld} not set'
                if e.val is not tm.ZERO:
                    return (REFUTED if e.val.op == 'const' else UNKNOWN), f'{fld} of a new row is {cut(show(e.val), 60)}'
            e = first.get(const('memory_types'))
            if e is None or e.val.op != 'new':
                return UNKNOWN, f'columns of a new row: {cut(show(e.val), 60) if e else "none"}'
            cp = [x for x, ch in w.ev if x.kind == 'copyfrom' and x.obj is e.val]
            fr = [ch for x, ch in w.ev if x.kind == 'fresh' and x.obj is e.val]
            if not fr or tuple(l.L for l in fr[0])[:depth] != w.Ls:
                return REFUTED, f'line {e.node.lineno}: the columns are shared by all rows'
            if cp and cp[0].extra != 'deep':
                return REFUTED, f'line {e.node.lineno}: the columns of a row are a shallow copy shared by all rows'
            return PROVED, 'zero, with columns of its own'
        c.ob(f'{tag}.fresh', 'a new row is empty and has columns of its own', fresh, where)

        def template(fld):
            if row is None:
                return UNKNOWN, 'row not recognised'
            e = next((e for e, ch in w.ev if e.kind == 'put' and e.obj is row and e.key is const('memory_types')), None)
            if e is None:
                return UNKNOWN, 'no columns'
            cp = [x for x, ch in w.ev if x.kind == 'copyfrom' and x.obj is e.val]
            src = cp[0].val if cp else e.val
            t0, s0 = T('param', 'T0'), T('param', 'S0')
            mt = T('idx', f(M, 'memory_types'), t0)
            gt = band(w.given, batom(T('in', t0, f(M, 'memory_types'))))
            gs = band(gt, batom(T('in', s0, f(mt, 'sections'))))
            if cp:
                # state of the template does not change once rows exist
                for x, ch in w.ev:
                    if x.kind == 'put' and tuple(l.L for l in ch) == w.Ls and (w.path(x.obj) or (None,))[0] is src and x.obj.op != 'mu':
                        return REFUTED, f'line {x.node.lineno} changes the template of all rows'
            else:
                return UNKNOWN, 'columns are not copied from a template'
            if fld == 'types':
                return vguard(E.contains(t0, src, St({}, w.given)), batom(T('in', t0, f(M, 'memory_types'))), w.given, w.facts, c.seed,
                              E=E, what='memory type has a column')
            ty = lookup(E, src, t0, gt, w.m)
            if fld == 'sections':
                return vguard(E.contains(s0, lookup(E, ty, const('sections'), gt, w.m), St({}, gt)),
                              batom(T('in', s0, f(mt, 'sections'))), gt, w.facts, c.seed, E=E, what='section has a column')
            a = verdict(lookup(E, ty, const(fld), gt, w.m), tm.ZERO, gt, w.facts, c.seed, E=E, what=f'initial {fld} of a type')
            se = lookup(E, lookup(E, ty, const('sections'), gt, w.m), s0, gs, w.m)
            b = verdict(lookup(E, se, const(fld), gs, w.m), tm.ZERO, gs, w.facts, c.seed, E=E, what=f'initial {fld} of a section')
            return a if a[0] != PROVED else b
        for fld in ('types', 'sections') + F:
            c.ob(f'{tag}.columns.{fld}', 'a row starts with one zero column per memory type and section', lambda fld=fld: template(fld), where)


def split(w, e, p, fld):
    """A store x = previous + amount: ('adds'|'overwrites', amount), or (verdict, None)."""
    pa = tm.aff_parts(e.val)
    if pa is None:
        return (UNKNOWN, f'line {e.node.lineno}: value {cut(show(e.val), 100)}'), None
    amount, prev = const(pa[0]), []
    for t, k in pa[1]:
        if any(x.op in ('mu', 'last', 'new') for x in subterms(t)):
            prev.append((t, k))
        else:
            amount = tm.add(amount, tm.mul(const(k), t))
    if not prev:
        return 'overwrites', amount
    if len(prev) > 1 or prev[0][1] != 1:
        return (UNKNOWN, f'line {e.node.lineno}: value {cut(show(e.val), 100)}'), None
    for g, x in tm.cases(prev[0][0], e.guard):
        if x is tm.ZERO or x.op in ('missing',):
            continue
        q = w.path(x)
        if q is None:
            return (UNKNOWN, f'line {e.node.lineno}: previous value {cut(show(x), 100)}'), None
        if q[-1] is not const(fld):
            return (REFUTED if q[-1].op == 'const' else UNKNOWN,
                    f'line {e.node.lineno}: {fld} continues from {cut(show(q[-1]), 60)}'), None
        if q[0] is w.D and q[:-1] != p:
            return (REFUTED if all(z.op in ('key', 'const') for z in q[2:]) and q[1] is p[1] else UNKNOWN,
                    f'line {e.node.lineno}: {fld} continues from another place: {cut(show(x), 100)}'), None
    return 'adds', amount


def shapes(c, P):
    """Small maps with unknown sizes and differences."""
    import small
    for fn, lv, tag in (('get_archives_summary', 2, 'archives'), ('get_object_files_summary', 3, 'files'), ('get_symbols_summary', 4, 'symbols')):
        f = small.function(P, 'memorymap', fn)
        where = loc(P, P.func('memorymap', fn))
        for name, spec, unify in (('mixed', small.mixed(), False), ('mixed unified', small.mixed(), True), ('apart', {'T': small.several(('a', 'b'), 4)}, False),
                                  ('one', {'T': {'S': {'a': {'o': {'f': {}}}}}}, False)):
            sel = 'A' if 'T1' in spec else 'a'

            def body(I, f=f, lv=lv, spec=spec, unify=unify, sel=sel):
                x = small.build(I, spec, 'map', diffs=True)
                rows = {}

                def visit(d, l, path):
                    for k, e in d.items():
                        p = path + (k,)
                        if l == 2 and lv == 4 and k != sel:
                            continue
                        if l < lv:
                            visit(e[small.LEVELS[l + 1]], l + 1, p)
                        else:
                            key = p[-1] if unify or lv == 2 else ':'.join(p[2:])
                            rows.setdefault(key, []).append((p[0], p[1], e))
                visit(x['memory_types'], 0, ())
                cols = {t: list(e['sections']) for t, e in x['memory_types'].items()}
                r = I.call(f, [x, small.options(unify=unify, archive_details=sel if lv == 4 else None)], {})
                small.keys(r, rows, 'the rows')
                for key, es in rows.items():
                    def total(g, t=None, s=None):
                        v = 0
                        for a, b, e in es:
                            if t in (None, a) and s in (None, b):
                                v = small.nadd(v, e[g])
                        return v
                    for g in ('size', 'size_diff'):
                        small.fields(I, r[key], {g: total(g)}, key)
                        small.keys(r[key].get('memory_types'), cols, f'the columns of {key}')
                        for t, ss in cols.items():
                            m = r[key]['memory_types'][t]
                            small.fields(I, m, {g: total(g, t)}, f'{key}, {t}')
                            small.keys(m.get('sections'), ss, f'the columns of {key}, {t}')
                            for s in ss:
                                small.fields(I, m['sections'][s], {g: total(g, t, s)}, f'{key}, {t}, {s}')
            small.ob(c, P, f'{tag}.shape.{name}', 'report of small maps with unknown sizes', where, body)


def check(c):
    P = Project()
    shapes(c, P)
    report(c, P, 'get_archives_summary', 3, 'archives')
    report(c, P, 'get_object_files_summary', 4, 'files')
    report(c, P, 'get_symbols_summary', 5, 'symbols')


if __name__ == '__main__':
    main('C12', RULE, check, floor=40, assumptions=['names of memory types, sections, archives and files are the keys of their dictionaries'])
