"""C14: sorting only permutes entries, by the requested key and direction."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
import cells as show_cells
import cli
import linear
import pipe
from vg import *

RULE = ('value-graph analysis of memorymap.sort, get_summary_sorted and the table builders, specialised by sort column and by '
        '--sort-diff: every level keeps exactly its entries with their values, the sort key of an arbitrary row is the number '
        'displayed in the requested column (or its difference), the direction is the one of --sort-reverse, and column 0, unknown '
        'titles and out-of-range numbers lead to log.die before any row is shown.')

f = lambda t, k: T('idx', t, const(k))
AR = T('param', 'args')
REV = f(AR, 'sort_reverse')
LEVELS = ('memory_types', 'sections', 'archives', 'object_files', 'symbols')
KEYS = {'memory_types': ('name', 'size', 'size_diff', 'used', 'used_diff'),
        'sections': ('abbrev_name', 'size', 'size_diff'), 'archives': ('abbrev_name', 'size', 'size_diff'),
        'object_files': ('abbrev_name', 'size', 'size_diff'), 'symbols': ('abbrev_name', 'size', 'size_diff')}
BASE = pipe.PLAIN | {'sortelem', 'sortelem_v', 'sortelem_k', 'bool', 'neg', 'aff', 'phi', 'truthy', 'str', 'cat', 'attr', 'key', 'L',
                     'round', 'int', 'abs', 'float', 'div', 'mul', 'L', 'elem', 'items'}
WHOLE = ('int', 'float')


def base(t):
    return all(isinstance(x, Term) and x.op in BASE for x in subterms(t))


def orders(E, obj):
    """Orderings of the loops that fill obj, outermost levels excluded."""
    out = []
    for e, ch in E.events(('put', 'append', 'copyfrom')):
        if e.obj is obj or obj.op == 'new' and e.obj is not None and e.obj.op == 'new' and e.obj.args[0] == obj.args[0]:
            out.append((e, ch))
    return out


def tidy(ordering):
    """Sorting the keys of a dict by a field of their entries is sorting its items."""
    out = []
    for p in ordering:
        if p.op == 'perm' and len(p.args) > 3 and p.args[2].op == 'skey' and p.args[2].args[0] == 'by':
            d = strip(p.args[0])
            while d.op in ('keys', 'aslist') and len(d.args) == 1 and isinstance(d.args[0], Term):
                d = strip(d.args[0])
            k = p.args[2].args[1]
            m = {x: T('sortelem_v') for x in subterms(k) if x.op == 'idx' and x.args[1].op == 'sortelem' and x.args[0] is d}
            if m:
                p = T('perm', p.args[0], p.args[1], T('skey', 'by', tm.replace(k, m)), p.args[3])
        out.append(p)
    return tuple(out)


def by_key(ordering, want, what, num=WHOLE, E=None, dom=None):
    """ordering: perm terms, innermost first; want(SE) -> expected key of the element SE; num: harmless conversions."""
    ps = [o for o in tidy(ordering) if o.op == 'perm']
    if not ps:
        if dom is not None and not base(strip(dom)):
            return UNKNOWN, f'{what}: walk over {cut(show(dom), 100)}'
        return REFUTED, f'{what} are not sorted'
    if len(ps) > 1:
        return UNKNOWN, f'{what} are reordered {len(ps)} times'
    p = ps[0]
    if p.args[1] != 'sorted' or len(p.args) < 4:
        return UNKNOWN, f'{what}: order {cut(show(p), 100)}'
    k, rev = p.args[2], p.args[3]
    neg = False
    if k.op != 'skey' or k.args[0] != 'by':
        if k.op == 'skey' and k.args[0] == 'id' and base(strip(p.args[0])):
            return REFUTED, f'{what} are sorted by name'
        return UNKNOWN, f'{what}: key {cut(show(k), 100)}'
    t = k.args[1]
    if t.op == 'tuple' and t.args[0]:
        t = t.args[0][0]
    SE = {x.op: x for x in subterms(t) if x.op in ('sortelem', 'sortelem_v', 'sortelem_k')}
    exps = want(SE)
    r = E.truth0(rev) if isinstance(rev, Term) else (BT if rev else BF)
    for g, x in [(BT, t)] if t in exps else tm.cases(t):
        neg = False
        for _ in range(4):
            while x.op == 'call' and x.args[0] in num and len(x.args[1]) == 1:
                x = x.args[1][0]
            n = linear_neg(x)
            if n is None:
                break
            neg, x = not neg, n
        if x not in exps:
            if base(x) and SE or x.op == 'const':
                return REFUTED, f'{what} are sorted by {cut(show(x), 120)}, not by {cut(show(exps[0]), 100) if exps else "the column"}'
            return UNKNOWN, f'{what}: key {cut(show(x), 120)}'
        w = batom(T('truthy', REV))
        w = bnot(w) if neg else w
        if implies(band(g, r), w) and implies(band(g, w), r):
            continue
        if all(base(a) or a.op == 'truthy' for b in (r, g) for a in tm.batoms(b)):
            return REFUTED, f'{what} are sorted in direction {cut(show_b(r), 80)}, must be {cut(show_b(w), 80)}'
        return UNKNOWN, f'{what}: direction {cut(show_b(r), 80)}'
    return PROVED, f'{what} are sorted by {cut(show(exps[0]), 100)}, direction {cut(show(rev), 60)}'


def linear_neg(t):
    if t.op == 'neg':
        return t.args[0]
    p = tm.aff_parts(t)
    if p is not None and p[0] == 0 and len(p[1]) == 1 and p[1][0][1] == -1:
        return p[1][0][0]
    return None


def field(*names):
    def want(SE):
        out = []
        for op, get in (('sortelem_v', lambda x: x), ('sortelem', lambda x: T('idx', x, const(1)))):
            if op in SE:
                for n in names:
                    out.append(f(get(SE[op]), n))
        return out
    return want


def filled(E, x, dom, what, key):
    """x is a dict filled in one loop over dom in sorted order (or sorted in place by removal and re-insertion)."""
    ev = orders(E, x)
    if x.op != 'new' or not ev:
        if base(x):
            return REFUTED, f'{what} are not sorted'
        return UNKNOWN, f'{what}: {cut(show(x), 80)}'
    r = UNKNOWN, f'{what}: not filled'
    for e, ch in ev:
        if e.kind == 'copyfrom' or not ch:
            return UNKNOWN, f'{what}: filled at line {e.node.lineno}'
        r = by_key(ch[-1].ordering, key, what, E=E, dom=ch[-1].dom)
        if r[0] != PROVED:
            return r
    return r


def trees(c, P):
    M = T('param', 'memory_map')
    facts = mm.facts(M)
    for name, levels, first in (('sort', LEVELS, ('used', 'size')), ('get_summary_sorted', (None, 'memory_types', 'sections'), ('size', 'size'))):
        node = P.func('memorymap', name)
        m = P.func_module(node)
        where = loc(P, node)
        for diff in (False, True):
            suf = '_diff' if diff else ''
            tag = f'{name}.{"diff" if diff else "size"}'
            h = {}

            def start():
                E, v, _ = scenario(P, 'memorymap', name, positional=[M, AR], facts=facts if name == 'sort' else None,
                                   pre=[(AR, const('sort_diff'), const(diff))])
                h.update(E=E, v=v)
                c.counts['loops'] = c.counts.get('loops', 0) + E.stats['loops']
            if not c.group(tag, f'value graph of memorymap.{name} with sort_diff={diff}', start):
                continue
            E = h['E']
            par, orig, g = (M, M, BT)
            top = levels[0] is None
            for i, lv in enumerate(levels):
                nm = lv or 'rows'
                K = T('param', f'{nm[:-1]}_name')
                dom0 = orig if lv is None else f(orig, lv)
                d = h['v'] if lv is None else lookup(E, par, const(lv), g, m)
                key = (first[0] if i == 0 else first[1]) + suf

                def same(d=d, K=K, g=g, dom0=dom0):
                    r = UNKNOWN, 'nothing returned'
                    for q, x in tm.cases(d, g):
                        q = band(g, q)
                        r = vguard(E.contains(K, x, St({}, q)), batom(T('in', K, dom0)), q, facts, c.seed, E=E, what='entry kept')
                        if r[0] != PROVED:
                            return r
                    return r

                def values(d=d, K=K, g=g, dom0=dom0, nm=nm):
                    r = UNKNOWN, 'nothing returned'
                    for q, x in tm.cases(d, g):
                        q = band(g, q, batom(T('in', K, dom0)))
                        o = lookup(E, x, K, q, m)
                        for k in KEYS.get(nm, ('size', 'size_diff', 'abbrev_name')):
                            r = verdict(lookup(E, o, const(k), q, m), f(T('idx', dom0, K), k), q, facts, c.seed, E=E, what=k)
                            if r[0] != PROVED:
                                return r
                    return r

                def order(d=d, g=g, dom0=dom0, key=key, nm=nm):
                    r = UNKNOWN, 'nothing returned'
                    for q, x in tm.cases(d, g):
                        if tm.unsat(band(g, q)):
                            continue
                        r = filled(E, x, dom0, nm.replace('_', ' '), field(key))
                        if r[0] != PROVED:
                            return r
                    return r
                c.ob(f'{tag}.{nm}.entries', 'sorting keeps exactly the entries', same, where)
                c.ob(f'{tag}.{nm}.values', 'sorting keeps the values of the entries', values, where)
                c.ob(f'{tag}.{nm}.order', f'entries are ordered by {key} in the requested direction', order, where)
                g = band(g, batom(T('in', K, dom0)))
                par = None
                for q, x in tm.cases(d, g):
                    par = lookup(E, x, K, band(g, q), m)
                orig = T('idx', dom0, K)


MMP = T('param', 'memmap')
TABLES = {'get_archives_table': 'get_archives_summary', 'get_object_files_table': 'get_object_files_summary',
          'get_symbols_table': 'get_symbols_summary'}


class Tab:
    """One table builder for one value of the options --sort and --sort-diff."""

    def __init__(self, P, fn, col, diff):
        self.P, self.fn = P, fn
        stop = {'memorymap.trim', 'memorymap.get_summary_filtered'}
        stop |= {f'memorymap.{x}' for x in TABLES.values()}
        self.E, self.v, _ = scenario(P, 'format_table', fn, positional=[MMP, AR], stop=stop,
                                     pre=[(AR, const('diff'), const(True)), (AR, const('sort'), const(col)), (AR, const('sort_diff'), const(diff))])
        E = self.E
        calls = [(e, ch) for e, ch in E.events(('call',)) if e.key.args and isinstance(e.key.args[0], str)]
        self.rows = [(e, ch) for e, ch in calls if e.key.args[0] == '.add_row']
        self.cols = [(e, ch) for e, ch in calls if e.key.args[0] == '.add_column']
        self.die = [(e, ch) for e, ch in calls if e.key.args[0] in ('log.die', 'sys.exit')]
        self.m = P.module('format_table')
        if fn in TABLES:
            self.S = T('call', 'memorymap.get_summary_filtered', (T('call', f'memorymap.{TABLES[fn]}', (MMP, AR)), AR))
        else:
            self.S = f(MMP, 'memory_types')

    def died(self):
        return bor(*[e.guard for e, ch in self.die if not ch])

    def resolve(self, t):
        """Constant picks from literal lists."""
        def one(x):
            if x.op == 'pick' and x.args[2].op == 'const':
                ev = [e for e, ch in self.E.events(('append',)) if e.obj is x.args[1]]
                try:
                    return ev[x.args[2].args[0]].val
                except (IndexError, TypeError):
                    return None
            return None
        for _ in range(4):
            mp = {x: y for x in subterms(t) for y in [one(x)] if y is not None}
            if not mp:
                break
            t = tm.replace(t, mp)
        return t


def cells(e):
    a = e.val.args[0]
    return a[1:] if a and a[0].op != 'star' else a


def cellval(t, i, g=BT):
    """The number (i=0) or the difference (i=1) a cell displays, without rounding."""
    return show_cells.one(t, i, g)


def refused(t):
    g = t.died()
    if g is BT:
        return PROVED, 'log.die is called'
    shown_ = [e for e, ch in t.rows]
    if g is BF:
        bad = [x for x in t.E.fails if x[1] is None and not tm.unsat(x[2])]
        if bad:
            return REFUTED, f'{bad[0][0]} at line {bad[0][3].lineno} is not turned into an error message'
        if shown_:
            return REFUTED, f'no error, rows are shown (line {shown_[0].node.lineno})'
    return UNKNOWN, f'refused iff {cut(show_b(g), 150)}'


def accepted(t):
    g = t.died()
    if g is BT:
        return REFUTED, 'an existing column is refused'
    return (PROVED, 'accepted') if g is BF else (UNKNOWN, f'refused iff {cut(show_b(g), 150)}')


def summary(c, P):
    fn = 'get_summary_table'
    node = P.func('format_table', fn)
    where = loc(P, node)
    NC = 4
    for diff in (False, True):
        for n in list(range(1, NC + 1)) + list(range(-NC, 0)):
            tag = f'summary.{n}.{"diff" if diff else "value"}'
            h = {}
            if not c.group(tag, f'value graph of {fn} with --sort {n}', lambda: h.update(t=Tab(P, fn, str(n), diff))):
                continue
            t = h['t']
            c.ob(tag + '.accepted', 'an existing column is accepted', lambda: accepted(t), where)
            pos = n if n > 0 else NC + 1 + n
            for depth, what in ((1, 'memory types'), (2, 'sections')):
                def order(t=t, depth=depth, what=what, pos=pos):
                    rs = [(e, ch) for e, ch in t.rows if len(ch) == depth and not tm.unsat(e.guard)]
                    if not rs:
                        return UNKNOWN, 'rows not recognised'
                    r = UNKNOWN, 'no cell'
                    got = False
                    for e, ch in rs:
                        cs = cells(e)
                        if len(cs) <= pos:
                            return UNKNOWN, f'line {e.node.lineno}: cells not recognised'
                        shown_ = show_cells.numbers(cs[pos], e.guard)
                        if shown_ is None:
                            return UNKNOWN, f'line {e.node.lineno}: cell {cut(show(cs[pos]), 100)}'
                        shown_ = [(q, show_cells.unround(p[int(diff)])[0]) for q, p in shown_ if len(p) > int(diff)]
                        r = ordered(c, t, e, ch, shown_, what)
                        if r[0] == REFUTED:
                            return r
                        if r[0] != PROVED:
                            return r
                        got = True
                    return r
                c.ob(f'{tag}.{what.replace(" ", "_")}', 'rows are ordered by the number displayed in the column', order, where)
        if diff:
            continue
    t0 = [None]

    def title_headers():
        t = Tab(P, fn, 'No such column', False)
        t0[0] = t
        return titles(t, True)
    c.ob('summary.title', 'a column is found by the title displayed', title_headers, where)
    for n in ('0', str(NC + 1), str(-NC - 1), '-100'):
        c.ob(f'summary.refused.{n}', 'the description column and columns out of range are refused with an error',
             lambda n=n: refused(Tab(P, fn, n, False)), where)
    c.ob('summary.rows', 'every memory type and every section gets its row', lambda: allrows(P, fn), where)


def ordered(c, t, e, ch, shown_, what):
    """The loop of a row is sorted by the displayed value."""
    E = t.E
    ln = ch[-1]
    ps = [o for o in tidy(ln.ordering) if o.op == 'perm']
    if len(ps) != 1:
        return by_key(ln.ordering, lambda SE: [], what, E=E, dom=ln.dom)
    k = ps[0].args[2] if len(ps[0].args) > 3 else None
    if k is None or k.op != 'skey' or k.args[0] != 'by':
        return by_key(ln.ordering, lambda SE: [], what, E=E, dom=ln.dom)
    t1 = k.args[1]
    while t1.op == 'tuple' and t1.args[0]:
        t1 = t1.args[0][0]
    t1 = t.resolve(t1)
    dom = strip(ln.dom)
    row = T('idx', dom, E.mk_key(ln.L))
    # the key, for the row shown
    for q, x in tm.cases(t1, e.guard):
        q = band(q, e.guard)
        if tm.unsat(q):
            continue
        neg = linear_neg(x)
        x = neg if neg is not None else x
        r = direction(E, ps[0].args[3], neg is not None, what, q)
        if r[0] != PROVED:
            return r
        v = evalkey(t, x, row, q)
        if v is None:
            return UNKNOWN, f'{what}: key {cut(show(x), 100)}'
        conv = []
        while v.op == 'call' and v.args[0] in ('int', 'round', 'float') and v.args[1]:
            conv.append(v.args[0])
            v = v.args[1][0]
        for q2, y in shown_:
            q3 = band(q, q2)
            if tm.unsat(q3):
                continue
            r = verdict(v, y, q3, None, c.seed, E=E, what=f'sort key of {what}')
            if r[0] != PROVED:
                return r
            if any(x in ('int', 'round') for x in conv) and any(z.op == 'div' for z in subterms(y)):
                return REFUTED, f'{what} are sorted by a rounded percentage'
    return PROVED, f'{what} are sorted by {cut(show(t1), 80)}'


def strip(d):
    while d is not None and d.op in ('perm', 'aslist', 'items'):
        d = d.args[0]
    return d


def direction(E, rev, neg, what, g=BT):
    r = E.truth0(rev) if isinstance(rev, Term) else (BT if rev else BF)
    w = batom(T('truthy', REV))
    w = bnot(w) if neg else w
    if implies(band(g, r), w) and implies(band(g, w), r):
        return PROVED, ''
    if r in (BT, BF) or all(base(a) or a.op == 'truthy' for a in tm.batoms(r)):
        return REFUTED, f'{what} are sorted in direction {cut(show_b(r), 80)}, must be {cut(show_b(w), 80)}'
    return UNKNOWN, f'{what}: direction {cut(show_b(r), 80)}'


def evalkey(t, x, row, g):
    """Value of a sort key for one row of a dict."""
    E = t.E
    if x.op in ('sortelem_v',):
        return row
    if x.op == 'sortelem_k':
        return row.args[1]
    if x.op == 'idx' and x.args[0].op == 'sortelem':
        return row if x.args[1] is const(1) else row.args[1] if x.args[1] is const(0) else None
    if x.op == 'idx':
        b = evalkey(t, x.args[0], row, g)
        return None if b is None or x.args[1].op != 'const' else lookup(E, b, x.args[1], g, t.m)
    if x.op == 'call' and x.args[0] in ('int', 'round', 'float', 'abs') and x.args[1]:
        b = evalkey(t, x.args[1][0], row, g)
        return None if b is None else T('call', x.args[0], (b,) + tuple(x.args[1][1:])) if x.args[0] != 'float' else b
    if x.op == 'const':
        return x
    return None


def titles(t, markup):
    """args['sort'] becomes the position of the column whose displayed title it is; unknown titles are refused."""
    E = t.E
    puts = [(e, ch) for e, ch in E.events(('put',)) if e.obj is AR and e.key is const('sort')]
    puts = [(e, ch) for e, ch in puts if e.val.op != 'const' and not tm.unsat(e.guard)]
    loops = {x.args[0] for e, ch in puts for x in subterms(e.val) if x.op == 'pos'}
    if len(loops) != 1:
        d = t.died()
        if d is BT and not any(strip(l.dom) is not None and show(strip(l.dom)).endswith('.columns') for l in E.loops.values()):
            return REFUTED, 'a column title is always refused'
        return UNKNOWN, 'search for the title not recognised'
    L = loops.pop()
    ln = E.loops[L]
    dom = strip(ln.dom)
    skip = 0
    if dom is not None and dom.op == 'slice' and dom.args[1].op == 'const' and isinstance(dom.args[1].args[0], int) and \
            dom.args[1].args[0] >= 0 and all(x is const(None) for x in dom.args[2:]):
        skip, dom = dom.args[1].args[0], dom.args[0]
    if dom is None or dom.op != 'attr' or dom.args[1] != 'columns':
        return UNKNOWN, f'titles searched in {cut(show(ln.dom), 60)}'
    e, ch = puts[0]
    real = tm.add(T('pos', L), const(skip))
    for q, v in tm.cases(e.val, e.guard):
        if v is not real:
            w = tm.add(v, tm.mul(const(-1), real))
            if w.op == 'const':
                return REFUTED, f'line {e.node.lineno}: column {cut(show(v), 60)} instead of {cut(show(real), 30)}'
            return UNKNOWN, f'column {cut(show(v), 60)}'
    # the condition, for each header
    X = E.mk_elem(L)
    sort_ = [x for x in tm.batoms(e.guard) if x.op in ('eq', 'eqc')]
    if len(sort_) != 1:
        return UNKNOWN, f'title compared {cut(show_b(e.guard), 120)}'
    at = sort_[0]
    sides = [a for a in at.args if any(y is X for y in subterms(a))]
    if len(sides) != 1:
        return UNKNOWN, f'title compared {cut(show(at), 120)}'
    other = [a for a in at.args if a is not sides[0]][0]
    if other.op == 'const' and other.args[0] != 'No such column' or other.op not in ('const', 'mu', 'idx'):
        return UNKNOWN, f'title compared with {cut(show(other), 80)}'
    s = sides[0]
    H = T('attr', X, 'header')
    TXT = {tm.T('str', T('call', 'rich.text.Text.from_markup', (H,))), T('attr', T('call', 'rich.text.Text.from_markup', (H,)), 'plain'),
           T('call', 'str', (T('call', 'rich.text.Text.from_markup', (H,)),))}
    heads = [cells(e2)[0].args[0] for e2, ch2 in t.cols if not ch2 and cells(e2) and cells(e2)[0].op == 'const']
    if s is H:
        bad = [x for x in heads if '\\[' in x]
        if bad:
            return REFUTED, f'titles are compared with the markup {bad[0]!r}, so the title displayed is not found'
    elif s not in TXT:
        return (REFUTED if base(s) and s.op != 'call' else UNKNOWN), f'title compared with {cut(show(s), 80)}'
    d = t.died()
    nf = [e2 for e2, ch2 in t.die if any(a.op == 'exists' and a.args[0] is L for a in tm.batoms(e2.guard))]
    none = bnot(batom(next((a for e2 in nf for a in tm.batoms(e2.guard) if a.op == 'exists' and a.args[0] is L), T('none'))))
    if not nf or not implies(none, d):
        if not t.die:
            return REFUTED, 'an unknown title is not refused'
        return (REFUTED if not nf else UNKNOWN), 'an unknown title is not refused'
    return PROVED, f'found by {cut(show(s), 80)}, position {cut(show(e.val), 40)}, otherwise refused'


def allrows(P, fn):
    t = Tab(P, fn, '1', False)
    E = t.E
    for depth in (1, 2) if fn == 'get_summary_table' else (1,):
        rs = [(e, ch) for e, ch in t.rows if len(ch) == depth]
        if not rs:
            return UNKNOWN, f'rows not recognised ({len(t.rows)})'
        g = bor(*[e.guard for e, ch in rs])
        for e, ch in rs:
            for ln in ch:
                d = strip(ln.dom)
                if d is None:
                    return UNKNOWN, 'row loop not recognised'
            if depth == 1 and strip(ch[0].dom) is not t.S:
                return (REFUTED if pipe.plain(strip(ch[0].dom)) else UNKNOWN), f'rows over {cut(show(strip(ch[0].dom)), 100)}'
        if g is not BT:
            for a in tm.batoms(g):
                if not pipe.plain(a) and a.op not in ('truthy', 'eq', 'eqc'):
                    pass
            return (REFUTED if linear.witness(bnot(g)) is not None else UNKNOWN), f'a row is shown only if {cut(show_b(g), 150)}'
    return PROVED, f'{len(t.rows)} row statements over {cut(show(t.S), 80)}'


def lists(c, P):
    for fn in TABLES:
        node = P.func('format_table', fn)
        where = loc(P, node)
        for diff in (False, True):
            for n in (1, 2, 5, -1, -3):
                tag = f'{fn}.{n}.{"diff" if diff else "value"}'
                h = {}
                if not c.group(tag, f'value graph of {fn} with --sort {n}', lambda: h.update(t=Tab(P, fn, str(n), diff))):
                    continue
                t = h['t']
                c.ob(tag, 'rows are ordered by the number displayed in the column', lambda t=t, n=n, diff=diff: listorder(c, t, n, diff), where)
        c.ob(f'{fn}.refused.0', 'the description column is refused', lambda: refused(Tab(P, fn, '0', False)), where)
        c.ob(f'{fn}.title', 'a column is found by its title, an unknown title is refused',
             lambda: titles(Tab(P, fn, 'No such column', False), False), where)
        c.ob(f'{fn}.range', 'a column out of range is refused', lambda: outofrange(P, fn), where)
        c.ob(f'{fn}.columns', 'cells stand below the title of their column', lambda: columns(c, P, fn), where)
        c.ob(f'{fn}.rows', 'every entry gets its row', lambda: allrows(P, fn), where)


def keyparts(t, ln):
    """(list object, index, field name) of a key sortelem().F[i].x, with the appended cell tuples."""
    E = t.E
    ps = [o for o in tidy(ln.ordering) if o.op == 'perm']
    if len(ps) != 1 or len(ps[0].args) < 4 or ps[0].args[2].op != 'skey' or ps[0].args[2].args[0] != 'by':
        return None
    k = ps[0].args[2].args[1]
    if k.op == 'tuple' and k.args[0]:
        k = k.args[0][0]
    neg = False
    for _ in range(3):
        while k.op == 'call' and k.args[0] in WHOLE and len(k.args[1]) == 1:
            k = k.args[1][0]
        n = linear_neg(k)
        if n is not None:
            neg, k = not neg, n
    return ps[0], k, neg


def member(t, rows, path):
    """Follow sortelem() through attribute/index steps into the tuples appended to list `rows`."""
    E = t.E
    if path.op == 'sortelem':
        vs = [e.val for e, ch in E.events(('append',)) if e.obj is rows]
        return vs[0] if len(vs) == 1 else None
    if path.op in ('attr', 'idx'):
        b = member(t, rows, path.args[0])
        if b is None:
            return None
        k = path.args[1]
        if b.op == 'tuple':
            if path.op == 'attr' and len(b.args) > 1 and k in b.args[1]:
                return b.args[0][list(b.args[1]).index(k)]
            if path.op == 'idx' and k.op == 'const' and isinstance(k.args[0], int):
                try:
                    return b.args[0][k.args[0]]
                except IndexError:
                    return None
            return None
    return None


def appends(t, obj):
    return [(e, ch) for e, ch in t.E.events(('append',)) if e.obj is obj]


def listorder(c, t, n, diff):
    if t.died() is BT:
        return REFUTED, 'an existing column is refused'
    rs = [(e, ch) for e, ch in t.rows if len(ch) == 1]
    if len(rs) != 1:
        return UNKNOWN, f'{len(rs)} row statements'
    ln = rs[0][1][0]
    if not [o for o in ln.ordering if o.op == 'perm']:
        return (REFUTED, 'rows are not sorted') if strip(ln.dom) is t.S else (UNKNOWN, 'order not recognised')
    kp = keyparts(t, ln)
    if kp is None:
        return by_key(ln.ordering, lambda SE: [], 'rows', E=t.E)
    p, k, neg = kp
    if k.op == 'phi':
        return UNKNOWN, f'key {cut(show(k), 100)}'
    r = direction(t.E, p.args[3], neg, 'rows')
    if r[0] != PROVED:
        return r
    vals = []
    for q, x in tm.cases(k):
        while x.op == 'call' and x.args[0] in WHOLE and len(x.args[1]) == 1:
            x = x.args[1][0]
        vals.append(x)
    for x in vals:
        # sortelem().F[i].field
        if x.op not in ('attr', 'idx') or x.args[0].op != 'idx' or x.args[0].args[1].op != 'const':
            if base(x) and any(y.op == 'sortelem' for y in subterms(x)) and member(t, p.args[0], x) is not None and \
                    member(t, p.args[0], x).op != 'new':
                return REFUTED, f'rows are sorted by {cut(show(x), 100)}, whatever the column'
            if x.op == 'call' and x.args[0] in ('abs', 'str', 'len', 'repr', 'bool', 'hex') and len(x.args[1]) == 1 and \
                    any(y.op == 'sortelem' for y in subterms(x)):
                return REFUTED, f'rows are sorted by {cut(show(x), 100)}'
            return UNKNOWN, f'key {cut(show(x), 100)}'
        i = x.args[0].args[1].args[0]
        lst = member(t, p.args[0], x.args[0].args[0])
        if lst is None or lst.op != 'new':
            return UNKNOWN, f'cells of a row: {cut(show(x.args[0].args[0]), 80)}'
        ap = appends(t, lst)
        off = 0
        if ap and cellnum(ap[0][0].val, x, diff) is None and len(ap[0][1]) == 1:
            off = 1
        want = (n - 1 + off) if n > 0 else n
        if i != want:
            return REFUTED, f'--sort {n} sorts by cell {i} of the row, must be {want}'
        for e, ch in ap[off:]:
            got = cellnum(e.val, x, diff)
            if got is None:
                return UNKNOWN, f'line {e.node.lineno}: cell {cut(show(e.val), 100)}'
            num, shown_ = got
            num, shown_ = first(t.E, num, ch), first(t.E, shown_, ch)
            if num is not shown_:
                r = verdict(num, shown_, BT, None, c.seed, E=t.E, what='number the row is sorted by')
                if r[0] != PROVED:
                    if r[0] == UNKNOWN and pipe.plain(num) and pipe.plain(shown_):
                        return REFUTED, f'sorted by {cut(show(num), 100)} while {cut(show(shown_), 100)} is displayed'
                    if r[0] == UNKNOWN and base(num) and base(shown_):
                        return REFUTED, f'sorted by {cut(show(num), 150)} while {cut(show(shown_), 150)} is displayed'
                    return r
    return PROVED, f'--sort {n}: {cut(show(vals[0]), 80)}'


def first(E, v, ch):
    """The value in the first iteration, for values carried over from before the loop."""
    m = {}
    for x in subterms(v):
        if x.op == 'mu' and len(x.args) == 2 and x.args[1].op == 'var' and x.args[0] in E.loops:
            y = E.loops[x.args[0]].init_env.get(tuple(x.args[1].args))
            if y is not None:
                m[x] = y
    return tm.replace(v, m) if m else v


def cellnum(v, x, diff):
    """(number the key takes from the cell tuple v, number the cell displays)."""
    if v.op != 'tuple':
        return None
    k = x.args[1]
    try:
        if x.op == 'attr':
            num = v.args[0][list(v.args[1]).index(k)]
        else:
            num = v.args[0][k.args[0]]
    except (ValueError, IndexError, TypeError):
        return None
    for y in v.args[0]:
        s = cellval(y, int(diff))
        if s is not None:
            return num, s
    return None


def outofrange(P, fn):
    t = Tab(P, fn, '99', False)
    rs = [(e, ch) for e, ch in t.rows if len(ch) == 1]
    # the failing lookup must be inside a try that catches it and ends in log.die
    node = P.func('format_table', fn)
    sites = set()
    hit = {}

    def facts(atom):
        if atom.op == 'exc' and len(atom.args) == 3 and any(x in ('IndexError', 'LookupError', 'Exception') for x in atom.args[1]):
            sites.add(atom.args[0])
            return True
        return False if atom.op == 'exc' else None
    stop = {'memorymap.trim', 'memorymap.get_summary_filtered'}
    stop |= {f'memorymap.{x}' for x in TABLES.values()}
    E, v, _ = run(P, 'format_table', fn, positional=[MMP, AR], stop=stop, facts=facts,
                  pre=[(AR, const('diff'), const(True)), (AR, const('sort'), const('99')), (AR, const('sort_diff'), const(False))])
    die = bor(*[e.guard for e, ch in E.events(('call',)) if e.key.args and e.key.args[0] in ('log.die', 'sys.exit') and not ch])
    if not sites:
        if t.died() is BF and rs and keyparts(t, rs[0][1][0]) is not None:
            return REFUTED, 'an index error of the sort key is not turned into an error message'
        return UNKNOWN, f'refused iff {cut(show_b(t.died()), 150)}'
    # is the sort inside one of them?
    out = [e for e, ch in E.events(('call',)) if e.key.args and e.key.args[0] == '.add_row']
    if die is BT:
        return PROVED, f'the error of the sort key is caught ({", ".join(sorted(sites))}) and reported'
    return (REFUTED if die is BF else UNKNOWN), f'error caught, reported iff {cut(show_b(die), 100)}'


def columns(c, P, fn):
    t = Tab(P, fn, '1', False)
    rs = [(e, ch) for e, ch in t.rows if len(ch) == 1]
    if len(rs) != 1:
        return UNKNOWN, f'{len(rs)} row statements'
    kp = keyparts(t, rs[0][1][0])
    if kp is None:
        return UNKNOWN, 'rows not recognised'
    p, k, neg = kp
    lst = None
    for x in subterms(k):
        if x.op == 'idx' and x.args[1].op == 'const':
            m = member(t, p.args[0], x.args[0])
            if m is not None and m.op == 'new':
                lst = m
    if lst is None:
        return UNKNOWN, 'cells not recognised'
    heads = [shape(t, e, ch, cells(e)[0]) for e, ch in t.cols][1:]
    body = []
    for e, ch in appends(t, lst):
        v = None
        if e.val.op == 'tuple':
            for y in e.val.args[0]:
                v = v or cellval(y, 0)
        if v is None:
            return UNKNOWN, f'line {e.node.lineno}: cell {cut(show(e.val), 100)}'
        body.append(shape(t, e, ch[1:], v))
    if [x[0] for x in heads] != [x[0] for x in body] or any(x[0] is None for x in heads):
        if any(x[0] is None for x in heads + body):
            return UNKNOWN, f'columns {heads}, cells {body}'
        return REFUTED, f'columns {[x[0] for x in heads]}, cells {[x[0] for x in body]}'
    return PROVED, f'columns and cells: {[x[0] for x in heads]}'


def shape(t, e, ch, v):
    """Nesting of the collections a column or cell comes from: names of the levels."""
    out = []
    for ln in ch:
        d = strip(ln.dom)
        if d is None or d.op != 'idx' or d.args[1].op != 'const':
            return (None, e.node.lineno)
        out.append(d.args[1].args[0])
    # the innermost level the value itself comes from
    lv = None
    for x in subterms(v):
        if x.op == 'key' and ch and x is t.E.mk_key(ch[-1].L):
            lv = out[-1]
    if ch and lv is None:
        return (None, e.node.lineno)
    return ('/'.join(out) or 'total', e.node.lineno)


def options(c, P):
    o = cli.options(P)
    node = P.func('main', 'main')
    where = loc(P, node)

    def flags():
        r = o.get('sort_reverse')
        if r is None:
            return UNKNOWN, '--sort-reverse not found'
        d, fv = cli.lit(r.kw.get('default'), '?'), cli.lit(r.kw.get('flag_value'), '?')
        off = [x for x in r.names if '/' in x]
        if off or '?' in (d, fv):
            if r.flag and d in (False, '?') and fv in (True, '?') and not off and 'default' not in r.kw:
                return REFUTED, f'--sort-reverse: default {d}, given {fv}; must be descending by default'
            return UNKNOWN, f'--sort-reverse: default {d}, given {fv}'
        if d is True and fv is False:
            return PROVED, 'sort_reverse is True (descending) by default and False when the option is given'
        return REFUTED, f'--sort-reverse: default {d}, given {fv}; must be True (descending) and False'

    def column():
        r = o.get('sort')
        if r is None:
            return UNKNOWN, '--sort not found'
        d = cli.lit(r.kw.get('default'), '?')
        return (PROVED if str(d) == '1' else REFUTED if d != '?' else UNKNOWN), f'--sort default {d!r}'

    def diffs():
        r = o.get('sort_diff')
        if r is None:
            return UNKNOWN, '--sort-diff not found'
        d = cli.lit(r.kw.get('default'), False)
        return (PROVED if r.flag and not d and 'flag_value' not in r.kw else UNKNOWN), f'--sort-diff default {d!r}'
    c.ob('option.reverse', 'descending by default, ascending when reversed', flags, where)
    c.ob('option.sort', 'the first data column is the default', column, where)
    c.ob('option.diff', 'differences only when requested', diffs, where)

    # nobody else rewrites the sort options
    def rewritten():
        for mod in P.modules.values():
            for fnode in ast.walk(mod.tree):
                if isinstance(fnode, (ast.Assign, ast.AugAssign)):
                    for tg in (fnode.targets if isinstance(fnode, ast.Assign) else [fnode.target]):
                        if isinstance(tg, ast.Subscript) and isinstance(tg.slice, ast.Constant) and \
                                tg.slice.value in ('sort_reverse', 'sort_diff'):
                            return UNKNOWN, f'{mod.path}:{fnode.lineno} rewrites {tg.slice.value}'
        return PROVED, 'sort_reverse and sort_diff are only read'
    c.ob('option.kept', 'the sort options are used as given', rewritten, where)


def users(c, P):
    """The reports sort what they show."""
    for mod, fn, summ in (('format_json', 'show_archives', 'get_archives_summary'), ('format_json', 'show_symbols', 'get_symbols_summary'),
                          ('format_json', 'show_object_files', 'get_object_files_summary')):
        node = P.func(mod, fn)

        def shown_(mod=mod, fn=fn, summ=summ):
            E, v, _ = run(P, mod, fn, positional=[MMP, AR], stop={f'memorymap.{summ}', 'memorymap.get_summary_sorted'})
            want = T('call', 'memorymap.get_summary_sorted', (T('call', f'memorymap.{summ}', (MMP, AR)), AR))
            ds = [x for e, ch in E.events(('call',)) for a in e.val.args[0] for x in subterms(a)
                  if x.op == 'call' and x.args[0] == 'json.dumps']
            if not ds:
                return UNKNOWN, 'no JSON document recognised'
            for x in ds:
                a = x.args[1][0]
                if not (a is want or a.op == 'call' and a.args[:2] == want.args[:2]):
                    return (REFUTED if pipe.plain(a) else UNKNOWN), f'shows {cut(show(a), 120)}, not the sorted summary'
            return PROVED, cut(show(want), 120)
        c.ob(f'{mod}.{fn}', 'the JSON report shows the sorted summary', shown_, loc(P, node))
    for mod, fn in (('format_json', 'show_summary'), ('format_tree', 'show')):
        node = P.func(mod, fn)

        def sorts(mod=mod, fn=fn, node=node):
            names = params(node)
            pos = [T('param', n) for n in names]
            mp, ar = pos[0], next((x for x in pos if x is AR), pos[-1])
            E, v, _ = run(P, mod, fn, positional=pos, stop={'memorymap.sort', 'memorymap.trim'})
            cs = [e for e, ch in E.events(('call',)) if e.key.args and e.key.args[0] == 'memorymap.sort' and not ch]
            if not cs:
                if 'sort' in P.module('memorymap').funcs:
                    return REFUTED, 'the entries are never sorted'
                return UNKNOWN, 'memorymap.sort not found'
            g = bor(*[e.guard for e in cs])
            for e in cs:
                if tuple(e.val.args[0][:2]) != (mp, ar):
                    return UNKNOWN, f'sort called with {cut(show(e.val), 80)}'
            if g is BT or mod == 'format_tree' and implies(bnot(batom(T('truthy', f(ar, 'archive_dependencies')))), g):
                return PROVED, 'memorymap.sort is called'
            return (REFUTED if linear.witness(bnot(g)) is not None else UNKNOWN), f'sorted only if {cut(show_b(g), 100)}'
        c.ob(f'{mod}.{fn}.sorts', 'the report sorts its entries', sorts, loc(P, node))


def shapes(c, P):
    """Small maps and reports with unknown sizes: every level in turn has three entries."""
    import small
    from small import nadd
    f, g = small.function(P, 'memorymap', 'sort'), small.function(P, 'memorymap', 'get_summary_sorted')

    def ordered(I, d, key, reverse, what):
        v = [e[key] for e in d.values()]
        for x, y in zip(v, v[1:]):
            small.must(I, nadd(x, y, -1) if reverse else nadd(y, x, -1), f'{what}: {x!r} stands before {y!r}')
    for diff in (False, True):
        for rev in (False, True):
            suf = '_diff' if diff else ''
            args = small.options(sort_diff=diff, sort_reverse=rev)
            for wide in range(5):
                def body(I, wide=wide, suf=suf, rev=rev, args=args):
                    def spec(lv):
                        return {k: spec(lv + 1) for k in (('b', 'a', 'c') if lv == wide else ('x',))} if lv < 5 else {}
                    m = small.build(I, spec(0), 'map', diffs=True)
                    m0 = small.clone(m)
                    I.call(f, [m, dict(args)], {})
                    small.equal(I, m, m0, 'map')

                    def down(d, lv):
                        ordered(I, d, ('used' if lv == 0 else 'size') + suf, rev, small.LEVELS[lv])
                        if lv < 4:
                            for e in d.values():
                                down(e[small.LEVELS[lv + 1]], lv + 1)
                    down(m['memory_types'], 0)
                small.ob(c, P, f'shape.sort.{small.LEVELS[wide]}{suf}.{"down" if rev else "up"}', 'order of a small map with unknown sizes',
                         loc(P, P.func('memorymap', 'sort')), body)
            for wide in range(3):
                def rows(I, wide=wide, suf=suf, rev=rev, args=args):
                    def make(lv, path):
                        d = {}
                        for k in ('b', 'a', 'c') if lv == wide else ('x',):
                            t = '/'.join(path + (k,))
                            e = d[k] = {'abbrev_name': k, 'size': small.n(t), 'size_diff': small.n('diff ' + t)}
                            if lv < 2:
                                e[('memory_types', 'sections')[lv]] = make(lv + 1, path + (k,))
                        return d
                    m = make(0, ())
                    m0 = small.clone(m)
                    r = I.call(g, [m, dict(args)], {})
                    small.equal(I, r, m0, 'report')

                    def down(d, lv):
                        ordered(I, d, 'size' + suf, rev, ('rows', 'memory types', 'sections')[lv])
                        if lv < 2:
                            for e in d.values():
                                down(e[('memory_types', 'sections')[lv]], lv + 1)
                    down(r, 0)
                small.ob(c, P, f'shape.rows.{wide}{suf}.{"down" if rev else "up"}', 'order of a small report with unknown sizes',
                         loc(P, P.func('memorymap', 'get_summary_sorted')), rows)


def tableshapes(c, P):
    """Tables of a small map with unknown sizes, sorted by each column."""
    import small
    from absint import Cannot, PyExc
    from small import nadd
    spec = {'T': {'S': {'A': {'o': {'f': {}}}, 'B': {'q': {'h': {}}}}}, 'U': {'R': {'B': {'q': {'i': {}}}, 'A': {'o': {'g': {}}}}}}
    for fn in ('get_archives_table', 'get_object_files_table', 'get_symbols_table'):
        f = small.function(P, 'format_table', fn)
        where = loc(P, P.func('format_table', fn))
        for key, col in (('1', 0), ('2', 1), ('3', 2), ('5', 4), ('-1', 4), ('-5', 0), ('-2', 3), ('Total Size', 0), ('T', 1), ('R', 4), ('0', None), ('6', None), ('-6', None), ('none', None)):
            for diff, rev in ((False, True), (False, False), (True, True)):
                if col is None and (diff or not rev):
                    continue

                def body(I, f=f, key=key, col=col, diff=diff, rev=rev, fn=fn):
                    m = small.build(I, spec, 'map', diffs=True)
                    args = small.options(diff='ref.map', show_unchanged=True, sort=key, sort_diff=diff, sort_reverse=rev, archive_details='A' if 'symbols' in fn else None)
                    try:
                        t = I.call(f, [m, args], {})
                    except PyExc as e:
                        if getattr(e.inst, 'etype', None) != 'SystemExit':
                            raise
                        if col is not None:
                            raise small.Bad(f'column {key} is refused')
                        return
                    if col is None:
                        raise small.Bad(f'column {key} is accepted')
                    rows = t.attrs['rows'] if isinstance(t, small.TableStub) else None
                    if rows is None or not all(isinstance(x, small.Cell) for r in rows for x in r[1:]):
                        raise Cannot('cells')
                    if len(rows) != 2:
                        raise small.Bad(f'{len(rows)} rows of 2')
                    v = [r[1 + col].diff if diff else r[1 + col].size for r in rows]
                    for x, y in zip(v, v[1:]):
                        small.must(I, nadd(x, y, -1) if rev else nadd(y, x, -1), f'{x!r} stands before {y!r} in column {key}')
                small.ob(c, P, f'shape.{fn}.{key}.{"diff" if diff else "size"}.{"down" if rev else "up"}', 'table of a small map sorted by a column', where, body, hooks=small.TABLE)


def check(c):
    P = Project()
    shapes(c, P)
    tableshapes(c, P)
    trees(c, P)
    summary(c, P)
    lists(c, P)
    options(c, P)
    users(c, P)


if __name__ == '__main__':
    main('C14', RULE, check, floor=40, assumptions=['sizes are integers', 'click delivers flag_value when the flag is given and default otherwise'])
