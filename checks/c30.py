"""C30: every figure displayed belongs to the entry it stands beside."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from absint import Cannot
from report import main
import re
import cells
from vg import *
from project import *

RULE = ('value-graph analysis of the renderers: every text passed to Tree.add, Table.add_row, Table.add_column and the image size note is '
        'flattened into the values it displays; they must be the name and the figures of the entry the enclosing loops stand at (and its '
        'difference fields exactly when comparing), every entry of every level must be reached, and each tree node must hang below the '
        'node of its parent.')

AR, M = T('param', 'args'), T('param', 'memmap')
LEVELS = ('memory_types', 'sections', 'archives', 'object_files', 'symbols')
TABLES = {'get_archives_table': 'get_archives_summary', 'get_object_files_table': 'get_object_files_summary',
          'get_symbols_table': 'get_symbols_summary'}
f = lambda t, k: T('idx', t, const(k))


def strip(d):
    while d is not None and d.op in ('perm', 'items', 'keys', 'values'):
        d = d.args[0]
    return d


def scen():
    for diff in (False, True):
        for ab in (False, True):
            yield f'{"compare" if diff else "single"}.{"abbrev" if ab else "full"}', diff, ab


def flat(t):
    """Values displayed by one case of a text ([const text dropped]); None if not understood."""
    if t.op == 'const':
        return []
    if t.op == 'cat':
        out = []
        for x in t.args:
            p = flat(x)
            if p is None:
                return None
            out += p
        return out
    if t.op in ('str', 'fmt'):
        x = t.args[0]
        if x.op in ('cat', 'const', 'str', 'fmt'):
            return flat(x)
        if t.op == 'fmt' and len(t.args) > 1 and isinstance(t.args[1], str) and not re.fullmatch(
                r'''f?['"]?[-+ ,<>=0-9]*(\.[1-9]f)?d?['"]?''', t.args[1]):
            return None
        return [x]
    if t.op == 'call' and t.args[0] == 'str' and len(t.args[1]) == 1:
        return flat(T('str', t.args[1][0]))
    if t.op == 'mcall' and t.args[0] == 'format' and t.args[1].op == 'const' and isinstance(t.args[1].args[0], str) and not t.args[3]:
        holes = re.findall(r'\{([^{}]*)\}', t.args[1].args[0])
        if '{{' in t.args[1].args[0] or len(holes) != len(t.args[2]) or any(h not in ('', str(i)) for i, h in enumerate(holes)):
            return None
        return flat(T('cat', *[T('str', x) for x in t.args[2]]))
    if t.op in ('key', 'idx', 'elem', 'bk', 'be'):
        return [t]
    return None


def shown(t, g):
    """[(guard, values)] or None."""
    out = []
    for q, x in tm.cases(t, g):
        q = band(g, q)
        if tm.unsat(q):
            continue
        p = flat(x)
        if p is None:
            return None
        out.append((q, p))
    return out


def understood(x):
    return all(y.op in ('idx', 'key', 'const', 'param', 'L', 'tuple', 'aff', 'mul', 'neg', 'pos') or
               y.op == 'call' and y.args[0] in STOPS | {'abs', 'int', 'round', 'float', 'min', 'max'} for y in subterms(x))


STOPS = {'memorymap.get_summary_filtered'} | {f'memorymap.{x}' for x in TABLES.values()}


def loosely(E, q, p, name, figs):
    """An unchanged figure may be shown without its difference, or with a zero."""
    i = len(name)
    if p[:i] != name:
        return False
    for v, d in figs:
        if i >= len(p) or p[i] is not v:
            return False
        i += 1
        if i < len(p) and p[i] is d:
            i += 1
        elif implies(q, bnot(E.truth0(d))) or unsat(band(q, E.truth0(d))):
            if i < len(p) and p[i] is tm.ZERO:
                i += 1
        else:
            return False
    return i == len(p)


def compare(E, t, g, names, figs, diff, what):
    """names: acceptable names; figs: [(value, difference)] expected after the name."""
    ns = shown(t, g)
    if ns is None:
        return UNKNOWN, f'{what}: text {cut(show(t), 150)}'
    for q, p in ns:
        head = 1 if names else 0
        want = [[n] for n in names] if names else [[]]
        tail, opt = [], set()
        for v, d in figs:
            tail.append(v)
            if diff:
                tail.append(d)
        ok = False
        for w in want:
            if p == w + tail:
                ok = True
        if ok:
            continue
        if diff and any(loosely(E, q, p, w, figs) for w in want):
            continue
        if not all(understood(x) for x in p):
            return UNKNOWN, f'{what} shows {cut(", ".join(show(x) for x in p), 200)}'
        if not names and len(p) > len(tail):
            return UNKNOWN, f'{what} shows {cut(", ".join(show(x) for x in p), 200)}'
        return REFUTED, f'{what} shows {cut(", ".join(show(x) for x in p), 300)} instead of {cut(", ".join(show(x) for x in want[0] + tail), 300)}'
    return PROVED, f'{len(ns)} cases'


def fold(rs):
    rs = list(rs)
    for v in (REFUTED, UNKNOWN):
        for r in rs:
            if r[0] == v:
                return r
    return PROVED, f'{len(rs)} texts, {"; ".join(r[1] for r in rs)}' if rs else 'none'


def entry(E, ch, root):
    """Entry the loops stand at when they descend level by level from root; None otherwise."""
    x = root
    for ln, lv in zip(ch, LEVELS):
        d = f(x, lv)
        if strip(ln.dom) is not d:
            return None
        k = E.mk_key(ln.L)
        x = T('idx', d, k)
    return x


def cover(evs, what):
    g = BF
    for e in evs:
        g = bor(g, e.guard)
    if unsat(bnot(g)):
        return PROVED, f'{what}: every entry'
    ats = tm.batoms(bnot(g))
    if all(a.op in ('truthy', 'lt', 'neg', 'eqc', 'eq0', 'eq', 'in') and understood_atom(a) for a in ats):
        return REFUTED, f'{what} missing unless {cut(show_b(g, 3), 200)}'
    return UNKNOWN, f'{what} only when {cut(show_b(g, 2), 200)}'


def understood_atom(a):
    return all(y.op in ('idx', 'key', 'const', 'param', 'L', 'tuple', 'aff', 'truthy', 'lt', 'neg', 'eqc', 'eq0', 'eq', 'in', 'pos') for y in subterms(a))


def label(k, row, ab, lv):
    if lv in ('memory_types', 'symbols'):
        return [k]
    return [f(row, 'abbrev_name')] if ab else [k]


def depth(t):
    """Distance of a node term from the root Tree; None if not understood."""
    n = 0
    while t.op == 'mcall' and t.args[0] == 'add':
        t = t.args[1]
        n += 1
    return n if t.op == 'call' and str(t.args[0]).endswith('Tree') else None


def trees(c, P):
    node = P.func('format_tree', 'show_memmap', public=False)
    if node is None:
        c.add('tree', 'tree renderer', UNKNOWN, 'show_memmap is gone', '')
        return
    where = loc(P, node)
    for tag, diff, ab in scen():
        tag = f'tree.{tag}'
        h = {}

        def start():
            h['E'] = run(P, 'format_tree', 'show_memmap', args={'memmap': M, 'args': AR}, stop={'memorymap.trim', 'memorymap.sort'},
                         pre=[(AR, const('diff'), const(diff)), (AR, const('abbrev'), const(ab))])[0]
        if not c.group(tag, 'value graph of format_tree.show_memmap', start):
            continue
        E = h['E']
        adds = [(e, ch) for e, ch in E.events(('call',)) if e.key.args and e.key.args[0] == '.add' and len(e.val.args[0]) > 1]
        c.count('tree nodes', len(adds))
        if not adds:
            c.add(f'{tag}.nodes', 'tree nodes', UNKNOWN, 'no nodes found', where)
            continue
        for n, lv in enumerate(LEVELS, 1):
            evs = [(e, ch) for e, ch in adds if len(ch) == n]

            def figures():
                rs = []
                for e, ch in evs:
                    x = entry(E, ch, M)
                    if x is None:
                        return UNKNOWN, f'line {e.node.lineno}: loops not understood'
                    k = E.mk_key(ch[-1].L)
                    if lv == 'memory_types':
                        z = E.truth0(f(x, 'size'))
                        for g, fg in ((band(e.guard, z), [('used', 'used_diff'), ('size', 'size_diff')]), (band(e.guard, bnot(z)), [('used', 'used_diff')])):
                            if unsat(g):
                                continue
                            r = compare(E, e.val.args[0][1], g, label(k, x, ab, lv), [(f(x, a), f(x, b)) for a, b in fg], diff, f'line {e.node.lineno}')
                            if r[0] == REFUTED and g is not band(e.guard, z):
                                # a type without a total: showing a zero total is not wrong
                                r2 = compare(E, e.val.args[0][1], g, label(k, x, ab, lv),
                                             [(f(x, 'used'), f(x, 'used_diff')), (f(x, 'size'), f(x, 'size_diff'))], diff, '')
                                if r2[0] == PROVED:
                                    r = UNKNOWN, f'line {e.node.lineno}: a zero total is shown'
                            rs.append(r)
                    else:
                        rs.append(compare(E, e.val.args[0][1], e.guard, label(k, x, ab, lv), [(f(x, 'size'), f(x, 'size_diff'))], diff,
                                          f'line {e.node.lineno}'))
                if not rs:
                    return UNKNOWN, f'nothing added for {lv}'
                return fold(rs)
            c.ob(f'{tag}.{lv}.figures', f'nodes of {lv} show their own name and figures', figures, where)

            def reached():
                if not evs:
                    return UNKNOWN, f'nothing added for {lv}'
                if any(entry(E, ch, M) is None for e, ch in evs):
                    return UNKNOWN, 'loops not understood'
                return cover([e for e, ch in evs], lv)
            c.ob(f'{tag}.{lv}.reached', f'every entry of {lv} gets a node', reached, where)

            def below():
                for e, ch in evs:
                    d = depth(e.val.args[0][0])
                    if d is None:
                        return UNKNOWN, f'line {e.node.lineno}: parent node {cut(show(e.val.args[0][0]), 100)}'
                    if d != n - 1:
                        return REFUTED, f'line {e.node.lineno}: a node of {lv} is put at level {d + 1} of the tree'
                    if n > 1:
                        up = e.val.args[0][0]
                        ok = [a for a, c2 in adds if len(c2) == n - 1 and up.args[2] and a.val.args[0][1] is up.args[2][0]]
                        if not ok:
                            return UNKNOWN, f'line {e.node.lineno}: parent node not recognised'
                return (PROVED, f'{len(evs)} node forms') if evs else (UNKNOWN, 'nothing added')
            c.ob(f'{tag}.{lv}.parent', f'nodes of {lv} hang below the node of their parent', below, where)

        def printed():
            ps = [(e, ch) for e, ch in E.events(('call',)) if e.key.args and e.key.args[0] == 'log.print']
            if len(ps) == 1 and not ps[0][1] and ps[0][0].guard is BT:
                a = ps[0][0].val.args[0]
                if a and depth(a[0]) == 0:
                    return PROVED, 'the root is printed'
                if a and (depth(a[0]) or a[0].op == 'last' and all(depth(x) for q, x in tm.cases(a[0].args[1]))):
                    return REFUTED, 'only a branch of the tree is printed'
            return UNKNOWN, f'{len(ps)} prints'
        c.ob(f'{tag}.printed', 'the whole tree is printed once', printed, where)


def lists(c, P):
    for fn, sf in TABLES.items():
        node = P.func('format_table', fn, public=False)
        if node is None:
            c.add(fn, 'table', UNKNOWN, f'{fn} is gone', '')
            continue
        where = loc(P, node)
        S = T('call', 'memorymap.get_summary_filtered', (T('call', f'memorymap.{sf}', (M, AR)), AR))
        for tag, diff, ab in scen():
            tag = f'{fn}.{tag}'
            h = {}

            def start():
                h['E'] = scenario(P, 'format_table', fn, positional=[M, AR], stop=STOPS,
                             pre=[(AR, const('diff'), const(diff)), (AR, const('abbrev'), const(ab)), (AR, const('sort'), const('1')),
                                  (AR, const('sort_diff'), const(False))])[0]
            if not c.group(tag, f'value graph of format_table.{fn}', start):
                continue
            E = h['E']
            rows = [(e, ch) for e, ch in E.events(('call',)) if e.key.args and e.key.args[0] == '.add_row']
            cols = [(e, ch) for e, ch in E.events(('call',)) if e.key.args and e.key.args[0] == '.add_column']
            c.count('table rows', len(rows))

            def at(ch):
                """Row entry and nested entry of a chain of loops over the summary."""
                if not ch or strip(ch[0].dom) is not S:
                    return None
                x = T('idx', S, E.mk_key(ch[0].L))
                return entry(E, ch[1:], x)

            def name_and_figures():
                if len(rows) != 1 or len(rows[0][1]) != 1:
                    return UNKNOWN, f'{len(rows)} row statements'
                e0, ch0 = rows[0]
                a = e0.val.args[0][1:]
                if len(a) != 1 or a[0].op != 'star' or a[0].args[0].op != 'new':
                    return UNKNOWN, 'row not recognised'
                L = a[0].args[0]
                ev = [(e, ch) for e, ch in E.events(('append',)) if e.obj is not None and e.obj.op == 'new' and e.obj.args[0] == L.args[0]]
                rs, lens = [], []
                for i, (e, ch) in enumerate(ev):
                    x = at(ch)
                    if x is None or len(ch) > 3:
                        return UNKNOWN, f'line {e.node.lineno}: loops not understood'
                    lens.append(len(ch))
                    if i == 0 and len(ch) == 1:
                        rs.append(compare(E, T('str', e.val), e.guard, [f(x, 'abbrev_name') if ab else E.mk_key(ch[0].L)], [], diff, 'row name'))
                    else:
                        rs.append(compare(E, e.val, e.guard, [], [(f(x, 'size'), f(x, 'size_diff'))], diff,
                                          ('total', 'memory type cell', 'section cell')[len(ch) - 1]))
                if lens != [1, 1, 2, 3]:
                    return UNKNOWN, f'cells at levels {lens}'
                return fold(rs)
            c.ob(f'{tag}.cells', 'a row shows the name, total and per type and section figures of its entry', name_and_figures, where)

            def heads():
                rs = []
                for e, ch in cols:
                    if not ch:
                        continue
                    t = e.val.args[0][1] if len(e.val.args[0]) > 1 else None
                    if t is None or len(ch) > 2:
                        return UNKNOWN, 'column not recognised'
                    k = E.mk_key(ch[-1].L)
                    row = None
                    d = strip(ch[0].dom)
                    if d.op != 'idx' or d.args[1] is not const('memory_types'):
                        return UNKNOWN, 'column loop not recognised'
                    x = T('idx', d, E.mk_key(ch[0].L))
                    if len(ch) == 2:
                        if strip(ch[1].dom) is not f(x, 'sections'):
                            return UNKNOWN, 'column loop not recognised'
                        x = T('idx', f(x, 'sections'), k)
                    ps = shown(T('str', t), e.guard)
                    if ps is None:
                        return UNKNOWN, f'heading {cut(show(t), 100)}'
                    want = [k] if len(ch) == 1 or not ab else [f(x, 'abbrev_name')]
                    for q, p in ps:
                        if p == want:
                            rs.append((PROVED, 'own name'))
                        elif all(understood(z) for z in p):
                            rs.append((REFUTED, f'line {e.node.lineno}: heading {cut(", ".join(show(z) for z in p), 150)} instead of {cut(show(want[0]), 150)}'))
                        else:
                            rs.append((UNKNOWN, f'line {e.node.lineno}: heading {cut(show(t), 100)}'))
                return fold(rs) if rs else (UNKNOWN, 'no columns found')
            c.ob(f'{tag}.headings', 'the columns are headed by the memory types and sections', heads, where)


def summary(c, P):
    fn = 'get_summary_table'
    node = P.func('format_table', fn, public=False)
    if node is None:
        c.add(fn, 'table', UNKNOWN, f'{fn} is gone', '')
        return
    where = loc(P, node)
    for tag, diff, ab in scen():
        tag = f'{fn}.{tag}'
        h = {}

        def start():
            h['E'] = run(P, 'format_table', fn, positional=[M, AR], stop={'memorymap.trim', 'memorymap.sort_dict_by_key'},
                         pre=[(AR, const('diff'), const(diff)), (AR, const('abbrev'), const(ab)), (AR, const('sort'), const('1')),
                              (AR, const('sort_diff'), const(False))])[0]
        if not c.group(tag, f'value graph of format_table.{fn}', start):
            continue
        E = h['E']
        rows = [(e, ch) for e, ch in E.events(('call',)) if e.key.args and e.key.args[0] == '.add_row']

        def names():
            rs = []
            for e, ch in rows:
                if not 1 <= len(ch) <= 2 or len(e.val.args[0]) < 3:
                    return UNKNOWN, 'row not recognised'
                k = E.mk_key(ch[-1].L)
                d = strip(ch[-1].dom)
                while d is not None and d.op == 'call' and d.args[0] == 'memorymap.sort_dict_by_key':
                    d = d.args[1][0]
                want = [k]
                if len(ch) == 2 and ab:
                    want = None
                ps = shown(T('str', e.val.args[0][1]), e.guard)
                if ps is None:
                    return UNKNOWN, 'name not recognised'
                for q, p in ps:
                    if want is None:
                        ok = len(p) == 1 and p[0].op == 'idx' and p[0].args[1] is const('abbrev_name') and p[0].args[0].op == 'idx' and p[0].args[0].args[1] is k
                    else:
                        ok = p == want
                    if ok:
                        rs.append((PROVED, 'own name'))
                    elif p and all(x.op == 'key' for x in p) and want is not None:
                        rs.append((REFUTED, f'line {e.node.lineno}: the row is named {cut(show(p[0]), 100)}, not after its entry'))
                    else:
                        rs.append((UNKNOWN, f'line {e.node.lineno}: name {cut(", ".join(show(x) for x in p), 150)}'))
            return fold(rs) if rs else (UNKNOWN, 'no rows')
        c.ob(f'{tag}.names', 'rows are named after their entry', names, where)


def notes(c, P):
    node = P.func('format_table', 'show_image_info', public=False)
    if node is None:
        c.add('image', 'image size note', UNKNOWN, 'show_image_info is gone', '')
        return
    where = loc(P, node)
    for diff in (False, True):
        tag = f'image.{"compare" if diff else "single"}'
        h = {}

        def start():
            h['E'] = run(P, 'format_table', 'show_image_info', positional=[M, AR], pre=[(AR, const('diff'), const(diff))])[0]
        if not c.group(tag, 'value graph of format_table.show_image_info', start):
            continue
        E = h['E']

        def size():
            ps = [(e, ch) for e, ch in E.events(('call',)) if e.key.args and str(e.key.args[0]).startswith('log.')]
            rs = []
            for e, ch in ps:
                if len(e.val.args[0]) != 1:
                    return UNKNOWN, 'note not understood'
                t = e.val.args[0][0]
                if t.op == 'mcall' and t.args[0] == 'format':
                    t = T('cat', *[T('str', x) for x in t.args[2]])
                rs.append(compare(E, t, e.guard, [], [(f(M, 'image_size'), f(M, 'image_size_diff'))], diff, f'line {e.node.lineno}'))
            if len(ps) != 1 or ps[0][0].guard is not BT:
                return UNKNOWN, f'{len(ps)} notes'
            return fold(rs)
        c.ob(tag, 'the note shows the image size (and its difference when comparing)', size, where)


def shapes(c, P):
    """Tables of small maps with unknown sizes: headers, and every cell beside the name of its entry."""
    import small
    for fn, lv in (('get_archives_table', 2), ('get_object_files_table', 3), ('get_symbols_table', 4)):
        f = small.function(P, 'format_table', fn)
        where = loc(P, P.func('format_table', fn))
        for name, spec in (('mixed', small.mixed()), ('one', {'T': {'S': {'A': {'o': {'f': {}}}}}}), ('two', {'T': {'S': {'A': {'o': {'f': {}}, 'p': {'g': {}}}, 'B': {'q': {'h': {}}}}},
                                                                                                             'U': {'R': {'B': {'q': {'i': {}}}}}})):
            for diff in (None, 'ref.map'):
                for ab in (True, False):
                    def body(I, f=f, lv=lv, spec=spec, diff=diff, ab=ab):
                        def short(level, x):
                            return x if level == 'archives' else f'{x}.short'
                        m = small.build(I, spec, 'map', diffs=True, abbrev=short)
                        heads = []
                        for t, e in m['memory_types'].items():
                            heads.append((t, None, t))
                            heads += [(t, k, s['abbrev_name'] if ab else k) for k, s in e['sections'].items()]
                        rows = {}

                        def visit(d, l, path):
                            for k, e in d.items():
                                p = path + (k,)
                                if l == 2 and lv == 4 and k != 'A':
                                    continue
                                if l < lv:
                                    visit(e[small.LEVELS[l + 1]], l + 1, p)
                                else:
                                    rows.setdefault(':'.join(p[2:]), []).append((p[0], p[1], e))
                        visit(m['memory_types'], 0, ())
                        args = small.options(diff=diff, abbrev=ab, no_abbrev=not ab, show_unchanged=True, sort='1', sort_reverse=True, archive_details='A' if lv == 4 else None)
                        t = I.call(f, [m, args], {})
                        if not isinstance(t, small.TableStub):
                            raise Cannot('no table')
                        got = [x.attrs['header'] for x in t.attrs['columns']]
                        if got[2:] != [h[2] for h in heads]:
                            raise small.Bad(f'columns {got[2:]}, not {[h[2] for h in heads]}')
                        if len(t.attrs['rows']) != len(rows):
                            raise small.Bad(f'{len(t.attrs["rows"])} rows for {len(rows)} entries')
                        left = dict(rows)
                        for r in t.attrs['rows']:
                            if len(r) != 2 + len(heads):
                                raise small.Bad(f'a row with {len(r)} cells below {2 + len(heads)} columns')
                            if not all(isinstance(x, small.Cell) for x in r[1:]):
                                raise Cannot('cells')

                            def beside(key):
                                def total(g, a=None, b=None):
                                    v = 0
                                    for x, y, e in rows[key]:
                                        if a in (None, x) and b in (None, y):
                                            v = small.nadd(v, e[g])
                                    return v
                                for x, (a, b, _) in zip(r[1:], [(None, None, 'total')] + heads):
                                    for g, v in (('size', x.size), ('size_diff', x.diff)):
                                        if small.apart(I, v, total(g, a, b)):
                                            return f'{g} in column {b or a or "total"} of {key} is {v!r}, not {total(g, a, b)!r}'
                                    if x.shown != bool(diff):
                                        return f'difference in column {b or a or "total"} of {key} is {"" if x.shown else "not "}shown'
                            names = [k for k in left if (k if not ab else k.split(':')[-1] + ('.short' if False else '')) == r[0]]
                            if not names and ab:
                                names = [k for k in left if str(r[0]).startswith(k.split(':')[-1])]
                            if not names:
                                raise small.Bad(f'a row named {r[0]!r}')
                            why = [beside(k) for k in names]
                            if all(why):
                                raise small.Bad(why[0])
                            del left[names[why.index(None)]]
                    small.ob(c, P, f'shape.{fn}.{name}.{"diff" if diff else "plain"}.{"short" if ab else "full"}', 'tables of small maps with unknown sizes', where, body,
                             hooks=small.TABLE, limit=3000)


def check(c):
    P = Project()
    shapes(c, P)
    trees(c, P)
    lists(c, P)
    summary(c, P)
    notes(c, P)


if __name__ == '__main__':
    main('C30', RULE, check, assumptions=[
        'rich Tree.add returns the node it added; Table.add_row and add_column take the cells and columns in display order',
        'memorymap.trim and sort keep names and figures (decided by C14 and C15)'], floor=60)
