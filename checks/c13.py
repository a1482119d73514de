"""C13: usage figures in the summary are consistent."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
import cells
import cli
import linear
import pipe
from vg import *

RULE = ('value-graph analysis of format_table.get_summary_table, format_json.show_summary and memorymap.ignore_flash_size: the number '
        'shown in every cell of the row of an arbitrary memory type and section is compared, case by case, with used, used/total, '
        'total-used and total of the current side and with the differences that follow from both sides; every division must be '
        'guarded by a non-zero divisor; flash types lose their total unless requested.')

f = lambda t, k: T('idx', t, const(k))
AR = T('param', 'args')
M = T('param', 'memmap')
HUNDRED = const(100)


def pct(a, b):
    return tm.mul(HUNDRED, tm.div(a, b))


def minus(a, b):
    return tm.add(a, tm.mul(const(-1), b))


def spec(E, X, X0, S=None):
    """Expected (value, difference) per column for a type (S None) or a section of it; case split on totals."""
    size, sd = f(X, 'size'), f(X, 'size_diff')
    ref = minus(size, sd)
    hasref = E.truth0(ref)
    if S is None:
        u, ud = f(X, 'used'), f(X, 'used_diff')
    else:
        u, ud = f(S, 'size'), f(S, 'size_diff')
    u0 = minus(u, ud)
    p = pct(u, size)
    p0 = tm.phi(hasref, pct(u0, ref), tm.ZERO)
    r = minus(size, u)
    r0 = tm.phi(hasref, minus(ref, u0), tm.ZERO)
    out = [(u, ud), (p, minus(p, p0))]
    out += [(r, minus(r, r0)), (size, sd)] if S is None else [None, None]
    return out


COLS = ('used', 'percent', 'remain', 'total')


def table(c, P):
    node = P.func('format_table', 'get_summary_table')
    where = loc(P, node)
    for diff in (False, True):
        h = {}
        tag = 'diff' if diff else 'plain'

        def start():
            E, v, _ = scenario(P, 'format_table', node.name, positional=[M, AR], stop={'memorymap.trim'},
                               pre=[(AR, const('diff'), const(diff)), (AR, const('sort'), const('1')),
                                    (AR, const('sort_diff'), const(False))])
            h.update(E=E)
            c.counts['loops'] = c.counts.get('loops', 0) + E.stats['loops']
            c.counts['effects'] = c.counts.get('effects', 0) + E.stats['events']
        if not c.group(f'table.{tag}', 'value graph of the summary table', start):
            continue
        E = h['E']
        rows = [(e, ch) for e, ch in E.events(('call',)) if e.key.args and e.key.args[0] == '.add_row']
        for depth, what in ((1, 'type'), (2, 'section')):
            mine = [(e, ch) for e, ch in rows if len(ch) == depth]
            for known in (True, False):
                for i, col in enumerate(COLS):
                    c.ob(f'table.{tag}.{what}.{col}.{"total" if known else "nototal"}',
                         'the cell shows the figure that follows from used and total' if known else
                         'without a total nothing but the usage is shown',
                         lambda mine=mine, i=i, known=known, depth=depth: cell(c, E, mine, i, known, depth, diff), where)
            if what == 'section':
                continue
        c.ob(f'table.{tag}.division', 'nothing is divided by a total of zero', lambda: divisions(E), where)
        c.ob(f'table.{tag}.trim', 'the table is built from the memory map, before which only trimming happens', lambda: trimmed(E), where)


def strip(d):
    while d is not None and d.op in ('perm', 'aslist', 'items', 'values'):
        d = d.args[0]
    return d


def cell(c, E, mine, i, known, depth, diff):
    if not mine:
        return UNKNOWN, 'rows not recognised'
    r = UNKNOWN, 'no row in this case'
    for e, ch in mine:
        d = strip(ch[0].dom)
        if d is not f(M, 'memory_types'):
            return UNKNOWN, f'rows over {cut(show(d), 80)}'
        X = T('idx', d, E.mk_key(ch[0].L))
        S = None
        if depth == 2:
            d2 = strip(ch[1].dom)
            if d2 is not f(X, 'sections'):
                return UNKNOWN, f'rows over {cut(show(d2), 80)}'
            S = T('idx', d2, E.mk_key(ch[1].L))
        tot = E.truth0(f(X, 'size'))
        g = band(e.guard, tot if known else bnot(tot))
        if tm.unsat(g):
            continue
        cs = e.val.args[0]
        cs = cs[1:] if cs and cs[0].op in ('call', 'new', 'param') and len(cs) == 6 else cs
        if len(cs) != 5 or any(x.op == 'star' for x in cs):
            return UNKNOWN, f'line {e.node.lineno}: {len(cs)} cells'
        ns = cells.numbers(cs[i + 1], g)
        if ns is None:
            return UNKNOWN, f'line {e.node.lineno}: cell {cut(show(cs[i + 1]), 120)}'
        sp = spec(E, X, None, S)[i]
        if not known and i > 0:
            sp = None
        for q, p in ns:
            if sp is None:
                if p:
                    return REFUTED, f'line {e.node.lineno} shows {cut(show(p[0]), 120)} in the {COLS[i]} column' + \
                        ('' if known else ' without a total')
                r = PROVED, 'empty'
                continue
            if len(p) != (2 if diff else 1):
                if len(p) < (2 if diff else 1):
                    return REFUTED, f'line {e.node.lineno} shows {len(p)} numbers in the {COLS[i]} column'
                return UNKNOWN, f'line {e.node.lineno}: {len(p)} numbers'
            for x, want, nm in zip(p, sp, (COLS[i], f'{COLS[i]} difference')):
                y, lost = cells.unround(x)
                if lost == 'int' and i == 1:
                    return REFUTED, f'line {e.node.lineno}: the fraction of the {nm} is lost'
                r = verdict(y, want, q, None, c.seed, E=E, what=nm)
                if r[0] != PROVED:
                    return r
    return r


def divisions(E):
    n = 0
    for e, ch in E.events(('put', 'call', 'append')):
        v = e.val
        if v is None:
            continue
        ts = v.args[0] if e.kind == 'call' and v.args else (v,)
        for t in ts:
            if not isinstance(t, Term) or not any(x.op == 'div' for x in subterms(t)):
                continue
            for q, x in tm.cases(t, e.guard):
                q = band(q, e.guard)
                if tm.unsat(q):
                    continue
                for y in subterms(x):
                    if y.op == 'div' and not any(z.op == 'phi' for z in subterms(y)):
                        n += 1
                        nz = E.truth0(y.args[1])
                        if not implies(q, nz):
                            if linear.witness(band(q, bnot(nz))) is not None and pipe_ok(y.args[1]):
                                return REFUTED, f'line {e.node.lineno} divides by {cut(show(y.args[1]), 100)} which may be zero'
                            return UNKNOWN, f'line {e.node.lineno} divides by {cut(show(y.args[1]), 100)}'
    return PROVED, f'{n} divisions are guarded'


def pipe_ok(t):
    return all(x.op in ('idx', 'key', 'L', 'param', 'const', 'aff', 'neg') for x in subterms(t))


def trimmed(E):
    for e, ch in E.events(('put',)):
        if e.obj is not None and e.key is not None and e.key.op == 'const' and e.key.args[0] in ('size', 'size_diff') and \
                any(x is M for x in subterms(e.obj)):
            return UNKNOWN, f'line {e.node.lineno} rewrites {e.key.args[0]}'
        if e.obj is not None and e.key is not None and e.key.op == 'const' and e.key.args[0] in ('used', 'used_diff') and \
                len(ch) == 1 and any(x is M for x in subterms(e.obj)):
            return UNKNOWN, f'line {e.node.lineno} rewrites {e.key.args[0]}'
    return PROVED, 'sizes and usage are only read'


def jsons(c, P):
    node = P.func('format_json', 'show_summary')
    where = loc(P, node)
    m = P.func_module(node)
    for ab in (True, False):
        tag = f'json.{"abbrev" if ab else "full"}'
        h = {}

        def start():
            E, v, _ = scenario(P, 'format_json', node.name, positional=[M, AR], stop={'memorymap.sort', 'memorymap.trim'},
                               pre=[(AR, const('abbrev'), const(ab))])
            ds = [x for e, ch in E.events(('call',)) for a in e.val.args[0] if isinstance(a, Term) for x in subterms(a)
                  if x.op == 'call' and x.args[0] == 'json.dumps']
            h.update(E=E, doc=ds[0].args[1][0] if ds and len(set(ds)) == 1 else None)
        if not c.group(tag, 'value graph of the JSON summary', start):
            continue
        E, doc = h['E'], h['doc']

        def total():
            if doc is None:
                return UNKNOWN, 'document not recognised'
            return verdict(lookup(E, doc, const('total_size'), BT, m), f(M, 'image_size'), BT, None, c.seed, E=E, what='total_size')
        c.ob(f'{tag}.total_size', 'the image size is reported', total, where)
        lay = lookup(E, doc, const('layout'), BT, m) if doc is not None else None
        ap = []
        if lay is not None:
            lc = E.canon(lay)
            ap = [(e, ch) for e, ch in E.events(('append',)) if e.obj is not None and (e.obj is lay or E.canon(e.obj) is lc) and len(ch) == 1]
        if len(ap) != 1 or strip(ap[0][1][0].dom) is not f(M, 'memory_types'):
            c.add(f'{tag}.layout', 'memory types of the JSON summary', UNKNOWN, f'{len(ap)} entries recognised', where)
            continue
        e, ch = ap[0]
        o = e.val
        L = ch[0].L
        K = E.mk_key(L)
        X = T('idx', f(M, 'memory_types'), K)
        c.ob(f'{tag}.layout', 'every memory type is reported', lambda: (PROVED, 'one entry per type') if e.guard is BT else
             ((REFUTED if linear.witness(bnot(e.guard)) is not None else UNKNOWN), f'reported only if {cut(show_b(e.guard), 100)}'), where)
        size, used = f(X, 'size'), f(X, 'used')
        want = {'name': K, 'total': size, 'used': used, 'free': tm.phi(E.truth0(size), minus(size, used), tm.ZERO)}
        for k, w in want.items():
            c.ob(f'{tag}.{k}', 'free space is the total minus the usage, zero without a total',
                 lambda k=k, w=w: verdict(lookup(E, o, const(k), e.guard, m), w, e.guard, None, c.seed, E=E, what=k), where)

        def part():
            d = f(X, 'sections')
            ps = lookup(E, o, const('parts'), e.guard, m)
            N = T('param', 'name')
            have = E.contains(N, ps, St({}, BT))
            ins = batom(Ex(d, lambda k: E.eq(f(T('idx', d, k), 'abbrev_name'), N))) if ab else batom(T('in', N, d))
            r = vguard(have, ins, BT, None, c.seed, E=E, what='part reported')
            if r[0] != PROVED:
                return r
            s = lookup(E, lookup(E, ps, N, have, m), const('size'), have, m)
            w = Sum(d, lambda k: (E.eq(f(T('idx', d, k), 'abbrev_name'), N), f(T('idx', d, k), 'size'))) if ab else f(T('idx', d, N), 'size')
            return verdict(s, w, have, None, c.seed, E=E, what='part size')
        c.ob(f'{tag}.parts', 'every section contributes its size to the part of its displayed name', part, where)


def flash(c, P):
    node = P.func('memorymap', 'ignore_flash_size')
    m = P.func_module(node)
    where = loc(P, node)
    MM = T('param', 'memory_map')
    h = {}
    if not c.group('flash', 'value graph of memorymap.ignore_flash_size',
                   lambda: h.update(E=run(P, 'memorymap', node.name, positional=[MM], facts=mm.facts(MM))[0])):
        return
    E = h['E']
    K = T('param', 'name')
    d = f(MM, 'memory_types')
    X = T('idx', d, K)
    g = batom(T('in', K, d))

    def after(k):
        dd = lookup(E, MM, const('memory_types'), BT, m)
        return lookup(E, lookup(E, dd, K, g, m), const(k), g, m)

    def size():
        v = after('size')
        seen = []
        for q, x in tm.cases(v, g):
            q = band(g, q)
            if tm.unsat(q):
                continue
            seen.append((q, x))
        isf = None
        for q, x in seen:
            for a in tm.batoms(q):
                if isflash(a, K):
                    isf = a
        if isf is None:
            if all(x is f(X, 'size') for q, x in seen):
                return REFUTED, 'flash types keep their total'
            if all(pure(a, K) for q, x in seen for a in tm.batoms(q) if not any(y is d for y in subterms(a))) and all(x in (f(X, 'size'), tm.ZERO) for q, x in seen):
                # decide on sample names
                return samples(seen, K, X)
            return UNKNOWN, f'size becomes {cut(show(v), 150)}'
        return verdict(v, tm.phi(batom(isf), tm.ZERO, f(X, 'size')), g, None, c.seed, E=E, what='total')
    c.ob('flash.size', 'exactly flash types lose their total', size, where)
    for k in ('used', 'sections', 'name'):
        c.ob(f'flash.{k}', 'nothing else changes', lambda k=k: verdict(after(k), f(X, k), g, None, c.seed, E=E, what=k), where)
    c.ob('flash.kept', 'no memory type disappears', lambda: vguard(
        E.contains(K, lookup(E, MM, const('memory_types'), BT, m), St({}, BT)), g, BT, None, c.seed, E=E, what='type kept'), where)


def isflash(a, K):
    s = show(a)
    return a.op == 'in' and a.args[0] is const('flash') and 'lower' in show(a.args[1]) and show(K) in s or \
        a.op in ('contains', 'instr') and 'flash' in s and 'lower' in s


# the names in the chip descriptions
NAMES = ['Flash Code', 'Flash Data', 'Flash', 'DIRAM', 'DRAM', 'IRAM', 'RTC SLOW', 'RTC FAST', 'HP SRAM', 'HP core RAM', 'LP RAM', 'LP SRAM',
         'External RAM', 'SPI DRAM']


def pure(a, K):
    return all(x.op in ('const', 'param', 'in', 'mcall', 'call', 'eq', 'eqc', 'tuple', 'truthy', 'swith', 'ewith') and (x.op != 'param' or x is K) for x in subterms(a))


def evalname(t, K, name):
    if t is K:
        return name
    if t.op == 'const':
        return t.args[0]
    if t.op == 'tuple':
        return tuple(evalname(x, K, name) for x in t.args[0])
    if t.op == 'mcall':
        o = evalname(t.args[1], K, name)
        if t.args[0] not in ('lower', 'upper', 'casefold', 'title', 'capitalize', 'find', 'count', 'startswith', 'endswith', 'strip'):
            raise KeyError(t.args[0])
        return getattr(o, t.args[0])(*[evalname(x, K, name) for x in t.args[2]])
    if t.op == 'in':
        return evalname(t.args[0], K, name) in evalname(t.args[1], K, name)
    if t.op in ('eq', 'eqc'):
        return evalname(t.args[0], K, name) == evalname(t.args[1], K, name)
    if t.op in ('swith', 'ewith'):
        o, p = (evalname(x, K, name) for x in t.args[:2])
        return o.startswith(p) if t.op == 'swith' else o.endswith(p)
    if t.op == 'truthy':
        return bool(evalname(t.args[0], K, name))
    raise KeyError(t.op)


def samples(seen, K, X):
    d = None
    for name in NAMES:
        for q, x in seen:
            try:
                q1 = tm.bmap(q, lambda a: batom(a) if any(y is X.args[0] for y in subterms(a)) else (BT if evalname(a, K, name) else BF))
            except Exception:
                return UNKNOWN, f'condition {cut(show_b(q), 120)}'
            if q1 is BF or interp.sat(q1) is None:
                continue
            want = tm.ZERO if 'flash' in name.lower() else f(X, 'size')
            if x is not want:
                return REFUTED, f'memory type {name!r} gets the total {cut(show(x), 60)}'
    return UNKNOWN, 'agrees on the sample names'


def usage(c, P):
    """main() drops flash totals exactly when --use-flash-size is not given."""
    h = {}
    node = P.func('main', 'main')
    if not c.group('main', 'value graph of main', lambda: h.update(r=cli.analyse(P))):
        return
    E, opts = h['r']
    where = loc(P, node)

    def called():
        cs = cli.calls(E, 'memorymap.ignore_flash_size')
        if not cs:
            return REFUTED, 'flash totals are never dropped'
        cur = BF
        for e, n, a, kw in cs:
            t = cli.argof(P, n, a, kw, 0)
            if t is not None and any(x is cli.opt('input_file') for x in subterms(t)) and not any(x is cli.opt('diff') for x in subterms(t)):
                cur = bor(cur, e.guard)
        shown = [e for e, ch in E.events(('call',)) if str(e.key.args[0]).startswith('format_')]
        if not shown:
            return UNKNOWN, 'no report found'
        g = bor(*[e.guard for e in shown])
        return vguard(cur, bnot(cli.on('use_flash_size')), g, E.cli_facts, c.seed, 'flash totals dropped', E)
    c.ob('main.flash', 'flash totals are dropped unless their use is requested', called, where)


def check(c):
    P = Project()
    table(c, P)
    jsons(c, P)
    flash(c, P)
    usage(c, P)


if __name__ == '__main__':
    main('C13', RULE, check, floor=30, assumptions=['sizes are non-negative integers; arithmetic is exact (rounding of floats is not modelled)'])
