"""C23: archive dependencies mirror the cross reference table."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
import cells
import finite
from lists import Lists, equivalent
from vg import *

RULE = ('value graph of deps.get_archives_dependencies for both directions: the condition under which an arbitrary archive, pair and symbol '
        'is in the result is compared with the relation given by the cross reference table, the archive report and the ELF symbols; '
        'every inserted row must carry the size of the archive it is stored under; the renderers are checked for matching names and '
        'sizes, all pairs and the direction of the arrows.')

AR, MF, MEM, EL = (T('param', x) for x in ('args', 'map_file', 'memmap', 'elf'))
R, D, S = (T('param', x) for x in ('user', 'definer', 'symbol'))
CRT = T('attr', MF, 'cross_reference_table')
f = lambda t, k: T('idx', t, const(k))
NOEXC = lambda t: False if t.op == 'exc' else None


def rest(s):
    return T('slice', T('idx', CRT, s), const(1), const(None), const(None))


def deps(c, P):
    node = P.func('deps', 'get_archives_dependencies')
    where = loc(P, node)
    m = P.func_module(node)
    for rev in (False, True):
        tag = 'reverse' if rev else 'forward'
        h = {}

        def start():
            E, v, _ = run(P, 'deps', node.name, positional=[MF, MEM, EL, AR], facts=NOEXC, stop={'memorymap.get_archives_summary'},
                          pre=[(AR, const('dep_reverse'), const(rev))])
            h.update(E=E, v=v)
            c.counts['loops'] = c.counts.get('loops', 0) + E.stats['loops']
            c.counts['effects'] = c.counts.get('effects', 0) + E.stats['events']
        if not c.group(tag, 'value graph of the dependency relation', start):
            continue
        E, v = h['E'], h['v']
        X = Lists(E)
        SUM = T('call', 'memorymap.get_archives_summary', (MEM, AR))
        ok = band(bnot(batom(T('isnone', CRT))), E.truth0(EL))
        facts = None

        def present(s):
            """The symbol is a placed function or object of the ELF file."""
            def body(k, e):
                ty = T('attr', e, 'type')
                return band(bor(E.eq(ty, const(2)), E.eq(ty, const(1))), bnot(E.eq(T('attr', e, 'st_shndx'), const(0xfff1))), E.eq(T('attr', e, 'name'), s))
            return batom(Ex(T('attr', EL, 'symbols'), body))

        def defined(s, d):
            a = f(f(T('idx', CRT, s), 0), 0)
            return band(E.eq(d, a), batom(T('in', d, SUM)))

        def uses(s, d, r=None):
            def body(k, e):
                a = f(e, 0)
                me = [E.eq(r, a)] if r is not None else []
                return band(batom(T('in', a, SUM)), bnot(E.eq(a, d)), *me)
            return batom(Ex(rest(s), body))

        def rel(r=None, d=None, s=None):
            """Expected condition with some of the three left open."""
            def body(s):
                dd = d if d is not None else f(f(T('idx', CRT, s), 0), 0)
                return band(present(s), defined(s, dd), uses(s, dd, r))
            if s is not None:
                return band(batom(T('in', s, CRT)), body(s))
            return batom(Ex(CRT, lambda k: body(k)))

        a, b = (D, R) if rev else (R, D)     # outer, inner archive
        inA = E.contains(a, v, St({}, ok))
        row = lookup(E, v, a, band(ok, inA), m)
        A = lookup(E, row, const('archives'), band(ok, inA), m)
        inB = E.contains(b, A, St({}, band(ok, inA)))
        row2 = lookup(E, A, b, band(ok, inA, inB), m)
        SY = lookup(E, row2, const('symbols'), band(ok, inA, inB), m)
        inS = E.contains(S, SY, St({}, band(ok, inA, inB)))
        one = dict(r=R) if not rev else dict(d=D)

        def cmp(actual, expected, what):
            x = norm(X, actual, ok)
            y = norm(X, expected, ok)
            if equivalent(x, y, ok):
                return PROVED, f'{what} iff {cut(show_b(y, 3), 300)}'
            env, got, n, why = finite.differ(E, models(SUM, c.seed), x, y, ok, X)
            if env is not None:
                return REFUTED, f'{what} {"is" if got else "is not"} listed, but must {"not " if got else ""}be, when {describe(env, SUM)}'
            return UNKNOWN, f'{what}: not recognised: {cut(show_b(x, 3), 300)} ({n} models, {why})'
        c.ob(f'{tag}.archive', 'an archive is listed exactly when it takes part in a reference to another one', lambda: cmp(inA, rel(**one), 'archive'), where)
        c.ob(f'{tag}.pair', 'a pair is listed exactly when one archive uses a symbol of the other', lambda: cmp(inB, rel(R, D), 'pair'), where)
        c.ob(f'{tag}.symbol', 'a symbol is listed for a pair exactly when one defines it and the other uses it', lambda: cmp(inS, rel(R, D, S), 'symbol'), where)

        def rows(k, want):
            def go():
                n = 0
                for e, ch in E.events(('put',)):
                    o = E.canon(e.obj)
                    outer = o is E.canon(v)
                    inner = o.op == 'idx' and o.args[1] is const('archives') and o.args[0].op == 'idx' and o.args[0].args[0] is E.canon(v)
                    if not (outer or inner) or e.val.op != 'new':
                        continue
                    vals = [x for x, _ in E.events(('put',)) if x.obj is e.val and x.key is const(k)]
                    if not vals:
                        return UNKNOWN, f'no {k} for a row'
                    for x in vals:
                        n += 1
                        w = want(e.key)
                        if x.val is w:
                            continue
                        if all(y.op in ('idx', 'key', 'elem', 'const', 'call', 'param', 'attr', 'L', 'tuple') for y in subterms(x.val)) and distinct(E, x.val, w):
                            return REFUTED, f'row {cut(show(e.key), 80)} gets {k} {cut(show(x.val), 150)}', f'{P.module(x.mod).path}:{x.node.lineno} {x.fn}'
                        return UNKNOWN, f'row {cut(show(e.key), 80)} gets {k} {cut(show(x.val), 150)}'
                return (PROVED, f'{n} row insertions') if n >= 2 else (UNKNOWN, 'row insertions not found')
            return go
        c.ob(f'{tag}.size', 'every archive carries its own size from the archive report', rows('size', lambda k: f(T('idx', SUM, k), 'size')), where)

    def refuse():
        E, v, _ = run(P, 'deps', node.name, positional=[MF, MEM, EL, AR], facts=NOEXC, stop={'memorymap.get_archives_summary'},
                      pre=[(AR, const('dep_reverse'), const(False))])
        g = BF
        for e, ch in E.events(('call',)):
            if e.key.args[0] in ('log.die', 'sys.exit') and not ch:
                g = bor(g, e.guard)
        for e, ch in E.events(('raise',)):
            g = bor(g, e.guard)
        return vguard(g, bor(batom(T('isnone', CRT)), bnot(E.truth0(EL))), BT, None, c.seed, E=E, what='refused')
    c.ob('refused', 'without a cross reference table or an ELF file the report is refused', refuse, where)


A_, B_, C_, X_ = 'esp-idf/a/liba.a', 'esp-idf/b/libb.a', '/tools/b/libc.a', 'esp-idf/x/libx.a'
IMAGE = (A_, B_, C_)
KINDS = {'function': (2, 3, True), 'object': (1, 3, True), 'no type': (0, 3, False), 'absolute': (2, 0xfff1, False), 'not linked': None}
LISTS = ((B_,), (A_,), (B_, C_), (B_, B_), (X_,), (X_, B_), (), (C_, A_, B_), (A_, C_))


def tables():
    """Small cross reference tables: rows (symbol, kind, definer, users)."""
    for d in (A_, X_):
        for us in LISTS:
            for k in KINDS:
                yield [('s1', k, d, us)]
                for d2, us2 in ((A_, (B_,)), (B_, (A_, C_)), (C_, (X_, B_)), (A_, (C_, B_, C_))):
                    yield [('s1', k, d, us), ('s2', 'object', d2, us2)]
                    yield [('s2', 'object', d2, us2), ('s1', k, d, us)]
    yield [(f's{i}', 'function', *r) for i, r in enumerate(((A_, (B_,)), (A_, (B_, C_)), (B_, (A_,)), (C_, (B_, A_)), (B_, (C_, A_))))]
    yield []


def relation(c, P):
    """Abstract interpretation on small tables: archive sizes are unknown numbers."""
    from absint import Cannot, Explorer, ExcInst, Func, Interp, N, PyExc
    node = P.func('deps', 'get_archives_dependencies')
    where = loc(P, node)
    m = P.func_module(node)

    class Obj:
        def __init__(self, **k):
            self.d = k

        def abs_attr(self, I, name):
            if name not in self.d:
                raise Cannot(f'no attribute {name}')
            return self.d[name]

        def abs_truth(self, I):
            return True

    size = {a: N(0, {('num', 'size of ' + a): 1}) for a in IMAGE}
    quiet = {f'{q}.{x}': lambda I, a, k: None for q in ('esp_pylib.logger.log', 'log') for x in ('debug', 'warn', 'err', 'note', 'print', 'eprint')}

    def one(rev, rows):
        want = {}
        for s, k, d, us in rows:
            if KINDS[k] is None or not KINDS[k][2] or d not in IMAGE:
                continue
            for u in us:
                if u in IMAGE and u != d:
                    x, y = (d, u) if rev else (u, d)
                    want.setdefault(x, {}).setdefault(y, set()).add(s)
        crt = {s: [(d, 'def.c.obj')] + [(u, f'use{i}.c.obj') for i, u in enumerate(us)] for s, k, d, us in rows}
        syms = [Obj(name=s, type=KINDS[k][0], st_shndx=KINDS[k][1], st_size=4, st_value=0x1000) for s, k, d, us in rows if KINDS[k]]
        res = {}

        def go(choose):
            h = dict(quiet)
            h['memorymap.get_archives_summary'] = lambda I, a, k: {
                x: {'abbrev_name': x.split('/')[-1], 'size': size[x], 'size_diff': 0, 'memory_types': {}} for x in IMAGE}
            I = Interp(P, choose, h, fuel=60000)
            args = {k: None for k in ('diff', 'filter', 'archive_details')}
            args.update({k: False for k in ('unify', 'show_unchanged', 'archives', 'files', 'dep_symbols', 'show_unused')})
            args.update(dep_reverse=rev, abbrev=True, archive_dependencies=True, format='table')
            mf = Obj(cross_reference_table=crt, fn='app.map', target='esp32')
            try:
                got = I.call(Func(node, m), [mf, {'memory_types': {}, 'target': 'esp32'}, Obj(symbols=syms), args], {})
            except PyExc as e:
                x = e.inst
                if isinstance(x, ExcInst) and x.etype == 'KeyError' and x.args and x.args[0] in IMAGE + (X_,):
                    res['r'] = REFUTED, f'{x.args[0]} is looked up but was never entered'
                    return
                res.setdefault('u', f'raises {x}')
                return
            if not isinstance(got, dict):
                raise Cannot('result is no table')
            if set(got) != set(want):
                odd = sorted(set(got) ^ set(want))
                res['r'] = REFUTED, f'{odd[0]} is {"reported without" if odd[0] in got else "missing although it has"} a dependency'
                return
            for x, row in got.items():
                if row.get('size') != size[x]:
                    res['r'] = REFUTED, f'{x} is shown with the size {row.get("size")!r}'
                    return
                if set(row['archives']) != set(want[x]):
                    odd = sorted(set(row['archives']) ^ set(want[x]))
                    res['r'] = REFUTED, f'pair {x} / {odd[0]} is {"reported but not in the table" if odd[0] in row["archives"] else "missing"}'
                    return
                for y, sub in row['archives'].items():
                    if sub.get('size') != size[y]:
                        res['r'] = REFUTED, f'{y} below {x} is shown with the size {sub.get("size")!r}'
                        return
                    if sorted(sub['symbols']) != sorted(want[x][y]):
                        res['r'] = REFUTED, f'symbols of {x} / {y} are {sorted(sub["symbols"])}, not {sorted(want[x][y])}'
                        return

        def body(choose):
            try:
                go(choose)
            except Cannot as e:
                res.setdefault('u', str(e))
        ex = Explorer(60)
        if not ex.run(body):
            res.setdefault('u', 'too many paths')
        c.count('paths', ex.paths)
        return res

    for rev in (False, True):
        def go(rev=rev):
            n = 0
            open_ = None
            for rows in tables():
                r = one(rev, rows)
                if 'r' in r:
                    t = '; '.join(f'{s} ({k}) defined in {d}, used by {", ".join(us) or "nobody"}' for s, k, d, us in rows)
                    return r['r'][0], f'{r["r"][1]} for the table: {t}', where
                open_ = open_ or r.get('u')
                n += 1
            if open_:
                return UNKNOWN, open_
            return PROVED, f'{n} tables'
        c.ob(f'{"reverse" if rev else "forward"}.tables', 'the relation of small cross reference tables is reported exactly', go, where)


def models(SUM, seed):
    import random
    rnd = random.Random(seed)
    arch = ['liba.a', 'libb.a', 'libc.a', 'libgone.a', '(exe)']
    syms = ['f', 'g', '_h']
    for i in range(600):
        image = {a: {'size': 10 * n + 7} for n, a in enumerate(arch) if a != 'libgone.a' or i % 5 == 0}
        crt = {}
        for s in rnd.sample(syms, rnd.randint(1, 3)):
            crt[s] = [(rnd.choice(arch), 'o%d.o' % j) for j in range(rnd.randint(1, 4))]
        elf = [finite.Obj(name=s, type=rnd.choice([1, 1, 2, 2, 0, 3]), st_shndx=rnd.choice([1, 1, 1, 0xfff1])) for s in syms if rnd.random() < 0.85]
        env = {MF: finite.Obj(cross_reference_table=crt), EL: finite.Obj(symbols=elf), SUM: image, MEM: finite.Obj(), AR: finite.Obj()}
        s = rnd.choice(list(crt))
        refs = crt[s]
        env.update({S: s, D: refs[0][0] if rnd.random() < 0.8 else rnd.choice(arch), R: rnd.choice(refs)[0] if rnd.random() < 0.8 else rnd.choice(arch)})
        yield env


def describe(env, SUM):
    return (f'table {env[MF].cross_reference_table}, image {sorted(env[SUM])}, ELF symbols '
            f'{[(o.name, o.type, o.st_shndx) for o in env[EL].symbols]}, user {env[R]}, definer {env[D]}, symbol {env[S]}')


def distinct(E, x, w):
    """Two row figures that denote different cells for suitable names."""
    return x.op == w.op == 'idx' and not any(y.op in ('opaque', 'mu') for y in subterms(x))


def norm(X, g, ok):
    return tm.constrain(X.b(g), ok)


# ------------------------------------------------------------------ renderers
def names(x):
    """(outer/inner loop key or text) terms displayed by a text."""
    p = cells.parts(x)
    return p


def render(c, P):
    for mod, fn, filt in (('format_dot', 'show_archives_dependencies', True), ('format_table', 'get_archives_dependencies_table', True),
                          ('format_tree', 'show_archives_dependencies', False)):
        node = P.func(mod, fn, public=False)
        if node is None:
            c.add(f'{mod}', 'renderer', UNKNOWN, f'{fn} is gone', '')
            continue
        where = loc(P, node)
        for rev in (False, True):
            for ab in (False, True):
                for sy in (False, True):
                    one_render(c, P, mod, fn, node, where, rev, ab, sy)


def one_render(c, P, mod, fn, node, where, rev, ab, sy):
    tag = f'{mod}.{"reverse" if rev else "forward"}.{"abbrev" if ab else "full"}.{"symbols" if sy else "plain"}'
    h = {}
    by = {'map_file': MF, 'memmap': MEM, 'elf': EL, 'args': AR}

    def start():
        E, v, _ = run(P, mod, fn, args=by, facts=NOEXC, stop={'deps.get_archives_dependencies', 'memorymap.get_summary_filtered'},
                      pre=[(AR, const('dep_reverse'), const(rev)), (AR, const('abbrev'), const(ab)), (AR, const('dep_symbols'), const(sy))])
        h.update(E=E)
    if not c.group(tag, 'value graph of the renderer', start):
        return
    E = h['E']
    DEP = T('call', 'deps.get_archives_dependencies', (MF, MEM, EL, AR))
    FIL = T('call', 'memorymap.get_summary_filtered', (DEP, AR))
    base = DEP if mod == 'format_tree' else FIL

    def source():
        cs = [e for e, ch in E.events(('call',)) if e.key.args[0] == 'deps.get_archives_dependencies']
        if len(cs) != 1:
            return UNKNOWN, f'{len(cs)} calls'
        got = cs[0].val.args[0]
        if got == (MF, MEM, EL, AR):
            return PROVED, 'the relation of the analysed map'
        return (REFUTED, f'computed from {cut(show(cs[0].val), 150)}') if all(x.op == 'param' for x in got) else (UNKNOWN, 'arguments not understood')
    if not ab and not sy:
        c.ob(f'{tag}.source', 'the relation of the analysed map is rendered', source, where)

    def levels(ch):
        """(outer key, inner key) for a chain of loops over the relation; None if something else."""
        if len(ch) < 1:
            return None
        k1 = E.mk_key(ch[0].L) if hasattr(E, 'mk_key') else T('key', ch[0].L)
        if strip(ch[0].dom) is not base:
            return None
        if len(ch) == 1:
            return (k1,)
        if strip(ch[1].dom) is not f(T('idx', base, k1), 'archives'):
            return None
        return k1, E.mk_key(ch[1].L)

    def label(k, row):
        return f(row, 'abbrev_name') if ab else k

    def expect(ks):
        r1 = T('idx', base, ks[0])
        out = [(label(ks[0], r1), f(r1, 'size'))]
        if len(ks) > 1:
            r2 = T('idx', f(r1, 'archives'), ks[1])
            out.append((label(ks[1], r2), f(r2, 'size'), f(r2, 'symbols')))
        return out

    if mod == 'format_table':
        table(c, E, P, tag, where, levels, expect, sy)
    elif mod == 'format_tree':
        tree(c, E, P, tag, where, levels, expect, sy)
    else:
        dot(c, E, P, tag, where, levels, expect, rev, sy)


def strip(d):
    while d is not None and d.op == 'perm':
        d = d.args[0]
    return d


def understood(x):
    return all(y.op in ('idx', 'key', 'elem', 'const', 'call', 'param', 'attr', 'L', 'tuple', 'mcall', 'str', 'cat') for y in subterms(x))


def pairwise(got, want, what):
    """Displayed values vs expected; both lists of terms."""
    if got == want:
        return None
    if all(understood(x) for x in got):
        return REFUTED, f'{what} shows {cut(", ".join(show(x) for x in got), 200)} instead of {cut(", ".join(show(x) for x in want), 200)}'
    return UNKNOWN, f'{what} not understood: {cut(", ".join(show(x) for x in got), 200)}'


def text(x):
    """Terms displayed by a text, or None."""
    x0 = x
    if x.op in ('key', 'idx', 'elem', 'param'):
        return [x]
    if x.op == 'mcall' and x.args[0] == 'join':
        return [x.args[2][0]]
    if x.op in ('cat',):
        out = []
        for y in x.args:
            p = text(y)
            if p is None:
                return None
            out += p
        return out
    if x.op == 'str':
        return text(x.args[0])
    if x.op == 'const':
        return []
    return None


def cover(E, evs, what):
    """The events of one level together happen for every entry."""
    g = BF
    for e in evs:
        g = bor(g, e.guard)
    if unsat(bnot(g)):
        return PROVED, f'{what}: every entry'
    w = sorted(show(a) for a in tm.batoms(g))
    return UNKNOWN, f'{what} only when {cut(show_b(g, 2), 200)}'


def table(c, E, P, tag, where, levels, expect, sy):
    rows = [(e, ch) for e, ch in E.events(('call',)) if e.key.args[0] == '.add_row']

    def content():
        n = 0
        for e, ch in rows:
            ks = levels(ch)
            if ks is None or len(ks) != 2:
                return UNKNOWN, 'row loop not understood'
            cs = row_cells(E, e)
            if cs is None:
                return UNKNOWN, 'row not understood'
            (n1, s1), (n2, s2, syms) = expect(ks)
            for g, cells_ in cs:
                first = not all(t is const('') for t in cells_[:2]) if len(cells_) >= 2 else True
                want = ([n1, s1] if first else []) + [n2, s2] + ([syms] if sy else [])
                got = [text(x) for x in cells_]
                if any(x is None for x in got):
                    return UNKNOWN, 'cell not understood'
                r = pairwise([y for x in got for y in x], want, 'row')
                if r:
                    return r
                if not first and not implies(g, batom(T('truthy', T('pos', ch[1].L)))) and not 'pos' in show_b(g):
                    return UNKNOWN, 'archive name left out'
                n += 1
        return (PROVED, f'{n} row forms') if n else (UNKNOWN, 'no rows')
    c.ob(f'{tag}.rows', 'each row shows an archive and a dependency with their own names, sizes and symbols', content, where)
    c.ob(f'{tag}.all', 'every pair gets a row', lambda: cover(E, [e for e, ch in rows], 'row'), where)


def row_cells(E, e):
    """[(guard, [cell terms])] of an add_row event."""
    args = e.val.args[0][1:]
    if len(args) == 1 and args[0].op == 'star':
        N = args[0].args[0]
        out = []
        for g, x in tm.cases(N, e.guard):
            ins = E.contents(x)
            if ins is None or any(i[0].kind != 'append' for i in ins):
                return None
            # split by guards of the appended cells
            gs = []
            for ev, ch, cc, sg in ins:
                m = {a: b for a, b in sg.items() if a is not b}
                gg = E.ecanon(ev)[1]
                gs.append((replace_(gg, m), replace_(ev.val, m)))
            conds = [BT]
            for q, _ in gs:
                new = []
                for k in conds:
                    for z in (band(k, q), band(k, bnot(q))):
                        if not unsat(band(z, g, e.guard)):
                            new.append(z)
                conds = new
                if len(conds) > 16:
                    return None
            for k in conds:
                out.append((band(k, g, e.guard), [v for q, v in gs if implies(band(k, e.guard), q)]))
        return out
    if any(x.op == 'star' for x in args):
        return None
    return [(e.guard, list(args))]


def replace_(x, m):
    return tm.replace(x, m) if m else x


def tree(c, E, P, tag, where, levels, expect, sy):
    adds = [(e, ch) for e, ch in E.events(('call',)) if e.key.args[0] == '.add' and ch]

    def content():
        seen = {1: [], 2: [], 3: []}
        for e, ch in adds:
            ks = levels(ch[:2])
            if ks is None or len(ch) > 3:
                return UNKNOWN, 'loop not understood'
            t = text(e.val.args[0][1]) if len(e.val.args[0]) > 1 else None
            if t is None:
                return UNKNOWN, 'text not understood'
            ex = expect(ks)
            if len(ch) == 3:
                want = [E.mk_elem(ch[2].L)]
                if strip(ch[2].dom) is not ex[1][2]:
                    return UNKNOWN, 'symbol loop not understood'
            else:
                want = list(ex[len(ch) - 1][:2])
            r = pairwise(t, want, f'level {len(ch)}')
            if r:
                return r
            seen[len(ch)].append(e)
        for k in (1, 2) + ((3,) if sy else ()):
            if not seen[k]:
                return UNKNOWN, f'nothing added at level {k}'
            r = cover(E, seen[k], f'level {k}')
            if r[0] != PROVED:
                return r
        if not sy and seen[3]:
            return UNKNOWN, 'symbols shown without request'
        return PROVED, f'{len(adds)} node forms'
    c.ob(f'{tag}.nodes', 'every archive, dependency and symbol gets a node with its own name and size', content, where)


def dot(c, E, P, tag, where, levels, expect, rev, sy):
    edges, nodes = [], []
    for e, ch in E.events(('append',)):
        s = show(e.val)
        if e.val.op != 'cat' or e.val.args[0].op != 'const' or not str(e.val.args[0].args[0]).startswith('"'):
            continue
        (edges if '->' in s else nodes if 'shape' in s else []).append((e, ch))

    def arrows():
        n = 0
        for e, ch in edges:
            ks = levels(ch)
            if ks is None or len(ks) != 2:
                return UNKNOWN, 'loop not understood'
            t = text(e.val)
            if t is None:
                return UNKNOWN, 'text not understood'
            ex = expect(ks)
            want = ([ks[1], ks[0]] if rev else [ks[0], ks[1]]) + ([ex[1][2]] if sy else [])
            r = pairwise(t, want, 'arrow')
            if r:
                return r
            n += 1
        if not n:
            return UNKNOWN, 'no arrows found'
        r = cover(E, [e for e, ch in edges], 'arrow')
        return r if r[0] != PROVED else (PROVED, f'{n} arrow form(s), for every pair')
    c.ob(f'{tag}.arrows', 'every pair gets an arrow from the user to the definer', arrows, where)

    def labels():
        n = 0
        for e, ch in nodes:
            ks = levels(ch)
            if ks is None:
                return UNKNOWN, 'loop not understood'
            ex = expect(ks)[len(ks) - 1]
            for g, x in tm.cases(e.val, e.guard):
                t = text(x)
                if t is None:
                    t = [z for y in x.args for z in (text(y) or ())]
                r = pairwise(t, [ks[-1], ex[0], ex[1]], 'node')
                if r:
                    return r
            n += 1
        return (PROVED, f'{n} node forms') if n >= 2 else (UNKNOWN, 'nodes not found')
    c.ob(f'{tag}.nodes', 'every node is labelled with the name and size of its archive', labels, where)


def check(c):
    P = Project()
    deps(c, P)
    relation(c, P)
    render(c, P)


if __name__ == '__main__':
    main('C23', RULE, check, ['the first entry of a cross reference table row is the definition'], 20)
