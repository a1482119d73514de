"""C08: memory type usage and totals account every byte once."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
import charge
import pipe
from vg import *

RULE = ('value graph of memorymap._get_mem_type_map, _merge_items and remove_unused: the path conditions of all stores to '
        'usage, section and total-size slots are compared with the specified partition (containing region / overflow into '
        'the preceding region / warned), every amount with the size of the section or region, and the usage after '
        'remove_unused with the closed-form sum over the remaining sections.')

VAGUE = {'opaque', 'pick', 'exc', 'call', 'missing'}
idx = lambda t, *fs: idx(T('idx', t, const(fs[0])), *fs[1:]) if fs else t


def vague(b):
    return any(t.op in VAGUE for a in (tm.batoms(b) if isinstance(b, B) else [b]) for t in subterms(a))


def equivalent(a, b, hyp=BT):
    return implies(band(hyp, a), b) and implies(band(hyp, b), a)


def sections(c, M):
    E = M.E
    S = M.charges[0].S
    spec = lambda g: charge.chip(M, charge.at(g, S, '.flash.rodata'), None)
    live = [(ch, spec(ch.guard)) for ch in M.charges]
    live = [(ch, g) for ch, g in live if not unsat(g)]
    line = lambda ch: f'{M.m.path}:{ch.e.node.lineno}'
    Ls = set()
    for ch, g in live:
        for t in list(subterms(ch.alias)) + [t for a in tm.batoms(g) for t in subterms(a)]:
            if t.op == 'elem':
                ln = E.loops.get(t.args[0])
                if ln is not None and ln.dom is not None and charge.root(ln.dom) is M.regions:
                    Ls.add(t.args[0])
    if len(Ls) != 1:
        c.add('regions', 'sections are matched with regions in one loop', UNKNOWN, f'{len(Ls)} loops over regions')
        return
    L = Ls.pop()
    ln = E.loops[L]
    R = E.mk_elem(L)
    X = ln.exists
    brk = spec(ln.exitcond)
    addr = idx(S, 'address')
    inside = band(bnot(E.lt(addr, idx(R, 'origin'))), E.lt(addr, tm.add(idx(R, 'origin'), idx(R, 'length'))))
    beyond = E.lt(addr, idx(R, 'origin'))
    inr = [(ch, g) for ch, g in live if ch.alias is idx(R, 'type', 'name')]
    prev = [(ch, g) for ch, g in live if ch.alias is not idx(R, 'type', 'name') and ch.alias.op == 'idx' and
            idx(T('x'), 'type', 'name').args[1] is ch.alias.args[1] and
            any(t.op == 'mu' and t.args[0] is L for t in subterms(ch.alias))]
    rest = [ch for ch, g in live if not any(ch is x for x, _ in inr + prev)]

    def recognised():
        if not rest:
            return PROVED, f'{len(inr)} charges to the containing region, {len(prev)} to the preceding one'
        for ch in rest:
            if not any(t.op in VAGUE | {'phi', 'last', 'new'} for t in subterms(ch.alias)):
                return REFUTED, f'a section is charged to memory type {cut(show(ch.alias), 150)}', line(ch)
        return UNKNOWN, f'charge to {cut(show(rest[0].alias), 150)}'
    c.ob('section.type', 'a section is charged to the type of the containing or of the preceding region', recognised, M.where)
    Xa = spec(X)

    def once():
        for i, (ch, g) in enumerate(live):
            if Xa is BF or not implies(g, brk):
                if vague(g) or vague(brk):
                    return UNKNOWN, f'cannot decide {cut(show_b(g), 200)}'
                return REFUTED, ('the search goes on after the section has been charged, so it can be charged again '
                                 f'(charged when {cut(show_b(g), 250)}, search ends when {cut(show_b(brk), 250)})'), line(ch)
            for ch2, g2 in live[i + 1:]:
                if not unsat(band(g, g2)):
                    if vague(g) or vague(g2):
                        return UNKNOWN, 'charges may coincide'
                    return REFUTED, f'charged twice when {cut(show_b(band(g, g2)), 300)}', line(ch2)
        tot = bor(*[g for _, g in live])
        if not implies(band(brk, Xa), tot):
            miss = band(brk, Xa, bnot(tot))
            if vague(miss):
                return UNKNOWN, f'search may end uncharged: {cut(show_b(miss), 200)}'
            return REFUTED, f'the search ends without charging the section when {cut(show_b(miss), 300)}', M.where
        return PROVED, 'charged exactly when the search ends'
    c.ob('section.once', 'a section is charged exactly once', once, M.where)

    def containing():
        if not inr:
            return UNKNOWN, 'no charge to the containing region'
        g = bor(*[g for _, g in inr])
        r = vguard(g, band(inside, Xa), BT, None, c.seed, 'charged to the region', E=E)
        return r if r[0] != UNKNOWN else vguard(local(g), local(inside), BT, None, c.seed, 'charged to the region visited')
    c.ob('section.containing', 'charged to the region containing its address, start inclusive and end exclusive',
         containing, M.where)

    def overflow():
        if not prev:
            return UNKNOWN, 'no charge to the preceding region recognised'
        g = bor(*[g for _, g in prev])
        MU = next(t for t in subterms(prev[0][0].alias) if t.op == 'mu' and t.args[0] is L)
        pv = next((x for x in tm.batoms(g) if x.op == 'truthy' and x.args[0] is MU), None)
        k = MU.args[1]
        nxt = None
        if k.op == 'var':
            nxt = ln.next_env.get((k.args[0], k.args[1]))
        if nxt is None:
            return UNKNOWN, 'preceding region not recognised'
        if nxt is not R:
            if any(t.op in VAGUE for t in subterms(nxt)):
                return UNKNOWN, f'preceding region is {cut(show(nxt), 200)}'
            bad = [x for cnd, x in tm.cases(nxt, BT) if x is not R]
            if bad:
                return REFUTED, f'the preceding region is not always the one visited before, but {cut(show(nxt), 200)}', M.where
        for o in ln.ordering:
            if o.op == 'perm' and o.args[1] == 'sorted':
                key = o.args[2]
                want = idx(T('sortelem'), 'origin')
                ok = key.op == 'skey' and key.args[0] == 'by' and (
                    key.args[1] is want or all(x is want or x is const(0) for _, x in tm.cases(key.args[1], BT)))
                rev = o.args[3]
                if rev is not tm.FALSE_T and rev is not const(False):
                    return (REFUTED, 'regions are visited in descending order', M.where) if tm.is_const(rev) else \
                        (UNKNOWN, 'sort direction')
                if not ok:
                    if any(t.op in VAGUE for t in subterms(key)):
                        return UNKNOWN, 'sort key'
                    return REFUTED, f'regions are visited in the order of {cut(show(key), 150)}, not of their origins', M.where
                break
        else:
            src = M.P.module('memorymap')
            if any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'sorted' or
                                                isinstance(n.func, ast.Attribute) and n.func.attr == 'sort') and
                   any(isinstance(z, ast.Constant) and z.value == 'origin' for z in ast.walk(n)) for n in ast.walk(src.tree)):
                return UNKNOWN, 'order of regions not recognised'
            return REFUTED, 'regions are visited in the order of the map file, so the one before is not the nearest', M.where
        p = batom(pv) if pv is not None else BT
        r = vguard(g, band(beyond, p, Xa), BT, None, c.seed, 'charged to the preceding region', E=E)
        m = {MU: T('param', 'previous')}
        return r if r[0] != UNKNOWN else vguard(local(g, m), local(band(beyond, p), m), BT, None, c.seed,
                                                'charged to the preceding region')
    c.ob('section.overflow', 'otherwise charged to the nearest region before it', overflow, M.where)

    def warned():
        w = [spec(e.guard) for e in M.warns]
        no = bnot(bor(*[g for _, g in live]))
        nocharge = band(bnot(Xa)) if Xa is not BF else no
        if not any(implies(nocharge, g) and not unsat(g) for g in w):
            if any(vague(g) for g in w):
                return UNKNOWN, 'warnings not recognised'
            return REFUTED, 'a section matching no region is dropped without a warning', M.where
        for ch, g in prev:
            if not any(implies(g, x) for x in w):
                return REFUTED, 'a section assigned to the preceding region is not warned about', line(ch)
        return PROVED, 'warned on overflow and on every section that is not charged'
    c.ob('section.warned', 'nothing is dropped or moved without a warning', warned, M.where)

    for n, ch in enumerate(M.charges):
        tag = 'ext' if not any(ch is x for x, _ in live) else 'containing' if any(ch is x for x, _ in inr) else \
            'overflow' if any(ch is x for x, _ in prev) else str(n)

        def amount(ch=ch):
            if ch.delta is None:
                return UNKNOWN, f'usage becomes {cut(show(ch.e.val), 200)}'
            return verdict(ch.delta, idx(S, 'size'), BT, [], c.seed, E=E, what='usage grows by') + (line(ch),)
        c.ob(f'amount.{tag}', 'usage grows by the size of the section', amount, M.where)
        entry(c, M, ch, S, tag, any(ch is x for x, _ in prev))


def entry(c, M, ch, S, tag, over):
    """The section is listed under the type it is charged to, with what it is charged."""
    E = M.E
    news, adds = [], []
    for e, _ in M.secputs:
        if e.key.op == 'const' and e.key.args[0] == 'archives' or e.obj.op == 'new':
            continue
        if charge.alias_of(e.obj) is ch.alias and e.val.op == 'new':
            if implies(e.guard, ch.guard):
                news.append(e)
    for e, _ in M.sizeputs:
        if e.obj.op == 'idx' and charge.alias_of(e.obj.args[0]) is ch.alias and implies(e.guard, ch.guard):
            adds.append(e)
    where = f'{M.m.path}:{ch.e.node.lineno}'

    def listed():
        if not news and not adds:
            return UNKNOWN, 'entry of the section not recognised'
        g = bor(*[e.guard for e in news + adds])
        if not implies(ch.guard, g):
            miss = band(ch.guard, bnot(g))
            if any(t.op in VAGUE for a in tm.batoms(miss) for t in subterms(a)):
                return UNKNOWN, 'entry not recognised'
            return REFUTED, f'charged but not listed when {cut(show_b(miss), 300)}', where
        if len(news) + len(adds) > 1:
            for i, a in enumerate(news + adds):
                for b in (news + adds)[i + 1:]:
                    if not unsat(band(a.guard, b.guard)):
                        return UNKNOWN, 'entry written twice'
        keys = {e.key for e in news} | {e.obj.args[1] for e in adds}
        if len(keys) != 1:
            return UNKNOWN, 'different names'
        k = keys.pop()
        nm = idx(S, 'name')
        if over:
            if k is nm:
                return REFUTED, 'the overflow part is listed under the plain section name', where
            if k.op == 'cat' and k.args[0] is nm and any(x.op == 'const' and 'overflow' in str(x.args[0]) for x in k.args):
                return PROVED, show(k)
            return UNKNOWN, f'name {cut(show(k), 100)}'
        r = verdict(k, nm, BT, [], c.seed, E=E, what='listed as')
        return r
    c.ob(f'listed.{tag}', 'listed once under the type it is charged to, by name (overflow marked)', listed, where)

    def size():
        res = None
        for e in news:
            puts = {str(x.key.args[0]): x for x, _ in E.events(('put',)) if x.obj is e.val and x.key.op == 'const'}
            if 'size' not in puts or 'archives' not in puts:
                return UNKNOWN, 'new entry not recognised'
            r = verdict(puts['size'].val, idx(S, 'size'), BT, [], c.seed, E=E, what='size of a new entry')
            if r[0] != PROVED:
                return r + (where,)
            a = puts['archives'].val
            if a is not idx(S, 'archives'):
                return UNKNOWN, f'archives are {cut(show(a), 100)}'
            res = r
        for e in adds:
            d = M.delta_slot(e)
            if d is None:
                if not any(t.op == 'mu' for t in subterms(e.val)) and not any(t.op in VAGUE for t in subterms(e.val)):
                    return REFUTED, f'size of an existing entry is replaced by {cut(show(e.val), 150)}', where
                mus = {t for t in subterms(e.val) if t.op == 'mu' and len(t.args) == 3 and t.args[2] is const('size')
                       and t.args[1].op != 'elem'}
                if len(mus) == 1:
                    mu = mus.pop()
                    m = {mu: T('param', 'before')}
                    r = verdict(local(e.val, m), local(tm.add(mu, idx(S, 'size')), m), BT, None, c.seed,
                                what='size of an existing entry')
                    if r[0] == REFUTED:
                        return r + (where,)
                return UNKNOWN, f'size of an existing entry becomes {cut(show(e.val), 150)}'
            r = verdict(d, idx(S, 'size'), BT, [], c.seed, E=E, what='size of an existing entry grows by')
            if r[0] != PROVED:
                return r + (where,)
            res = r
            mg = [x for x, _ in E.events(('call',)) if str(x.key.args[0]).startswith('memorymap.') and
                  any(t is idx(S, 'archives') for t in x.val.args[0])]
            if not any(implies(e.guard, x.guard) for x in mg):
                return UNKNOWN, 'merging of archives not recognised'
        if not adds and news and not all(equivalent(e.guard, ch.guard) for e in news):
            return UNKNOWN, 'existing entry'
        if not adds and news:
            return REFUTED, 'an entry of the same name is overwritten although its bytes stay charged', where
        return res or (UNKNOWN, 'nothing recognised')
    c.ob(f'entry.{tag}', 'the entry grows by exactly the size of the section and keeps what it had', size, where)


def totals(c, M):
    E = M.E
    puts = [(e, ch) for e, ch in M.sizeputs if charge.alias_of(e.obj) is not None and e.obj.op != 'new' and
            any(ln.dom is not None and charge.root(ln.dom) is M.regions for ln in ch) and e.obj.op in ('last', 'idx')
            and not (e.obj.op == 'idx' and charge.alias_of(e.obj.args[0]) is not None)]
    if not puts:
        c.add('total', 'total size of memory types', UNKNOWN, 'no store to total sizes recognised')
        return
    L = next(ln.L for ln in puts[0][1] if ln.dom is not None and charge.root(ln.dom) is M.regions)
    R = E.mk_elem(L)
    where = f'{M.m.path}:{puts[0][0].node.lineno}'

    def kind():
        for e, ch in puts:
            al = charge.alias_of(e.obj)
            if al is not idx(R, 'type', 'name'):
                if not any(t.op in VAGUE | {'phi', 'last', 'new'} for t in subterms(al)):
                    return REFUTED, f'the length of a region goes to memory type {cut(show(al), 120)}', where
                return UNKNOWN, f'type {cut(show(al), 120)}'
        return PROVED, 'the type of the region'
    c.ob('total.type', 'the length of a region goes to its memory type', kind, where)
    ex = {}
    for e, _ in puts:
        for a in tm.batoms(e.guard):
            if a.op == 'exists':
                ex[a] = None
    empt = [a for e, _ in puts for a in tm.batoms(e.guard) if a.op not in ('exists',) and a.op == 'truthy']

    def amount():
        n = 0
        for e, ch in puts:
            d = M.delta(e, 'size')
            if d is None:
                if tm.aff_parts(e.val) is not None and e.val is idx(R, 'length') and \
                        any(implies(e.guard, bnot(batom(a))) for a in empt):
                    n += 1
                    continue
                if any(implies(e.guard, bnot(batom(a))) for a in empt):
                    r = verdict(local(e.val), local(idx(R, 'length')), BT, None, c.seed, what='total of a type so far without regions')
                    if r[0] == REFUTED:
                        return r + (where,)
                if e.val is idx(R, 'length'):
                    return REFUTED, 'the total of the memory type is replaced by the length of one region', where
                return UNKNOWN, f'total becomes {cut(show(e.val), 150)}'
            r = verdict(d, idx(R, 'length'), BT, [], c.seed, E=E, what='total grows by')
            if r[0] != PROVED:
                return r
            n += 1
        return PROVED, f'{n} stores'
    c.ob('total.amount', 'total grows by the length of the region', amount, where)

    def alias():
        if len(ex) > 1:
            return UNKNOWN, 'several searches'
        tot = bor(*[e.guard for e, _ in puts])
        if not ex:
            if tot is BT:
                return REFUTED, 'a region that is an alias of a counted one is counted again', where
            return UNKNOWN, 'search for aliases not recognised'
        a = next(iter(ex))
        ln = E.loops.get(a.args[0])
        Q = E.mk_elem(a.args[0])
        # condition of the search itself
        body = a.args[1]
        ty = idx(R, 'type')
        calls = [t for z in tm.batoms(body) for t in subterms(z) if t.op == 'call' and t.args[0] == 'abs']

        def mk(x, y):
            d = tm.sub(x, y)
            for t in calls:
                if t.args[1][0] is d or t.args[1][0] is tm.neg(d):
                    return t
            return None
        ab = lambda x, y: T('call', 'abs', (tm.sub(x, y),))
        off = mk(idx(ty, 'primary_address'), idx(ty, 'secondary_address')) or \
            ab(idx(ty, 'primary_address'), idx(ty, 'secondary_address'))
        dist = mk(idx(Q, 'origin'), idx(R, 'origin')) or ab(idx(Q, 'origin'), idx(R, 'origin'))
        sec = E.truth0(idx(ty, 'secondary_address'))
        want = band(E.eq(idx(Q, 'length'), idx(R, 'length')),
                    tm.bite(sec, E.eq(off, dist), E.eq(const(0), dist)))
        r = vguard(local(body), local(want), BT, None, c.seed, 'region is an alias')
        if r[0] != PROVED:
            return r
        miss = band(bnot(batom(a)), bnot(tot))
        extra = band(batom(a), tot, *[batom(z) for z in empt])
        if not unsat(extra):
            return REFUTED, f'an alias of a counted region is counted again when {cut(show_b(extra), 200)}', where
        if not unsat(miss):
            # an empty list has no alias
            if unsat(band(miss, *[batom(z) for z in empt])) and unsat(band(miss, *[bnot(batom(z)) for z in empt])):
                return PROVED, ''
            return REFUTED, f'a region that is no alias is not counted when {cut(show_b(miss), 200)}', where
        return PROVED, 'counted unless an alias of a counted region'
    c.ob('total.alias', 'a region is counted unless it is an alias of an already counted one (same length, mirrored offset)',
         alias, where)

    def record():
        apps = [e for e, _ in E.events(('append',)) if e.val is R and charge.alias_of(e.obj) is idx(R, 'type', 'name')]
        if not apps:
            return UNKNOWN, 'list of counted regions not recognised'
        g = bor(*[e.guard for e in apps])
        tot = bor(*[e.guard for e, _ in puts])
        if implies(tot, g):
            return PROVED, 'every counted region is remembered'
        own = {a for e, _ in puts for a in tm.batoms(e.guard)}
        if any(t.op in VAGUE - {'missing'} for a in tm.batoms(g) if a not in own for t in subterms(a)):
            return UNKNOWN, 'remembering not decided'
        return REFUTED, f'a counted region is not remembered when {cut(show_b(band(tot, bnot(g))), 200)}', where
    c.ob('total.remembered', 'every counted region is remembered for the alias search', record, where)


def merge(c, P):
    node = P.func('memorymap', '_merge_items', public=False)
    if node is None or not charge.recursive(node):
        c.add('merge', 'merging of entries of the same name', UNKNOWN, '_merge_items not found')
        return
    m = P.func_module(node)
    E, v, a = run(P, 'memorymap', '_merge_items', stop=('memorymap._merge_items',))
    D, S = list(a.values())[:2]
    K = T('param', 'K')
    where = loc(P, node)
    ind, ins = batom(T('in', K, D)), batom(T('in', K, S))
    c.ob('merge.present', 'merging keeps all entries of both sides',
         lambda: vguard(E.contains(K, D, St({}, BT)), bor(ind, ins), BT, None, c.seed, 'present', E=E), where)
    for tag, g, want in (('both', band(ind, ins), tm.add(idx(T('idx', D, K), 'size'), idx(T('idx', S, K), 'size'))),
                         ('left', band(ind, bnot(ins)), idx(T('idx', D, K), 'size')),
                         ('right', band(bnot(ind), ins), idx(T('idx', S, K), 'size'))):
        c.ob(f'merge.size.{tag}', 'size of a merged entry is the sum of both sides',
             lambda g=g, want=want: verdict(lookup(E, lookup(E, D, K, g, m), const('size'), g, m), want, g, None, c.seed,
                                            E=E, what='size'), where)

    def recursion():
        calls = [(e, ch) for e, ch in E.events(('call',)) if e.key.args[0] == 'memorymap._merge_items']
        lv = set()
        for e, ch in calls:
            a0, a1 = e.val.args[0][:2]
            if a1.op == 'idx' and a0.op == 'idx' and a1.args[1] is a0.args[1]:
                k = a1.args[1]
                if k.op == 'const':
                    lv.add(k.args[0])
                else:
                    return UNKNOWN, f'recursion on {cut(show(k), 100)}'
            elif a1.op == 'idx':
                return UNKNOWN, f'recursion on {cut(show(a0), 100)}'
        if lv >= {'object_files', 'symbols'}:
            return PROVED, 'object files and symbols are merged'
        if lv:
            return REFUTED, f'only {sorted(lv)} of object files and symbols are merged'
        return UNKNOWN, 'recursion not recognised'
    c.ob('merge.levels', 'all levels below are merged alike', recursion, where)


def unused(c, P):
    node = P.func('memorymap', 'remove_unused')
    Mm = T('param', params(node)[0])
    facts = mm.facts(Mm)
    E, v, _ = run(P, 'memorymap', 'remove_unused', positional=[Mm], facts=facts)
    m = P.func_module(node)
    K, A = T('param', 'K1'), T('param', 'A1')
    where = loc(P, node)
    mt0 = T('idx', idx(Mm, 'memory_types'), K)
    g = band(batom(T('in', K, idx(Mm, 'memory_types'))), E.truth0(idx(mt0, 'used')))
    cont = lookup(E, Mm, const('memory_types'), BT, m)
    o = lookup(E, cont, K, g, m)

    def used():
        dom = idx(mt0, 'sections')
        want = Sum(dom, lambda k: (E.truth0(idx(T('idx', dom, k), 'archives')), idx(T('idx', dom, k), 'size')))
        return verdict(lookup(E, o, const('used'), g, m), want, g, facts, c.seed, E=E, what='usage')
    c.ob('unused.used', 'after removing unused items the usage is the sum over the remaining sections', used, where)

    def remain():
        s = lookup(E, o, const('sections'), g, m)
        return vguard(E.contains(A, s, St({}, g)),
                      band(batom(T('in', A, idx(mt0, 'sections'))), E.truth0(idx(T('idx', idx(mt0, 'sections'), A), 'archives'))),
                      g, facts, c.seed, 'section remains', E=E)
    c.ob('unused.sections', 'exactly the sections with archives remain', remain, where)
    c.ob('unused.size', 'the total is not touched',
         lambda: verdict(lookup(E, o, const('size'), g, m), idx(mt0, 'size'), g, facts, c.seed, E=E, what='total'), where)


def flows(c, P):
    pipe.flow(c, P, [
        ('types', 'the memory types are those of the chip',
         lambda p: pipe.input_is(p, '_get_mem_type_map', 0, pipe.call_of(p, '_get_memory_types'), 'memory types')),
        ('regions', 'the regions are those of the map, split at memory types',
         lambda p: pipe.input_is(p, '_get_mem_type_map', 1, pipe.call_of(p, '_split_memory_regions'), 'regions')),
        ('source', 'the regions come from the analysed map',
         lambda p: pipe.input_is(p, '_filter_memory_regions', 0, pipe.att(p.MF, 'memory_regions'), 'regions')),
        ('result', 'the result is the returned map',
         lambda p: pipe.same(p.final('memory_types'), pipe.call_of(p, '_get_mem_type_map'), 'memory_types', p.ok())),
    ], scenarios=((False, True, False), (True, True, False)))


def shapes(c, P):
    """A few regions of unknown lengths and sections of unknown sizes."""
    import small
    f = small.private(P, 'memorymap', '_get_mem_type_map', ('memory_types', 'memory_regions', 'map_sections'), True)
    if f is None:
        return
    where = loc(P, P.modules['memorymap'].funcs['_get_mem_type_map'])
    warned = [0]

    def warn(I, a, k):
        warned[0] += 1
    hooks = {'esp_pylib.logger.log.warn': warn, 'log.warn': warn}
    TYPES = {'d': ('DIRAM', 0x10000, 0x90000), 'i': ('IRAM', 0x30000, 0), 'e': ('External RAM', 0x50000, 0), 'u': ('RTC', 0x70000, 0)}
    # name: (type, origin, length, counted)
    R = {'d1': ('d', 0x10000, 'L1', True), 'd2': ('d', 0x12000, 'L2', True), 'd2 mirrored': ('d', 0x92000, 'L2', False), 'i1': ('i', 0x30000, 'L3', True),
         'i2': ('i', 0x32000, 'L3', True), 'd1 mirrored': ('d', 0x90000, 'L1', False), 'e': ('e', 0x50000, 'L4', True), 'd3': ('d', 0x14000, 'L1', True)}
    # name: (address, type or None, name in the map)
    A, B = ('A', 'o', 'f'), ('B', 'o', 'g')
    S = [('.dram0.data', 0x10000, 'd', '.dram0.data', [A]), ('.dram0.bss', 0x12100, 'd', '.dram0.bss', [A, B]), ('.iram0.text', 0x30000, 'i', '.iram0.text', [A, B]),
         ('.iram0.text', 0x32010, 'i', '.iram0.text', [B, ('A', 'p', 'f'), ('C', 'o', 'f')]), ('.iram0.data', 0x31800, 'i', '.iram0.data_overflow', [A]),
         ('.iram0.bss', (0x30000, 'L3'), 'i', '.iram0.bss_overflow', [A]), ('.high', 0xf0000, None, '', [A]),
         ('.dram0.bss', 0x90010, 'd', '.dram0.bss', [('A', 'o', 'h')])]
    X = [('.ext_ram.bss', 0x30010, 'e', '.ext_ram.bss', [A]), ('.ext_ram.bss', 0x50010, 'e', '.ext_ram.bss', [A])]
    some = ['d1', 'd2', 'd2 mirrored', 'i1', 'i2', 'd1 mirrored']
    for name, regions, secs, types in (
            ('sections', some, S, 'diu'), ('sections reversed', some, S[::-1], 'uid'), ('mirrored first', ['d1', 'i1', 'd1 mirrored', 'd2', 'd3', 'd2 mirrored', 'i2'], S[2:5], 'di'),
            ('external', some + ['e'], X + S[:4], 'dieu'), ('without sections', some[::-1], [], 'di'), ('without regions', [], S[:2], 'di')):
        def body(I, regions=regions, secs=secs, types=types, name=name):
            warned[0] = 0
            length = {}
            for k in ('L1', 'L2', 'L3', 'L4'):
                length[k] = small.n(k)
                small.atleast(I, length[k], 0x800)
                small.atleast(I, small.nadd(0x1000, length[k], -1))
            small.atleast(I, small.nadd(length['L2'], length['L1'], -1), 1)
            ts = {k: {'name': TYPES[k][0], 'type': k, 'primary_address': TYPES[k][1], 'secondary_address': TYPES[k][2], 'length': 0x8000} for k in types}
            regs, counted, total = [], set(), {k: 0 for k in types}
            for r in regions:
                t, o, ln, new = R[r]
                regs.append({'name': r, 'origin': o, 'length': length[ln], 'attrs': 'rw', 'type': ts[t]})
                twin = r.split()[0]
                if twin not in counted:
                    total[t] = small.nadd(total[t], length[ln])
                counted.add(twin)
            want = {k: {} for k in types}
            maps, drops = [], 0
            for i, (nm, ad, t, out, items) in enumerate(secs):
                size = small.n(f'size {i}')
                small.atleast(I, size, 1)
                small.atleast(I, small.nadd(0x600, size, -1))
                arch = {}

                def node(d, k, tag, sub):
                    e = d.setdefault(k, dict({'abbrev_name': k, 'size': 0, 'size_diff': 0}, **({sub: {}} if sub else {})))
                    e['size'] = small.nadd(e['size'], small.n(f'{tag} {i}'))
                    return e
                for a, o, y in items:
                    e = node(arch, a, f'{a}/{o}', 'object_files')
                    e = node(e['object_files'], o, f'{a}/{o}', 'symbols')
                    node(e['symbols'], y, f'{a}/{o}/{y}', None)
                if isinstance(ad, tuple):
                    ad = small.nadd(ad[0], length[ad[1]])
                maps.append({'name': nm, 'abbrev_name': '.' + nm.split('.')[-1], 'address': ad, 'size': size, 'input_sections': [], 'archives': arch, 'fill': 0})
                if t is None or not regions:
                    drops += 1
                    continue
                drops += out.endswith('_overflow')
                e = want[t].setdefault(out, {'size': 0, 'archives': {}})
                e['size'] = small.nadd(e['size'], size)

                def merge(dst, src, subs):
                    for k, v in src.items():
                        x = dst.setdefault(k, {'size': 0, 'sub': {}})
                        x['size'] = small.nadd(x['size'], v['size'])
                        if subs:
                            merge(x['sub'], v[subs[0]], subs[1:])
                merge(e['archives'], arch, ('object_files', 'symbols'))
            r = I.call(f, [ts, regs, maps], {})
            small.keys(r, [TYPES[k][0] for k in types], 'the memory types')
            for k in types:
                e, used = r[TYPES[k][0]], 0
                for x in want[k].values():
                    used = small.nadd(used, x['size'])
                small.fields(I, e, {'size': total[k], 'used': used, 'size_diff': 0, 'used_diff': 0}, TYPES[k][0])
                small.keys(e.get('sections'), want[k], f'the sections of {TYPES[k][0]}')

                def compare(got, exp, subs, what):
                    small.keys(got, exp, what)
                    for q, v in exp.items():
                        small.fields(I, got[q], {'size': v['size']}, f'{what}/{q}')
                        if subs:
                            compare(got[q].get(subs[0]), v['sub'], subs[1:], f'{what}/{q}')
                for q, v in want[k].items():
                    small.fields(I, e['sections'][q], {'size': v['size'], 'size_diff': 0}, q)
                    compare(e['sections'][q].get('archives'), v['archives'], ('object_files', 'symbols'), q)
            if warned[0] < drops:
                raise small.Bad(f'{drops} sections are dropped or moved, with {warned[0]} warnings')
        small.ob(c, P, f'shape.{name}', 'a few regions of unknown lengths and sections of unknown sizes', where, body, hooks=hooks, inner=True)


def check(c):
    P = Project()
    shapes(c, P)
    flows(c, P)
    P.func('memorymap', 'get')
    h = {}
    if c.group('analyse', 'charges of sections to memory types', lambda: h.update(M=charge.Model(P))):
        M = h['M']
        c.counts.update(charges=len(M.charges), loops=M.E.stats['loops'], functions=sorted(M.E.stats['functions']))
        if not M.charges or any(x.alias is None or x.S is None for x in M.charges):
            c.add('charges', 'charges recognised', UNKNOWN, 'no store to used recognised')
        else:
            c.group('sections', 'charging of sections', lambda: sections(c, M))
            c.group('totals', 'total sizes', lambda: totals(c, M))
    c.group('merge', 'merging of entries', lambda: merge(c, P))
    c.group('unused', 'removal of unused items', lambda: unused(c, P))


main('C08', RULE, check, ['Sections of one name in one memory type are merged into one entry.'], floor=3)
