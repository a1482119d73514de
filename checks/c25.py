"""C25: symbols are attributed to the input section containing them."""
import ast
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
import linear
import pipe
from place import Places, lift, onbools, unmin
from vg import *

RULE = ('value-graph analysis of memorymap._add_symbols_to_sections and _expand_input_sections: for one arbitrary symbol and the '
        'input section under the cursor, the conditions of every attachment, skip, advance and error, the values attached, and '
        'the orders of both walks are compared with the merge they must implement; pieces cut by DWARF attribution must add up.')

FUNC, OBJECT = 2, 1
f = lambda t, k: T('idx', t, const(k))
Y, I = T('param', 'symbol'), T('param', 'input_section')
att = lambda k: T('attr', Y, k)


def base(d):
    while d is not None and d.op in ('aslist', 'perm', 'slice'):
        d = d.args[0]
    return d


def eqc(c, E, a, e, g, what):
    if a is e or (linear.unsat(band(g, a, bnot(e))) and linear.unsat(band(g, e, bnot(a)))):
        return PROVED, f'{what} iff {cut(show_b(e, 3), 200)}'
    w = linear.witness(band(g, a, bnot(e))) or linear.witness(band(g, e, bnot(a)))
    if w is None:
        w = interp.differ(a, e, g, None, n=600, seed=c.seed, E=E)
    if w is not None:
        return REFUTED, f'{what} iff {cut(show_b(a, 3), 250)}, must be iff {cut(show_b(e, 3), 250)}; witness {cut(w, 300)}'
    return UNKNOWN, f'{what}: cannot compare {cut(show_b(a, 3), 200)}'


def val(c, E, a, e, g, what):
    if a is None:
        return UNKNOWN, f'{what}: value not determined'
    if linear.equal(a, e, g):
        return PROVED, f'{what} = {cut(show(e), 120)}'
    w = linear.differs(a, e, g)
    if w is not None:
        return REFUTED, f'{what} is {cut(show(a), 250)} but must be {cut(show(e), 200)}; witness {cut(w, 300)}'
    return verdict(a, e, g, None, c.seed, E=E, what=what)


def first(rs):
    rs = list(rs)
    for v in (REFUTED, UNKNOWN):
        for r in rs:
            if r[0] == v:
                return r
    return rs[-1] if rs else (UNKNOWN, 'nothing found')


def sorted_by(ordering, E, key, what):
    """ordering: tuple of perm terms; key: expected key value of T('sortelem')."""
    ps = [o for o in ordering if o.op == 'perm']
    if not ps:
        for e, _ in E.events(('sort',)):
            if e.key.op == 'skey' and e.key.args[0] == 'by':
                for x in subterms(e.key.args[1]):
                    if x.op == 'sortelem' and {y for g, y in tm.cases(e.key.args[1]) if y is not tm.ZERO} == {key(x)} and e.val is tm.FALSE_T:
                        return PROVED, f'{what} are sorted in place'
            return UNKNOWN, f'{what}: sorted in place, by {cut(show(e.key), 80)}'
        return REFUTED, f'{what} are not sorted'
    p = ps[-1]
    if p.args[1] != 'sorted' or len(p.args) < 4:
        return UNKNOWN, f'{what}: order {cut(show(p), 100)}'
    k, rev = p.args[2], p.args[3]
    if rev is True or (isinstance(rev, Term) and rev.op == 'const' and rev.args[0] is True):
        return REFUTED, f'{what} are sorted in descending order'
    if not (rev is False or (isinstance(rev, Term) and rev.op == 'const' and not rev.args[0])):
        return UNKNOWN, f'{what}: direction {cut(show(rev), 60)}'
    t = k.args[1] if k.op == 'skey' and k.args[0] == 'by' else None
    if t is None:
        return UNKNOWN, f'{what}: key {cut(show(k), 100)}'
    if t.op == 'tuple' and t.args[0]:
        t = t.args[0][0]
    SE = next((x for x in subterms(t) if x.op == 'sortelem'), None)
    if SE is None:
        return REFUTED, f'{what} are sorted by {cut(show(t), 80)}'
    want = key(SE)
    vals = {x for g, x in tm.cases(t) if x is not tm.ZERO}
    if vals == {want}:
        return PROVED, f'{what} are sorted by {cut(show(want), 80)}, ascending'
    if all(pipe.plain(tm.replace(x, {SE: Y})) for x in vals):
        return REFUTED, f'{what} are sorted by {cut(show(t), 120)}, not by {cut(show(want), 80)}'
    return UNKNOWN, f'{what}: key {cut(show(t), 100)}'


def symbols(c, P):
    node = P.func('memorymap', '_add_symbols_to_sections', public=False)
    if node is None:
        c.add('symbols', 'attachment of symbols', UNKNOWN, '_add_symbols_to_sections not found')
        return
    EL, OS = T('param', 'elf'), T('param', 'osections')
    h = {}

    def start():
        E, v, _ = run(P, 'memorymap', node.name, positional=[EL, OS])
        h.update(E=E, v=v)
        c.counts.update(loops=E.stats['loops'], effects=E.stats['events'], functions=sorted(E.stats['functions']))
    if not c.group('symbols', 'value graph of _add_symbols_to_sections', start):
        return
    E = h['E']
    where = loc(P, node)
    O = T('param', 'output_section')
    SY = T('attr', EL, 'symbols')
    role, ylp, ilp = {}, [], []
    for L, ln in E.loops.items():
        if base(ln.dom) is OS:
            role[E.mk_elem(L)] = O
        elif base(ln.dom) is SY:
            role[E.mk_elem(L)] = Y
            ylp.append(L)
    for L, ln in E.loops.items():
        if ln.dom is not None and tm.replace(base(ln.dom), role) is f(O, 'input_sections'):
            role[E.mk_elem(L)] = I
            ilp.append(L)
    # lists of all input sections, and picks from them
    ev = E.events(('append', 'put', 'copyfrom', 'popitem', 'raise', 'call'))
    allis = set()
    for e, ch in ev:
        if e.kind == 'append' and e.obj.op == 'new' and tm.replace(e.val, role) is I and \
                E.newinfo.get(e.obj.args[0]) == 'list':
            allis.add(e.obj)
    for e, ch in ev:
        if e.kind == 'copyfrom' and e.val in allis:
            allis.add(e.obj)
    picks = {t for e, ch in ev for x in ([e.val] if e.val is not None else []) + list(tm.batoms(e.guard))
             for t in subterms(x) if t.op == 'pick' and t.args[1] in allis}
    for t in picks:
        role[t] = I
    for _ in range(3):
        for L, ln in E.loops.items():
            for k, init in ln.init_env.items():
                mu = T('mu', L, T('var', *k))
                if tm.replace(init, role) is I and tm.replace(ln.next_env.get(k, init), {**role, mu: I}) is I:
                    role[mu] = I

    have = band(batom(T('truthy', EL)), bnot(batom(T('isnone', EL))))
    whiles = [(L, ln) for L, ln in E.loops.items() if ln.kind == 'while' and L.args[0] > 0 and ln.cond is not None]

    def sub(x, err=False):
        def at(a):
            if a.op == 'truthy' and a.args[0] is EL:
                return BT
            if a.op == 'isnone' and a.args[0] is EL:
                return BF
            if a.op == 'exists':
                ln = E.loops.get(a.args[0])
                if ln is not None and ln.kind == 'while':
                    return batom(T('param', 'advanced')) if a.args[1] is BT else BF
                if ln is not None and base(ln.dom) is OS:
                    return BT      # there are input sections
                if ln is not None and base(ln.dom) is SY:
                    return BT if err else BF      # no earlier symbol was an error
            return batom(a)
        x = onbools(x, lambda b: tm.bmap(b, at))
        x = tm.replace(x, role)
        x = onbools(x, lambda b: tm.bmap(b, at))
        return unmin(x, E)
    PL = Places(E, sub)
    outer = lambda ch: any(base(l.dom) is SY for l in ch)

    # --- attachment
    app = [(e, ch) for e, ch in PL.apps if outer(ch) and not (e.obj in allis)]
    app = [(e, ch) for e, ch in app if tm.replace(e.val, role) is not Y]
    raises = [(e, ch) for e, ch in ev if e.kind == 'raise']
    c.counts.update(attachments=len(app), errors=len(raises))
    le = lambda a, b: bnot(E.lt(b, a))
    start_, end = f(I, 'address'), tm.add(f(I, 'address'), f(I, 'size'))
    ya, yz = att('st_value'), att('st_size')
    yend = tm.add(ya, yz)
    wanted = band(bor(E.eq(att('type'), const(FUNC)), E.eq(att('type'), const(OBJECT))), E.truth0(yz))
    nn = band(*[le(tm.ZERO, x) for x in (start_, f(I, 'size'), ya, yz)])
    reach = band(nn, E.lt(ya, end))
    if not app:
        c.add('attach', 'attachment of symbols to input sections', UNKNOWN, 'no attachment recognised')
        return
    inside = band(wanted, le(start_, ya), le(yend, end))

    def attach():
        g = sub(bor(*[e.guard for e, _ in app]))
        return eqc(c, E, g, inside, reach, 'symbol attached')
    c.ob('attach', 'a sized function or object symbol is attached iff it lies within the input section', attach, where)

    def owner():
        out = []
        for e, ch in app:
            o = e.obj
            t = None
            for x in subterms(o):
                if x.op == 'mu' and len(x.args) == 3 and x.args[2] is const('symbols'):
                    t = tm.replace(x.args[1], role)
            if o.op == 'idx' and o.args[1] is const('symbols'):
                t = tm.replace(o.args[0], role)
            if t is None:
                out.append((UNKNOWN, f'line {e.node.lineno}: list {cut(show(o), 80)}'))
            elif t is I:
                out.append((PROVED, 'attached to the input section under the cursor'))
            else:
                out.append((UNKNOWN, f'attached to {cut(show(t), 80)}'))
        return first(out)
    c.ob('attach.owner', 'it is attached to the list of that input section', owner, where)
    for k, exp in (('name', tm.phi(E.eq(att('type'), const(FUNC)), E.cat([att('name'), const('()')]), att('name'))),
                   ('address', ya), ('size', yz)):
        c.ob(f'attach.{k}', 'with its own name, address and size', lambda k=k, exp=exp: first(
            val(c, E, PL.field(e.val, k), exp, band(reach, inside, sub(e.guard)), k) for e, _ in app), where)
    # --- errors
    nofit = [(e, ch) for e, ch in raises if not any(a.op == 'nonemptymu' for a in tm.batoms(e.guard))]
    behind = [x for x in raises if x not in nofit]

    def misfit():
        g = sub(bor(*[e.guard for e, _ in nofit]), True)
        r = eqc(c, E, g, band(wanted, E.lt(end, yend)), band(reach, le(start_, ya)), 'symbol does not fit: error')
        if r[0] != PROVED:
            return r
        return eqc(c, E, g, BF, band(reach, le(yend, end)), 'error for a symbol ending within or before the input section')
    c.ob('error.misfit', 'a symbol that starts inside but does not fit is an error', misfit, where)
    W = [(L, ln) for L, ln in whiles if not any(L2.args[0] > L.args[0] and l2.node is ln.node for L2, l2 in whiles)]
    if len(W) != 1:
        c.add('advance', 'walk over the input sections', UNKNOWN, f'{len(W)} inner loops')
        return
    L, ln = W[0]
    leaves = any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(ln.node))
    c.ob('advance', 'the cursor moves on exactly while the symbol lies behind the input section',
         lambda: (UNKNOWN, 'the walk is left from within its body') if leaves else
         eqc(c, E, sub(ln.cond), le(end, ya), nn, 'moves on'), where)

    def nxt():
        pops = [(e, ch) for e, ch in ev if e.kind == 'popitem' and any(l is ln for l in ch)]
        if not pops:
            return UNKNOWN, 'no removal from the list of input sections'
        for e, ch in pops:
            if e.obj not in allis:
                return UNKNOWN, f'takes from {cut(show(e.obj), 80)}'
            if e.key is not const(0):
                return REFUTED, f'line {e.node.lineno} does not take the next input section but number {cut(show(e.key), 40)}'
        if len(pops) != 1:
            return UNKNOWN, f'{len(pops)} removals per step'
        return PROVED, 'takes the next of the sorted list'
    c.ob('advance.next', 'it moves to the next input section', nxt, where)

    def last():
        if not behind and any(a.op == 'exists' and a.args[1] is not BT and E.loops.get(a.args[0]) is ln
                              for e, ch in raises for a in tm.batoms(e.guard)):
            return UNKNOWN, 'condition of the error not recognised'
        if not behind and (leaves or any(l is ln for e, ch in raises for l in ch)):
            return UNKNOWN, 'the walk has an error whose condition is not recognised'
        if not behind:
            return REFUTED, 'no error for a symbol behind the last input section'
        bad = []
        for e, ch in behind:
            ats = [a for a in tm.batoms(e.guard) if a.op == 'nonemptymu']
            g = e.guard
            for a in ats:
                if not unsat(band(g, batom(a))):
                    bad.append((UNKNOWN, 'raised while input sections are left'))
        return first(bad) if bad else (PROVED, 'error when no input section is left')
    c.ob('error.behind', 'a symbol behind the last input section is an error', last, where)
    yl = [l for l in ylp if any(x.L is l for e, ch in app for x in ch)]
    c.ob('order.symbols', 'symbols are visited in the order of their addresses', lambda: first(
        sorted_by(E.loops[l].ordering, E, lambda s: T('attr', s, 'st_value'), 'symbols') for l in yl), where)
    src = {t.args[1] for t in picks}
    lists = [ln2 for e, ch in PL.apps if e.obj in src for ln2 in ch[:1]]
    c.ob('order.sections', 'input sections are visited in the order of their addresses', lambda: first(
        sorted_by(x.ordering, E, lambda s: f(s, 'address'), 'input sections') for x in lists), where)

    def every():
        out = []
        for e, ch in PL.apps:
            if e.obj in allis:
                g = sub(e.guard)
                out.append(eqc(c, E, g, BT, BT, 'input section visited') if tm.replace(e.val, role) is I else
                           (UNKNOWN, f'line {e.node.lineno} adds {cut(show(e.val), 60)}'))
        return first(out)
    c.ob('all', 'every input section of every output section takes part', every, where)

    # --- initial lists
    puts = [(e, ch) for o, es in PL.puts.items() if tm.replace(o, role) is I for e, ch in es if e.key is const('symbols')]

    def init():
        out = []
        for e, ch in puts:
            if linear.unsat(band(have, e.guard)):
                continue
            if e.val.op != 'new' or [1 for x, _ in PL.apps if x.obj is e.val and x.guard is not BF and not outer(_)]:
                out.append((UNKNOWN, f'line {e.node.lineno}: initial list {cut(show(e.val), 60)}'))
            elif not any(base(l.dom) is OS for l in ch) or not any(
                    fe.obj is e.val and [l.L for l in fch] == [l.L for l in ch] for fe, fch in E.events(('fresh',))):
                out.append((REFUTED, f'line {e.node.lineno}: several input sections share one list of symbols'))
            else:
                out.append(eqc(c, E, sub(e.guard), BT, BT, 'gets an empty list'))
        return first(out)
    c.ob('lists', 'every input section gets its own list', init, where)

    # --- fallback
    fb = [(e, ch) for e, ch in PL.apps if not outer(ch) and e.val.op == 'new' and tm.replace(e.obj, role) is f(I, 'symbols')]

    def fallback():
        if not fb:
            return UNKNOWN, 'not recognised'
        g = sub(bor(*[e.guard for e, _ in fb]))
        ats = [a for a in tm.batoms(g)]
        for a in ats:
            if a.op == 'left':
                return REFUTED, 'only input sections the walk over the symbols has not reached are represented'
            if not ((a.op in ('truthy', 'nonempty', 'opne', 'ex', 'exists', 'last') or 'nonempty' in a.op) or
                    any(x is const('symbols') for x in subterms(a))):
                w = interp.differ(g, bnot(batom(a)), BT, None, seed=c.seed, E=E)
                return (REFUTED if pipe.plain(a.args[0]) and not any(x is const('symbols') for x in subterms(a)) else UNKNOWN,
                        f'whether an input section without symbols is represented depends on {cut(show(a), 120)}')
        return PROVED, 'depends only on the list of symbols being empty'
    c.ob('fallback', 'an input section without symbols is represented by one symbol', fallback, where)
    for k in ('name', 'address', 'size'):
        c.ob(f'fallback.{k}', 'covering the whole input section', lambda k=k: first(
            val(c, E, PL.field(e.val, k), f(I, k), BT, k) for e, _ in fb), where)

    # --- without ELF
    noelf = bnot(batom(T('truthy', EL)))

    def lonely():
        out = []
        for e, ch in puts:
            if unsat(band(noelf, e.guard)):
                continue
            ap = [(x, xc) for x, xc in PL.apps if x.obj is e.val]
            if len(ap) != 1:
                return (UNKNOWN, f'{len(ap)} symbols')
            x = ap[0][0]
            out.append(vguard(tm.replace(band(e.guard, x.guard), role), BT, band(noelf, batom(T('isnone', EL))), None, c.seed, E=E,
                              what='represented by one symbol'))
            for k in ('name', 'address', 'size'):
                out.append(val(c, E, PL.field(x.val, k), f(I, k), BT, k))
        return first(out) if out else (UNKNOWN, 'not recognised')
    c.ob('noelf', 'without ELF file every input section is represented by one symbol covering it', lonely, where)


def expand(c, P):
    node = P.func('memorymap', '_expand_input_sections', public=False)
    if node is None:
        c.add('expand', 'cutting of input sections', UNKNOWN, '_expand_input_sections not found')
        return
    h = {}
    MFp = T('param', 'map_file')

    def start():
        E, v, _ = run(P, 'memorymap', node.name, positional=[MFp, T('param', 'proj_desc'), T('param', 'elf')])
        h.update(E=E, v=v)
        c.counts.update(expand_loops=E.stats['loops'], expand_effects=E.stats['events'])
    if not c.group('expand', 'value graph of _expand_input_sections', start):
        return
    E = h['E']
    where = loc(P, node)
    O, OLDA, OLDZ, OLDF = T('param', 'output_section'), T('param', 'rest_address'), T('param', 'rest_size'), T('param', 'fill')
    role = {}
    ol, il = [], []
    for L, ln in E.loops.items():
        if base(ln.dom) is T('attr', MFp, 'sections'):
            role[E.mk_elem(L)] = O
            ol.append(L)
    for L, ln in E.loops.items():
        if ln.dom is not None and tm.replace(base(ln.dom), role) is f(O, 'input_sections'):
            il.append(L)
            role[E.mk_elem(L)] = I
    ev = E.events(('append', 'put', 'fresh'))
    new = {e.val for e, ch in ev if e.kind == 'put' and tm.replace(e.obj, role) is O and e.key is const('input_sections')}
    if len(new) != 1 or next(iter(new)).op != 'new':
        c.add('expand.list', 'new list of input sections', UNKNOWN, 'not one new list per output section')
        return
    new = next(iter(new))
    fr = [ch for e, ch in ev if e.kind == 'fresh' and e.obj is new]
    c.ob('expand.list', 'every output section gets a list of its own', lambda: (
        (PROVED, 'new list per output section') if fr and any(l.L in ol for l in fr[0]) else
        (REFUTED, 'the list is shared by all output sections')), where)
    apps = [(e, ch) for e, ch in ev if e.kind == 'append' and e.obj is new]
    cutl = [(e, ch) for e, ch in apps if ch and ch[-1].L not in il]
    whole = [(e, ch) for e, ch in apps if (e, ch) not in cutl]
    loops = {ch[-1] for e, ch in cutl}
    c.counts['pieces'] = len(apps)
    if len(loops) != 1:
        c.add('expand.conserve', 'pieces add up', UNKNOWN, f'{len(loops)} loops cut input sections')
        return
    ln = next(iter(loops))
    me = [el for el, r in role.items() if r is I and any(l.L is el.args[0] for l in cutl[0][1])]
    if len(me) != 1:
        c.add('expand.conserve', 'pieces add up', UNKNOWN, 'input section not recognised')
        return
    me = me[0]
    m = dict(role)
    m[T('mu', ln.L, me, const('address'))] = OLDA
    m[T('mu', ln.L, me, const('size'))] = OLDZ
    SYM = None
    for t in {x for e, ch in cutl for x in subterms(e.guard.atom if e.guard.atom is not None else e.val)}:
        pass
    K = E.mk_key(ln.L)
    for e, ch in cutl + [(x, y) for x, y in ev if x.kind == 'put']:
        for tt in [e.val] + list(tm.batoms(e.guard)):
            for t in subterms(tt):
                if t.op == 'idx' and t.args[1] is K and SYM is None:
                    SYM = t
    if SYM is not None:
        m[SYM] = Y
    m[E.mk_elem(ln.L)] = Y
    A = lambda k: T('attr', Y, k)

    def sub(x):
        def at(a):
            if a.op == 'exists':
                return BF if E.loops.get(a.args[0]) is ln else batom(T('param', 'other' + str(a.id)))
            return batom(a)
        x = onbools(x, lambda b: tm.bmap(b, at))
        x = tm.replace(x, m)
        return unmin(x, E)
    PL = Places(E, sub)

    def after(field, old):
        v = old
        for e, ch in ev:
            if e.kind == 'put' and e.obj is me and e.key is const(field) and any(l is ln for l in ch):
                v = tm.phi(sub(e.guard), sub(e.val), v)
        return v
    total = tm.ZERO
    for e, ch in cutl:
        z = PL.field(e.val, 'size')
        if z is None:
            c.add('expand.conserve', 'pieces add up', UNKNOWN, 'size of a piece not determined')
            return
        total = tm.add(total, tm.phi(sub(e.guard), z, tm.ZERO))
    # the key of the symbol table is the address of the symbol
    keyed = E.eq(K, A('st_value'))
    km = {K: A('st_value')}
    for nm in ('address', 'size'):
        tt = tm.replace(tm.replace(total, m), km)
        aft = tm.replace(after(nm, OLDA if nm == 'address' else OLDZ), km)
        exp = tm.add(OLDA, tt) if nm == 'address' else tm.sub(OLDZ, tt)
        c.ob(f'expand.{nm}', 'each step moves the rest of the input section by exactly the pieces cut off',
             lambda aft=aft, exp=exp, nm=nm: val(c, E, aft, exp, BT, f'rest {nm}'), where)
    # the pieces lie one behind the other from the start of the rest
    def contiguous():
        out = []
        pos = OLDA
        for e, ch in cutl:
            g = tm.replace(sub(e.guard), km)
            ad = tm.replace(PL.field(e.val, 'address'), km)
            out.append(val(c, E, ad, pos, g, 'address of the piece'))
            pos = tm.phi(g, tm.add(pos, tm.replace(PL.field(e.val, 'size'), km)), pos)
        return first(out)
    c.ob('expand.contiguous', 'pieces follow each other without gap or overlap', contiguous, where)
    # what is left is kept
    RZ = T('param', 'left')
    le = lambda a, b: bnot(E.lt(b, a))
    mine = batom(T('param', 'to_be_cut'))

    def rest():
        out = []
        plain_ = [(e, ch) for e, ch in whole if tm.replace(e.val, role) is I]
        if len(plain_) != len(whole) or not plain_:
            return UNKNOWN, f'{len(whole)} stores of whole input sections'
        lasts = {t for e, ch in plain_ for a in tm.batoms(e.guard) for t in subterms(a)
                 if t.op == 'last' and t.args[2] is T('mu', ln.L, me, const('size'))}
        mm_ = dict(role)
        for t in lasts:
            mm_[t] = RZ
        cond = E.eq(f(I, 'archive'), const('(exe)'))
        g = BF
        for e, ch in plain_:
            g = bor(g, onbools(tm.replace(e.guard, mm_), lambda b: tm.bmap(b, fin)))
        g = tm.replace(g, mm_)
        r = eqc(c, E, g, BT, bnot(cond), 'input section of a known archive kept')
        if r[0] != PROVED:
            return r
        r = eqc(c, E, g, BT, band(cond, E.truth0(RZ)), 'rest of a cut input section kept')
        if r[0] == UNKNOWN:
            # whatever happened to earlier symbols, after at least one input section
            w = onbools(g, lambda b: tm.bmap(b, lambda a: BT if a.op == 'nonemptymu' else batom(a)))
            for a in tm.batoms(w):
                if not linear.plain(a):
                    w = bor(tm.bmap(w, lambda x: BT if x is a else batom(x)), tm.bmap(w, lambda x: BF if x is a else batom(x)))
            x = linear.witness(band(cond, E.truth0(RZ), le(tm.ZERO, RZ), bnot(w)))
            if x is not None:
                return REFUTED, f'a rest is dropped: kept only if {cut(show_b(w), 200)}; witness {x}'
        return r

    def fin(a):
        if a.op == 'isnone':
            return BF
        return batom(a)
    c.ob('expand.rest', 'input sections of known archives, and the uncovered rest, are kept', rest, where)

    def fill():
        out = []
        for e, ch in ev:
            if e.kind == 'put' and e.key is const('fill') and e.obj.op == 'pick':
                mu = T('mu', ch[-1].L, e.obj, const('fill'))
                exp = tm.add(mu, f(me, 'fill'))
                if e.obj.args[1] is not new or e.obj.args[2] is not const(-1):
                    out.append((REFUTED, f'line {e.node.lineno} credits padding to another input section'))
                else:
                    out.append((PROVED, 'added to the last piece') if e.val is exp else
                               (REFUTED if not [x for x in subterms(e.val) if x.op in ('opaque', 'last')] else UNKNOWN,
                                f'padding becomes {cut(show(e.val), 100)}'))
        for e, ch in cutl:
            out.append(val(c, E, PL.field(e.val, 'fill'), tm.ZERO, BT, 'padding of a piece'))
        return first(out)
    c.ob('expand.fill', 'padding stays behind the last piece, once', fill, where)

    def order():
        return sorted_keys(ln.ordering)
    c.ob('expand.order', 'symbols are visited in the order of their addresses', order, where)


def sorted_keys(ordering):
    ps = [o for o in ordering if o.op == 'perm']
    if not ps:
        return REFUTED, 'symbols are not sorted'
    p = ps[-1]
    if p.args[1] != 'sorted' or len(p.args) < 4:
        return UNKNOWN, cut(show(p), 100)
    if p.args[3] is True or p.args[3] is const(True):
        return REFUTED, 'symbols are sorted in descending order'
    k = p.args[2]
    if k.op == 'skey' and k.args[0] in ('by', 'id') and (k.args[0] == 'id' or k.args[1].op == 'sortelem_k'):
        return PROVED, 'sorted by address'
    if k.op == 'skey' and k.args[0] == 'by' and k.args[1].op == 'attr' and k.args[1].args[1] == 'st_value':
        return PROVED, 'sorted by address'
    if k.op == 'skey' and k.args[0] == 'by' and all(x.op in ('sortelem_v', 'attr', 'idx', 'const', 'aff') for x in subterms(k.args[1])):
        return REFUTED, f'symbols are sorted by {cut(show(k.args[1]), 80)}'
    return UNKNOWN, cut(show(k), 100)


def flows(c, P):
    def elf(p):
        if not p.step('_add_symbols_to_sections') and not LOAD:
            return PROVED, 'symbols not requested'
        return pipe.input_is(p, '_add_symbols_to_sections', 0, p.EL, 'ELF file symbols are taken from')

    def secs(p):
        return pipe.input_is(p, '_add_symbols_to_sections', 1, pipe.call_of(p, '_filter_map_sections'), 'sections symbols are added to')

    def order(p):
        return pipe.order(p, '_add_symbols_to_sections', '_split_map_sections')
    LOAD = True
    pipe.flow(c, P, [('elf', 'symbols come from the ELF file of the map', elf), ('sections', 'symbols are added to the kept sections', secs),
                     ('order', 'symbols are added before sections are split', order)],
              scenarios=((False, True, False), (True, True, False), (False, True, True)))

    def dwarf(p):
        return pipe.input_is(p, '_expand_input_sections', 0, p.MF, 'map that is expanded')

    def dwarf2(p):
        return pipe.input_is(p, '_expand_input_sections', 2, p.EL, 'ELF file DWARF data is taken from')

    def dwarf3(p):
        return pipe.order(p, '_expand_input_sections', '_filter_map_sections')
    pipe.flow(c, P, [('dwarf.map', 'the map that is reported is expanded', dwarf), ('dwarf.elf', 'by its own ELF file', dwarf2),
                     ('dwarf.order', 'before sections are filtered', dwarf3)],
              scenarios=((False, True, True), (True, True, True), (False, False, True)))


def shapes(c, P):
    """A few input sections of unknown sizes and symbols at unknown places within them."""
    import small
    from absint import Cannot, PyExc
    from small import Rec, nadd
    f = small.private(P, 'memorymap', '_add_symbols_to_sections', ('elf', 'osections'), False)
    if f is None:
        return
    where = loc(P, P.modules['memorymap'].funcs['_add_symbols_to_sections'])
    FUNC, OBJ, NONE, SEC = 2, 1, 0, 3

    def world(I, spec):
        osecs = []
        for i, ins in enumerate(spec):
            o = {'name': f'.out{i}', 'address': min(ins or [0]), 'size': 0x1000 * max(1, len(ins)), 'input_sections': [], 'fill': 0}
            for a in ins:
                size = small.n(f'size of {a:x}')
                small.atleast(I, size, 0x100)
                small.atleast(I, nadd(0x800, size, -1))
                o['input_sections'].append({'name': f'.in{a:x}', 'address': a, 'size': size, 'fill': 0, 'archive': 'A', 'object_file': 'o'})
            osecs.append(o)
        return osecs

    def symbol(name, addr, size, t):
        return Rec(name=name, st_value=addr, st_size=size, type=t, st_info=(1 << 4) | t, bind=1, st_shndx=1, st_other=0, st_name=1)

    def table(osecs):
        return {x['address']: x for o in osecs for x in o['input_sections']}

    def compare(I, osecs, want):
        for a, x in table(osecs).items():
            if 'symbols' not in x:
                raise Cannot(f'{x["name"]} has no symbols')
            exp = list(want.get(a) or [(x['name'], x['address'], x['size'])])
            got = list(I.iter(x['symbols']))
            if sorted(map(str, (y['name'] for y in got))) != sorted(y[0] for y in exp):
                raise small.Bad(f'the symbols of {x["name"]} are {[y["name"] for y in got]}, not {[y[0] for y in exp]}')
            for nm, ad, sz in exp:
                for y in got:
                    if y['name'] == nm:
                        small.fields(I, y, {'address': ad, 'size': sz}, f'{nm} of {x["name"]}')
    end = lambda t, a: nadd(a, t[a]['size'])   # noqa: E731
    layouts = {'ordered': [[0x1000, 0x2000, 0x3000]], 'several': [[0x4000, 0x5000], [], [0x1000, 0x2000, 0x3000]], 'one': [[0x1000]]}

    def body(I, spec, pick):
        osecs = world(I, spec)
        t = table(osecs)
        syms, want = pick(I, t)
        elf = Rec(symbols=syms)
        I.call(f, [elf, osecs], {})
        compare(I, osecs, want)

    def inside(I, t):
        o, y = small.n('offset'), small.n('length')
        small.atleast(I, o)
        small.atleast(I, y, 1)
        small.atleast(I, nadd(0x80, nadd(o, y), -1))
        last = max(t)
        z = nadd(end(t, last), nadd(last, 0x90), -1)
        w = {0x1000: [('f()', nadd(0x1000, o), y), ('g', 0x1080, 0x80)]}
        w.setdefault(last, []).append(('h()', last + 0x90, z))
        s = [symbol('h', last + 0x90, z, FUNC), symbol('f', nadd(0x1000, o), y, FUNC), symbol('g', 0x1080, 0x80, OBJ), symbol('z', 0x1010, 0, FUNC), symbol('n', 0x1020, 4, NONE),
             symbol('s', 0x1000, 0x10, SEC)]
        if last == 0x1000:
            s.remove(s[0])
            w[last].pop()
        return s, w

    def rom(I, t):
        y = small.n('length')
        small.atleast(I, y, 1)
        small.atleast(I, nadd(0x100, y, -1))
        s = [symbol('rom', 0x100, y, FUNC), symbol('rom2', 0x200, 8, OBJ), symbol('a', 0x1000, nadd(t[0x1000]['size'], 0), OBJ)]
        w = {0x1000: [('a', 0x1000, t[0x1000]['size'])]}
        if 0x2000 in t:
            e = end(t, 0x1000)
            s += [symbol('gap', e, 4, FUNC), symbol('b', 0x2000, 4, FUNC), symbol('b2', 0x2000, 4, OBJ), symbol('gap2', 0x2f00, 0x100, OBJ)]
            w[0x2000] = [('b()', 0x2000, 4), ('b2', 0x2000, 4)]
        return s, w

    for nm, spec in layouts.items():
        small.ob(c, P, f'shape.{nm}.inside', 'symbols at unknown places', where, lambda I, spec=spec: body(I, spec, inside), inner=True)
        small.ob(c, P, f'shape.{nm}.rom', 'symbols before and between input sections', where, lambda I, spec=spec: body(I, spec, rom), inner=True)
        small.ob(c, P, f'shape.{nm}.none', 'no symbols', where, lambda I, spec=spec: body(I, spec, lambda I, t: ([], {})), inner=True)

        def noelf(I, spec=spec):
            osecs = world(I, spec)
            I.call(f, [None, osecs], {})
            compare(I, osecs, {})
        small.ob(c, P, f'shape.{nm}.noelf', 'without ELF file', where, noelf, inner=True)
        for bad in ('misfit', 'behind'):
            def err(I, spec=spec, bad=bad):
                osecs = world(I, spec)
                t = table(osecs)
                last = max(t)
                if bad == 'misfit':
                    s = symbol('m', 0x1010, nadd(t[0x1000]['size'], -0xf), FUNC)
                else:
                    s = symbol('m', end(t, last), 4, OBJ)
                try:
                    I.call(f, [Rec(symbols=[s]), osecs], {})
                except PyExc:
                    return
                raise small.Bad(f'a symbol that {"does not fit" if bad == "misfit" else "lies behind the last input section"} is no error')
            small.ob(c, P, f'shape.{nm}.{bad}', 'a symbol that fits nowhere is an error', where, err, inner=True)


def check(c):
    P = Project()
    P.func('memorymap', 'get')
    shapes(c, P)
    symbols(c, P)
    expand(c, P)
    flows(c, P)


if __name__ == '__main__':
    main('C25', RULE, check, floor=20, assumptions=['addresses and sizes are non-negative integers'])
