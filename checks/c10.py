"""C10: splitting at memory type borders conserves bytes."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
import linear
import pipe
from place import Places, lift, onbools, unmin
from vg import *

RULE = ('value-graph analysis of memorymap._split_memory_regions and _split_map_sections: for one arbitrary region (output '
        'section, input section, symbol) every append that places it or a part of it is taken with its path condition and the '
        'field values of the part; per case (inside, before, behind, across the border) exactly the specified parts with the '
        'specified address, size and padding must be placed, nothing else. Conditions are compared in a domain of linear '
        'inequalities, counterexamples are models of the extracted formulas.')

R, S, I, Y, TY = (T('param', x) for x in ('region', 'section', 'input_section', 'symbol', 'mem_type'))
f = lambda t, k: T('idx', t, const(k))


def eqv(c, E, actual, expected, g, what):
    """actual == expected under g."""
    if actual is None:
        return UNKNOWN, f'{what}: value not determined'
    x, y = unmin(actual, E), unmin(expected, E)
    if linear.equal(x, y, g):
        return PROVED, f'{what} = {cut(show(expected), 160)}'
    for cg, u in tm.cases(x, g):
        if linear.unsat(cg):
            continue
        for cg2, v in tm.cases(y, cg):
            if linear.unsat(cg2) or u is v:
                continue
            w = interp.differ(u, v, cg2, None, n=400, seed=c.seed, E=E)
            if w is not None:
                return REFUTED, (f'{what} is {cut(show(u), 250)} but must be {cut(show(v), 250)} when {cut(show_b(cg2, 2), 250)}; '
                                 f'witness {cut(w, 400)}')
    return UNKNOWN, f'{what}: cannot compare {cut(show(actual), 200)} with {cut(show(expected), 200)}'


def holds(c, E, cond, g, what, want=True):
    """cond holds (or never holds) under g."""
    bad = bnot(cond) if want else cond
    if linear.unsat(band(g, bad)):
        return PROVED, what
    w = interp.differ(cond, BT if want else BF, g, None, n=600, seed=c.seed, E=E)
    if w is not None:
        return REFUTED, f'{what}: not so when {cut(show_b(band(g, bad), 2), 300)}; witness {cut(w, 400)}'
    return UNKNOWN, f'{what}: cannot decide {cut(show_b(cond, 2), 200)}'


class Case:
    """One way an item can lie; parts: list of (set of acceptable lists, {field: expected}, identical object)."""

    def __init__(self, name, guard, parts):
        self.name, self.guard, self.parts = name, guard, parts


def partition(c, E, PL, key, item, places, cases, keep, where):
    """places: [(list id, object, condition)]; every case must place exactly its parts."""
    for k in cases:
        def one(k=k):
            act = []
            for l, o, g in places:
                gg = band(k.guard, g)
                if linear.unsat(gg):
                    continue
                r = holds(c, E, g, k.guard, f'{key} {k.name}: placed by the append to {cut(l, 60)}')
                if r[0] != PROVED:
                    # one append, but maybe several spellings of it: the union may still cover the case
                    act.append((l, o, g, False))
                else:
                    act.append((l, o, g, True))
            if not act:
                w = interp.differ(k.guard, BF, BT, None, n=400, seed=c.seed, E=E)
                return (REFUTED, f'{key} {k.name}: not placed anywhere') if w is not None else (UNKNOWN, f'{key}: case not met')
            used, out = set(), []
            for dests, flds, same in k.parts:
                m = [x for x in act if x[0] in dests and x[0] not in used] if len(k.parts) > 1 else \
                    [x for x in act if x[0] in dests]
                if not m:
                    return REFUTED, f'{key} {k.name}: no part is placed where it belongs ({len(act)} elsewhere)'
                union = bor(*[x[2] for x in m])
                r = holds(c, E, union, k.guard, f'{key} {k.name} is placed')
                if r[0] != PROVED:
                    return r
                for n, x in enumerate(m):
                    for x2 in m[n + 1:]:
                        r = holds(c, E, band(x[2], x2[2]), k.guard, f'{key} {k.name} is placed only once', want=False)
                        if r[0] != PROVED:
                            return r
                used |= {x[0] for x in m}
                for l, o, g, _ in m:
                    gg = band(k.guard, g)
                    for fld in keep:
                        exp = flds.get(fld, f(item, fld))
                        r = eqv(c, E, PL.field(o, fld), exp, gg, f'{key} {k.name}: {fld}')
                        if r[0] != PROVED:
                            out.append(r)
            rest = [x for x in act if x[0] not in used]
            for l, o, g, _ in rest:
                r = holds(c, E, g, k.guard, f'{key} {k.name} is not placed a second time', want=False)
                if r[0] != PROVED:
                    return r
            for v in (REFUTED, UNKNOWN):
                for r in out:
                    if r[0] == v:
                        return r
            return PROVED, f'{key} {k.name}: exactly {len(k.parts)} part(s), {len(keep)} fields each'
        c.ob(f'{key}.{k.name}', f'{key} {k.name} is placed completely and exactly once', one, where)


def sections(c, P):
    node = P.func('memorymap', '_split_map_sections', public=False)
    if node is None:
        c.add('sections', 'splitting of output sections', UNKNOWN, '_split_map_sections not found')
        return
    h = {}

    def start():
        ps = [T('param', 'sections'), T('param', 'regions')]
        E, v, _ = run(P, 'memorymap', node.name, positional=ps)
        h.update(E=E, v=v, ps=ps)
        c.counts.update(split_loops=E.stats['loops'], split_effects=E.stats['events'])
    if not c.group('sections', 'value graph of _split_map_sections', start):
        return
    E, v, (PS, PR) = h['E'], h['v'], h['ps']
    where = loc(P, node)
    # roles
    role = {}
    picks = {t for e, ch in E.events(('put', 'append')) for x in [e.val] + list(tm.batoms(e.guard))
             for t in subterms(x) if t.op == 'pick'}
    work = {t.args[1] for t in picks if t.args[2].op == 'const' and t.args[2].args[0] in (-1, 0)}

    def basis(d):
        return d.args[0] if d.op in ('aslist', 'perm', 'slice') else d
    for t in picks:
        role[t] = S
    elems = {}
    for L, ln in E.loops.items():
        d = ln.dom
        if d is None:
            continue
        b = basis(d)
        el = E.mk_elem(L)
        if b is PR:
            role[el] = R
        elif b is PS or b in work:
            role[el] = S
        elems[el] = b
    for _ in range(3):
        for el, b in elems.items():
            bb = tm.replace(b, role)
            if bb is f(S, 'input_sections'):
                role[el] = I
            elif bb is f(I, 'symbols'):
                role[el] = Y

    def sub(x, found=True):
        def at(a):
            if a.op == 'exists':
                ln = E.loops.get(a.args[0])
                if ln is not None and ln.dom is not None and basis(ln.dom) is PR:
                    return BT if found else BF
            if a.op in ('nonemptymu', 'nonempty', 'truthy') and any(t in work for t in a.args):
                return BT
            return batom(a)
        return unmin(tm.replace(onbools(x, lambda b: tm.bmap(b, at)), role), E)
    PL = Places(E, sub)
    allp = PL.places()
    c.counts['placements'] = len(allp)
    lt, le = E.lt, (lambda a, b: bnot(E.lt(b, a)))
    inside = band(le(f(R, 'origin'), f(S, 'address')), E.lt(f(S, 'address'), tm.add(f(R, 'origin'), f(R, 'length'))))
    border = tm.add(f(R, 'origin'), f(R, 'length'))
    end = tm.add(f(S, 'address'), f(S, 'size'))
    nonneg = band(*[le(tm.ZERO, x) for x in (f(S, 'size'), f(S, 'address'))])
    fits = band(inside, le(end, border), nonneg)
    across = band(inside, lt(border, end), nonneg)
    res = {PL.lst(v)} if v.op == 'new' else set()
    secp = [p for p in allp if p.lst in res or p.lst in work]
    dest = {p.lst: 'work' if p.lst in work else 'result' for p in secp}
    if not res or not secp:
        c.add('section', 'placements of output sections', UNKNOWN, 'the returned list is not built by appends')
        return
    tag = lambda p: dest[p.lst]
    keep = ['name', 'address', 'size']
    nf = [(tag(p), p.obj, sub(p.guard, False)) for p in secp]
    fd = [(tag(p), p.obj, sub(p.guard, True)) for p in secp]
    partition(c, E, PL, 'section', S, nf, [Case('outside all regions', nonneg, [(('result',), {}, True)])],
              keep + ['input_sections'], where)
    partition(c, E, PL, 'section', S, fd, [Case('within a region', fits, [(('result',), {}, True)])],
              keep + ['input_sections'], where)
    second = {'address': border, 'size': tm.sub(end, border)}
    partition(c, E, PL, 'section', S, fd, [Case('across a border', across, [
        (('result',), {'size': tm.sub(border, f(S, 'address'))}, False),
        (('work',), second, False)])], keep, where)
    # the first region containing the start of the section decides
    def taken(cond):
        ats = tm.batoms(cond)
        if ats and not any(t is S for a in ats for x in a.args if hasattr(x, 'op') for t in subterms(x)):
            return UNKNOWN, 'the section compared with the regions is not recognised'
        return eqcond(c, E, cond, inside, BT, 'region is taken')
    for n, (L, ln) in enumerate((L, ln) for L, ln in E.loops.items() if ln.dom is not None and basis(ln.dom) is PR and
                                any(a.op == 'exists' and a.args[0] is L for p in secp for a in tm.batoms(p.guard))):
        c.ob(f'section.region.{n}', 'the deciding region is the first one containing the start of the section',
             lambda ln=ln: taken(sub(ln.exitcond)), where)
    # the two halves and the lists of their input sections
    halves = {}
    for p in secp:
        g = band(across, sub(p.guard, True))
        if not linear.unsat(g):
            halves.setdefault(tag(p), []).append(p.obj)

    def sublist(objs, fld):
        out = set()
        for o in objs:
            for e, _ in PL.puts.get(o, []):
                if e.key is const(fld):
                    out.add(e.val)
        return out
    l1, l2 = sublist(halves.get('result', []), 'input_sections'), sublist(halves.get('work', []), 'input_sections')
    if not l1 or not l2 or l1 & l2 or not all(x.op == 'new' for x in l1 | l2):
        c.add('input_section', 'lists of input sections of both parts', UNKNOWN, 'not built by appends')
        return
    side = {**{x: 'first' for x in l1}, **{x: 'second' for x in l2}}
    isp = [(side[p.lst], p.obj, sub(p.guard, True)) for p in allp if p.lst in side]
    if not isp or any(S is r for r in ()):
        c.add('input_section', 'placements of input sections', UNKNOWN, 'not built by appends')
        return
    iend = tm.add(tm.add(f(I, 'address'), f(I, 'size')), f(I, 'fill'))
    nni = band(across, *[le(tm.ZERO, x) for x in (f(I, 'size'), f(I, 'fill'), f(I, 'address'))])
    before = band(nni, le(iend, border), lt(f(I, 'address'), border))
    behind = band(nni, le(border, f(I, 'address')), lt(border, iend))
    at = band(nni, E.eq(f(I, 'address'), border), E.eq(iend, border))
    crossing = band(nni, lt(f(I, 'address'), border), lt(border, iend))
    s1 = unmin(E.mk_minmax('min', (tm.sub(border, f(I, 'address')), f(I, 'size'))), E)
    f1 = tm.sub(border, tm.add(f(I, 'address'), s1))
    kept = ['name', 'address', 'size', 'fill', 'archive', 'object_file']
    one = lambda d: [(d, {}, True)]
    partition(c, E, PL, 'input_section', I, isp, [
        Case('before the border', before, one(('first',))), Case('behind the border', behind, one(('second',))),
        Case('empty at the border', at, one(('first', 'second'))),
    ], kept + ['symbols'], where)
    partition(c, E, PL, 'input_section', I, isp, [
        Case('across the border', crossing, [
            (('first',), {'size': s1, 'fill': f1}, False),
            (('second',), {'address': border, 'size': tm.sub(f(I, 'size'), s1), 'fill': tm.sub(f(I, 'fill'), f1)}, False)]),
    ], kept, where)
    parts = {}
    for t, o, g in isp:
        if not linear.unsat(band(crossing, g)):
            parts.setdefault(t, []).append(o)
    m1, m2 = sublist(parts.get('first', []), 'symbols'), sublist(parts.get('second', []), 'symbols')
    if parts.get('first') and parts.get('second') and not (m1 and m2):
        miss = [t for t, m in (('first', m1), ('second', m2)) if not m]
        o = parts[miss[0]][0]
        if o.op == 'new' and PL.copies.get(o):
            c.add('symbol', 'symbols of a divided input section', REFUTED,
                  f'the {miss[0]} part keeps the complete symbol list of the input section', where)
        else:
            c.add('symbol', 'symbols of a divided input section', UNKNOWN, 'symbol lists not recognised')
        return
    if m1 & m2:
        c.add('symbol', 'symbols of a divided input section', REFUTED, 'both parts share one symbol list', where)
        return
    side2 = {**{x: 'first' for x in m1}, **{x: 'second' for x in m2}}
    syp = [(side2[p.lst], p.obj, sub(p.guard, True)) for p in allp if p.lst in side2]
    if not all(x.op == 'new' for x in m1 | m2):
        c.add('symbol', 'symbols of a divided input section', UNKNOWN, 'symbol lists not built by appends')
        return
    yend = tm.add(f(Y, 'address'), f(Y, 'size'))
    nny = band(crossing, *[le(tm.ZERO, x) for x in (f(Y, 'size'), f(Y, 'address'))])
    kept = ['name', 'address', 'size']
    partition(c, E, PL, 'symbol', Y, syp, [
        Case('before the border', band(nny, le(yend, border), lt(f(Y, 'address'), border)), one(('first',))),
        Case('behind the border', band(nny, le(border, f(Y, 'address')), lt(border, yend)), one(('second',))),
        Case('empty at the border', band(nny, E.eq(f(Y, 'address'), border), E.eq(f(Y, 'size'), tm.ZERO)),
             one(('first', 'second'))),
        Case('across the border', band(nny, lt(f(Y, 'address'), border), lt(border, yend)), [
            (('first',), {'size': tm.sub(border, f(Y, 'address'))}, False),
            (('second',), {'address': border, 'size': tm.sub(yend, border)}, False)]),
    ], kept, where)
    # nothing that was there before is changed
    changed = [(e, ch) for e, ch in E.events(('put', 'append', 'del', 'clear', 'remove', 'extend', 'opaque'))
               if e.obj is not None and tm.replace(e.obj, role) in (S, I, Y, R, PS, PR, f(S, 'input_sections'), f(I, 'symbols'))]

    def untouched():
        if not changed:
            return PROVED, 'no store to the original sections, input sections, symbols or lists'
        e = changed[0][0]
        t = tm.replace(e.obj, role)
        return UNKNOWN, f'line {e.node.lineno} stores into {cut(show(t), 100)}'
    c.ob('originals', 'the originals are not changed', untouched, where)


def regions(c, P):
    node = P.func('memorymap', '_split_memory_regions', public=False)
    if node is None:
        c.add('regions', 'splitting of memory regions', UNKNOWN, '_split_memory_regions not found')
        return
    h = {}

    def start():
        ps = [T('param', 'regions'), T('param', 'types')]
        E, v, _ = run(P, 'memorymap', node.name, positional=ps)
        h.update(E=E, v=v, ps=ps)
        c.counts.update(region_loops=E.stats['loops'], region_effects=E.stats['events'])
    if not c.group('regions', 'value graph of _split_memory_regions', start):
        return
    E, v, (PR, PT) = h['E'], h['v'], h['ps']
    where = loc(P, node)
    if v.op != 'new':
        c.add('region', 'placements of memory regions', UNKNOWN, 'the returned list is not built by appends')
        return
    OR, LN, SP = T('param', 'rest_origin'), T('param', 'rest_length'), T('param', 'earlier_part')
    role = {}
    kind = {}
    for L, ln in E.loops.items():
        d = ln.dom
        while d is not None and d.op in ('aslist', 'perm', 'slice'):
            d = d.args[0]
        if d is PR:
            role[E.mk_elem(L)] = R
            kind[L] = 'regions'
        elif d is PT:
            kind[L] = 'types'
            role[E.mk_elem(L)] = TY
            role[T('idx', PT, E.mk_key(L))] = TY
        elif d is v or (d is not None and d.op == 'new' and any(
                e.kind == 'copyfrom' and e.obj is d and e.val is v for e, _ in E.events(('copyfrom',)))):
            kind[L] = 'parts'
            role[E.mk_elem(L)] = SP
        elif ln.kind == 'while':
            kind[L] = 'while'
    for _ in range(4):
        for L, ln in E.loops.items():
            for k, init in ln.init_env.items():
                mu = T('mu', L, k if isinstance(k, Term) else T('var', *k) if isinstance(k, tuple) else k)
                i = tm.replace(init, role)
                if i is f(R, 'origin') and kind.get(L) == 'while':
                    role[mu] = OR
                elif i is f(R, 'length') and kind.get(L) == 'while':
                    role[mu] = LN
                elif i in (OR, LN):
                    role[mu] = i

    def sub(x, found=True, tail=True):
        def at(a):
            if a.op == 'exists':
                k = kind.get(a.args[0])
                if k == 'types':
                    return BT if found else BF
                if k == 'parts':
                    return BT if tail else BF
            return batom(a)
        return unmin(tm.replace(onbools(x, lambda b: tm.bmap(b, at)), role), E)
    PL = Places(E, sub)
    ap = [p for p in PL.places() if p.lst is v]
    warns = [e for e, ch in E.events(('call',)) if e.key.args[0] in ('log.warn', 'log.warning', 'log.err')]
    c.counts['region placements'] = len(ap)
    le = lambda a, b: bnot(E.lt(b, a))
    A1, A2, TL = f(TY, 'primary_address'), f(TY, 'secondary_address'), f(TY, 'length')
    win = lambda a: band(le(a, OR), E.lt(OR, tm.add(a, TL)))
    has2 = band(E.truth0(A2))
    in1 = win(A1)
    in2 = band(bnot(in1), has2, win(A2))
    pos = band(le(tm.ZERO, LN), le(tm.ZERO, OR), E.lt(tm.ZERO, TL), E.lt(tm.ZERO, A1))
    used = lambda a: unmin(E.mk_minmax('min', (LN, tm.sub(tm.add(a, TL), OR))), E)
    F = ('name', 'origin', 'length', 'attrs', 'type')
    for nm, g, a in (('primary', in1, A1), ('secondary', in2, A2)):
        g = band(g, pos)

        def part(g=g, a=a, nm=nm):
            act = [(p, sub(p.guard)) for p in ap if not linear.unsat(band(g, sub(p.guard)))]
            if not act:
                return REFUTED, f'the part of a region within a memory type ({nm} address) is not placed'
            r = holds(c, E, bor(*[x for _, x in act]), g, f'part at the {nm} address of a type is placed')
            if r[0] != PROVED:
                return r
            for n, (p, x) in enumerate(act):
                for q, y in act[n + 1:]:
                    r = holds(c, E, band(x, y), g, 'the part is placed only once', want=False)
                    if r[0] != PROVED:
                        return r
            exp = {'name': f(R, 'name'), 'attrs': f(R, 'attrs'), 'origin': OR, 'length': used(a), 'type': TY}
            for p, x in act:
                for fld in F:
                    r = eqv(c, E, PL.field(p.obj, fld), exp[fld], band(g, x), f'{fld} of the part')
                    if r[0] != PROVED:
                        return r
            return PROVED, f'one part with {len(F)} fields'
        c.ob(f'region.part.{nm}', 'the part of a region within a memory type is placed, up to the end of the type', part, where)
    W = [(L, ln) for L, ln in E.loops.items() if kind.get(L) == 'while' and
         any(L is x.L for p in ap for x in p.chain)]
    if len(W) != 1:
        c.add('region.cursor', 'what is left of a region', UNKNOWN, f'{len(W)} loops over the rest of a region')
        return
    L, ln = W[0]
    vals = {}
    for k, t in ln.next_env.items():
        mu = T('mu', L, k if isinstance(k, Term) else T('var', *k) if isinstance(k, tuple) else k)
        if role.get(mu) in (OR, LN):
            vals[role[mu]] = sub(t)
    for nm, g, a in (('primary', in1, A1), ('secondary', in2, A2)):
        g = band(g, pos)
        c.ob(f'region.cursor.origin.{nm}', 'the rest starts where the part ends',
             lambda g=g, a=a: eqv(c, E, vals.get(OR), tm.add(OR, used(a)), g, 'start of the rest'), where)
        c.ob(f'region.cursor.length.{nm}', 'the rest is shorter by exactly the part',
             lambda g=g, a=a: eqv(c, E, vals.get(LN), tm.sub(LN, used(a)), g, 'length of the rest'), where)

        def go(g=g, a=a):
            # the loop goes on while something is left
            rest = tm.sub(LN, used(a))
            bad = None
            for cg, r in tm.cases(rest, band(g, sub(ln.exitcond))):
                x = holds(c, E, E.eq(r, tm.ZERO), cg, 'the region is left only when nothing remains')
                if x[0] != PROVED:
                    bad = x
            return bad or (PROVED, 'left only when the rest is empty')
        c.ob(f'region.complete.{nm}', 'a region is left only when nothing of it remains', go, where)

    def notype():
        act = [(p, sub(p.guard, False, True)) for p in ap]
        act = [(p, x) for p, x in act if not linear.unsat(x)]
        tailg = E.eq(tm.add(OR, LN), tm.add(f(SP, 'origin'), f(SP, 'length')))
        g = band(tailg, le(tm.ZERO, LN))
        w = [sub(e.guard, False, True) for e in warns]
        r = holds(c, E, bor(*[x for _, x in act], *w), g, 'a region without memory type ending with an earlier part is placed')
        if r[0] != PROVED:
            return r
        exp = {'name': f(R, 'name'), 'attrs': f(R, 'attrs'), 'origin': OR, 'length': LN, 'type': f(SP, 'type')}
        for p, x in act:
            for fld in F:
                r = eqv(c, E, PL.field(p.obj, fld), exp[fld], band(g, x), f'{fld} of the reserved part')
                if r[0] != PROVED:
                    return r
        return PROVED, 'placed with the type of the part it ends with, or reported'
    c.ob('region.reserved', 'a region outside all types ending where an earlier part ends takes its type', notype, where)

    def lost():
        act = bor(*[sub(p.guard, False, False) for p in ap], *[sub(e.guard, False, False) for e in warns])
        return holds(c, E, act, E.lt(tm.ZERO, LN), 'a region without memory type is reported')
    c.ob('region.reported', 'a region that cannot be assigned is reported', lost, where)

    def first():
        out = (UNKNOWN, 'no loop over the memory types')
        for L2, l2 in E.loops.items():
            if kind.get(L2) == 'types' and any(a.op == 'exists' and a.args[0] is L2 for p in ap for a in tm.batoms(p.guard)):
                out = eqcond(c, E, sub(l2.exitcond), bor(in1, in2), pos, 'memory type is taken')
                if out[0] != PROVED:
                    return out
        return out
    c.ob('region.type', 'the type taken is the one whose primary or secondary window contains the start', first, where)


def flows(c, P):
    def regs(p):
        return pipe.input_is(p, '_split_memory_regions', 0, pipe.call_of(p, '_filter_memory_regions'), 'regions that are split')

    def types(p):
        return pipe.input_is(p, '_split_memory_regions', 1, pipe.call_of(p, '_get_memory_types'), 'memory types')

    def secs(p):
        return pipe.input_is(p, '_split_map_sections', 0, pipe.call_of(p, '_filter_map_sections'), 'sections that are split')

    def borders(p):
        return pipe.input_is(p, '_split_map_sections', 1, pipe.call_of(p, '_split_memory_regions'), 'borders')

    def result(p):
        return pipe.input_is(p, '_get_mem_type_map', 2, pipe.call_of(p, '_split_map_sections'), 'sections in the memory map')

    def rresult(p):
        return pipe.input_is(p, '_get_mem_type_map', 1, pipe.call_of(p, '_split_memory_regions'), 'regions in the memory map')
    pipe.flow(c, P, [
        ('regions', 'all kept regions are split', regs), ('types', 'regions are split by the memory types', types),
        ('sections', 'all kept sections are split', secs), ('borders', 'sections are split at the ends of the split regions', borders),
        ('result', 'the split sections form the memory map', result),
        ('regions_used', 'the split regions form the memory map', rresult),
    ])


def eqcond(c, E, actual, expected, g, what):
    if linear.unsat(band(g, actual, bnot(expected))) and linear.unsat(band(g, expected, bnot(actual))):
        return PROVED, f'{what} iff {cut(show_b(expected, 3), 200)}'
    w = interp.differ(actual, expected, g, None, n=600, seed=c.seed, E=E)
    if w is not None:
        return REFUTED, f'{what} iff {cut(show_b(actual, 3), 250)}, must be iff {cut(show_b(expected, 3), 250)}; witness {cut(w, 300)}'
    return UNKNOWN, f'{what}: cannot compare {cut(show_b(actual, 3), 200)}'


def shapes(c, P):
    """A few output sections with input sections and symbols at unknown distances from a border."""
    import small
    from small import nadd
    f = small.private(P, 'memorymap', '_split_map_sections', ('sections', 'regions'), True)
    if f is None:
        return
    where = loc(P, P.modules['memorymap'].funcs['_split_map_sections'])
    # name: per output section, per input section: number of symbols; which region contains the start
    for name, spec, borders in (('one', [[1]], 1), ('two', [[0, 1]], 1), ('three', [[0, 0, 0]], 1), ('symbols', [[2]], 1), ('empty', [[]], 1), ('two borders', [[0]], 2),
                                ('two sections', [[0], [0]], 1)):
        def body(I, spec=spec, borders=borders):
            ends = []
            for i in range(borders):
                ln = small.n(f'length {i}')
                small.atleast(I, ln, 1)
                ends.append(nadd(ends[-1] if ends else 0x1000, ln))
            regs, at = [], 0x1000
            for i, e in enumerate(ends):
                regs.append({'name': f'r{i}', 'origin': at, 'length': nadd(e, at, -1), 'attrs': 'rw', 'type': {'name': f'T{i}'}})
                at = e
            last = small.n('length of the last')
            small.atleast(I, last, 1)
            regs.append({'name': 'last', 'origin': at, 'length': last, 'attrs': 'rw', 'type': {'name': 'TL'}})
            end = nadd(at, last)
            secs, pos = [], nadd(0x1000, small.n('start'))
            small.atleast(I, small.n('start'))
            for i, ins in enumerate(spec):
                s = {'name': f'.sec{i}', 'address': pos, 'input_sections': [], 'fill': 0, 'archive': '', 'object_file': ''}
                for j, syms in enumerate(ins):
                    t = f'{i}.{j}'
                    size, fill = small.n(f'size {t}'), small.n(f'fill {t}')
                    small.atleast(I, size, 1)
                    small.atleast(I, fill)
                    x = {'name': f'.in{t}', 'address': pos, 'size': size, 'fill': fill, 'archive': f'A{t}', 'object_file': f'o{t}', 'symbols': []}
                    room = size
                    q = pos
                    for k in range(syms):
                        off, ln = small.n(f'offset {t}.{k}'), small.n(f'symbol {t}.{k}')
                        small.atleast(I, off)
                        small.atleast(I, ln, 1)
                        room = nadd(nadd(room, off, -1), ln, -1)
                        q = nadd(q, off)
                        x['symbols'].append({'name': f'f{t}.{k}', 'address': q, 'size': ln})
                        q = nadd(q, ln)
                    small.atleast(I, room)
                    s['input_sections'].append(x)
                    pos = nadd(nadd(pos, size), fill)
                if not ins:
                    pos = nadd(pos, small.n(f'size of {i}'))
                    small.atleast(I, small.n(f'size of {i}'), 1)
                s['size'] = nadd(pos, s['address'], -1)
                secs.append(s)
            small.atleast(I, nadd(end, pos, -1))
            s0 = small.clone(secs)
            given = list(secs)
            out = I.call(f, [secs, regs], {})
            small.equal(I, given, s0, 'the sections handed over')
            out = list(I.iter(out))
            for s in s0:
                nm = s['name']
                parts = [(p['address'], p['size'], p) for p in out if p['name'] == nm]
                parts, stop = small.chain(I, parts, s['address'], nm)
                if small.apart(I, stop, nadd(s['address'], s['size'])):
                    raise small.Bad(f'the parts of {nm} end at {stop!r}, not {nadd(s["address"], s["size"])!r}')
                for n, p in enumerate(parts):
                    small.must(I, p[1], f'a part of {nm} can be empty', 1)
                    stop = nadd(p[0], p[1])
                    for e in ends:
                        # no border strictly inside a part
                        if small.can(I, nadd(e, p[0], -1), nadd(stop, e, -1)):
                            raise small.Bad(f'a part of {nm} at {p[0]!r} crosses the border at {e!r}')
                    if n and not any(not small.apart(I, p[0], e) for e in ends):
                        raise small.Bad(f'{nm} is cut at {p[0]!r}, where no border is')
                want = {x['name']: x for x in s['input_sections']}
                got = {}
                for p in parts:
                    for x in I.iter(p[2]['input_sections']):
                        if x['name'] not in want:
                            raise small.Bad(f'{x["name"]} appears in {nm}')
                        got.setdefault(x['name'], []).append((x['address'], nadd(x['size'], x['fill']), x, p))
                for q, x in want.items():
                    if q not in got:
                        raise small.Bad(f'{q} is lost')
                    ps, _ = small.chain(I, got[q], x['address'], q)
                    size = fill = 0
                    syms = {}
                    for a, ln, y, p in ps:
                        small.must(I, y['size'], f'a part of {q} can have a negative size')
                        small.must(I, y['fill'], f'a part of {q} can have a negative padding')
                        small.must(I, nadd(a, p[0], -1), f'a part of {q} starts before the part of {nm} it is in')
                        small.must(I, nadd(nadd(p[0], p[1]), nadd(a, ln), -1), f'a part of {q} ends behind the part of {nm} it is in')
                        size, fill = nadd(size, y['size']), nadd(fill, y['fill'])
                        for g in ('archive', 'object_file'):
                            if y.get(g) != x[g]:
                                raise small.Bad(f'{g} of a part of {q} is {y.get(g)!r}')
                        for z in I.iter(y['symbols']):
                            syms.setdefault(z['name'], []).append((z['address'], z['size'], y))
                    small.expect(I, size, x['size'], f'the sum of the sizes of the parts of {q}')
                    small.expect(I, fill, x['fill'], f'the sum of the padding of the parts of {q}')
                    for z in x['symbols']:
                        if z['name'] not in syms:
                            raise small.Bad(f'symbol {z["name"]} is lost')
                        zs, stop = small.chain(I, syms.pop(z['name']), z['address'], z['name'])
                        small.expect(I, nadd(stop, z['address'], -1), z['size'], f'the sum of the sizes of the parts of {z["name"]}')
                        for a, ln, y in zs:
                            small.must(I, ln, f'a part of {z["name"]} can be empty', 1)
                            small.must(I, nadd(a, y['address'], -1), f'a part of {z["name"]} starts before its input section')
                            small.must(I, nadd(nadd(y['address'], y['size']), nadd(a, ln), -1), f'a part of {z["name"]} ends behind its input section')
                    if syms:
                        raise small.Bad(f'symbol {sorted(syms)[0]} appears in {q}')
            if len(out) != sum(1 for p in out if p['name'] in {s['name'] for s in s0}):
                raise small.Bad('a section appears from nowhere')
        small.ob(c, P, f'shape.{name}', 'a few sections at unknown distances from the borders', where, body, inner=True)


def regionshapes(c, P):
    """Regions of unknown start and length over a few memory types."""
    import small
    from small import nadd
    f = small.private(P, 'memorymap', '_split_memory_regions', ('memory_regions', 'memory_types'), True)
    if f is None:
        return
    where = loc(P, P.modules['memorymap'].funcs['_split_memory_regions'])
    warned = [0]

    def warn(I, a, k):
        warned[0] += 1
    hooks = {'esp_pylib.logger.log.warn': warn, 'log.warn': warn}
    A, B, C = ('A', 0x1000, 0x9000, 0x1000), ('B', 0x2000, 0, 0x800), ('C', 0x2800, 0xa000, 0x800)
    # window in which all regions lie, contiguously
    for name, types, lo, hi, count in (('one type', [A], 0x1000, 0x2000, 2), ('two types', [B, A], 0x1000, 0x2800, 1), ('three types', [A, B, C], 0x1000, 0x3000, 1),
                                       ('secondary', [B, A, C], 0x9000, 0xa800, 1), ('two regions', [A, B], 0x1000, 0x2800, 2), ('outside', [A, B], 0x4000, 0x5000, 2)):
        def body(I, types=types, lo=lo, hi=hi, count=count, name=name):
            warned[0] = 0
            ts = {t[0].lower(): {'name': t[0], 'type': t[0], 'primary_address': t[1], 'secondary_address': t[2], 'length': t[3]} for t in types}
            win = [(a, a + t[3], ts[t[0].lower()]) for t in types for a in (t[1], t[2]) if a]
            regs, at = [], nadd(lo, small.n('start'))
            small.atleast(I, small.n('start'))
            for i in range(count):
                ln = small.n(f'length {i}')
                small.atleast(I, ln, 1)
                regs.append({'name': f'r{i}', 'origin': at, 'length': ln, 'attrs': f'rw{i}'})
                at = nadd(at, ln)
            small.atleast(I, nadd(hi, at, -1))
            r0 = small.clone(regs)
            given = list(regs)
            out = list(I.iter(I.call(f, [regs, ts], {})))
            small.equal(I, given, r0, 'the regions handed over')
            if name == 'outside':
                if out:
                    raise small.Bad('a region outside all memory types is assigned')
                if warned[0] < count:
                    raise small.Bad('a region that cannot be assigned is not reported')
                return
            for r in r0:
                parts = [(p['origin'], p['length'], p) for p in out if p['name'] == r['name']]
                parts, stop = small.chain(I, parts, r['origin'], r['name'])
                small.expect(I, nadd(stop, r['origin'], -1), r['length'], f'the sum of the lengths of the parts of {r["name"]}')
                for a, ln, p in parts:
                    small.must(I, ln, f'a part of {r["name"]} can be empty', 1)
                    if p.get('attrs') != r['attrs']:
                        raise small.Bad(f'attributes of {r["name"]} are changed')
                    if not any(t is p.get('type') or (isinstance(p.get('type'), dict) and p['type'].get('name') == t['name']) for x, y, t in win if not small.can(I, nadd(x, a, -1)) and not small.can(I, nadd(nadd(a, ln), y, -1))):
                        raise small.Bad(f'the part of {r["name"]} at {a!r} with length {ln!r} is assigned to {p.get("type", {}).get("name")}')
            if len(out) != sum(1 for p in out if p['name'] in {r['name'] for r in r0}):
                raise small.Bad('a region appears from nowhere')
        small.ob(c, P, f'shape.region.{name}', 'regions of unknown start and length over a few memory types', where, body, hooks=hooks, inner=True)


def check(c):
    P = Project()
    P.func('memorymap', 'get')
    shapes(c, P)
    regionshapes(c, P)
    sections(c, P)
    regions(c, P)
    flows(c, P)


if __name__ == '__main__':
    main('C10', RULE, check, floor=10, assumptions=[
        'addresses, sizes and padding are non-negative integers', 'padding of an input section follows its bytes',
        'no memory type starts at address 0 (C20 audits the chip descriptions)'])
