"""C09: archive, object file and symbol sizes roll up from input sections."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
import charge
import pipe
from place import Places
from vg import *

RULE = ('value-graph analysis of memorymap._add_archives_to_sections: for an arbitrary output section and arbitrary archive, '
        'object file and symbol names, the entry present at each level must exist exactly when an input section says so and '
        'its size must be the closed-form sum over exactly these input sections (symbols); the data flow in memorymap.get '
        'must hand the kept and split sections to it and its result to the memory map.')


def rollup(c, P):
    node = P.func('memorymap', '_add_archives_to_sections', public=False)
    if node is None:
        c.add('rollup', 'archives of an output section', UNKNOWN, '_add_archives_to_sections not found')
        return
    S = T('param', 'sections')
    h = {}

    def start():
        E, v, _ = run(P, 'memorymap', node.name, positional=[S])
        h.update(E=E)
        c.counts.update(loops=E.stats['loops'], effects=E.stats['events'], functions=sorted(E.stats['functions']))
    if not c.group('rollup', 'value graph of _add_archives_to_sections', start):
        return
    E = h['E']
    where = loc(P, node)
    m = P.func_module(node)
    i = lambda r, f: T('idx', r, const(f))
    J, A, O, N = (T('param', x) for x in ('J', 'A', 'O', 'N'))
    s = T('idx', S, J)
    IS = i(s, 'input_sections')
    V = lambda a, e, g, what: verdict(a, e, g, None, c.seed, E=E, what=what)
    G = lambda a, e, g, what: vguard(a, e, g, None, c.seed, E=E, what=what)

    for f in ('name', 'size', 'address', 'input_sections'):
        c.ob(f'section.{f}', 'the output section itself is not changed',
             lambda f=f: V(lookup(E, s, const(f), BT, m), i(s, f), BT, f), where)
    ina = lambda k, e: E.eq(A, i(e, 'archive'))
    ino = lambda k, e: band(E.eq(A, i(e, 'archive')), E.eq(O, i(e, 'object_file')))
    exa = batom(Ex(IS, ina))
    exo = batom(Ex(IS, ino))
    exs = batom(Ex(IS, lambda k, e: batom(Ex(i(e, 'symbols'), lambda j, y: band(ino(k, e), E.eq(N, i(y, 'name')))))))
    st = {}

    def pres(key, parent, field, name, expected, g):
        st[key] = lookup(E, parent, const(field), g, m)
        return G(E.contains(name, st[key], St({}, g)), expected, g, f'{field} entry present')

    c.ob('archives.present', 'an archive is listed exactly when an input section belongs to it',
         lambda: pres('a', s, 'archives', A, exa, BT), where)
    if 'a' not in st:
        return
    a = lookup(E, st['a'], A, exa, m)
    size = lambda g: Sum(IS, lambda k, e: (g(k, e), i(e, 'size')))
    c.ob('archives.size', 'sum of the sizes of its input sections',
         lambda: V(lookup(E, a, const('size'), exa, m), size(ina), exa, 'archive size'), where)
    c.ob('archives.size_diff', 'no difference yet', lambda: V(lookup(E, a, const('size_diff'), exa, m), tm.ZERO, exa, 'size_diff'),
         where)
    c.ob('object_files.present', 'an object file is listed exactly when an input section belongs to it and the archive',
         lambda: pres('o', a, 'object_files', O, exo, exa), where)
    if 'o' not in st:
        return
    g = band(exa, exo)
    o = lookup(E, st['o'], O, g, m)
    c.ob('object_files.size', 'sum of the sizes of its input sections in this archive',
         lambda: V(lookup(E, o, const('size'), g, m), size(ino), g, 'object file size'), where)
    c.ob('object_files.size_diff', 'no difference yet',
         lambda: V(lookup(E, o, const('size_diff'), g, m), tm.ZERO, g, 'size_diff'), where)
    c.ob('symbols.present', 'a symbol is listed exactly under the object file of its input section',
         lambda: pres('s', o, 'symbols', N, exs, g), where)
    if 's' not in st:
        return
    g2 = band(g, exs)
    y = lookup(E, st['s'], N, g2, m)

    def symsize():
        e = Sum(IS, lambda k, e: (BT, Sum(i(e, 'symbols'), lambda j, y: (band(ino(k, e), E.eq(N, i(y, 'name'))), i(y, 'size')))))
        return V(lookup(E, y, const('size'), g2, m), e, g2, 'symbol size')
    c.ob('symbols.size', 'sum of the own sizes of the symbols of this name', symsize, where)
    c.ob('symbols.size_diff', 'no difference yet',
         lambda: V(lookup(E, y, const('size_diff'), g2, m), tm.ZERO, g2, 'size_diff'), where)


def flows(c, P):
    def archives(p):
        return pipe.input_is(p, '_add_archives_to_sections', 0, pipe.call_of(p, '_split_map_sections'), 'archives are added to')

    def kept(p):
        return pipe.input_is(p, '_split_map_sections', 0, pipe.call_of(p, '_filter_map_sections'), 'sections that are split')

    def result(p):
        return pipe.input_is(p, '_get_mem_type_map', 2, pipe.call_of(p, '_split_map_sections'), 'sections in the memory map')

    def first(p):
        return pipe.order(p, '_add_archives_to_sections', '_get_mem_type_map')

    def nosym(p):
        if p.step('_add_symbols_to_sections'):
            return pipe.order(p, '_add_symbols_to_sections', '_split_map_sections')
        return PROVED, 'no symbols requested'
    pipe.flow(c, P, [
        ('archives', 'archives are added to the split sections', archives),
        ('kept', 'all kept sections are split', kept),
        ('result', 'the sections with archives form the memory map', result),
        ('order', 'archives are added before the memory map is built', first),
        ('symbols', 'symbols are attached before sections are split', nosym),
    ])


def carried(c, P):
    """The entry of a section in the memory map holds the archives of that section."""
    h = {}
    if not c.group('carried', 'charges of sections to memory types', lambda: h.update(M=charge.Model(P))):
        return
    M = h['M']
    put = [(e, ch) for e, ch in M.E.events(('put',)) if e.key.op == 'const' and e.key.args[0] == 'archives']
    c.counts['archive stores'] = len(put)
    for n, (e, ch) in enumerate(put):
        def val(e=e):
            S = next((t for a in list(tm.batoms(e.guard)) + [e.val] for t in subterms(a)
                      if t.op == 'elem' and M.E.loops.get(t.args[0]) is not None and
                      M.E.loops[t.args[0]].dom is not None and charge.root(M.E.loops[t.args[0]].dom) is M.sections), None)
            if S is None:
                return UNKNOWN, 'section not recognised'
            return verdict(e.val, T('idx', S, const('archives')), e.guard, None, c.seed, E=M.E, what='archives of the entry')
        c.ob(f'carried.{n}', 'the entry in the memory type holds the archives of its section', val, f'{M.m.path}:{e.node.lineno}')


def kept(c, P):
    """Filtering keeps every input section that has bytes."""
    node = P.func('memorymap', '_filter_map_sections', public=False)
    if node is None:
        c.add('kept', 'input sections kept by the filter', UNKNOWN, '_filter_map_sections not found')
        return
    SE = T('param', 'sections')
    h = {}

    def start():
        E, v, _ = run(P, 'memorymap', node.name, positional=[SE])
        h.update(E=E, v=v)
    if not c.group('kept', 'value graph of _filter_map_sections', start):
        return
    E, v = h['E'], h['v']
    S, I = T('param', 'section'), T('param', 'input_section')
    role = {}
    for L, ln in E.loops.items():
        if ln.dom is not None and charge.root(ln.dom) is SE and E.mk_elem(L).op == 'elem':
            d = ln.dom
            while d.op in ('perm', 'aslist'):
                d = d.args[0]
            if d is SE:
                role[E.mk_elem(L)] = S
    for L, ln in E.loops.items():
        if ln.dom is not None and tm.replace(ln.dom, role) is T('idx', S, const('input_sections')):
            role[E.mk_elem(L)] = I
    PL = Places(E, lambda x: tm.replace(x, role))
    put = [(e, ch) for o, es in PL.puts.items() if tm.replace(o, role) is S for e, ch in es]

    def all_():
        for e, ch in put:
            if e.key is not const('input_sections'):
                return UNKNOWN, f'line {e.node.lineno} changes {cut(show(e.key), 60)} of a section'
            ap = [p for p in PL.places() if p.lst is e.val]
            if not ap or any(tm.replace(p.obj, role) is not I for p in ap):
                return UNKNOWN, 'list not built from the input sections'
            g = tm.replace(bor(*[p.guard for p in ap]), role)
            need = band(tm.replace(e.guard, role), E.truth0(T('idx', I, const('size'))))
            r = vguard(band(need, bnot(g)), BF, BT, None, c.seed, E=E, what='input section with bytes dropped')
            if r[0] != PROVED:
                return r
        return PROVED, f'{len(put)} store(s); every input section with a size stays'
    c.ob('kept.all', 'every input section with bytes of a kept section stays', all_, loc(P, node))


def shapes(c, P):
    """Output sections with a few input sections of unknown sizes."""
    import small
    f = small.private(P, 'memorymap', '_add_archives_to_sections', ('sections',), False)
    if f is None:
        return
    where = loc(P, P.modules['memorymap'].funcs['_add_archives_to_sections'])
    A, B = '/p/liba.a', '/q/libb.a'
    for name, spec in (
            ('one', [[(A, 'x.o', ['f'])]]), ('none', [[]]), ('two archives', [[(A, 'x.o', ['f']), (B, 'x.o', ['f']), (A, 'y.o', [])]]),
            ('repeated', [[(A, 'x.o', ['f', 'g', 'f']), (A, 'x.o', ['f']), (A, 'y.o', ['f'])]]),
            ('interleaved', [[(B, 'x.o', []), (A, 'x.o', ['g']), (B, 'x.o', ['g', 'f']), (A, 'y.o', ['f']), (B, 'y.o', []), (A, 'x.o', ['f'])]]),
            ('two sections', [[(A, 'x.o', ['f']), (A, 'y.o', ['g'])], [], [(A, 'x.o', ['f']), (B, 'z.o', [])]])):
        def body(I, spec=spec):
            secs, num = [], 0
            for i, ins in enumerate(spec):
                addr = 0x1000 * i
                s = {'name': f'.flash{i}.text', 'address': addr, 'size': small.n(f'section {i}'), 'object_file': '', 'archive': '', 'fill': small.n(f'fill {i}'),
                     'input_sections': []}
                for a, o, syms in ins:
                    num += 1
                    size = small.n(f'input {num}')
                    small.atleast(I, size, 1)
                    s['input_sections'].append({
                        'name': f'.text.{num}', 'address': addr + num, 'size': size, 'archive': a, 'object_file': o, 'fill': small.n(f'fill of {num}'),
                        'symbols': [{'name': q, 'address': addr + num, 'size': small.n(f'symbol {num}.{j}')} for j, q in enumerate(syms)]})
                secs.append(s)
            want = []
            for s in secs:
                t = {}
                for x in s['input_sections']:
                    a = t.setdefault(x['archive'], {'size': 0, 'size_diff': 0, 'abbrev_name': x['archive'][3:], 'object_files': {}})
                    o = a['object_files'].setdefault(x['object_file'], {'size': 0, 'size_diff': 0, 'abbrev_name': x['object_file'], 'symbols': {}})
                    a['size'], o['size'] = small.nadd(a['size'], x['size']), small.nadd(o['size'], x['size'])
                    for y in x['symbols']:
                        q = o['symbols'].setdefault(y['name'], {'size': 0, 'size_diff': 0, 'abbrev_name': y['name']})
                        q['size'] = small.nadd(q['size'], y['size'])
                want.append(t)
            got = list(secs)
            I.call(f, [secs], {})
            if len(secs) != len(got):
                raise small.Bad('sections are added or lost')

            def compare(x, y, below, what):
                small.keys(x, y, what)
                for k in y:
                    small.fields(I, x[k], {g: y[k][g] for g in ('size', 'size_diff', 'abbrev_name')}, f'{what}/{k}')
                    if below:
                        if below[0] not in x[k]:
                            raise small.Bad(f'{what}/{k} has no {below[0]}')
                        compare(x[k][below[0]], y[k][below[0]], below[1:], f'{what}/{k}')
            for s, t in zip(secs, want):
                if 'archives' not in s:
                    raise small.Cannot(f'{s["name"]} has no archives')
                compare(s['archives'], t, ('object_files', 'symbols'), s['name'])
        small.ob(c, P, f'shape.{name}', 'roll-up of a few input sections of unknown sizes', where, body, inner=True)


def check(c):
    P = Project()
    P.func('memorymap', 'get')
    shapes(c, P)
    rollup(c, P)
    kept(c, P)
    carried(c, P)
    flows(c, P)


if __name__ == '__main__':
    main('C09', RULE, check, floor=25, assumptions=[
        'output sections handed to the roll-up are distinct dictionaries', 'input section sizes are numbers'])
