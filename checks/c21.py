"""C21: external RAM sections are charged to external RAM."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
import charge
from vg import *

RULE = ('value graph of memorymap._get_mem_type_map: every store charging a section to a memory type is collected with its '
        'path condition and the memory type it goes to; specialised to chips with and without an external RAM type and to '
        'section names marked or not marked as external RAM, exactly the specified charge must remain possible.')
EXT = ('.ext_ram.bss', '.ext_ram.bss.0', '.ext_ram.bss.12', '.ext_ram_noinit', '.ext_ram_noinit.3')
PLAIN = ('.flash.rodata', '.dram0.bss', '.noinit', '.rtc_noinit', '.flash.text', '.dram0.data', '.iram0.text_end')


VAGUE = {'opaque', 'pick', 'new', 'exc', 'last', 'call', 'mcall', 'missing', 'inmu'}


def clear(M, t):
    """Only regions, the section and constants: nothing whose value depends on how the chip's types are searched."""
    for x in subterms(t):
        if x.op in VAGUE:
            return False
        if x.op == 'exists':
            ln = M.E.loops.get(x.args[0])
            if ln is None or ln.dom is None or charge.root(ln.dom) is not M.regions:
                return False
    return True


def opaque(M, b):
    return not all(clear(M, a) for a in tm.batoms(b))


def shapes(c, P):
    """A flash type and external RAM sharing an address window, sections of unknown sizes."""
    import small
    from small import nadd
    f = small.private(P, 'memorymap', '_get_mem_type_map', ('memory_types', 'memory_regions', 'map_sections'), True)
    if f is None:
        return
    where = loc(P, P.modules['memorymap'].funcs['_get_mem_type_map'])
    for n in charge.NAMES + (None,):
        for order in ('flash first', 'external first'):
            def body(I, n=n, order=order):
                ts = [('drom', 'Flash Data', 0x3c000000), ('dram', 'DRAM', 0x3fc00000)]
                if n:
                    ts.insert(0 if order == 'external first' else 2, ('extern_ram', n, 0x3c000000))
                types = {k: {'name': nm, 'type': k, 'primary_address': a, 'secondary_address': 0, 'length': 0x100000} for k, nm, a in ts}
                ln = small.n('length')
                small.atleast(I, ln, 0x10000)
                small.atleast(I, nadd(0xf0000, ln, -1))
                regs = [{'name': k + '_seg', 'origin': v['primary_address'] + 0x20, 'length': ln, 'attrs': 'r', 'type': v} for k, v in types.items()
                        if k != 'extern_ram' or order == 'flash first']
                secs, used = [], {nm: 0 for k, nm, a in ts}
                lists = {nm: set() for k, nm, a in ts}
                for i, nm in enumerate(tuple(EXT) + tuple(PLAIN)):
                    for a, own in ((0x3c000020 + 0x100 * i, 'Flash Data'), (0x3fc00020 + 0x100 * i, 'DRAM')):
                        if nm in PLAIN and own == 'Flash Data' and n and order == 'flash first':
                            continue              # two regions contain it
                        size = small.n(f'{nm} at {a:x}')
                        small.atleast(I, size, 1)
                        small.atleast(I, nadd(0x100, size, -1))
                        secs.append({'name': nm, 'abbrev_name': nm, 'address': a, 'size': size, 'archives': {}, 'input_sections': [], 'fill': 0})
                        t = n if n and nm in EXT else own
                        used[t] = nadd(used[t], size)
                        lists[t].add(nm)
                r = I.call(f, [types, regs, secs], {})
                for t in used:
                    if t not in r:
                        raise small.Bad(f'{t} is missing')
                    small.fields(I, r[t], {'used': used[t]}, t)
                    small.keys(r[t].get('sections'), lists[t], f'the sections of {t}')
            small.ob(c, P, f'shape.{n}.{order}', 'external RAM and flash sharing an address window', where, body, inner=True)


def check(c):
    P = Project()
    P.func('memorymap', 'get')
    shapes(c, P)
    h = {}
    if not c.group('analyse', 'charges of sections to memory types', lambda: h.update(M=charge.Model(P))):
        return
    M = h['M']
    c.counts.update(charges=len(M.charges), loops=M.E.stats['loops'], functions=sorted(M.E.stats['functions']))
    if not M.charges or any(x.alias is None or x.S is None for x in M.charges):
        c.add('charges', 'charges recognised', UNKNOWN, 'no store to used recognised')
        return

    def spec(ch, name, n):
        return charge.chip(M, charge.at(ch.guard, ch.S, name), n)

    for n in charge.NAMES:
        for name in EXT:
            def ext(n=n, name=name):
                hit = []
                for ch in M.charges:
                    g = spec(ch, name, n)
                    if unsat(g):
                        continue
                    al = charge.chip(M, ch.alias, n)
                    w = f'memorymap.py:{ch.e.node.lineno}'
                    if opaque(M, g):
                        return UNKNOWN, f'cannot decide the path condition {cut(show_b(g), 200)}'
                    if al is const(n):
                        if g is not BT:
                            return REFUTED, (f'a section {name} on a chip with {n!r} is charged to it only when '
                                             f'{cut(show_b(g), 300)}'), f'{M.m.path}:{ch.e.node.lineno}'
                        hit.append(ch)
                        continue
                    if not clear(M, al):
                        return UNKNOWN, f'memory type {cut(show(al), 200)}'
                    return REFUTED, (f'a section {name} on a chip with {n!r} is charged to {cut(show(al), 120)} when '
                                     f'{cut(show_b(g), 300)}'), f'{M.m.path}:{ch.e.node.lineno}'
                if len(hit) != 1:
                    return (REFUTED, f'a section {name} on a chip with {n!r} is charged {len(hit)} times')
                if hit[0].delta is None:
                    return UNKNOWN, 'amount not recognised'
                return verdict(hit[0].delta, T('idx', hit[0].S, const('size')), BT, [], c.seed, E=M.E, what='amount charged')
            c.ob(f'ext.{n}.{name}', 'external RAM section is charged once, in full, to external RAM whatever its address',
                 ext, M.where)
    for n in charge.NAMES + (None,):
        for name in PLAIN + (EXT if n is None else ()):
            def plain(n=n, name=name):
                for ch in M.charges:
                    g = spec(ch, name, n)
                    ref = spec(ch, '.flash.rodata', None)
                    if g is ref:
                        if not unsat(g) and any(z is M.types for z in subterms(ch.alias)) and \
                                not any(z.op in ('elem', 'mu', 'pick', 'last') and not charge.mine_root(M, z)
                                        for z in subterms(ch.alias)):
                            return REFUTED, (f'a section {name} is charged to {cut(show(ch.alias), 100)} independent of its '
                                             f'address'), f'{M.m.path}:{ch.e.node.lineno}'
                        continue
                    if implies(g, ref) and implies(ref, g):
                        continue
                    if opaque(M, g) or opaque(M, ref):
                        return UNKNOWN, f'cannot decide {cut(show_b(g), 200)}'
                    return REFUTED, (f'a section {name} on a chip with external RAM named {n!r} is charged to '
                                     f'{cut(show(ch.alias), 100)} when {cut(show_b(g), 250)}, any other section when '
                                     f'{cut(show_b(ref), 250)}'), f'{M.m.path}:{ch.e.node.lineno}'
                return PROVED, 'same charges as for any other section'
            c.ob(f'plain.{n}.{name}', 'every other section is charged by address only', plain, M.where)


main('C21', RULE, check, ['Section names and the external RAM type names are those of the documentation in the module.'],
     floor=1)
