"""C24: the image size counts exactly the loaded bytes."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
import linear
import pipe
from place import Places, onbools
from vg import *

RULE = ('value-graph analysis: the closed form of memorymap._get_image_size with and without ELF sections, the exact condition '
        'under which _get_elf_sections_headers records a section header and _filter_map_sections keeps an output section, and '
        'the data flow between these steps in memorymap.get, compared with the specified formulas and conditions.')

NOBITS, ALLOC = 8, 2
f = lambda t, k: T('idx', t, const(k))


def suffix(E, t, *s):
    return bor(*[batom(T('ewith', t, const(x))) for x in s])


def image(c, P):
    node = P.func('memorymap', '_get_image_size', public=False)
    if node is None:
        c.add('image', 'image size', UNKNOWN, '_get_image_size not found')
        return
    EL, SE = T('param', 'elf_sections'), T('param', 'sections')
    h = {}

    def start():
        E, v, _ = run(P, 'memorymap', node.name, positional=[EL, SE])
        h.update(E=E, v=v)
        c.counts.update(image_functions=sorted(E.stats['functions']))
    if not c.group('image', 'value graph of _get_image_size', start):
        return
    E, v = h['E'], h['v']
    where = loc(P, node)
    have = batom(T('truthy', EL))
    none = batom(T('isnone', EL))
    exp = Sum(EL, lambda k: (bnot(E.eq(T('attr', T('idx', EL, k), 'sh_type'), const(NOBITS))), T('attr', T('idx', EL, k), 'sh_size')))
    c.ob('image.elf', 'with ELF sections: sum of the sizes of all that are not NOBITS',
         lambda: verdict(v, exp, band(have, bnot(none)), None, c.seed, E=E, what='image size'), where)
    e2 = Sum(SE, lambda k, e: (bnot(suffix(E, f(e, 'name'), '.bss', 'noinit')), f(e, 'size')))
    c.ob('image.noelf', 'without: sum of the sizes of all kept sections but bss and noinit',
         lambda: verdict(v, e2, band(none, bnot(have)), None, c.seed, E=E, what='image size'), where)


def headers(c, P):
    node = P.func('memorymap', '_get_elf_sections_headers', public=False)
    if node is None:
        c.add('headers', 'allocated ELF sections', UNKNOWN, '_get_elf_sections_headers not found')
        return
    EL = T('param', 'elf')
    h = {}

    def start():
        E, v, _ = run(P, 'memorymap', node.name, positional=[EL])
        h.update(E=E, v=v, m=P.func_module(node))
    if not c.group('headers', 'value graph of _get_elf_sections_headers', start):
        return
    E, v, m = h['E'], h['v'], h['m']
    where = loc(P, node)
    have = band(batom(T('truthy', EL)), bnot(batom(T('isnone', EL))))
    c.ob('headers.none', 'without ELF file there are no section headers',
         lambda: verdict(v, const(None), band(bnot(batom(T('truthy', EL))), batom(T('isnone', EL))), None, c.seed, E=E, what='headers'), where)
    objs = {x for g, x in tm.cases(v, have) if not unsat(g)}
    if len(objs) != 1 or next(iter(objs)).op != 'new':
        c.add('headers.kept', 'headers recorded', UNKNOWN, 'not one dictionary')
        return
    D = next(iter(objs))
    SH = T('param', 'header')
    role = {}
    for L, ln in E.loops.items():
        d = ln.dom
        while d is not None and d.op in ('perm', 'aslist'):
            d = d.args[0]
        if d is T('attr', EL, 'shdrs'):
            role[E.mk_elem(L)] = SH
    PL = Places(E, lambda x: tm.replace(x, role))
    puts = [(e, ch) for o, es in PL.puts.items() if o is D for e, ch in es]
    mine = [(e, ch) for e, ch in puts if tm.replace(e.val, role) is SH]
    c.counts['header stores'] = len(puts)
    att = lambda k: T('attr', SH, k)
    want = band(E.truth0(att('sh_size')), E.truth0(T('bin', 'BitAnd', att('sh_flags'), const(ALLOC))))

    def kept():
        if not mine or len(mine) != len(puts):
            return UNKNOWN, f'{len(puts)} stores, {len(mine)} of headers'
        g = tm.replace(bor(*[e.guard for e, _ in mine]), role)
        for e, _ in mine:
            k = tm.replace(e.key, role)
            if k is not att('name'):
                return (REFUTED if pipe.plain(k) else UNKNOWN), f'header stored under {cut(show(k), 100)}, not its name'
        return bitguard(c, E, g, want, have, 'header recorded')
    c.ob('headers.kept', 'exactly the non-empty sections with the ALLOC flag are recorded under their names', kept, where)


def bitguard(c, E, actual, expected, g, what):
    """As vguard, with flag tests decided bit by bit."""
    r = vguard(actual, expected, g, None, c.seed, E=E, what=what)
    if r[0] != UNKNOWN:
        return r
    masks = {}
    for a in list(tm.batoms(actual)) + list(tm.batoms(expected)):
        for t in subterms(a):
            if t.op == 'bin' and t.args[0] == 'BitAnd':
                x, y = t.args[1], t.args[2]
                if x.op == 'const':
                    x, y = y, x
                if y.op == 'const' and isinstance(y.args[0], int) and x.op != 'const':
                    masks[t] = (x, y.args[0])
    for p in range(64):
        vals, xs = {}, {x for x, _ in masks.values()}
        if len(xs) != 1:
            break
        bit = (1 << (p % 32)) if p < 32 else (1 << (p % 32)) | ALLOC
        m = {t: const(bit & k) for t, (x, k) in masks.items()}
        a, e = (tm.bmap(tm.replace(b, m), lambda at: const_atom(E, at)) for b in (actual, expected))
        if not (implies(band(g, a), e) and implies(band(g, e), a)):
            w = interp.differ(a, e, g, None, seed=c.seed, E=E)
            if w is not None:
                return REFUTED, f'{what}: with flags {hex(bit)} it is {cut(show_b(a, 3), 150)}, must be {cut(show_b(e, 3), 150)}'
    return r


def const_atom(E, a):
    if a.op == 'truthy' and a.args[0].op == 'const':
        return BT if a.args[0].args[0] else BF
    if a.op == 'eqc' and a.args[0].op == 'const':
        return BT if a.args[0].args[0] == a.args[1].args[0] else BF
    if a.op == 'eq0' and a.args[0].op == 'const':
        return BT if a.args[0].args[0] == 0 else BF
    return batom(a)


NAMES = ['.iram0.text', '.iram0.vectors', '.dram0.data', '.dram0.bss', '.flash.text', '.flash.rodata', '.flash.appdesc',
         '.noinit', '.ext_ram.bss', '.ext_ram_noinit', '.rtc.text', '.rtc.data', '.rtc_noinit', '.eh_frame', '.flash.tdata',
         '.debug_info', '.comment', '.xt.prop', '.dram0.dummy', '.flash_rodata_dummy', '.flash.rodata_noload', '.noload',
         '.iram0.text_end', '.dram0.heap_start', '.rtc.reserved_for_iram', '.dram0_reserved_for_iram', '.flash_text_dummy',
         '.riscv.attributes', '.flash.data_noload', 'dummy', 'noload', '.data', '.bss', '.text', '.rodata', '.rtc.dummy']


def stringy(b, name, s):
    """Decide the name tests of a condition for one concrete name."""
    def at(a):
        x = a.args[0] if a.args else None
        if a.op == 'ewith' and x is name and a.args[1].op == 'const':
            return BT if s.endswith(a.args[1].args[0]) else BF
        if a.op == 'swith' and x is name and a.args[1].op == 'const':
            return BT if s.startswith(a.args[1].args[0]) else BF
        if a.op == 'in' and a.args[1] is name and a.args[0].op == 'const':
            return BT if a.args[0].args[0] in s else BF
        if a.op == 'eqc' and x is name:
            return BT if a.args[1].args[0] == s else BF
        return batom(a)
    return tm.bmap(b, at)


def keep(c, P):
    node = P.func('memorymap', '_filter_map_sections', public=False)
    if node is None:
        c.add('keep', 'kept output sections', UNKNOWN, '_filter_map_sections not found')
        return
    SE, EL = T('param', 'sections'), T('param', 'elf_sections')
    h = {}

    def start():
        E, v, _ = run(P, 'memorymap', node.name, positional=[SE, EL])
        h.update(E=E, v=v)
    if not c.group('keep', 'value graph of _filter_map_sections', start):
        return
    E, v = h['E'], h['v']
    where = loc(P, node)
    S = T('param', 'section')
    role = {}
    for L, ln in E.loops.items():
        d = ln.dom
        while d is not None and d.op in ('perm', 'aslist'):
            d = d.args[0]
        if d is SE:
            role[E.mk_elem(L)] = S
    PL = Places(E, lambda x: tm.replace(x, role))
    ap = [p for p in PL.places() if p.lst is v]
    c.counts['kept stores'] = len(ap)
    if not ap or any(tm.replace(p.obj, role) is not S for p in ap):
        c.add('keep', 'kept output sections', UNKNOWN, 'the result is not built from the sections themselves')
        return
    g = tm.replace(bor(*[p.guard for p in ap]), role)
    name = f(S, 'name')
    size = E.truth0(f(S, 'size'))
    have = band(batom(T('truthy', EL)), bnot(batom(T('isnone', EL))))
    none = band(bnot(batom(T('truthy', EL))), batom(T('isnone', EL)))
    member = batom(T('in', name, EL))
    pos = bnot(E.lt(f(S, 'size'), tm.ZERO))
    G = lambda a, e, gg, what: vguard(a, e, gg, None, c.seed, E=E, what=what)
    c.ob('keep.empty', 'an empty section is never kept', lambda: G(band(g, bnot(size)), BF, pos, 'kept while empty'), where)
    for s in NAMES:
        holder = s.endswith(('dummy', 'reserved_for_iram'))
        noload = s.endswith('noload')
        gs = stringy(g, name, s)
        exp = BF if holder or noload else band(size, member)
        c.ob(f'keep.elf.{s}', 'with ELF: kept iff not empty, allocated and neither placeholder nor not loaded',
             lambda gs=gs, exp=exp, s=s: G(gs, exp, band(have, pos), f'{s} kept'), where)
        conv = s.endswith(('.text', '.data', '.bss', '.rodata', 'noinit', '.vectors')) or '.flash' in s or '.eh_frame' in s
        exp2 = size if conv and not holder and not noload else BF
        c.ob(f'keep.noelf.{s}', 'without ELF: kept iff not empty and named like a loaded section',
             lambda gs=gs, exp=exp2, s=s: G(gs, exp, band(none, pos), f'{s} kept'), where)
    c.ob('keep.general', 'with ELF: general condition over all names', lambda: G(
        g, band(size, member, bnot(suffix(E, name, 'dummy', 'reserved_for_iram', 'noload'))), band(have, pos), 'kept'), where)


def flows(c, P):
    def elf(p):
        return pipe.input_is(p, '_get_elf_sections_headers', 0, p.EL, 'ELF file')

    def secs(p):
        return pipe.input_is(p, '_filter_map_sections', 0, pipe.att(p.MF, 'sections'), 'sections that are filtered')

    def by(p):
        return pipe.input_is(p, '_filter_map_sections', 1, pipe.call_of(p, '_get_elf_sections_headers'), 'allocated sections')

    def img(p):
        return pipe.input_is(p, '_get_image_size', 0, pipe.call_of(p, '_get_elf_sections_headers'), 'ELF sections')

    def img2(p):
        return pipe.input_is(p, '_get_image_size', 1, pipe.call_of(p, '_filter_map_sections'), 'kept sections')

    def res(p):
        return pipe.same(p.final('image_size'), pipe.call_of(p, '_get_image_size'), 'reported image size', p.ok())

    def use(p):
        return pipe.input_is(p, '_split_map_sections', 0, pipe.call_of(p, '_filter_map_sections'), 'sections that are used')
    pipe.flow(c, P, [
        ('elf', 'the headers of the ELF file of the map are used', elf), ('sections', 'all sections of the map are filtered', secs),
        ('by', 'sections are filtered by the ELF headers', by), ('image_elf', 'the image size uses the ELF headers', img),
        ('image_kept', 'the image size uses the kept sections', img2), ('image', 'the image size is reported', res),
        ('used', 'only kept sections are used', use),
    ])


def shapes(c, P):
    """A few sections of unknown sizes."""
    import small
    from small import Rec, nadd
    img, hdr, flt = (small.private(P, 'memorymap', x, y, True) for x, y in (
        ('_get_image_size', ('elf_sections', 'sections')), ('_get_elf_sections_headers', ('elf',)), ('_filter_map_sections', ('sections', 'elf_sections'))))

    def at(name):
        return loc(P, P.modules['memorymap'].funcs[name])
    PROGBITS, NOBITS, NOTE = 1, 8, 7
    E = [('.iram0.text', PROGBITS, 6, 1), ('.dram0.bss', NOBITS, 3, 1), ('.note', NOTE, 2, 1), ('.comment', PROGBITS, 0, 1), ('.empty', PROGBITS, 6, 0), ('.flash.rodata', PROGBITS, 2, 1),
         ('.debug', PROGBITS, 0x30, 1), ('.init_array', 14, 3, 1)]

    def sections(I, order):
        out = {}
        for nm, t, fl, full in order:
            size = small.n(f'size of {nm}') if full else 0
            if full:
                small.atleast(I, size, 1)
            out[nm] = Rec(name=nm, sh_type=t, sh_flags=fl, sh_size=size, sh_addr=0x1000, sh_name=1)
        return out

    def total(x):
        v = 0
        for y in x:
            v = nadd(v, y)
        return v
    for tag, order in (('all', E), ('reversed', E[::-1]), ('only nobits', [E[1]]), ('only data', [E[0]]), ('nobits first', [E[1], E[0], E[5]])):
        if hdr is not None:
            def headers(I, order=order):
                x = sections(I, order)
                r = I.call(hdr, [Rec(shdrs=list(x.values()))], {})
                want = {k: v for k, v in x.items() if v.attrs['sh_flags'] & 2 and v.attrs['sh_size'] != 0}
                small.keys(r, want, 'the section headers')
                for k, v in want.items():
                    if r[k] is not v:
                        raise small.Bad(f'{k} stands for another section')
            small.ob(c, P, f'shape.headers.{tag}', 'a few section headers', at('_get_elf_sections_headers'), headers, inner=True)
        if img is not None:
            def image(I, order=order):
                x = {k: v for k, v in sections(I, order).items() if v.attrs['sh_flags'] & 2 and v.attrs['sh_size'] != 0}
                r = I.call(img, [x, [{'name': '.iram0.text', 'size': small.n('other'), 'address': 0, 'input_sections': []}]], {})
                small.expect(I, r, total(v.attrs['sh_size'] for v in x.values() if v.attrs['sh_type'] != NOBITS), 'image size')
            small.ob(c, P, f'shape.image.{tag}', 'image size of a few sections of unknown sizes', at('_get_image_size'), image, inner=True)
    M = ['.iram0.vectors', '.iram0.text', '.dram0.bss', '.dram0.data', '.noinit', '.flash.rodata', '.rtc_noinit', '.ext_ram.bss', '.flash.text']
    for tag, order in (('all', M), ('reversed', M[::-1]), ('bss', ['.dram0.bss']), ('data', ['.dram0.data'])):
        if img is not None:
            def noelf(I, order=order):
                x = [{'name': k, 'size': small.n(k), 'address': 0x1000, 'input_sections': []} for k in order]
                r = I.call(img, [None, x], {})
                small.expect(I, r, total(y['size'] for y in x if not y['name'].endswith(('.bss', 'noinit'))), 'image size')
            small.ob(c, P, f'shape.image.noelf.{tag}', 'image size of a few sections of unknown sizes', at('_get_image_size'), noelf, inner=True)
    D = ['.iram0.text', '.dram0.dummy', '.reserved_for_iram', '.flash.rodata_noload', '.dram0.bss', '.comment', '.note', '.flash.rodata', '.empty.text', '.dram0.noinit', '.eh_frame',
         '.flash_rodata_dummy', '.iram0.vectors', '.dram0.data']
    for tag, order in (('all', D), ('reversed', D[::-1])):
        for elf in (True, False):
            if flt is None:
                continue

            def kept(I, order=order, elf=elf):
                def make(k):
                    size = small.n(k)
                    small.atleast(I, size, 1)
                    a, b = small.n(k + ' a'), small.n(k + ' b')
                    small.atleast(I, a, 1)
                    small.atleast(I, b, 1)
                    return {'name': k, 'address': 0x1000, 'size': 0 if k == '.empty.text' else size, 'fill': 0,
                            'input_sections': [{'name': nm, 'size': v, 'address': 0, 'fill': 0} for nm, v in (('a', a), ('none', 0), ('b', b))]}
                x = [make(k) for k in order]
                hs = {k: Rec(name=k, sh_type=PROGBITS, sh_flags=2, sh_size=1) for k in D if k not in ('.comment', '.empty.text')} if elf else None
                r = list(I.iter(I.call(flt, [x, hs], {})))
                want = [k for k in order if not k.endswith(('dummy', 'reserved_for_iram', 'noload')) and k != '.empty.text' and k != '.comment' and (elf or k != '.note')]
                if [y['name'] for y in r] != want and sorted(y['name'] for y in r) != sorted(want):
                    a = [y['name'] for y in r]
                    raise small.Bad(f'kept sections: {[k for k in want if k not in a]} missing, {[k for k in a if k not in want]} too many')
                for y in r:
                    if not small.apart(I, y['size'], small.n(y['name'])):
                        continue
                    raise small.Bad(f'size of {y["name"]} is changed')
            small.ob(c, P, f'shape.kept.{tag}.{"elf" if elf else "noelf"}', 'which sections are kept', at('_filter_map_sections'), kept, inner=True)


def check(c):
    P = Project()
    P.func('memorymap', 'get')
    shapes(c, P)
    image(c, P)
    headers(c, P)
    keep(c, P)
    flows(c, P)


if __name__ == '__main__':
    main('C24', RULE, check, floor=60, assumptions=['output section names of one ELF file are distinct'])
