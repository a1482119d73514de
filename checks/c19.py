#!/usr/bin/env python3
"""C19: DWARF data is decoded with the encoding each form prescribes."""
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))

from absint import AbsStr, Cannot, Inst, N, Op, PyExc, nadd                                         # noqa: E402
from binimg import canon                                                                            # noqa: E402
from dwarfspec import (BASES, BLOCKS, Dwarf, F, FIXED, LEBS, Leb, OFFSETS, REFS, Raw, ULEBS, sleb, uleb)   # noqa: E402
from project import Project, AnchorMissing                                                          # noqa: E402
from report import main                                                                             # noqa: E402

spec = importlib.util.spec_from_file_location('c18', os.path.join(HERE, 'c18.py'))
c18 = importlib.util.module_from_spec(spec)
spec.loader.exec_module(c18)
Bad, Dunno, run, fatal, excname, expect, attr, items, const, maps, text = (
    c18.Bad, c18.Dunno, c18.run, c18.fatal, c18.excname, c18.expect, c18.attr, c18.items, c18.const, c18.maps, c18.text)

RULE = ('Abstract interpretation of Elf(path).CUs, the abbreviation tables, entries and attribute evaluation over ELF files whose debug sections '
        'are written by a reference encoder: structure is known, attribute bytes are unknown (LEB128 numbers have a known length only). For every '
        'form the decoded value must be exactly the bits the DWARF standard assigns to it and the attribute behind it must be read right behind '
        'it; unit headers, abbreviation tables and entry trees must be the encoded ones; what is not supported must end in a FatalError.')

ANY = object()
AT_NAME, AT_X, AT_S = 0x03, 0x2107, 0x49


class Ctx:
    def __init__(self, cls, data, version, fmt64):
        self.cls, self.data, self.version, self.fmt64 = cls, data, version, fmt64
        self.asize = 4 if cls == 1 else 8
        self.osize = 8 if fmt64 else 4

    def __str__(self):
        return f'DWARF{self.version}/{64 if self.fmt64 else 32} in {32 * self.cls}-bit {"little" if self.data == 1 else "big"} endian'


def cases(form, x):
    """(label, bytes in .debug_info, bytes in .debug_abbrev, value(I, d, at, cu), end(d, at), seed)"""
    out = []

    def case(label, parts, value, end, ab=()):
        out.append((label, list(parts), list(ab), value, end))
    if form in FIXED or form in REFS:
        n = FIXED.get(form) or REFS[form]
        case('', [Raw(n)], lambda I, d, at, cu: nadd(d.field(at, n), cu if form in REFS else 0), lambda d, at: at + n)
    elif form == 'addr':
        case('', [Raw(x.asize)], lambda I, d, at, cu: d.field(at, x.asize), lambda d, at: at + x.asize)
    elif form in OFFSETS:
        n = x.asize if form == 'ref_addr' and x.version <= 2 else x.osize
        case('', [Raw(n)], lambda I, d, at, cu: d.field(at, n), lambda d, at: at + n)
    elif form in ULEBS or form == 'ref_udata':
        for n in LEBS:
            case(f' of {n} bytes', [Leb(n)], lambda I, d, at, cu, n=n: nadd(d.uleb(at, n), cu) if form == 'ref_udata' else d.uleb(at, n),
                 lambda d, at, n=n: at + n)
    elif form == 'sdata':
        for n in LEBS:
            case(f' of {n} bytes', [Leb(n)], lambda I, d, at, cu, n=n: d.sleb(I, at, n), lambda d, at, n=n: at + n)
    elif form == 'implicit_const':
        for n in LEBS:
            case(f' of {n} bytes', [], lambda I, d, at, cu, n=n: d.sleb(I, d.const, n, '.debug_abbrev'), lambda d, at: at, [Leb(n)])
    elif form in BLOCKS:
        n = BLOCKS[form]
        case(' of unknown size', [Raw(n)], lambda I, d, at, cu: d.win(at + n, d.field(at, n)), lambda d, at: nadd(at + n, d.field(at, n)))
        for k in (0, 1, 3):
            case(f' of {k} bytes', [k.to_bytes(n, 'little' if x.data == 1 else 'big'), Raw(k)], lambda I, d, at, cu, k=k: d.win(at + n, k),
                 lambda d, at, k=k: at + n + k)
    elif form in ('block', 'exprloc'):
        for k in (0, 1, 3, 130):
            z = uleb(k)
            case(f' of {k} bytes', [z, Raw(k)], lambda I, d, at, cu, k=k, z=z: d.win(at + len(z), k), lambda d, at, k=k, z=z: at + len(z) + k)
        for n in (1, 2):
            case(f' with a size of {n} bytes', [Leb(n)], lambda I, d, at, cu, n=n: d.win(at + n, d.uleb(at, n)),
                 lambda d, at, n=n: nadd(at + n, d.uleb(at, n)))
    elif form == 'string':
        def nul(d, at):
            return N(0, {('nul', d.img.name, BASES['.debug_info'] + at): 1})
        case(' of unknown length', [Raw(None)], lambda I, d, at, cu: d.win(at, nadd(nul(d, at), BASES['.debug_info'] + at, -1)),
             lambda d, at: nadd(nadd(nul(d, at), 1), BASES['.debug_info'], -1))
        for t in (b'', b'main.c'):
            case(f' {t.decode()!r}', [t + b'\0'], lambda I, d, at, cu, t=t: t, lambda d, at, t=t: at + len(t) + 1)
    elif form == 'flag_present':
        case('', [], lambda I, d, at, cu: True, lambda d, at: at)
    return out


def build(x, specs, body, unit_type=1, second=True, sections=None, known_tail=None):
    """Unit 0 is trivial; unit 1 has one entry with the attribute specifications specs and the bytes body."""
    d = Dwarf(x.cls, x.data, *([sections] if sections is not None else []))
    ab0 = d.emit('.debug_abbrev', uleb(1), uleb(0x11), b'\0', uleb(0x3e), uleb(F['data1']), b'\0\0', b'\0')
    ab = d.emit('.debug_abbrev', uleb(1), uleb(0x34), b'\0')
    for at, form, *rest in specs:
        d.emit('.debug_abbrev', uleb(at), uleb(form))
        if form == F['implicit_const']:
            d.const = d.pos['.debug_abbrev']
            d.emit('.debug_abbrev', *rest)
    d.emit('.debug_abbrev', b'\0\0', b'\0')
    d.units = [d.unit(4, False, x.asize, ab0, body=lambda d: d.emit('.debug_info', b'\1', Raw(1)))]
    d.units.append(d.unit(x.version, x.fmt64, x.asize, ab, unit_type, body=lambda d: d.emit('.debug_info', b'\1', *body)))
    d.finish()
    return d


def units(I, make, n):
    elf = make()
    cus = attr(I, elf, 'CUs')
    return elf, items(I, cus, 'compilation units', n)


def entries(I, cu, *args):
    f = attr(I, cu, 'get_DIEs')
    dies = I.call(f, list(args), {})
    if not isinstance(dies, dict):
        raise Dunno('entries are not a dict')
    return dies


def get(d, k):
    if not isinstance(d, dict):
        raise Dunno(f'{k} of something that is no dict')
    if k not in d:
        raise Dunno(f'no {k!r}')
    return d[k]


def root(I, cu, at):
    dies = entries(I, cu)
    if at not in dies:
        raise Bad(f'the first entry of the unit is at offset {at}, entries found at {sorted(k for k in dies if isinstance(k, int))[:4]}')
    return dies[at]


def attribute(I, die, a):
    attrs = get(die, 'attrs')
    if a not in attrs:
        raise Bad(f'attribute {a:#x} is missing')
    return attrs[a]


def form_body(x, form, case, code=None):
    label, parts, ab, value, end = case
    d = build(x, [(AT_X, F[form] if code is None else code, *ab), (AT_S, F['data1'])], parts + [Raw(1)])
    cu, die = d.units[1]
    at = die + 1

    def body(I, make):
        d.img.seed(I)
        elf, cus = units(I, make, 2)
        try:
            r = root(I, cus[1], die)
        except PyExc as e:
            raise Bad(f'DW_FORM_{form}{label} ends in {excname(e)}')
        a = attribute(I, r, AT_X)
        want = value(I, d, at, cu)
        expect(I, f'the value of DW_FORM_{form}{label}', get(a, 'value'), want)
        stop = end(d, at)
        expect(I, f'the attribute behind DW_FORM_{form}{label}', get(attribute(I, r, AT_S), 'value'), d.field(stop, 1))
        if 'size' in a:
            expect(I, f'the size of DW_FORM_{form}{label}', a['size'], nadd(stop, at, -1))
        if 'offset' in a:
            expect(I, f'the offset of DW_FORM_{form}{label}', a['offset'], at)
    return d.img, body


def refused_form(x, form, code, parts=None, end=None):
    d = build(x, [(AT_X, code), (AT_S, F['data1'])], (parts or [Raw(4)]) + [Raw(1)])
    cu, die = d.units[1]

    def body(I, make):
        d.img.seed(I)
        elf, cus = units(I, make, 2)
        try:
            r = root(I, cus[1], die)
        except PyExc as e:
            if fatal(I, e):
                return
            raise Bad(f'form {form} ends in {excname(e)} instead of an error report')
        if end is None:
            raise Bad(f'unknown form {form} is accepted')
        expect(I, f'the attribute behind {form}', get(attribute(I, r, AT_S), 'value'), d.field(die + 1 + end, 1))
    return d.img, body


def header(x, unit_type):
    d = build(x, [(AT_X, F['data4']), (AT_S, F['data1'])], [Raw(4), Raw(1)], unit_type)

    def body(I, make):
        elf, cus = units(I, make, 2)
        for i, (cu, (start, die)) in enumerate(zip(cus, d.units)):
            v = (4, x.version)[i]
            for n, want in (('offset', start), ('version', v), ('address_size', x.asize)):
                expect(I, f'unit {i}: {n}', attr(I, cu, n), want)
            expect(I, f'unit {i}: abbreviation table', attr(I, cu, 'debug_abbrev_offset'), d.abbrevs[i])
        r = root(I, cus[1], d.units[1][1])
        expect(I, 'the first attribute', get(attribute(I, r, AT_X), 'value'), d.field(d.units[1][1] + 1, 4))
        r = root(I, cus[0], d.units[0][1])
        expect(I, 'the attribute of unit 0', get(attribute(I, r, 0x3e), 'value'), d.field(d.units[0][1] + 1, 1))
    d.abbrevs = [0, 8]
    return d.img, body


def bad_unit(x, version, asize, what):
    d = Dwarf(x.cls, x.data)
    ab = d.emit('.debug_abbrev', uleb(1), uleb(0x11), b'\0', uleb(0x3e), uleb(F['data1']), b'\0\0', b'\0')
    d.unit(version, x.fmt64, asize, ab, body=lambda d: d.emit('.debug_info', b'\1', b'\1'))
    d.finish()

    def body(I, make):
        try:
            elf = make()
            cus = attr2(I, elf, 'CUs')
            for cu in list(I.iter(cus)):
                entries(I, cu)
        except PyExc as e:
            if fatal(I, e):
                return
            raise Bad(f'{what} ends in {excname(e)} instead of an error report')
        raise Bad(f'{what} is accepted')
    return d.img, body


def attr2(I, o, n):
    try:
        return I.attr(o, n)
    except Cannot:
        raise Dunno(f'no {n}')


def none(x):
    """No debug information at all."""
    d = Dwarf(x.cls, x.data, ['.debug_str'])
    d.finish()
    return d.img, lambda I, make: units(I, make, 0)


def many(x, layout):
    """Several units of different versions and formats, walked by their lengths."""
    d = Dwarf(x.cls, x.data)
    tabs = []
    for k in range(len(layout)):
        tabs.append(d.emit('.debug_abbrev', uleb(1), uleb(0x11), b'\0', uleb(0x3e), uleb((F['data1'], F['data2'], F['data4'])[k % 3]), b'\0\0', b'\0'))
    us = []
    for k, (version, fmt64, pad) in enumerate(layout):
        us.append(d.unit(version, fmt64, x.asize, tabs[k], body=lambda d, k=k, pad=pad: d.emit('.debug_info', b'\1', Raw((1, 2, 4)[k % 3]), b'\0' * pad)))
    d.finish()

    def body(I, make):
        elf, cus = units(I, make, len(us))
        for k, (cu, (start, die)) in enumerate(zip(cus, us)):
            expect(I, f'offset of unit {k}', attr(I, cu, 'offset'), start)
            expect(I, f'version of unit {k}', attr(I, cu, 'version'), layout[k][0])
            r = root(I, cu, die)
            expect(I, f'attribute of unit {k}', get(attribute(I, r, 0x3e), 'value'), d.field(die + 1, (1, 2, 4)[k % 3]))
        if attr(I, elf, 'CUs') is not None:
            items(I, attr(I, elf, 'CUs'), 'compilation units (asked again)', len(us))
    return d.img, body


def abbrevs(x, codes, shared):
    """Tables at a non-zero offset with the given codes; every entry of the unit is a child of the first."""
    d = Dwarf(x.cls, x.data)
    d.emit('.debug_abbrev', uleb(codes[0]), uleb(0x24), b'\0', uleb(0x3e), uleb(F['data8']), b'\0\0', b'\0')
    tab = d.pos['.debug_abbrev']
    tags = [0x11, 0x2e, 0x34, 0x4106, 0x8765]
    want = {}
    for k, code in enumerate(codes):
        form = ('data1', 'data2', 'data4', 'udata')[k % 4]
        d.emit('.debug_abbrev', uleb(code), uleb(tags[k]), b'\1' if k == 0 else b'\0', uleb(0x2137 if k % 2 else 0x3e), uleb(F[form]))
        if k == 1:
            d.emit('.debug_abbrev', uleb(0x3b), uleb(F['implicit_const']), sleb(-70))
        d.emit('.debug_abbrev', b'\0\0')
        want[code] = (tags[k], 0x2137 if k % 2 else 0x3e, form)
    d.emit('.debug_abbrev', b'\0')
    d.emit('.debug_abbrev', uleb(codes[0]), uleb(0x16), b'\0', b'\0\0', b'\0')
    use = [codes[0], codes[-1], codes[1], codes[-2], codes[-1]]
    pos = []

    def fill(d):
        for code in use:
            pos.append((d.pos['.debug_info'], len(uleb(code)), code))
            form = want[code][2]
            d.emit('.debug_info', uleb(code), Leb(2) if form == 'udata' else Raw({'data1': 1, 'data2': 2, 'data4': 4}[form]))
        d.emit('.debug_info', b'\0')
    d.unit(x.version, x.fmt64, x.asize, tab, body=fill)
    d.finish()

    def body(I, make):
        d.img.seed(I)
        elf, cus = units(I, make, 1)
        for rnd in range(2):
            dies = entries(I, cus[0])
            found = [k for k in dies if get(dies[k], 'tag') != 0]
            if found != [p for p, _, _ in pos]:
                raise Bad(f'entries are read at {found}, they are at {[p for p, _, _ in pos]}')
            for i, (p, n, code) in enumerate(pos):
                tag, at, form = want[code]
                die = dies[p]
                expect(I, f'tag of the entry with code {code}', get(die, 'tag'), tag)
                v = d.uleb(p + n, 2) if form == 'udata' else d.field(p + n, {'data1': 1, 'data2': 2, 'data4': 4}[form])
                expect(I, f'attribute of the entry with code {code}', get(attribute(I, die, at), 'value'), v)
                if code == codes[1]:
                    expect(I, 'implicit constant', get(attribute(I, die, 0x3b), 'value'), -70)
                if 'parent' in die:
                    expect(I, f'parent of entry {i}', die['parent'], None if i == 0 else pos[0][0])
                if 'level' in die:
                    expect(I, f'level of entry {i}', die['level'], 0 if i == 0 else 1)
    return d.img, body


def tree(x, shape, filt=None):
    """shape: nested (kind, children); kind 'p' has children in its abbreviation, 'l' has not."""
    d = Dwarf(x.cls, x.data)
    tab = d.emit('.debug_abbrev', uleb(1), uleb(0x11), b'\1', uleb(0x3e), uleb(F['data1']), b'\0\0',
                 uleb(2), uleb(0x2e), b'\1', uleb(0x3e), uleb(F['data2']), b'\0\0',
                 uleb(3), uleb(0x34), b'\0', uleb(0x3e), uleb(F['udata']), b'\0\0',
                 uleb(4), uleb(0x0b), b'\1', b'\0\0',
                 uleb(5), uleb(0x05), b'\0', b'\0\0', b'\0')
    TAG = {1: 0x11, 2: 0x2e, 3: 0x34, 4: 0x0b, 5: 0x05}
    want = []

    def put(d, node, parent, level):
        code, kids = node
        at = d.emit('.debug_info', uleb(code))
        want.append((at, parent, level, code))
        if code == 1:
            d.emit('.debug_info', Raw(1))
        elif code == 2:
            d.emit('.debug_info', Raw(2))
        elif code == 3:
            d.emit('.debug_info', Leb(2))
        if code in (1, 2, 4):
            for k in kids:
                put(d, k, at, level + 1)
            d.emit('.debug_info', b'\0')
    d.unit(x.version, x.fmt64, x.asize, tab, body=lambda d: put(d, shape, None, 0))
    d.finish()

    def body(I, make):
        d.img.seed(I)
        elf, cus = units(I, make, 1)
        dies = entries(I, cus[0], *([filt] if filt is not None else []))
        exp = [w for w in want if filt is None or TAG[w[3]] in filt]
        found = [k for k in dies if get(dies[k], 'tag') != 0]
        if sorted(found) != sorted(w[0] for w in exp):
            raise Bad(f'entries are read at {found}, they are at {[w[0] for w in exp]}')
        for at, parent, level, code in exp:
            die = dies[at]
            expect(I, f'tag of the entry at {at}', get(die, 'tag'), TAG[code])
            if 'offset' in die:
                expect(I, f'offset of the entry at {at}', die['offset'], at)
            if 'parent' in die:
                expect(I, f'parent of the entry at {at}', die['parent'], parent)
            if 'level' in die:
                expect(I, f'level of the entry at {at}', die['level'], level)
            attrs = get(die, 'attrs')
            n = {1: 1, 2: 2}.get(code)
            if code in (4, 5):
                if attrs:
                    raise Bad(f'the entry at {at} has no attributes')
            else:
                expect(I, f'attribute of the entry at {at}', get(attribute(I, die, 0x3e), 'value'), d.uleb(at + 1, 2) if code == 3 else d.field(at + 1, n))
    return d.img, body


def evaluate(x, form, parts, want, sections=None):
    """want(I, d, at): the evaluated value; every order of evaluating and printing gives the same."""
    d = build(x, [(AT_X, F[form]), (AT_S, F['data1'])], parts + [Raw(1)], sections=sections)
    cu, die = d.units[1]

    def body(I, make):
        d.img.seed(I)

        def start():
            elf, cus = units(I, make, 2)
            c = cus[1]
            return c, attribute(I, root(I, c, die), AT_X)
        w = want(I, d, die + 1)
        ref = None
        for seq in ('ee', 'ss', 'ese', 'sese'):
            c, a = start()
            before = get(a, 'value')
            for i, step in enumerate(seq):
                try:
                    f = attr(I, c, 'get_attr_eval' if step == 'e' else 'get_attr_str')
                    r = I.call(f, [a], {})
                except PyExc as e:
                    raise Bad(f'DW_FORM_{form} ends in {excname(e)} at step {i + 1} of {seq}')
                if step == 'e' and w is ANY:
                    w = r
                elif step == 'e':
                    expect(I, f'DW_FORM_{form} evaluated (step {i + 1} of {seq})', r, w)
                else:
                    if ref is None:
                        ref = r
                    if not isinstance(r, (str, AbsStr)):
                        raise Dunno('printed value')
                    if r != ref:
                        raise Bad(f'DW_FORM_{form} is printed as {ref!r} and as {r!r}')
                    if isinstance(w, (str, AbsStr)) and r != w:
                        raise Bad(f'DW_FORM_{form} is printed as {r!r}, it is {w!r}')
            expect(I, f'the raw value after evaluating DW_FORM_{form}', get(a, 'value'), before)
    return d.img, body


def cstr(sec, off):
    return text(('cstr', 'file', canon(nadd(BASES[sec], off))))


def check(c):
    P = Project()
    m = P.modules.get('elf')
    if m is None or 'Elf' not in m.classes:
        raise AnchorMissing('elf.Elf')

    def ob(oid, desc, what):
        c.count('files')
        c.ob('C19.' + oid, desc, lambda: run(P, what[0], what[1]))
    kinds = [(a, b) for a in (1, 2) for b in (1, 2)]
    full = c.tier == 'thorough'
    ctxs = [Ctx(a, b, 5, f) for a, b in kinds for f in (False, True)]
    old = [Ctx(a, b, v, f) for a, b in kinds for v in (2, 3, 4) for f in (False, True)]

    def key(x):
        return f'{32 * x.cls}{"l" if x.data == 1 else "b"}.v{x.version}.{64 if x.fmt64 else 32}'

    REFUSED = ('indirect', 'addrx', 'addrx1', 'addrx2', 'addrx3', 'addrx4')
    for form in F:
        if form in REFUSED:
            continue
        for x in ctxs + [y for y in old if full or form in ('addr', 'ref_addr', 'strp', 'sec_offset', 'exprloc', 'ref4')]:
            for i, case in enumerate(cases(form, x)):
                ob(f'form.{form}.{key(x)}.{i}', f'{x}: DW_FORM_{form}{case[0]}', form_body(x, form, case))
    for x in ctxs if full else ctxs[:1] + ctxs[-1:]:
        for form in REFUSED[1:]:
            n = FIXED.get(form, 2)
            ob(f'refused.{form}.{key(x)}', f'{x}: DW_FORM_{form} is refused or skipped', refused_form(x, f'DW_FORM_{form}', F[form], [Raw(n)] if form != 'addrx' else [Leb(2)], n))
        ob(f'refused.indirect.{key(x)}', f'{x}: DW_FORM_indirect is refused or skipped', refused_form(x, 'DW_FORM_indirect', 0x16, [b'\x05', Raw(2)], 3))
        for code in (0x02, 0x2d, 0x40, 0x1f01, 0x1f02, 0x1f20, 0x1f21, 0x3fff):
            n = {0x1f01: [Leb(2)], 0x1f02: [Leb(2)], 0x1f20: [Raw(x.osize)], 0x1f21: [Raw(x.osize)]}.get(code)
            ob(f'refused.{code:#x}.{key(x)}', f'{x}: form {code:#x} is refused', refused_form(x, f'{code:#x}', code, n, n and n[0].n))
    for x in ctxs + old:
        for ut in (1, 2, 3, 4, 5, 6) if x.version == 5 else (1,):
            ob(f'unit.{key(x)}.{ut}', f'{x}: header of unit type {ut}', header(x, ut))
        for v in (0, 1, 6, 0x100 * x.version):
            ob(f'version.{key(x)}.{v}', f'{x}: unit version {v} is refused', bad_unit(x, v, x.asize, f'a unit of version {v}'))
        for a in (0, 1, 2, 3, 16):
            ob(f'asize.{key(x)}.{a}', f'{x}: address size {a} is refused', bad_unit(x, x.version, a, f'a unit with addresses of {a} bytes'))
    L = [(4, False, 0), (5, True, 3), (2, False, 0), (3, True, 1), (5, False, 0), (4, True, 5)]
    shapes = [(1, []), (1, [(3, []), (5, []), (3, [])]), (1, [(2, [(3, []), (4, [(3, []), (2, []), (5, [])]), (3, [])]), (2, []), (3, []), (4, [(4, [(4, [])])]), (5, [])])]
    for x in ctxs + old:
        ob(f'none.{key(x)}', f'{x}: no debug information', none(x))
        ob(f'many.{key(x)}', f'{x}: several units', many(x, L))
        ob(f'abbrev.{key(x)}', f'{x}: abbreviation table', abbrevs(x, [1, 2, 3, 4, 5], False))
        ob(f'sparse.{key(x)}', f'{x}: abbreviation codes with gaps', abbrevs(x, [200, 3, 1, 17000, 9], False))
        for i, s in enumerate(shapes):
            ob(f'tree.{key(x)}.{i}', f'{x}: tree of entries {i}', tree(x, s))
        for i, f in enumerate(([0x11, 0x2e, 0x34], [0x34], [0x0b], [0x9999])):
            ob(f'filter.{key(x)}.{i}', f'{x}: entries with chosen tags {i}', tree(x, shapes[2], f))
    for x in ctxs + [y for y in old if y.version == 4]:
        k = key(x)
        a = x.asize
        n = x.osize
        ob(f'eval.strp.{k}', f'{x}: strp', evaluate(x, 'strp', [Raw(n)], lambda I, d, at, n=n: cstr('.debug_str', d.field(at, n))))
        ob(f'eval.line_strp.{k}', f'{x}: line_strp', evaluate(x, 'line_strp', [Raw(n)], lambda I, d, at, n=n: cstr('.debug_line_str', d.field(at, n))))
        S = ['.debug_info', '.debug_abbrev']
        ob(f'eval.nostrp.{k}', f'{x}: strp without strings', evaluate(x, 'strp', [Raw(n)], lambda I, d, at: None, S))
        ob(f'eval.noline.{k}', f'{x}: line_strp without strings', evaluate(x, 'line_strp', [Raw(n)], lambda I, d, at: None, S + ['.debug_str']))
        ob(f'eval.string.{k}', f'{x}: string', evaluate(x, 'string', [b'a.c\0'], lambda I, d, at: 'a.c'))
        ob(f'eval.anystring.{k}', f'{x}: unknown string', evaluate(x, 'string', [Raw(None)], lambda I, d, at: cstr('.debug_info', at)))
        ob(f'eval.addr.{k}', f'{x}: location is an address', evaluate(x, 'exprloc', [uleb(1 + a), b'\3', Raw(a)], lambda I, d, at, a=a: d.field(at + 2, a)))
        ob(f'eval.empty.{k}', f'{x}: empty location', evaluate(x, 'exprloc', [uleb(0)], lambda I, d, at: None))
        ob(f'eval.frame.{k}', f'{x}: location in the frame', evaluate(x, 'exprloc', [uleb(2), b'\x91', Leb(1)], lambda I, d, at: None))
        ob(f'eval.tls.{k}', f'{x}: thread-local location', evaluate(x, 'exprloc', [uleb(2 + a), b'\3', Raw(a), b'\x9b'], lambda I, d, at: None))
        ob(f'eval.reg.{k}', f'{x}: location in a register', evaluate(x, 'exprloc', [uleb(1), b'\x53'], lambda I, d, at: None))
        for f, z in (('data1', 1), ('data4', 4), ('udata', None), ('sec_offset', n), ('ref4', 4), ('loclistx', None), ('rnglistx', None), ('addr', a), ('block1', None), ('flag', 1)):
            p = [b'\2', Raw(2)] if f == 'block1' else [Leb(2)] if z is None else [Raw(z)]
            ob(f'eval.{f}.{k}', f'{x}: {f} printed', evaluate(x, f, p, lambda I, d, at: ANY))
    for p in ('DW_FORM_', 'DW_AT_', 'DW_TAG_', 'DW_OP_', 'DW_UT_', 'DW_CHILDREN_'):
        c.ob(f'C19.const.{p[:-1]}', f'{p}* constants', lambda p=p: const(P, p))
    for p in ('DW_FORM', 'DW_AT', 'DW_TAG', 'DW_OP'):
        c.ob(f'C19.names.{p}', f'names of {p}_* values', lambda p=p: maps(P, p))


if __name__ == '__main__':
    main('C19', RULE, check, ['Python struct, int.from_bytes and bytes semantics; well-formed DWARF sections of a reference encoder'], 50, 800)
