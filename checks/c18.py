#!/usr/bin/env python3
"""C18: ELF structures are decoded as the ELF format defines them."""
import ast
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))

from absint import AbsStr, Cannot, Explorer, ExcInst, Inst, Interp, Op, Prune, PyExc, nadd      # noqa: E402
from binimg import BinFile, Image, Win, canon, hooks, same                                             # noqa: E402
from elfspec import EHDR, ENDIAN, PHDR, SHDR, SYM, constants, ident, put                           # noqa: E402
from project import Project, AnchorMissing                                                          # noqa: E402
from report import PROVED, REFUTED, UNKNOWN, main                                                   # noqa: E402

RULE = ('Abstract interpretation of Elf(path), its sections, symbols and string lookups over files whose content is unknown except for the '
        'identification, the table sizes and, where a rule needs it, section types. Every decoded field must be the very bytes (position, width, '
        'byte order, signedness; compared bit by bit) the ELF specification assigns to it; foreign or cut-off files must end in a FatalError. '
        'Constants are compared with the tables of the specification.')


class Bad(Exception):
    pass


class Dunno(Exception):
    pass


def fatal(I, e):
    i = e.inst
    if isinstance(i, ExcInst):
        return 'FatalError' in i.etype
    if isinstance(i, Inst):
        return any('FatalError' in str(getattr(k, 'q', getattr(getattr(k, 'node', None), 'name', k))) for k in I.mro(i.cls))
    return False


def excname(e):
    i = e.inst
    return i.etype if isinstance(i, ExcInst) else i.cls.node.name


def run(P, img, body, short=False, limit=3000):
    """body(I, elf) on every path; -> verdict."""
    m = P.modules['elf']
    node = m.classes['Elf']
    ex = Explorer(limit)
    out = {'bad': None, 'dunno': None}

    def go(choose):
        file = BinFile(img, short)
        I = Interp(P, choose, dict(hooks(file)), fuel=400000)
        I.file = file
        try:
            body(I, lambda: I.call(I.classval(node, m), ['file.elf'], {}))
        except Bad as e:
            out['bad'] = (str(e) + where(I), site(I))
            raise StopIteration
        except Dunno as e:
            out['dunno'] = out['dunno'] or str(e)
        except Cannot as e:
            out['dunno'] = out['dunno'] or f'not analysed: {e}' + where(I)
        except PyExc as e:
            out['bad'] = (f'{excname(e)} raised' + (f' (elf.py:{e.node.lineno})' if getattr(e, 'node', None) is not None else '') + where(I), site(I))
            raise StopIteration
    done = True
    try:
        done = ex.run(go)
    except StopIteration:
        pass
    if out['bad']:
        return REFUTED, out['bad'][0], out['bad'][1]
    if out['dunno']:
        return UNKNOWN, out['dunno']
    if not done:
        return UNKNOWN, 'too many paths'
    return PROVED, f'{ex.paths} paths'


def where(I):
    return (' when ' + ', '.join(f'{a}={b}' for a, b in I.notes)) if I.notes else ''


def site(I):
    return 'elf.Elf'


def expect(I, what, got, want):
    r = same(I, got, want)
    if r is None:
        raise Dunno(f'{what}: {got!r} against {want!r}')
    if not r:
        raise Bad(f'{what} is decoded as {got!r}, the format says {want!r}')


def attr(I, o, n, public=True):
    try:
        return I.attr(o, n)
    except (PyExc, Cannot):
        raise Dunno(f'no attribute {n}')


def fields(I, img, what, obj, table, base, endian):
    for n, o, s in table[1]:
        expect(I, f'{what}.{n}', attr(I, obj, n), img.field(nadd(base, o), s, endian))


def items(I, v, what, n):
    try:
        ln = I.x_len(v)
    except (Cannot, PyExc):
        raise Dunno(what)
    if ln != n:
        raise Bad(f'{ln!r} {what} are read, the file has {n}')
    return [I.index(v, i) for i in range(n)]


def header(cls, data, ph, sh):
    def img():
        g = Image('file')
        ident(g, cls, data)
        put(g, EHDR[cls], 0, ENDIAN[data], e_phnum=ph, e_phentsize=PHDR[cls][0], e_shnum=sh, e_shentsize=SHDR[cls][0])
        return g

    def body(I, make):
        g, e = I.file.img, ENDIAN[data]
        elf = make()
        h = attr(I, elf, 'ehdr')
        expect(I, 'ehdr.e_ident', attr(I, h, 'e_ident'), Win(g, 0, 16))
        fields(I, g, 'ehdr', h, EHDR[cls], 0, e)
        f = {n: g.field(o, s, e) for n, o, s in EHDR[cls][1]}
        for i, p in enumerate(items(I, attr(I, elf, 'phdrs'), 'program headers', ph)):
            fields(I, g, f'phdrs[{i}]', p, PHDR[cls], nadd(f['e_phoff'], i * PHDR[cls][0]), e)
        for i, s in enumerate(items(I, attr(I, elf, 'shdrs'), 'section headers', sh)):
            fields(I, g, f'shdrs[{i}]', s, SHDR[cls], nadd(f['e_shoff'], i * SHDR[cls][0]), e)
    return img(), body


def section_image(cls, data, secs, shstrndx, offsets=False):
    """Header and section table at a known place; secs: dicts of known fields."""
    g = Image('file')
    e = ENDIAN[data]
    ident(g, cls, data)
    put(g, EHDR[cls], 0, e, e_phnum=0, e_phentsize=PHDR[cls][0], e_shnum=len(secs), e_shentsize=SHDR[cls][0], e_shoff=0x100, e_shstrndx=shstrndx)
    for i, s in enumerate(secs):
        put(g, SHDR[cls], 0x100 + i * SHDR[cls][0], e, **s)
    return g


def shfield(g, cls, data, i, name):
    o, s = {n: (o, s) for n, o, s in SHDR[cls][1]}[name]
    return g.field(0x100 + i * SHDR[cls][0] + o, s, ENDIAN[data])


def text(x):
    return AbsStr((Op(x, ''),))


def contents(cls, data):
    g = section_image(cls, data, [{}, {}, {}], 2)

    def body(I, make):
        elf = make()
        sh = items(I, attr(I, elf, 'shdrs'), 'section headers', 3)
        for rnd in range(2):
            for i, s in enumerate(sh):
                off = shfield(g, cls, data, i, 'sh_offset')
                expect(I, f'data of section {i}', I.attr(s, 'data'), Win(g, off, shfield(g, cls, data, i, 'sh_size')))
                a = nadd(shfield(g, cls, data, 2, 'sh_offset'), shfield(g, cls, data, i, 'sh_name'))
                expect(I, f'name of section {i}', I.attr(s, 'name'), text(('cstr', g.name, canon(a))))
    return g, body


def named(cls, data, names, queries):
    tab = b'\0'
    secs = []
    for n in names:
        at = tab.find(n.encode() + b'\0')       # a name may be the end of another one
        secs.append({'sh_name': at if at >= 0 else len(tab)})
        if at < 0:
            tab += n.encode() + b'\0'
    secs.append({'sh_name': len(tab), 'sh_offset': 0x1000})
    tab += b'.shstrtab\0'
    secs[-1]['sh_size'] = len(tab)
    secs[-1]['sh_type'] = 3
    g = section_image(cls, data, secs, len(secs) - 1)
    g.put(0x1000, tab)

    def body(I, make):
        elf = make()
        sh = items(I, attr(I, elf, 'shdrs'), 'section headers', len(secs))
        for i, n in enumerate(list(names) + ['.shstrtab']):
            expect(I, f'name of section {i}', I.attr(sh[i], 'name'), n)
        f = attr(I, elf, 'lookup_shdr')
        for q in queries:
            got = I.call(f, [q], {})
            want = sh[names.index(q)] if q in names else None
            if want is None and got is not None:
                raise Bad(f'looking up section {q!r} that does not exist gives a section')
            if want is not None and got is not want and not (q == '.dup' and isinstance(got, Inst)):
                raise Bad(f'looking up section {q!r} does not give that section')
    return g, body


def symbols(cls, data, types):
    """types: list of (sh_type, entries or None, link)"""
    sz = SYM[cls][0]
    secs = []
    for t, n, link in types:
        d = {'sh_type': t}
        if n is not None:
            d.update(sh_size=n * sz, sh_link=link, sh_entsize=sz)
        secs.append(d)
    g = section_image(cls, data, secs, 0)
    e = ENDIAN[data]

    def body(I, make):
        elf = make()
        want = []
        for i, (t, n, link) in enumerate(types):
            if t in (2, 11):
                want += [(i, k, link) for k in range(n)]
        for rnd in range(2):
            syms = items(I, attr(I, elf, 'symbols'), 'symbols', len(want))
            for s, (i, k, link) in zip(syms, want):
                base = nadd(shfield(g, cls, data, i, 'sh_offset'), k * sz)
                fields(I, g, f'symbol {k} of section {i}', s, SYM[cls], base, e)
                f = {n: g.field(nadd(base, o), z, e) for n, o, z in SYM[cls][1]}
                expect(I, 'symbol type', attr(I, s, 'type'), I.binop('&', f['st_info'], 15))
                expect(I, 'symbol binding', attr(I, s, 'bind'), I.binop('>>', f['st_info'], 4))
                expect(I, 'symbol visibility', attr(I, s, 'visibility'), I.binop('&', f['st_other'], 3))
                a = nadd(shfield(g, cls, data, link, 'sh_offset'), f['st_name'])
                expect(I, 'symbol name', attr(I, s, 'name'), text(('cstr', g.name, canon(a))))
    return g, body


def refused(I, make, what):
    try:
        make()
    except PyExc as e:
        if fatal(I, e):
            return
        raise Bad(f'{what} ends in {excname(e)} instead of an error report')
    raise Bad(f'{what} is accepted')


def foreign(kind, i):
    g = Image('file')
    m = bytearray(b'\x7fELF')
    cls, data = 1, 1
    if kind == 'magic':
        m[i] ^= 1
    elif kind == 'class':
        cls = i
    else:
        data = i
    ident(g, cls, data, bytes(m))
    return g, lambda I, make: refused(I, make, f'a file with {kind} byte {i}' if kind != 'magic' else f'a file whose magic byte {i} is wrong')


def cut(cls, data):
    g = section_image(cls, data, [{'sh_type': 0, 'sh_size': 8}, {'sh_type': 2, 'sh_size': SYM[cls][0] * 2, 'sh_link': 2}, {'sh_type': 3, 'sh_size': 64}], 2)
    put(g, EHDR[cls], 0, ENDIAN[data], e_phnum=1)

    def body(I, make):
        f = I.file
        try:
            elf = make()
            if f.cut:
                raise Bad('a file cut off in its headers is accepted')
            sh = items(I, attr(I, elf, 'shdrs'), 'section headers', 3)
            if I.ask('what', None):
                I.attr(sh[0], 'data')
            elif I.ask('what2', None):
                I.attr(sh[0], 'name')
            else:
                attr2 = I.attr(elf, 'symbols')
                I.x_len(attr2)
            if f.cut:
                raise Bad('the data of a section the file does not contain is returned')
        except PyExc as e:
            if not f.cut or not fatal(I, e):
                raise Bad(f'a file cut off at read {f.reads} ends in {excname(e)} instead of an error report')
    return g, body


NAMES = {'SHT': 'SHT_NAME_MAP', 'STB': 'STB_NAME_MAP', 'STT': 'STT_NAME_MAP', 'STV': 'STV_NAME_MAP'}


def const(P, prefix):
    """Every constant of the specification that the module defines has that value."""
    spec = constants()
    m = P.modules['elf']
    vals = {}
    n = 0

    def body(I):
        nonlocal n
        for name in m.assigns:
            if not name.startswith(prefix) or name not in spec:
                continue
            try:
                v = I.modname(name, m)
            except Cannot:
                continue
            if not isinstance(v, int):
                continue
            n += 1
            vals[name] = v
            if v != spec[name]:
                raise Bad(f'{name} is {v:#x}, the specification says {spec[name]:#x}')
    ex = Explorer(1)
    res = []

    def go(choose):
        try:
            body(Interp(P, choose, {}))
        except Bad as e:
            res.append((REFUTED, str(e), 'elf'))
        except (Cannot, PyExc) as e:
            res.append((UNKNOWN, str(e)))
    ex.run(go)
    if res:
        return res[0]
    return PROVED, f'{n} constants'


def maps(P, prefix):
    """Entries of the name maps name the number they stand for."""
    spec = constants()
    m = P.modules['elf']
    name = prefix + '_NAME_MAP'
    if name not in m.assigns:
        return UNKNOWN, f'no {name}'
    res = []

    def go(choose):
        I = Interp(P, choose, {})
        try:
            d = I.modname(name, m)
            if not isinstance(d, dict):
                res.append((UNKNOWN, 'not a dict'))
                return
            k = 0
            for key, v in d.items():
                if not isinstance(v, str) or not isinstance(key, int):
                    continue
                for part in v.split('/'):
                    q = part if part.startswith(prefix) else f'{prefix}_{part}'
                    if q in spec:
                        k += 1
                        if spec[q] != key:
                            res.append((REFUTED, f'{name} calls {key:#x} {v}, which the specification numbers {spec[q]:#x}', f'elf.{name}'))
                            return
            res.append((PROVED, f'{k} names'))
        except (Cannot, PyExc) as e:
            res.append((UNKNOWN, str(e)))
    Explorer(1).run(go)
    return res[0]


def check(c):
    P = Project()
    m = P.modules.get('elf')
    if m is None or 'Elf' not in m.classes:
        raise AnchorMissing('elf.Elf')

    def ob(oid, desc, what, **k):
        def go():
            r = run(P, what[0], what[1], **k)
            return r
        c.ob('C18.' + oid, desc, go)
    kinds = [(a, b) for a in (1, 2) for b in (1, 2)]
    for cl, d in kinds:
        t = f'{32 * cl}-bit {ENDIAN[d]} endian'
        k = f'{32 * cl}{ENDIAN[d][0]}'
        ob(f'header.{k}', f'{t}: file, program and section headers', header(cl, d, 2, 3))
        ob(f'none.{k}', f'{t}: no program and no section headers', header(cl, d, 0, 0))
        ob(f'one.{k}', f'{t}: section headers only', header(cl, d, 0, 1))
        ob(f'prog.{k}', f'{t}: program headers only', header(cl, d, 1, 0))
        ob(f'contents.{k}', f'{t}: section names and data', contents(cl, d))
        ob(f'lookup.{k}', f'{t}: looking up sections by name', named(cl, d, ['', '.text', '.text.x', '.dup', 'text', '.dup', '.rela.debug_info', '.debug_info'],
           ['.text', '.text.x', '.dup', 'text', '.debug_info', '.rela.debug_info', '.debug', '.tex', '.x', '.rela', '.missing', '.text.xy', '.debug_info2']))
        ob(f'symbols.{k}', f'{t}: symbols of all symbol tables', symbols(cl, d, [(0, None, None), (1, None, None), (2, 2, 4), (11, 1, 5), (3, None, None), (3, None, None)]))
        ob(f'nosyms.{k}', f'{t}: no symbol table', symbols(cl, d, [(0, None, None), (1, 2, 3), (8, 1, 3), (3, None, None), (7, 1, 0), (4, 1, 0), (9, 1, 0), (18, 1, 0)]))
        ob(f'lastsyms.{k}', f'{t}: symbol table is the last section', symbols(cl, d, [(0, None, None), (3, None, None), (2, 2, 1)]))
        ob(f'firstsyms.{k}', f'{t}: symbol tables first', symbols(cl, d, [(2, 1, 2), (11, 2, 3), (3, None, None), (3, None, None)]))
        ob(f'emptysyms.{k}', f'{t}: empty symbol table', symbols(cl, d, [(0, None, None), (2, 0, 3), (2, 1, 3), (3, None, None)]))
        ob(f'cut.{k}', f'{t}: file cut off', cut(cl, d), short=True)
    for i in range(4):
        ob(f'magic.{i}', f'foreign file, magic byte {i}', foreign('magic', i))
    for i in (0, 3, 255):
        ob(f'class.{i}', f'foreign file, class {i}', foreign('class', i))
        ob(f'data.{i}', f'foreign file, byte order {i}', foreign('data', i))
    for p in ('SHT_', 'SHF_', 'STT_', 'STB_', 'STV_', 'SHN_'):
        c.ob(f'C18.const.{p[:-1]}', f'{p}* constants', lambda p=p: const(P, p))
    for p in ('SHT', 'STT', 'STB', 'STV'):
        c.ob(f'C18.names.{p}', f'names of {p}_* values', lambda p=p: maps(P, p))
    c.count('files', 10 * len(kinds) + 10)


if __name__ == '__main__':
    main('C18', RULE, check, ['Python struct, int.from_bytes and file semantics; table entry sizes are those of the file class'], 10, 700)
