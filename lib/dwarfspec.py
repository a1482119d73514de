"""A small DWARF writer with unknown attribute bytes, and the value every form prescribes."""
from absint import Bits, N, frombits, nadd, tobits
from binimg import Image, Win
from elfspec import EHDR, ENDIAN, PHDR, SHDR, ident, put

BASES = {'.debug_info': 0x2000, '.debug_abbrev': 0x8000, '.debug_str': 0x10000, '.debug_line_str': 0x14000, '.shstrtab': 0x1000}


def uleb(v):
    out = []
    while True:
        b = v & 0x7f
        v >>= 7
        if v:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def sleb(v):
    out = []
    while True:
        b = v & 0x7f
        v >>= 7
        if v == 0 and not b & 0x40 or v == -1 and b & 0x40:
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)


class Leb:
    """n unknown bytes forming a LEB128 number."""

    def __init__(self, n):
        self.n = n


class Raw:
    """n unknown bytes (n may be None: as many as the unknown value before says, nothing is placed)."""

    def __init__(self, n):
        self.n = n


class Dwarf:
    """Builder of .debug_info and .debug_abbrev."""

    def __init__(self, cls, data, sections=('.debug_info', '.debug_abbrev', '.debug_str', '.debug_line_str')):
        self.cls, self.data, self.endian = cls, data, ENDIAN[data]
        self.img = Image('file')
        self.sections = list(sections)
        self.pos = {'.debug_info': 0, '.debug_abbrev': 0}

    def emit(self, sec, *parts):
        """Append known bytes, Leb or Raw parts; -> offset in the section."""
        start = self.pos[sec]
        for p in parts:
            at = BASES[sec] + self.pos[sec]
            if isinstance(p, bytes):
                self.img.put(at, p)
                self.pos[sec] += len(p)
            elif isinstance(p, Leb):
                self.img.leb(at, p.n)
                self.pos[sec] += p.n
            elif p.n is not None:
                self.pos[sec] += p.n
        return start

    def num(self, v, size):
        return v.to_bytes(size, self.endian)

    def unit(self, version, fmt64, asize, abbrev, unit_type=1, extra=None, body=lambda d: None):
        """One unit; body(d) emits its entries. -> (offset of the unit, offset of the first entry)"""
        osz = 8 if fmt64 else 4
        start = self.pos['.debug_info']
        at = BASES['.debug_info'] + start
        self.pos['.debug_info'] += 12 if fmt64 else 4
        first = self.pos['.debug_info']
        self.emit('.debug_info', self.num(version, 2))
        if version >= 5:
            self.emit('.debug_info', bytes([unit_type, asize]), self.num(abbrev, osz))
            if unit_type in (4, 5):
                self.emit('.debug_info', Raw(8))
            elif unit_type in (2, 6):
                self.emit('.debug_info', Raw(8), Raw(osz))
        else:
            self.emit('.debug_info', self.num(abbrev, osz), bytes([asize]))
        die = self.pos['.debug_info']
        body(self)
        ln = self.pos['.debug_info'] - first
        if fmt64:
            self.img.put(at, b'\xff\xff\xff\xff' + self.num(ln, 8))
        else:
            self.img.put(at, self.num(ln, 4))
        return start, die

    def finish(self):
        tab = b'\0'
        secs = [{'sh_name': 0, 'sh_type': 0, 'sh_offset': 0, 'sh_size': 0}]
        for s in self.sections + ['.shstrtab']:
            secs.append({'sh_name': len(tab), 'sh_type': 3 if s == '.shstrtab' else 1, 'sh_offset': BASES[s],
                         'sh_size': self.pos.get(s, 0x1000), 'sh_flags': 0, 'sh_link': 0})
            tab += s.encode() + b'\0'
        secs[-1]['sh_size'] = len(tab)
        g = self.img
        g.put(BASES['.shstrtab'], tab)
        ident(g, self.cls, self.data)
        put(g, EHDR[self.cls], 0, self.endian, e_phnum=0, e_phentsize=PHDR[self.cls][0], e_shnum=len(secs), e_shentsize=SHDR[self.cls][0], e_shoff=0x100,
            e_shstrndx=len(secs) - 1)
        for i, s in enumerate(secs):
            put(g, SHDR[self.cls], 0x100 + i * SHDR[self.cls][0], self.endian, **s)
        return g

    def field(self, off, size, signed=False):
        return self.img.field(nadd(BASES['.debug_info'], off), size, self.endian, signed)

    def win(self, off, n):
        return Win(self.img, nadd(BASES['.debug_info'], off), n)

    def uleb(self, off, n, sec='.debug_info'):
        return frombits(Bits(self.img.lebbits(BASES[sec] + off, n)))

    def sleb(self, I, off, n, sec='.debug_info'):
        b = self.img.lebbits(BASES[sec] + off, n)
        top = b[-1]
        return frombits(Bits(b, top)) if isinstance(top, int) else Bits(b, top)


F = {'addr': 0x01, 'block2': 0x03, 'block4': 0x04, 'data2': 0x05, 'data4': 0x06, 'data8': 0x07, 'string': 0x08, 'block': 0x09, 'block1': 0x0a,
     'data1': 0x0b, 'flag': 0x0c, 'sdata': 0x0d, 'strp': 0x0e, 'udata': 0x0f, 'ref_addr': 0x10, 'ref1': 0x11, 'ref2': 0x12, 'ref4': 0x13, 'ref8': 0x14,
     'ref_udata': 0x15, 'indirect': 0x16, 'sec_offset': 0x17, 'exprloc': 0x18, 'flag_present': 0x19, 'strx': 0x1a, 'addrx': 0x1b, 'ref_sup4': 0x1c,
     'strp_sup': 0x1d, 'data16': 0x1e, 'line_strp': 0x1f, 'ref_sig8': 0x20, 'implicit_const': 0x21, 'loclistx': 0x22, 'rnglistx': 0x23, 'ref_sup8': 0x24,
     'strx1': 0x25, 'strx2': 0x26, 'strx3': 0x27, 'strx4': 0x28, 'addrx1': 0x29, 'addrx2': 0x2a, 'addrx3': 0x2b, 'addrx4': 0x2c}
FIXED = {'data1': 1, 'data2': 2, 'data4': 4, 'data8': 8, 'data16': 16, 'flag': 1, 'ref_sig8': 8, 'ref_sup4': 4, 'ref_sup8': 8, 'strx1': 1, 'strx2': 2, 'strx3': 3,
         'strx4': 4, 'addrx1': 1, 'addrx2': 2, 'addrx3': 3, 'addrx4': 4}
REFS = {'ref1': 1, 'ref2': 2, 'ref4': 4, 'ref8': 8}
OFFSETS = ('strp', 'line_strp', 'strp_sup', 'sec_offset', 'ref_addr')
ULEBS = ('udata', 'strx', 'loclistx', 'rnglistx', 'addrx')
BLOCKS = {'block1': 1, 'block2': 2, 'block4': 4}
LEBS = (1, 2, 3, 5, 10)
