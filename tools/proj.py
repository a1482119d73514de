"""Builds small synthetic ESP-IDF build directories (link map, optional ELF, project description)."""
import json
import os
import struct

REGIONS_S3 = [
    ('iram0_0_seg', 0x40370000, 0x70000, 'xr'),
    ('dram0_0_seg', 0x3FC88000, 0x68000, 'rw'),
    ('iram0_2_seg', 0x42000020, 0x7FFFE0, 'xr'),
    ('drom0_0_seg', 0x3C000020, 0x1FFFFE0, 'r'),
    ('rtc_iram_seg', 0x600FE000, 0x1FE8, 'xrw'),
    ('*default*', 0, 0xFFFFFFFF, ''),
]


def isec(name, addr, size, where, fill=0):
    """where: 'path/lib.a(obj.o)' or 'obj.o'"""
    return ('isec', name, addr, size, where, fill)


def map_text(sections, regions=REGIONS_S3, target='esp32s3', crt=None, extra=''):
    """sections: [(name, addr, size, [isec(...) | raw line])]"""
    out = ['Archive member included to satisfy reference by file (symbol)', '', 'Memory Configuration', '',
           'Name             Origin             Length             Attributes']
    for n, o, l, a in regions:
        out.append(f'{n:16} 0x{o:016x} 0x{l:016x} {a}'.rstrip())
    out += ['', 'Linker script and memory map', '']
    if target:
        out += [f'                0x0000000000000001                IDF_TARGET_{target.upper()} = 0x0', '']
    for name, addr, size, items in sections:
        if len(name) < 16:
            out.append(f'{name:15} 0x{addr:016x} {hex(size):>10}')
        else:
            out += [name, f'                0x{addr:016x} {hex(size):>10}']
        for it in items:
            if isinstance(it, str):
                out.append(it)
                continue
            _, n, a, s, w, fill = it
            if len(n) < 14:
                out.append(f' {n:14} 0x{a:016x} {hex(s):>10} {w}')
            else:
                out += [f' {n}', f'                0x{a:016x} {hex(s):>10} {w}']
            if fill:
                out.append(f' *fill*         0x{a + s:016x} {hex(fill):>10} ')
        out.append('')
    if extra:
        out.append(extra)
    out += ['Cross Reference Table', '', 'Symbol                                            File']
    for sym, files in (crt or {}).items():
        out.append(f'{sym:50}{files[0]}')
        out += [' ' * 50 + f for f in files[1:]]
    return '\n'.join(out) + '\n'


def elf_bytes(sections, symbols, bits=32, endian='<'):
    """sections: [(name, type, flags, addr, size)], symbols: [(name, value, size, info, shndx)]"""
    shstr, strtab = b'\0', b'\0'
    is64 = bits == 64
    syms = struct.pack(endian + ('IBBHQQ' if is64 else 'IIIBBH'), 0, 0, 0, 0, 0, 0)
    for n, v, s, info, shndx in symbols:
        off = len(strtab)
        strtab += n.encode() + b'\0'
        if is64:
            syms += struct.pack(endian + 'IBBHQQ', off, info, 0, shndx, v, s)
        else:
            syms += struct.pack(endian + 'IIIBBH', off, v, s, info, 0, shndx)
    ehsize = 64 if is64 else 52
    body = b''
    hdrs = [(0, 0, 0, 0, 0, 0, 0, 0, 0, 0)]
    nsec = len(sections) + 4

    def name(n):
        nonlocal shstr
        off = len(shstr)
        shstr += n.encode() + b'\0'
        return off
    for n, t, f, a, sz in sections:
        off = ehsize + len(body)
        if t != 8:
            body += b'\0' * sz
        hdrs.append((name(n), t, f, a, off, sz, 0, 0, 4, 0))
    n1, n2, n3 = name('.symtab'), name('.strtab'), name('.shstrtab')
    while len(body) % 8:
        body += b'\0'
    off = ehsize + len(body)
    body += syms
    hdrs.append((n1, 2, 0, 0, off, len(syms), len(sections) + 2, 1, 4, 24 if is64 else 16))
    off = ehsize + len(body)
    body += strtab
    hdrs.append((n2, 3, 0, 0, off, len(strtab), 0, 0, 1, 0))
    off = ehsize + len(body)
    body += shstr
    hdrs.append((n3, 3, 0, 0, off, len(shstr), 0, 0, 1, 0))
    while len(body) % 8:
        body += b'\0'
    shoff = ehsize + len(body)
    for h in hdrs:
        body += struct.pack(endian + ('IIQQQQIIQQ' if is64 else 'IIIIIIIIII'), *h)
    ident = b'\x7fELF' + bytes([2 if is64 else 1, 1 if endian == '<' else 2, 1]) + b'\0' * 9
    eh = struct.pack(endian + ('HHIQQQIHHHHHH' if is64 else 'HHIIIIIHHHHHH'), 2, 94, 1, 0x40370000, 0, shoff, 0,
                     ehsize, 56 if is64 else 32, 0, 64 if is64 else 40, nsec, nsec - 1)
    return ident + eh + body


def write(d, text, name='app', elf=None, desc=None):
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, name + '.map')
    with open(fn, 'w') as f:
        f.write(text)
    if elf is not None:
        with open(os.path.join(d, name + '.elf'), 'wb') as f:
            f.write(elf)
        with open(os.path.join(d, 'project_description.json'), 'w') as f:
            json.dump(dict({'target': 'esp32s3', 'app_elf': name + '.elf', 'build_dir': d,
                            'build_component_info': {}}, **(desc or {})), f)
    return fn


def std_sections():
    return [
        ('.iram0.text', 0x40374000, 0x3000, [
            isec('.iram1.0', 0x40374000, 0x1000, 'esp-idf/a/liba.a(one.c.obj)', 0x10),
            isec('.iram1.1', 0x40375010, 0x500, 'esp-idf/a/liba.a(two.c.obj)'),
            isec('.iram1.2', 0x40375510, 0x1AF0, 'esp-idf/b/libb.a(one.c.obj)'),
        ]),
        ('.dram0.data', 0x3FC91000, 0x800, [
            isec('.data.x', 0x3FC91000, 0x300, 'esp-idf/a/liba.a(one.c.obj)'),
            isec('.data.y', 0x3FC91300, 0x500, 'esp-idf/c/libc.a(three.c.obj)'),
        ]),
        ('.dram0.bss', 0x3FC91800, 0x400, [
            isec('.bss.z', 0x3FC91800, 0x400, 'esp-idf/b/libb.a(two.c.obj)'),
        ]),
        ('.flash.text', 0x42000020, 0x2000, [
            isec('.text.f', 0x42000020, 0x1800, 'esp-idf/a/liba.a(two.c.obj)'),
            isec('.text.g', 0x42001820, 0x800, 'main.c.obj'),
        ]),
        ('.flash.rodata', 0x3C000020, 0x1000, [
            isec('.rodata.h', 0x3C000020, 0x1000, 'esp-idf/c/libc.a(three.c.obj)'),
        ]),
    ]
