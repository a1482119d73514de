"""The ELF format: field offsets and sizes per class, and an abstract ELF file builder."""
import json
import os

EHDR = {
    1: (52, [('e_type', 16, 2), ('e_machine', 18, 2), ('e_version', 20, 4), ('e_entry', 24, 4), ('e_phoff', 28, 4), ('e_shoff', 32, 4), ('e_flags', 36, 4),
             ('e_ehsize', 40, 2), ('e_phentsize', 42, 2), ('e_phnum', 44, 2), ('e_shentsize', 46, 2), ('e_shnum', 48, 2), ('e_shstrndx', 50, 2)]),
    2: (64, [('e_type', 16, 2), ('e_machine', 18, 2), ('e_version', 20, 4), ('e_entry', 24, 8), ('e_phoff', 32, 8), ('e_shoff', 40, 8), ('e_flags', 48, 4),
             ('e_ehsize', 52, 2), ('e_phentsize', 54, 2), ('e_phnum', 56, 2), ('e_shentsize', 58, 2), ('e_shnum', 60, 2), ('e_shstrndx', 62, 2)]),
}
PHDR = {
    1: (32, [('p_type', 0, 4), ('p_offset', 4, 4), ('p_vaddr', 8, 4), ('p_paddr', 12, 4), ('p_filesz', 16, 4), ('p_memsz', 20, 4), ('p_flags', 24, 4), ('p_align', 28, 4)]),
    2: (56, [('p_type', 0, 4), ('p_flags', 4, 4), ('p_offset', 8, 8), ('p_vaddr', 16, 8), ('p_paddr', 24, 8), ('p_filesz', 32, 8), ('p_memsz', 40, 8), ('p_align', 48, 8)]),
}
SHDR = {
    1: (40, [('sh_name', 0, 4), ('sh_type', 4, 4), ('sh_flags', 8, 4), ('sh_addr', 12, 4), ('sh_offset', 16, 4), ('sh_size', 20, 4), ('sh_link', 24, 4),
             ('sh_info', 28, 4), ('sh_addralign', 32, 4), ('sh_entsize', 36, 4)]),
    2: (64, [('sh_name', 0, 4), ('sh_type', 4, 4), ('sh_flags', 8, 8), ('sh_addr', 16, 8), ('sh_offset', 24, 8), ('sh_size', 32, 8), ('sh_link', 40, 4),
             ('sh_info', 44, 4), ('sh_addralign', 48, 8), ('sh_entsize', 56, 8)]),
}
SYM = {
    1: (16, [('st_name', 0, 4), ('st_value', 4, 4), ('st_size', 8, 4), ('st_info', 12, 1), ('st_other', 13, 1), ('st_shndx', 14, 2)]),
    2: (24, [('st_name', 0, 4), ('st_info', 4, 1), ('st_other', 5, 1), ('st_shndx', 6, 2), ('st_value', 8, 8), ('st_size', 16, 8)]),
}
ENDIAN = {1: 'little', 2: 'big'}


def constants():
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'constants.json')) as f:
        return json.load(f)


def put(img, table, base, endian, **values):
    """Set known fields of a structure."""
    f = {n: (o, s) for n, o, s in table[1]}
    for n, v in values.items():
        o, s = f[n]
        img.put(base + o, (v % (1 << (8 * s))).to_bytes(s, endian))


def ident(img, cls, data, magic=b'\x7fELF'):
    img.put(0, magic)
    img.put(4, bytes([cls, data]))
