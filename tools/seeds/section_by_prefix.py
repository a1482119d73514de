PROPERTY = 'C18'
ENTRY = 'elf7'
NEEDS = 'an ELF file with a section whose name starts with the requested one'
BREAKS = 'another section than the named one is returned'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


from esp_idf_size.elf import Elf
data = proj.elf_bytes([('.text_x', 1, 6, 0x40374000, 0x10), ('.text', 1, 6, 0x40375000, 0x20)], [])
fn = os.path.join(S, 'a.elf')
with open(fn, 'wb') as f:
    f.write(data)
e = Elf(fn)
assert e.lookup_shdr('.text').sh_size == 0x20
'''
