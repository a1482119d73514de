PROPERTY = 'C24'
ENTRY = 'img2'
NEEDS = 'an ELF section with flags but not allocated'
BREAKS = 'a section that is not loaded counts for the image'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


secs = [('.iram0.text', 0x40374000, 0x100, [proj.isec('.text.f', 0x40374000, 0x100, 'lib/liba.a(a.obj)')]),
        ('.note', 0x40375000, 0x40, [proj.isec('.n', 0x40375000, 0x40, 'lib/liba.a(a.obj)')])]
elf = proj.elf_bytes([('.iram0.text', 1, 6, 0x40374000, 0x100), ('.note', 1, 0x30, 0x40375000, 0x40)], [])
m = memorymap.get(proj.write(S, proj.map_text(secs), elf=elf))
assert m['image_size'] == 0x100, hex(m['image_size'])
'''
