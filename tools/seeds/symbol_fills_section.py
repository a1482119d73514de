PROPERTY = 'C25'
ENTRY = 'sym5'
NEEDS = 'a symbol that ends exactly at the end of its input section'
BREAKS = 'the symbol is rejected as not fitting'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


secs = [('.iram0.text', 0x40374000, 0x100, [proj.isec('.text.f', 0x40374000, 0x100, 'lib/liba.a(a.obj)')])]
elf = proj.elf_bytes([('.iram0.text', 1, 6, 0x40374000, 0x100)], [('f', 0x40374000, 0x100, 0x12, 1)])
m = memorymap.get(proj.write(S, proj.map_text(secs), elf=elf))
sy = [k for t in m['memory_types'].values() for s in t['sections'].values() for a in s['archives'].values()
      for o in a['object_files'].values() for k, v in o['symbols'].items() if v['size'] == 0x100]
assert sy == ['f()'], sy
'''
