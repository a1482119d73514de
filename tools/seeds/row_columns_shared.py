PROPERTY = 'C12'
ENTRY = 'sum4'
NEEDS = 'the symbol report with two symbols in the same memory type'
BREAKS = 'all rows share one set of section columns'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


secs = [('.iram0.text', 0x40374000, 0x30, [proj.isec('.text.f', 0x40374000, 0x10, 'lib/liba.a(a.obj)'),
        proj.isec('.text.g', 0x40374010, 0x20, 'lib/liba.a(b.obj)')])]
elf = proj.elf_bytes([('.iram0.text', 1, 6, 0x40374000, 0x30)], [('f', 0x40374000, 0x10, 0x12, 1), ('g', 0x40374010, 0x20, 0x12, 1)])
m = memorymap.get(proj.write(S, proj.map_text(secs), elf=elf))
r = memorymap.get_symbols_summary(m, {'archive_details': 'liba.a', 'unify': False, 'diff': None, 'show_unchanged': False})
for k, v in r.items():
    assert sum(t['size'] for t in v['memory_types'].values()) == v['size'], r
assert sorted(v['size'] for v in r.values()) == [0x10, 0x20]
'''
