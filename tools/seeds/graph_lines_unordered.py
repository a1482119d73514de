PROPERTY = 'C04'
ENTRY = 'ord5'
NEEDS = 'a dependency through several symbols and another hash seed'
BREAKS = 'the lines of the graph are in hash order'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


crt = {f'fn{i}': ['esp-idf/a/liba.a(one.c.obj)', 'esp-idf/b/libb.a(one.c.obj)'] for i in range(12)}
elf = proj.elf_bytes([('.iram0.text', 1, 6, 0x40374000, 0x3000)],
                     [(f'fn{i}', 0x40374000 + 16 * i, 16, 0x12, 1) for i in range(12)])
fn = proj.write(S, proj.map_text(proj.std_sections(), crt=crt), elf=elf)
outs = set()
for seed in '1 2 3 4 5 6'.split():
    p = cli('--archive-dependencies', '--dep-symbols', '--format', 'dot', fn, env={'PYTHONHASHSEED': seed})
    assert p.returncode == 0, p.stderr
    assert len(p.stdout.splitlines()) > 4, p.stdout
    outs.add(p.stdout)
assert len(outs) == 1
'''
