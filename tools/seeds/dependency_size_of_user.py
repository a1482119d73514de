PROPERTY = 'C23'
ENTRY = 'dep4'
NEEDS = 'a dependency between archives of different sizes'
BREAKS = 'an archive is listed with the size of the archive that uses it'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


crt = {'fn1': ['esp-idf/a/liba.a(one.c.obj)', 'esp-idf/b/libb.a(one.c.obj)']}
elf = proj.elf_bytes([('.iram0.text', 1, 6, 0x40374000, 0x3000)], [('fn1', 0x40374000, 16, 0x12, 1)])
fn = proj.write(S, proj.map_text(proj.std_sections(), crt=crt), elf=elf)
p = cli('--archive-dependencies', '--format', 'raw', fn)
assert p.returncode == 0, p.stderr
d = json.loads(p.stdout)
m = memorymap.get(fn)
sizes = {}
for t in m['memory_types'].values():
    for s in t['sections'].values():
        for k, a in s['archives'].items():
            sizes[k] = sizes.get(k, 0) + a['size']
seen = []


def walk(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in sizes and isinstance(v, dict) and 'size' in v:
                seen.append((k, v['size']))
            walk(v)
    elif isinstance(x, list):
        for v in x:
            walk(v)


walk(d)
assert len(seen) >= 2 and all(sizes[k] == v for k, v in seen), (sizes, seen)
'''
