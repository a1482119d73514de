PROPERTY = 'C08'
ENTRY = 'use1'
NEEDS = 'a section starting exactly at the end of a memory region'
BREAKS = 'the section behind the region is charged to it as if it lay inside'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


t1 = [('dram0_0_seg', 0x3FC88000, 0x400, 'rw'), ('*default*', 0, 0xFFFFFFFF, '')]
s = [('.dram0.data', 0x3FC88000, 0x400, [proj.isec('.d', 0x3FC88000, 0x400, 'lib/liba.a(a.obj)')]),
     ('.dram0.bss', 0x3FC88400, 0x100, [proj.isec('.b', 0x3FC88400, 0x100, 'lib/liba.a(b.obj)')])]
m = memorymap.get(proj.write(S, proj.map_text(s, t1)))
names = [n for t in m['memory_types'].values() for n in t['sections']]
assert '.dram0.data' in names and '.dram0.bss' not in names, names
'''
