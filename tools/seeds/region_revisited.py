PROPERTY = 'C26'
ENTRY = 'trm4'
NEEDS = 'a section starting exactly at the end of a region'
BREAKS = 'the division of sections over regions does not end'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


regions = [('dram0_0_seg', 0x3FC88000, 0x400, 'rw'), ('*default*', 0, 0xFFFFFFFF, '')]
s = [('.dram0.data', 0x3FC88000, 0x400, [proj.isec('.d', 0x3FC88000, 0x400, 'lib/liba.a(a.obj)')]),
     ('.dram0.bss', 0x3FC88400, 0x100, [proj.isec('.b', 0x3FC88400, 0x100, 'lib/liba.a(b.obj)')])]
fn = proj.write(S, proj.map_text(s, regions))
r = subprocess.run([sys.executable, '-m', 'esp_idf_size', fn], capture_output=True, text=True, timeout=30)
assert r.returncode == 0, r.stderr
'''
