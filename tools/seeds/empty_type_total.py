PROPERTY = 'C13'
ENTRY = 'fig3'
NEEDS = 'a comparison where the total of a memory type differs'
BREAKS = 'the reference usage in percent is computed with the current total'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


t1 = [('dram0_0_seg', 0x3FC88000, 0x1000, 'rw'), ('*default*', 0, 0xFFFFFFFF, '')]
t2 = [('dram0_0_seg', 0x3FC88000, 0x800, 'rw'), ('*default*', 0, 0xFFFFFFFF, '')]
sec = lambda n: [('.dram0.data', 0x3FC88000, n, [proj.isec('.d', 0x3FC88000, n, 'lib/liba.a(a.obj)')])]
c = proj.write(S + '/c', proj.map_text(sec(0x400), t1))
r = proj.write(S + '/r', proj.map_text(sec(0x100), t2))
p = cli('--format', 'csv', '--diff', r, c)
assert p.returncode == 0, p.stderr
row = [l for l in p.stdout.splitlines() if 'RAM' in l and '1024' in l]
assert row and '25.0' in row[0] and '+12.5' in row[0], p.stdout
'''
