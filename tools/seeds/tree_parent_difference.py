PROPERTY = 'C30'
ENTRY = 'shw1'
NEEDS = 'a comparison shown as a tree, where an archive and its object file differ by different amounts'
BREAKS = 'the object file is shown with the difference of its archive'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


sec = lambda a, b: [('.dram0.data', 0x3FC88000, a + b, [proj.isec('.d', 0x3FC88000, a, 'lib/liba.a(a.obj)'),
                    proj.isec('.e', 0x3FC88000 + a, b, 'lib/liba.a(b.obj)')])]
c = proj.write(S + '/c', proj.map_text(sec(0x400, 0x100)))
r = proj.write(S + '/r', proj.map_text(sec(0x3F0, 0x0F0)))
p = cli('--format', 'tree', '--diff', r, c)
assert p.returncode == 0, p.stderr
rows = [l for l in p.stdout.splitlines() if 'a.obj' in l]
assert rows and all('+16' in l for l in rows), p.stdout
'''
