PROPERTY = 'C10'
ENTRY = 'spl2'
NEEDS = 'a section crossing the end of its region inside the padding behind an input section'
BREAKS = 'the padding before the boundary is charged as contents, and the rest becomes negative'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


secs = [('.iram0.text', 0x40377F00, 0x180, [proj.isec('.d', 0x40377F00, 0xF0, 'lib/liba.a(a.obj)', 0x40),
         proj.isec('.e', 0x40378030, 0x50, 'lib/liba.a(b.obj)')])]
m = memorymap.get(proj.write(S, proj.map_text(secs)))
r = [s['archives']['lib/liba.a']['size'] for t in m['memory_types'].values() for s in t['sections'].values()]
assert r == [0xF0, 0x50], r
'''
