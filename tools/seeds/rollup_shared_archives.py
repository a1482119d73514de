PROPERTY = 'C09'
ENTRY = 'rol3'
NEEDS = 'two output sections with input sections of archives'
BREAKS = 'archives of earlier output sections leak into later ones'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


m = memorymap.get(proj.write(S, proj.map_text(proj.std_sections())))
n = 0
for t in m['memory_types'].values():
    for s in t['sections'].values():
        n += 1
        assert sum(a['size'] for a in s['archives'].values()) <= s['size'], s
assert n == 5
'''
