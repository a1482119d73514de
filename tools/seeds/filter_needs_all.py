PROPERTY = 'C15'
ENTRY = 'hid3'
NEEDS = 'two --filter options'
BREAKS = 'an entry matching only one of the filters is hidden'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


e = {'x/liba.a': {'abbrev_name': 'liba.a', 'size': 1}, 'x/libb.a': {'abbrev_name': 'libb.a', 'size': 2},
     'x/libc.a': {'abbrev_name': 'libc.a', 'size': 3}}
r = memorymap.get_summary_filtered(e, {'filter': ['liba', 'libc'], 'abbrev': True})
assert list(r) == ['x/liba.a', 'x/libc.a'], r
'''
