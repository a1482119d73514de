PROPERTY = 'C16'
ENTRY = 'main7'
NEEDS = '--no-abbrev'
BREAKS = 'names stay abbreviated although full names were requested'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


fn = proj.write(S, proj.map_text(proj.std_sections()))
p = cli('--archives', '--no-abbrev', '--format', 'csv', fn)
assert p.returncode == 0, p.stderr
assert 'esp-idf/a/liba.a' in p.stdout, p.stdout
'''
