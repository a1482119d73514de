PROPERTY = 'C01'
ENTRY = 'main14'
NEEDS = 'a failing run with -o on an existing file'
BREAKS = 'the old content of the output file is gone'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


fn = proj.write(S, 'no map file')
out = os.path.join(S, 'o.txt')
open(out, 'w').write('old')
p = cli('-o', out, fn)
assert p.returncode != 0
assert open(out).read() == 'old'
fn = proj.write(S, proj.map_text(proj.std_sections()))
p = cli('-o', out, '--archive-details', 'nope.a', fn)
assert open(out).read() == 'old', (p.returncode, open(out).read())
'''
