PROPERTY = 'C02'
ENTRY = 'fail4'
NEEDS = 'a dependency report on a build whose ELF file is not there'
BREAKS = 'the missing ELF file is only warned about and an unfiltered graph is presented as the result'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


crt = {'fn1': ['esp-idf/a/liba.a(one.c.obj)', 'esp-idf/b/libb.a(one.c.obj)']}
fn = proj.write(S, proj.map_text(proj.std_sections(), crt=crt))
p = cli('--archive-dependencies', fn)
assert p.returncode != 0, p.stdout
'''
