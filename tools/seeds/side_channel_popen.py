PROPERTY = 'C03'
ENTRY = 'eff3'
NEEDS = 'an ELF file that cannot be read'
BREAKS = 'a shell command with the path of the ELF file is run'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


ran = []
os.popen = lambda c, *a: (ran.append(c), open(os.devnull))[1]
fn = proj.write(S, proj.map_text(proj.std_sections()), elf=b'no elf')
memorymap.get(fn)
assert not ran, ran
'''
