PROPERTY = 'C27'
ENTRY = 'side3'
NEEDS = 'a project description that names no ELF file'
BREAKS = 'a description of another executable is accepted'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


fn = proj.write(S, proj.map_text(proj.std_sections(), target=None), elf=b'x', desc={'app_elf': '', 'target': 'esp32s3'})
p = cli('--format', 'raw', fn)
assert p.returncode != 0, p.stdout[:300]
'''
