PROPERTY = 'C19'
ENTRY = 'dwf5'
NEEDS = 'a LEB128 number longer than five bytes'
BREAKS = 'its upper groups overlap'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


from esp_idf_size import elf
v = (1 << 40) + 5
b, x = bytearray(), v
while x >> 7:
    b.append((x & 0x7F) | 0x80)
    x >>= 7
b.append(x)
d = [c for c in vars(elf).values() if hasattr(c, 'get_uleb128')]
assert d
for c in d:
    assert object.__new__(c).get_uleb128(bytes(b), 0) == (v, 6)
'''
