PROPERTY = 'C17'
ENTRY = 'map5'
NEEDS = 'two *fill* lines behind one input section'
BREAKS = 'the first padding is lost'
DEMO = '''import os, sys, subprocess, json
import proj
from esp_idf_size import memorymap
S = os.environ['SCRATCH']


def cli(*args, env=None):
    return subprocess.run([sys.executable, '-m', 'esp_idf_size', *args], capture_output=True, text=True,
                          env=dict(os.environ, COLUMNS='200', **(env or {})), timeout=100)


lines = [proj.isec('.t', 0x40374000, 0x10, 'lib/liba.a(a.obj)'),
         ' *fill*         0x0000000040374010        0x4 ', ' *fill*         0x0000000040374014        0x8 ']
from esp_idf_size.mapfile import MapFile
m = MapFile(proj.write(S, proj.map_text([('.iram0.text', 0x40374000, 0x1C, lines)])))
a = [i for s in m.sections for i in s['input_sections']]
assert len(a) == 1 and a[0]['fill'] == 0xC, a
'''
