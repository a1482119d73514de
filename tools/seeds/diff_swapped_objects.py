PROPERTY = 'C06'
ENTRY = 'diff2'
NEEDS = 'an object file present in both compared maps with different sizes, looked at on the object file level'
BREAKS = 'object file differences get the wrong sign'
DEMO = '''
from esp_idf_size import memorymap


def mk(sz, only=None):
    sym = {'s': {'abbrev_name': 's', 'size': sz, 'size_diff': 0}}
    obj = {'o.obj': {'abbrev_name': 'o.obj', 'size': sz, 'size_diff': 0, 'symbols': sym}}
    ar = {'l.a': {'abbrev_name': 'l.a', 'size': sz, 'size_diff': 0, 'object_files': obj}}
    sec = {'.text': {'abbrev_name': '.text', 'size': sz, 'size_diff': 0, 'archives': ar}}
    return {'version': '1.0', 'target': 't', 'target_diff': '', 'image_size': sz, 'image_size_diff': 0,
            'project_path': 'p', 'project_path_diff': '',
            'memory_types': {'IRAM': {'size': 100, 'size_diff': 0, 'used': sz, 'used_diff': 0, 'sections': sec}}}


d = memorymap.diff(mk(10), mk(4))
o = d['memory_types']['IRAM']['sections']['.text']['archives']['l.a']['object_files']['o.obj']
assert o['size_diff'] == 6, o
'''
