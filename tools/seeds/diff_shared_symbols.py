PROPERTY = 'C05'
ENTRY = 'diff8'
NEEDS = 'a symbol that exists only in the reference map, inside an object file both maps have, and a second use of the reference map'
BREAKS = 'the reference map shares symbol entries with the result and is modified by diff'
DEMO = '''
import copy
from esp_idf_size import memorymap


def mk(names):
    sym = {n: {'abbrev_name': n, 'size': 4, 'size_diff': 0} for n in names}
    sz = 4 * len(names)
    obj = {'o.obj': {'abbrev_name': 'o.obj', 'size': sz, 'size_diff': 0, 'symbols': sym}}
    ar = {'l.a': {'abbrev_name': 'l.a', 'size': sz, 'size_diff': 0, 'object_files': obj}}
    sec = {'.text': {'abbrev_name': '.text', 'size': sz, 'size_diff': 0, 'archives': ar}}
    return {'version': '1.0', 'target': 't', 'target_diff': '', 'image_size': sz, 'image_size_diff': 0,
            'project_path': 'p', 'project_path_diff': '',
            'memory_types': {'IRAM': {'size': 100, 'size_diff': 0, 'used': sz, 'used_diff': 0, 'sections': sec}}}


cur, ref = mk(['a']), mk(['a', 'b'])
keep = copy.deepcopy(ref)
memorymap.diff(cur, ref)
assert ref == keep, ref
'''
