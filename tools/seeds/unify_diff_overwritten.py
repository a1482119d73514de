PROPERTY = 'C11'
ENTRY = 'uni1'
NEEDS = 'a difference map in which two entries with nonzero differences share one abbreviated name'
BREAKS = 'only the last difference survives aggregation'
DEMO = '''
from esp_idf_size import memorymap


def sec(ab, d):
    return {'abbrev_name': ab, 'size': 1, 'size_diff': d, 'archives': {}}


m = {'version': '1.0', 'target': 't', 'target_diff': '', 'image_size': 5, 'image_size_diff': 0,
     'project_path': 'p', 'project_path_diff': '',
     'memory_types': {'DRAM': {'size': 100, 'size_diff': 0, 'used': 5, 'used_diff': 0, 'sections': {
         '.dram0.bss': sec('.bss', 7), '.dram1.bss': sec('.bss', -3)}}}}
memorymap.unify(m)
assert m['memory_types']['DRAM']['sections']['.bss']['size_diff'] == 4
'''
