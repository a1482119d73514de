PROPERTY = 'C11'
ENTRY = 'uni5'
NEEDS = 'two sections (or archives) of one memory type with the same abbreviated name'
BREAKS = 'children of the second entry with the same abbreviated name are lost by unify'
DEMO = '''
from esp_idf_size import memorymap


def sec(ab, ar, sz):
    return {'abbrev_name': ab, 'size': sz, 'size_diff': 0, 'archives': {
        ar: {'abbrev_name': ar, 'size': sz, 'size_diff': 0, 'object_files': {
            'o': {'abbrev_name': 'o', 'size': sz, 'size_diff': 0, 'symbols': {
                's': {'abbrev_name': 's', 'size': sz, 'size_diff': 0}}}}}}}


m = {'version': '1.0', 'target': 't', 'target_diff': '', 'image_size': 5, 'image_size_diff': 0,
     'project_path': 'p', 'project_path_diff': '',
     'memory_types': {'DRAM': {'size': 100, 'size_diff': 0, 'used': 5, 'used_diff': 0, 'sections': {
         '.dram0.bss': sec('.bss', 'liba.a', 2), '.dram1.bss': sec('.bss', 'libb.a', 3)}}}}
memorymap.unify(m)
s = m['memory_types']['DRAM']['sections']['.bss']
assert s['size'] == 5 and set(s['archives']) == {'liba.a', 'libb.a'}, s
assert sum(a['size'] for a in s['archives'].values()) == s['size']
'''
