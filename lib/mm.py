"""Facts about the memory-map schema (documented result of memorymap.get)."""
from terms import BT, T, band, batom, const

LEVELS = ['memory_types', 'sections', 'archives', 'object_files', 'symbols']
FIELDS = {
    0: ['version', 'target', 'target_diff', 'image_size', 'image_size_diff', 'project_path', 'project_path_diff',
        'memory_types'],
    1: ['size', 'size_diff', 'used', 'used_diff', 'sections'],
    2: ['abbrev_name', 'size', 'size_diff', 'archives'],
    3: ['abbrev_name', 'size', 'size_diff', 'object_files'],
    4: ['abbrev_name', 'size', 'size_diff', 'symbols'],
    5: ['abbrev_name', 'size', 'size_diff'],
}


def depth_of(t, roots):
    """Level of a node term (0: map itself, 1: memory type, ...), or None."""
    if t in roots:
        return 0
    if t.op == 'idx':
        c = t.args[0]
        if c.op == 'idx' and c.args[1].op == 'const':
            d = depth_of(c.args[0], roots)
            if d is not None and d < 5 and c.args[1].args[0] == LEVELS[d]:
                return d + 1
    return None


def facts(*roots):
    roots = set(roots)

    def f(atom):
        op, a = atom.op, atom.args
        if op == 'truthy':
            d = depth_of(a[0], roots)
            if d is not None:
                return True
        elif op == 'isnone':
            x = a[0]
            if depth_of(x, roots) is not None:
                return False
            if x.op == 'idx' and depth_of(x.args[0], roots) is not None and x.args[1].op == 'const' and \
                    x.args[1].args[0] in ('size', 'used', 'size_diff', 'used_diff', 'abbrev_name', 'image_size') + \
                    tuple(LEVELS):
                return False
        elif op == 'in':
            k, c = a
            d = depth_of(c, roots)
            if d is not None and k.op == 'const':
                if k.args[0] in FIELDS[d]:
                    return True
        return None
    return f


def path(root, n, keys=None):
    t = root
    for i in range(n):
        k = keys[i] if keys else T('param', f'K{i + 1}')
        t = T('idx', T('idx', t, const(LEVELS[i])), k)
    return t


def present(root, n, keys=None):
    g = BT
    for i in range(n):
        k = keys[i] if keys else T('param', f'K{i + 1}')
        g = band(g, batom(T('in', k, T('idx', path(root, i, keys), const(LEVELS[i])))))
    return g
