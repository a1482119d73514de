"""Data flow between the steps of memorymap.get, for chosen values of its options."""
from vg import *

STEPS = ('get_proj_desc', '_load_json_file', 'get_elf', '_expand_input_sections', '_get_memory_types',
         '_get_elf_sections_headers', '_filter_memory_regions', '_split_memory_regions', '_filter_map_sections',
         '_get_image_size', '_add_symbols_to_sections', '_split_map_sections', '_add_archives_to_sections',
         '_get_mem_type_map')
PLAIN = {'param', 'attr', 'call', 'const', 'idx', 'mcall', 'tuple'}


def call(name, *args):
    return T('call', name, tuple(args))


class Pipe:
    """One analysis of get(): given - parsed map and ELF supplied by the caller; load, dwarf - option values."""

    def __init__(self, P, given=False, load=True, dwarf=False):
        self.P = P
        self.node = P.func('memorymap', 'get')
        self.where = loc(P, self.node)
        self.m = P.func_module(self.node)
        names = params(self.node)
        MF, EL = T('param', 'map_file'), T('param', 'elf')

        def facts(atom):
            op, a = atom.op, atom.args
            if op == 'exc':
                return False
            if a and a[0] in (MF, EL):
                if op == 'truthy':
                    return True
                if op == 'isnone':
                    return False
            return None
        args = {names[0]: T('param', 'fn')}
        if 'load_symbols' in names:
            args['load_symbols'] = const(load)
        if 'use_dwarf' in names:
            args['use_dwarf'] = const(dwarf)
        args['map_file'] = MF if given else const(None)
        args['elf'] = EL if given else const(None)
        self.E, self.v, self.a = run(P, 'memorymap', 'get', args=args, facts=facts,
                                     stop=tuple(f'memorymap.{n}' for n in STEPS))
        self.calls = []
        for n, (e, ch) in enumerate(self.E.events(('call',))):
            nm = e.key.args[0]
            if isinstance(nm, str) and nm.startswith('memorymap.') and nm[10:] in STEPS:
                self.calls.append((n, nm[10:], self.term(e), e, ch))
        self.path = call('os.path.abspath', T('param', 'fn'))
        mf = [t for t in self.alls() if t.op == 'call' and t.args[0] == 'mapfile.MapFile']
        self.MF = MF if given else (mf[0] if len(set(mf)) == 1 else None)
        el = [t for _, n, t, _, _ in self.calls if n == 'get_elf']
        self.EL = EL if given else (el[0] if len(set(el)) == 1 else None)

    def alls(self):
        for e, ch in self.E.events(('call', 'put')):
            if e.kind == 'call':
                yield self.term(e)
            if e.val is not None:
                yield from subterms(e.val)

    def term(self, e):
        v = e.val
        kw = v.args[1] if len(v.args) > 1 else ()
        return T('call', e.key.args[0], v.args[0], kw) if kw else T('call', e.key.args[0], v.args[0])

    def step(self, name):
        return [x for x in self.calls if x[1] == name]

    def arg(self, x, i):
        a = x[2].args[1]
        kw = x[2].args[2] if len(x[2].args) > 2 else ()
        if i < len(a):
            return a[i]
        f = self.P.module('memorymap').funcs.get(x[1])
        if f is not None:
            names = params(f)
            if i < len(names):
                for k, v in kw:
                    if k == names[i]:
                        return v
        return None

    def final(self, key):
        return lookup(self.E, self.v, const(key), BT, self.m)

    def ok(self):
        """Path condition of the successful run."""
        x = one(self, '_get_mem_type_map')
        return BT if x is None else x[3].guard


def plain(t):
    return all(isinstance(x, Term) and x.op in PLAIN for x in subterms(t))


def same(actual, expected, what, guard=BT):
    if actual is None or expected is None:
        return UNKNOWN, f'{what}: not found'
    ok = True
    for g, x in tm.cases(actual, guard):
        for g2, y in tm.cases(expected, g):
            if x is y:
                continue
            ok = False
            if plain(x) and plain(y):
                return REFUTED, f'{what} is {cut(show(x), 250)}, not {cut(show(y), 250)}, when {cut(show_b(g2, 2), 200)}'
    return (PROVED, f'{what} is {cut(show(expected), 200)}') if ok else \
        (UNKNOWN, f'{what}: cannot compare {cut(show(actual), 200)} with {cut(show(expected), 200)}')


def flow(c, P, edges, scenarios=((False, True, False), (True, True, False), (False, False, False), (False, True, True))):
    """edges: list of (id, description, fn(pipe) -> verdict)."""
    for sc in scenarios:
        tag = ('given' if sc[0] else 'loaded') + ('' if sc[1] else '.nosym') + ('.dwarf' if sc[2] else '')
        h = {}
        if not c.group(f'pipe.{tag}', 'data flow between the steps of memorymap.get', lambda: h.update(p=Pipe(P, *sc))):
            continue
        p = h['p']
        for i, d, fn in edges:
            c.ob(f'flow.{i}.{tag}', d, lambda fn=fn: fn(p), p.where)


def one(p, name):
    xs = p.step(name)
    return xs[0] if len(xs) == 1 else None


def call_of(p, name):
    """The single call of a step, as a term, or None."""
    x = one(p, name)
    return x[2] if x else None


def order(p, first, second):
    a, b = one(p, first), one(p, second)
    if a is None or b is None:
        return UNKNOWN, f'{first} and {second} are not both called exactly once'
    if a[0] < b[0]:
        return PROVED, f'{first} runs before {second}'
    return REFUTED, f'{second} runs before {first}'


def input_is(p, name, i, expected, what):
    x = one(p, name)
    if x is None:
        xs = p.step(name)
        if not xs and name in p.P.module('memorymap').funcs and all(s in p.P.module('memorymap').funcs for s in STEPS):
            return REFUTED, f'{name} is never called'
        return UNKNOWN, f'{name} called {len(xs)} times'
    return same(p.arg(x, i), expected, what)


def att(t, f):
    return None if t is None else T('attr', t, f)


def gone(p, name):
    """A step that is a function of its own but that get never calls."""
    return not p.step(name) and all(s in p.P.module('memorymap').funcs for s in STEPS)
