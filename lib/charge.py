"""Charges of output sections to memory types, read off the value graph of memorymap._get_mem_type_map."""
from vg import *

NAMES = ('External RAM', 'SPI DRAM')


class Shape(Exception):
    pass


def alias_of(o):
    """The memory type name whose entry an object term stands for."""
    while o.op == 'idx' and o.args[1].op == 'const' and o.args[1].args[0] in ('sections',):
        o = o.args[0]
    if o.op == 'last' and o.args[2].op == 'mu' and len(o.args[2].args) == 3:
        k = o.args[2].args[2]
        if k.op == 'const' and k.args[0] == 'sections':
            return alias_of(o.args[2].args[1])
        return k
    if o.op == 'idx':
        return o.args[1]
    return None


class Charge:
    pass


class Model:
    """All events of one analysis of _get_mem_type_map that concern sections and memory type totals."""

    def __init__(self, P):
        self.P = P
        self.node = P.func('memorymap', '_get_mem_type_map', public=False)
        if self.node is None:
            raise Shape('_get_mem_type_map not found')
        self.m = P.func_module(self.node)
        stop = [f'memorymap.{n}' for n, f in P.module('memorymap').funcs.items() if recursive(f)]
        self.E, self.v, self.a = run(P, 'memorymap', '_get_mem_type_map', stop=tuple(stop))
        E = self.E
        ps = list(self.a.values())
        if len(ps) < 3:
            raise Shape('expected memory types, regions and sections')
        self.types, self.regions, self.sections = ps[:3]
        self.where = loc(P, self.node)
        sl = [L for L, ln in E.loops.items() if ln.dom is not None and strip(ln.dom) is self.sections]
        self.charges = []
        self.secputs = []
        self.sizeputs = []
        self.warns = []
        for e, ch in E.events(('put', 'call')):
            if e.kind == 'call':
                if e.key.args and e.key.args[0] in ('log.warn', 'log.warning'):
                    self.warns.append(e)
                continue
            k = e.key
            if k.op == 'const' and k.args[0] == 'used':
                if e.val.op == 'const' and e.val.args[0] == 0 and e.obj.op == 'new':
                    continue
                c = Charge()
                c.e, c.guard, c.obj = e, e.guard, e.obj
                c.alias = alias_of(e.obj)
                c.delta = self.delta(e, 'used')
                c.S = next((t for t in subterms(e.val) if t.op == 'elem' and t.args[0] in sl), None)
                if c.S is None:
                    c.S = next((t for a in tm.batoms(e.guard) for t in subterms(a) if t.op == 'elem' and t.args[0] in sl),
                               None)
                self.charges.append(c)
            elif k.op == 'const' and k.args[0] == 'size':
                self.sizeputs.append((e, ch))
            elif k.op != 'const' and e.val.op == 'new' or k.op == 'const' and k.args[0] == 'archives':
                self.secputs.append((e, ch))

    def delta(self, e, key):
        """What a put adds to the value the slot had before."""
        p = tm.aff_parts(e.val)
        if p is None:
            return None
        out = const(p[0])
        seen = 0
        for t, k in p[1]:
            if t.op == 'mu' and len(t.args) == 3 and t.args[2].op == 'const' and t.args[2].args[0] == key and \
                    k == 1 and alias_of(t.args[1]) is alias_of(e.obj):
                seen += 1
            elif t.op in ('last', 'idx', 'phi') and k == 1 and slot_of(t, key, e.obj):
                seen += 1
            else:
                out = tm.add(out, tm.mul(const(k), t))
        return out if seen == 1 else None


    def delta_slot(self, e):
        """What a put adds to the previous value of exactly this slot (any object)."""
        p = tm.aff_parts(e.val)
        if p is None:
            return None
        out, seen = const(p[0]), 0
        for t, k in p[1]:
            if t.op == 'mu' and len(t.args) == 3 and t.args[2] is e.key and k == 1 and \
                    self.E.canon(t.args[1]) is self.E.canon(e.obj):
                seen += 1
            else:
                out = tm.add(out, tm.mul(const(k), t))
        return out if seen == 1 else None


def slot_of(t, key, obj):
    for x in subterms(t):
        if x.op == 'mu' and len(x.args) == 3 and x.args[2].op == 'const' and x.args[2].args[0] == key and \
                alias_of(x.args[1]) is alias_of(obj):
            return True
    return False


def recursive(f):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name for n in ast.walk(f))


def strip(d):
    while d.op in ('perm', 'aslist') or d.op == 'items':
        d = d.args[0]
    return d


def at(b, S, name):
    """A path condition for a section with a given name."""
    return tm.replace(b, {T('idx', S, const('name')): const(name)})


def chip(M, x, n):
    """Specialise a guard or term to a chip whose matching memory type is named n (None: no such type)."""
    name = {}
    force = BT
    roots = (M.types,)

    def mine(t):
        return any(z is M.types for z in subterms(t))
    atoms = tm.batoms(x) if isinstance(x, B) else [a for t in subterms(x) if t.op == 'phi' for a in tm.batoms(t.args[0])]
    val = n if n is not None else 'some other name'
    for t in (subterms(x) if isinstance(x, Term) else [z for a in atoms for z in subterms(a)]):
        if t.op == 'idx' and t.args[1].op == 'const' and t.args[1].args[0] == 'name' and \
                t.args[0].op in ('idx', 'elem') and mine_root(M, t.args[0]):
            name[t] = const(val)
    for a in atoms:
        if a.op == 'exists':
            L, body = a.args[0], a.args[1]
            ln = M.E.loops.get(L)
            if ln is None or ln.dom is None or root(ln.dom) is not M.types:
                continue
            nm = {t: const(val) for at_ in tm.batoms(body) for t in subterms(at_)
                  if t.op == 'idx' and t.args[1].op == 'const' and t.args[1].args[0] == 'name' and mine_root(M, t.args[0])}
            b = tm.replace(body, nm)
            if b is BT:
                force = band(force, batom(a))
            elif b is BF:
                force = band(force, bnot(batom(a)))
    if isinstance(x, B):
        x = tm.constrain(x, force) if force is not BT else x
        return tm.replace(x, name)
    return tm.replace(x, name)


def root(d):
    while d.op in ('perm', 'aslist', 'items', 'values', 'keys'):
        d = d.args[0]
    return d


def mine_root(M, t):
    """Is t an entry of the memory types of the chip?"""
    if t.op == 'elem':
        ln = M.E.loops.get(t.args[0])
        return ln is not None and ln.dom is not None and root(ln.dom) is M.types
    if t.op == 'idx':
        return t.args[0] is M.types
    return False
