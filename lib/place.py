"""Where one arbitrary item of a collection ends up: appends to lists, with path condition and field values."""
from vg import *


def lift(b, E):
    """Conditions over choices: the choice is moved out of the comparison."""
    def at(a):
        if a.op in ('neg', 'eq0') and tm.find_phi(a.args[0]) is not None:
            out = BF
            for g, x in tm.cases(a.args[0]):
                out = bor(out, band(g, E.lt(x, tm.ZERO) if a.op == 'neg' else E.eq(x, tm.ZERO)))
            return out
        return batom(a)
    return tm.bmap(b, at)


def onbools(t, fn):
    """Apply fn to every condition inside a term."""
    if isinstance(t, B):
        return fn(t)
    for _ in range(6):
        m = {}
        for s in subterms(t):
            if s.op == 'phi' and isinstance(s.args[0], B):
                b = fn(s.args[0])
                if b is not s.args[0]:
                    m[s] = tm.phi(b, s.args[1], s.args[2])
        if not m:
            break
        t = tm.replace(t, m)
    return t


def unmin(t, E):
    """min/max of two as a choice, so that different spellings agree."""
    for _ in range(4):
        m = {}
        for x in (tm.batoms(t) if isinstance(t, B) else [t]):
            for s in subterms(x):
                if s.op in ('min', 'max') and len(s.args) == 2:
                    a, b = s.args
                    c = lift(E.lt(a, b), E)
                    m[s] = tm.phi(c, a, b) if s.op == 'min' else tm.phi(c, b, a)
        if not m:
            break
        t = tm.replace(t, m)
    return onbools(t, lambda b: lift(b, E))


class Place:
    """One append: the list it goes to, the object, its path condition."""

    def __init__(self, lst, obj, guard, e, chain):
        self.lst, self.obj, self.guard, self.e, self.chain = lst, obj, guard, e, chain


class Copy:
    def __init__(self, e):
        self.kind, self.obj, self.val, self.guard, self.node, self.key = 'copyfrom', e.obj, e.val.args[0], e.guard, e.node, None


class Places:
    def __init__(self, E, sub):
        """sub(term or condition, ...) puts roles (parameters) in place of loop elements."""
        self.E = E
        self.sub = sub
        self.puts, self.copies, self.apps, self.other = {}, {}, [], []
        for e, ch in E.events(('put', 'append', 'copyfrom', 'extend', 'del', 'opaque', 'clear', 'remove')):
            if e.kind == 'put' and e.key.op == 'key' and e.val.op == 'idx' and e.val.args[1] is e.key and \
                    ch and E.loops[ch[-1].L].dom is e.val.args[0]:
                # for k in src: dst[k] = src[k]
                self.copies.setdefault(e.obj, []).append((Copy(e), ch[:-1]))
            elif e.kind == 'put':
                self.puts.setdefault(e.obj, []).append((e, ch))
            elif e.kind == 'copyfrom':
                self.copies.setdefault(e.obj, []).append((e, ch))
            elif e.kind == 'append':
                self.apps.append((e, ch))
            else:
                self.other.append((e, ch))

    def lst(self, o):
        """The list an expression denotes."""
        if o.op == 'idx' and o.args[0] in self.puts:
            r = [e.val for e, _ in self.puts[o.args[0]] if e.key is o.args[1]]
            if len(r) == 1:
                return r[0]
        return o

    def places(self):
        return [Place(self.lst(e.obj), e.val, e.guard, e, ch) for e, ch in self.apps]

    def fields(self, o):
        return {e.key.args[0] for e, _ in self.puts.get(o, []) if e.key.op == 'const'}

    def field(self, o, f):
        """Value of field f of object o at the end of its iteration (None: cannot tell)."""
        k = const(f)
        if o.op != 'new':
            return self.sub(T('idx', o, k))
        v = None
        if any(e.key.op != 'const' for e, _ in self.puts.get(o, [])):
            return None
        for e, ch in self.copies.get(o, []):
            v = T('idx', e.val, k)
        for e, ch in self.puts.get(o, []):
            if e.key is k:
                v = e.val if v is None else tm.phi(e.guard, e.val, v)
        return None if v is None else self.sub(v)
