"""Evaluate conditions and values of the graph in small finite models (witness search)."""
import terms as tm
from lists import Lists, level, strip
from terms import BF, BT, B, T, Term, const, replace, subterms


class Cannot(Exception):
    pass


class Obj:
    """Object with attributes."""

    def __init__(self, **kw):
        self.__dict__ = kw

    def __repr__(self):
        return repr(self.__dict__)


class Model:
    def __init__(self, E, env, X=None):
        self.E, self.env, self.X = E, env, X or Lists(E)
        self.prefix = {}
        self.steps = 0

    def cond(self, b, loc=None):
        loc = loc or {}
        self.steps += 1
        if self.steps > 20000:
            raise Cannot('steps')
        while b.atom is not None:
            try:
                b = b.hi if self.truth(b.atom, loc) else b.lo
            except Cannot:
                x, y = self.cond(b.hi, loc), self.cond(b.lo, loc)
                if x == y:
                    return x
                raise
        return b is BT

    def truth(self, a, loc):
        op, x = a.op, a.args
        if op == 'ex':
            n = level(a)
            for k, e in self.iter(x[0], loc):
                l2 = dict(loc)
                l2[('bk', n)], l2[('be', n)] = k, e
                if self.cond(x[1], l2):
                    return True
            return False
        if op == 'exists' and x[0] in self.E.loops:
            ln = self.E.loops[x[0]]
            if ln.kind == 'while' or ln.dom is None:
                raise Cannot('loop')
            for k, e in self.iter(strip(ln.dom), loc):
                l2 = dict(loc)
                l2[('key', x[0])], l2[('elem', x[0])] = k, e
                if self.cond(x[1], l2):
                    return True
            return False
        if op == 'inmu':
            return self.inmu(a, loc)
        if op == 'in':
            try:
                return self.val(x[0], loc) in self.val(x[1], loc)
            except TypeError:
                raise Cannot('in')
        if op in ('eq', 'eqc'):
            return self.val(x[0], loc) == self.val(x[1], loc)
        if op == 'isnone':
            return self.val(x[0], loc) is None
        if op == 'neg':
            return self.val(x[0], loc) < 0
        if op == 'zero':
            return self.val(x[0], loc) == 0
        if op == 'truthy':
            return bool(self.val(x[0], loc))
        if op in ('swith', 'ewith'):
            s, p = self.val(x[0], loc), self.val(x[1], loc)
            return s.startswith(p) if op == 'swith' else s.endswith(p)
        v = self.val(a, loc)
        return bool(v)

    def inmu(self, a, loc):
        E = self.E
        t = a.args[0]
        if t.op == 'Lk':
            L, k = t.args[0], self.val(t.args[1], loc)
            m0 = {}
        elif t.op == 'B':
            L, k = t.args[1], loc.get(('bk', t.args[0]))
            m0 = dict(t.args[2])
        else:
            raise Cannot('inmu')
        while L.op == 'Lk':
            L = L.args[0]
        ln = E.loops.get(L)
        if ln is None or k is None:
            raise Cannot('inmu')
        r = self.X.b(E.loop_effect(ln, E.canon(a.args[1]), a.args[2], 'in', BF, BT, None, m0))
        dom = self.X.t(strip(ln.dom))
        ks = [x for x, _ in self.iter(dom, loc)]
        if k not in ks:
            raise Cannot('inmu')
        old = self.prefix.get(dom)
        root = dom
        while root.op == 'new':
            raise Cannot('inmu')
        self.prefix[root] = ks[:ks.index(k)]
        try:
            return self.cond(r, loc)
        finally:
            if old is None:
                del self.prefix[root]
            else:
                self.prefix[root] = old

    def iter(self, d, loc):
        if d in self.prefix:
            v = self.val(d, loc)
            return [(k, v[k]) for k in self.prefix[d]]
        v = self.val(d, loc)
        if isinstance(v, dict):
            return [(k, k) for k in v]
        if isinstance(v, (list, tuple)):
            return list(enumerate(v))
        raise Cannot('domain')

    def val(self, t, loc):
        if t in self.env:
            return self.env[t]
        op, a = t.op, t.args
        if op == 'const':
            return a[0]
        if op in ('bk', 'be', 'key', 'elem'):
            k = (op, a[0])
            if k in loc:
                return loc[k]
            raise Cannot(f'{op}')
        if op == 'phi':
            return self.val(a[1], loc) if self.cond(a[0], loc) else self.val(a[2], loc)
        if op == 'tuple':
            return tuple(self.val(x, loc) for x in a[0])
        if op in ('idx', 'missing'):
            o, k = self.val(a[0], loc), self.val(a[1], loc)
            try:
                return o[k]
            except (KeyError, IndexError, TypeError):
                raise Cannot('index')
        if op == 'attr':
            o = self.val(a[0], loc)
            if isinstance(o, Obj) and a[1] in o.__dict__:
                return o.__dict__[a[1]]
            raise Cannot('attr')
        if op == 'slice':
            o = self.val(a[0], loc)
            lo, hi = (self.val(x, loc) for x in a[1:3])
            if isinstance(o, (list, tuple, str)):
                return o[lo:hi]
            raise Cannot('slice')
        if op == 'aff':
            s = a[0]
            for x, k in a[1]:
                s += k * self.val(x, loc)
            return s
        if op in ('len', 'lenat'):
            its = self.X.items(a[0]) if any(y.op == 'new' for y in subterms(a[0])) else None
            if its is None:
                return len(self.val(a[0], loc))
            n = 0
            for v, keep, d, L in its:
                if d is None:
                    n += self.cond(keep, loc)
                else:
                    for k, e in self.iter(d, loc):
                        l2 = dict(loc)
                        l2[('key', L)], l2[('elem', L)] = k, e
                        n += self.cond(keep, l2)
            return n
        if op == 'call' and a[0] == 'len' and len(a[1]) == 1:
            return len(self.val(a[1][0], loc))
        raise Cannot(op)


def differ(E, models, x, y, guard=BT, X=None):
    """First model (env) in which the two conditions differ, the number evaluated, and the last obstacle."""
    n, why = 0, None
    for env in models:
        M = Model(E, env, X)
        try:
            if not M.cond(guard):
                continue
            a, b = M.cond(x), M.cond(y)
            n += 1
            if a != b:
                return env, a, n, None
        except Cannot as e:
            why = str(e)
    return None, None, n, why
