"""Path-sensitive abstract interpretation of project source over symbolic values.

Nothing of the analysed project is executed.  Its syntax trees are evaluated over
abstract values: N (linear forms over unknown integers), Bits (vectors of unknown
bits), AbsStr (texts with unknown pieces), Bytes (windows of unknown buffers).
Undecided conditions are resolved both ways; facts on a path are kept consistent
with the linear-inequality domain of linear.py.
"""
import ast

import builtins

from project import PKG


class Cannot(Exception):
    """The construct is outside the abstract domain."""


class Prune(Exception):
    """The path is infeasible, or its state was explored before."""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class PyExc(Exception):
    """An exception of the analysed program."""

    def __init__(self, inst, node=None):
        self.inst = inst
        self.node = node


# ------------------------------------------------------------------ numbers
class N:
    """const + sum coef * atom; atoms are hashable tuples."""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = tuple(sorted(((a, k) for a, k in dict(t).items() if k), key=lambda x: repr(x[0])))

    def __eq__(self, o):
        return isinstance(o, N) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, self.t))

    def __repr__(self):
        s = [(f'{k}*' if k != 1 else '') + atom(a) for a, k in self.t]
        if self.c or not s:
            s.append(str(self.c))
        return ' + '.join(s)


def atom(a):
    if a[0] == 'num':
        return str(a[1])
    if a[0] == 'f':
        _, buf, off, size, endian, signed = a
        return f'{"s" if signed else "u"}{size * 8}{"" if size == 1 else endian}@{buf}[{off!r}]'
    return repr(a)


def nadd(x, y, k=1):
    if isinstance(x, Bits):
        x = N(0, {('bits', x): 1})
    if isinstance(y, Bits):
        y = N(0, {('bits', y): 1})
    if not isinstance(x, N) and not isinstance(y, N):
        return x + k * y
    x = x if isinstance(x, N) else N(x)
    y = y if isinstance(y, N) else N(y)
    t = dict(x.t)
    for a, v in y.t:
        t[a] = t.get(a, 0) + k * v
    r = N(x.c + k * y.c, t)
    return r if r.t else r.c


def nmul(x, k):
    if not isinstance(x, N):
        return x * k
    r = N(x.c * k, {a: v * k for a, v in x.t})
    return r if r.t else r.c


def width(a):
    if a[0] == 'f' and not a[5]:
        return a[3] * 8
    if a[0] == 'num' and len(a) > 2:
        return a[2]
    return None


class Bits:
    """bits (low first), then fill for ever; a bit is 0, 1 or (atom, index)."""
    __slots__ = ('b', 'fill')

    def __init__(self, b, fill=0):
        b = list(b)
        while b and b[-1] == fill:
            b.pop()
        self.b = tuple(b)
        self.fill = fill

    def bit(self, i):
        return self.b[i] if i < len(self.b) else self.fill

    def __eq__(self, o):
        return isinstance(o, Bits) and self.b == o.b and self.fill == o.fill

    def __hash__(self):
        return hash((self.b, self.fill))

    def __repr__(self):
        return f'Bits({self.b}, {self.fill})'


def tobits(x):
    if isinstance(x, Bits):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        f = 0 if x >= 0 else 1
        b = []
        while x not in (0, -1):
            b.append(x & 1)
            x >>= 1
        if b or x == -1:
            pass
        return Bits(b, f)
    if isinstance(x, N):
        if x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
            w = width(x.t[0][0])
            if w is not None:
                return Bits([(x.t[0][0], i) for i in range(w)])
        # c + atom * 2**k with disjoint bits
        out = tobits(x.c)
        for a, k in x.t:
            w = width(a)
            if w is None or k <= 0 or k & (k - 1):
                raise Cannot(f'bits of {x!r}')
            s = k.bit_length() - 1
            out = disjoint(out, Bits([0] * s + [(a, i) for i in range(w)]))
        return out
    raise Cannot(f'bits of {type(x).__name__}')


def disjoint(x, y):
    n = max(len(x.b), len(y.b))
    out = []
    for i in range(n):
        p, q = x.bit(i), y.bit(i)
        if p == 0:
            out.append(q)
        elif q == 0:
            out.append(p)
        else:
            raise Cannot('sum of overlapping bits')
    if x.fill and y.fill:
        raise Cannot('sum of negative numbers')
    return Bits(out, x.fill or y.fill)


def merged(b):
    """Whole bytes of one image in a row, as one field."""
    n = len(b) // 8
    if len(b) % 8 or n < 2:
        return None
    first = []
    for k in range(n):
        z = b[8 * k]
        if isinstance(z, int) or z[0][0] != 'f' or z[0][3] != 1 or any(b[8 * k + i] != (z[0], i) for i in range(8)):
            return None
        first.append(z[0])
    for endian, lo in (('little', first[0]), ('big', first[-1])):
        if all(f[1] == lo[1] and nadd(lo[2], k if endian == 'little' else n - 1 - k) == f[2] for k, f in enumerate(first)):
            return N(0, {('f', lo[1], lo[2], n, endian, False): 1})
    return None


def frombits(x):
    """Simplest number for a bit vector."""
    if not isinstance(x, Bits):
        return x
    if all(b in (0, 1) for b in x.b):
        v = sum(1 << i for i, b in enumerate(x.b) if b)
        return v - (1 << len(x.b)) if x.fill else v
    if not x.fill:
        m = merged(x.b)
        if m is not None:
            return m
        a = x.b[0][0] if not isinstance(x.b[0], int) else None
        if a is not None and width(a) == len(x.b) and all(b == (a, i) for i, b in enumerate(x.b)):
            return N(0, {a: 1})
    return x


def bop(x, y, f):
    x, y = tobits(x), tobits(y)
    n = max(len(x.b), len(y.b))
    return frombits(Bits([f(x.bit(i), y.bit(i)) for i in range(n)], f(x.fill, y.fill)))


def bit_and(p, q):
    if p == 0 or q == 0:
        return 0
    if p == 1:
        return q
    if q == 1 or p == q:
        return p
    return (('and',) + tuple(sorted((p, q), key=repr)), 0)


def bit_or(p, q):
    if p == 1 or q == 1:
        return 1
    if p == 0:
        return q
    if q == 0 or p == q:
        return p
    return (('or',) + tuple(sorted((p, q), key=repr)), 0)


def bit_xor(p, q):
    if p == 0:
        return q
    if q == 0:
        return p
    if p == q:
        return 0
    if p in (0, 1) and q in (0, 1):
        return p ^ q
    return (('xor',) + tuple(sorted((p, q), key=repr)), 0)


# ------------------------------------------------------------------ texts
class Op:
    """An unknown, non-empty piece of text without the characters in excl."""
    __slots__ = ('id', 'excl', 'num')

    def __init__(self, id, excl='', num=None):
        self.id = id
        self.excl = excl
        self.num = num

    def __eq__(self, o):
        return isinstance(o, Op) and self.id == o.id

    def __hash__(self):
        return hash(('op', self.id))

    def __repr__(self):
        return f'<{self.id}>' if not isinstance(self.id, tuple) else '<' + ':'.join(map(str, self.id)) + '>'


WS = ' \t\n\r\x0b\x0c'


def mk(parts):
    out = []
    for p in parts:
        if isinstance(p, AbsStr):
            ps = p.parts
        else:
            ps = (p,)
        for x in ps:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return AbsStr(tuple(out))


class AbsStr:
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, o):
        return isinstance(o, AbsStr) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return ''.join(p if isinstance(p, str) else repr(p) for p in self.parts)


class Pos:
    """A position inside an AbsStr: part index and offset in that literal."""
    __slots__ = ('s', 'i', 'o')

    def __init__(self, s, i, o):
        self.s, self.i, self.o = s, i, o

    def __hash__(self):
        return hash((self.s, self.i, self.o))

    def __eq__(self, o):
        return isinstance(o, Pos) and (self.s, self.i, self.o) == (o.s, o.i, o.o)


class Str:
    """Operations on texts with unknown pieces; I answers undecided questions."""

    @staticmethod
    def parts(s):
        return s.parts if isinstance(s, AbsStr) else ((s,) if s else ())

    @staticmethod
    def strip(I, s, chars=None, left=True, right=True):
        ps = list(Str.parts(s))
        cs = WS if chars is None else chars
        while left and ps:
            if not isinstance(ps[0], str):
                if ps[0].num is None and any(c not in ps[0].excl for c in cs) and \
                        I.ask(('starts', ps[0].id, 'any of ' + cs), f'{ps[0]!r} starts with one of {cs!r}'):
                    ps[0] = Op(('lstrip', ps[0].id, cs), ps[0].excl)
                break
            t = ps[0].lstrip(cs)
            if t:
                ps[0] = t
                break
            ps.pop(0)
        while right and ps:
            if not isinstance(ps[-1], str):
                if ps[-1].num is None and any(c not in ps[-1].excl for c in cs) and \
                        I.ask(('ends', ps[-1].id, 'any of ' + cs), f'{ps[-1]!r} ends with one of {cs!r}'):
                    ps[-1] = Op(('rstrip', ps[-1].id, cs), ps[-1].excl)
                break
            t = ps[-1].rstrip(cs)
            if t:
                ps[-1] = t
                break
            ps.pop()
        return mk(ps)

    @staticmethod
    def chars(s):
        """Flat list: single characters and Ops."""
        return [c for p in Str.parts(s) for c in (p if isinstance(p, str) else (p,))]

    @staticmethod
    def split(I, s, sep=None, maxsplit=-1):
        cs = Str.chars(s)
        if sep is None:
            out, cur, i = [], [], 0
            while i < len(cs):
                while i < len(cs) and isinstance(cs[i], str) and cs[i] in WS:
                    i += 1
                if i >= len(cs):
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(Str.strip(I, mk(cs[i:]), left=False))
                    return out
                cur = []
                while i < len(cs) and not (isinstance(cs[i], str) and cs[i] in WS):
                    if not isinstance(cs[i], str) and any(c not in cs[i].excl for c in ' \t'):
                        raise Cannot('split of unknown text')
                    cur.append(cs[i])
                    i += 1
                out.append(mk(cur))
            return out
        out = []
        rest = s
        while maxsplit < 0 or len(out) < maxsplit:
            p = Str.find(I, rest, sep)
            if p == -1:
                break
            out.append(Str.slice(I, rest, None, p))
            rest = Str.slice(I, rest, I.binop('+', p, len(sep)), None)
        return out + [rest]

    @staticmethod
    def rsplit(I, s, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return Str.split(I, s, sep)
        if sep is None:
            toks = Str.split(I, s)
            if len(toks) <= maxsplit:
                return toks
            cs = Str.chars(s)
            out = []
            i = len(cs)
            while len(out) < maxsplit:
                while i and isinstance(cs[i - 1], str) and cs[i - 1] in WS:
                    i -= 1
                j = i
                while j and not (isinstance(cs[j - 1], str) and cs[j - 1] in WS):
                    j -= 1
                out.insert(0, mk(cs[j:i]))
                i = j
            return [Str.strip(I, mk(cs[:i]))] + out
        out = []
        rest = s
        while len(out) < maxsplit:
            p = Str.find(I, rest, sep, True)
            if p == -1:
                break
            out.insert(0, Str.slice(I, rest, I.binop('+', p, len(sep)), None))
            rest = Str.slice(I, rest, None, p)
        return [rest] + out

    @staticmethod
    def starts(I, s, prefix, end=False):
        if isinstance(prefix, tuple):
            return any(Str.starts(I, s, p, end) for p in prefix)
        if not isinstance(prefix, str):
            raise Cannot('unknown prefix')
        cs = Str.chars(s)
        ps = list(prefix)
        if end:
            cs, ps = cs[::-1], ps[::-1]
        for i, c in enumerate(ps):
            if i >= len(cs):
                return False
            if not isinstance(cs[i], str):
                if c in cs[i].excl or cs[i].num is not None and c not in '0123456789abcdefx':
                    return False
                if any(x in cs[i].excl for x in ps[i:]):
                    return False        # (a single unknown word is no particular phrase)
                return I.ask(('starts' if not end else 'ends', cs[i].id, ''.join(ps[i:] if not end else ps[i:][::-1])),
                             f'{s!r} {"starts" if not end else "ends"} with {prefix!r}')
            if cs[i] != c:
                return False
        return True

    @staticmethod
    def find(I, s, sub, right=False):
        if not isinstance(sub, str) or not sub:
            raise Cannot('unknown needle')
        ps = Str.parts(s)
        for p in ps:
            if not isinstance(p, str) and not any(c in p.excl for c in sub):
                raise Cannot(f'position of {sub!r} in unknown text')
        r = range(len(ps))
        for i in reversed(r) if right else r:
            if isinstance(ps[i], str):
                o = ps[i].rfind(sub) if right else ps[i].find(sub)
                if o >= 0:
                    return Pos(s, i, o)
        return -1

    @staticmethod
    def contains(I, s, sub):
        if not isinstance(sub, str):
            raise Cannot('unknown needle')
        ps = Str.parts(s)
        if any(isinstance(p, str) and sub in p for p in ps):
            return True
        for p in ps:
            if not isinstance(p, str) and p.num is None and not any(c in p.excl for c in sub):
                if I.ask(('contains', p.id, sub), f'{p!r} contains {sub!r}'):
                    return True
        return False

    @staticmethod
    def slice(I, s, lo, hi, step=None):
        cs = Str.chars(s)
        starts = []          # flat index of part i
        k = 0
        for p in Str.parts(s):
            starts.append(k)
            k += len(p) if isinstance(p, str) else 1
        if step is not None and step != 1:
            raise Cannot('slice step')

        def pos(x, default):
            if x is None:
                return default
            if isinstance(x, Pos):
                if x.s != s:
                    raise Cannot('position of another text')
                return starts[x.i] + x.o
            if isinstance(x, bool) or not isinstance(x, int):
                raise Cannot('unknown slice bound')
            if x >= 0:
                if any(not isinstance(c, str) for c in cs[:x]):
                    raise Cannot('slice inside unknown text')
                return min(x, len(cs))
            if any(not isinstance(c, str) for c in cs[x:]):
                raise Cannot('slice inside unknown text')
            return len(cs) + x
        return mk(cs[pos(lo, 0):pos(hi, len(cs))])

    @staticmethod
    def eq(I, a, b):
        if a == b:
            return True
        x, y = Str.chars(a), Str.chars(b)
        i = 0
        while i < len(x) and i < len(y) and isinstance(x[i], str) and isinstance(y[i], str):
            if x[i] != y[i]:
                return False
            i += 1
        if i == len(x) or i == len(y):
            return False        # unknown pieces are not empty
        u, v = x[::-1], y[::-1]
        j = 0
        while j < len(u) and j < len(v) and isinstance(u[j], str) and isinstance(v[j], str):
            if u[j] != v[j]:
                return False
            j += 1
        ex = [c for c in x if not isinstance(c, str)]
        ey = [c for c in y if not isinstance(c, str)]
        for ops, other in ((ex, y), (ey, x)):
            if len(ops) == 1 and all(isinstance(c, str) for c in other) and any(c in ops[0].excl for c in other[i:len(other) - j]):
                return False
        if any(o.num is not None for o in ex + ey):
            # numbers are generic: equal to no particular constant
            return False
        if ex and ey and all(o.num is None for o in ex + ey) and not (a.__class__ is str or b.__class__ is str):
            return I.ask(('eq',) + tuple(sorted((repr(a), repr(b)))), f'{a!r} == {b!r}')
        return I.ask(('eq',) + tuple(sorted((repr(a), repr(b)))), f'{a!r} == {b!r}')


# ------------------------------------------------------------------ objects
class Inst:
    def __init__(self, cls):
        self.cls = cls            # ClassVal
        self.attrs = {}

    def __repr__(self):
        return f'<{self.cls.name} object>'


class ClassVal:
    def __init__(self, node, mod):
        self.node = node
        self.mod = mod
        self.name = node.name


class Func:
    def __init__(self, node, mod, env=None, cls=None):
        self.node, self.mod, self.env, self.cls = node, mod, env, cls


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Ext:
    """A name outside the package."""

    def __init__(self, q):
        self.q = q

    def __eq__(self, o):
        return isinstance(o, Ext) and o.q == self.q

    def __hash__(self):
        return hash(('ext', self.q))

    def __repr__(self):
        return self.q


class ExcInst:
    def __init__(self, etype, args):
        self.etype, self.args = etype, args


class Meth:
    """Method of an abstract or built-in value."""

    def __init__(self, v, name):
        self.v, self.name = v, name


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class ModVal:
    def __init__(self, m):
        self.m = m


class LineNo(int):
    """The position of a line; not part of the parser's state."""


class Frame:
    def __init__(self, fn, mod, env, parent=None):
        self.fn, self.mod, self.env, self.parent = fn, mod, env, parent
        self.nonlocals = {}
        self.globals = set()
        self.yields = None


class Explorer:
    """Depth-first enumeration of the undecided choices of a deterministic run."""

    def __init__(self, limit=20000):
        self.limit = limit
        self.paths = 0
        self.pruned = 0

    def run(self, body):
        """body(choose) is replayed once per leaf; choose(n, label) -> 0..n-1."""
        tape = []
        while True:
            pos = [0]

            def choose(n, label=None):
                if pos[0] < len(tape):
                    v = tape[pos[0]][0]
                else:
                    tape.append([0, n, label])
                    v = 0
                pos[0] += 1
                return v
            self.fresh = lambda: pos[0] >= len(tape)
            try:
                body(choose)
            except Prune:
                self.pruned += 1
            self.paths += 1
            del tape[pos[0]:]
            while tape and tape[-1][0] + 1 >= tape[-1][1]:
                tape.pop()
            if not tape:
                return True
            tape[-1][0] += 1
            if self.paths + self.pruned > self.limit * 3 or self.paths > self.limit:
                return False


class DefaultDict(dict):
    factory = None

    def copy(self):
        r = DefaultDict(self)
        r.factory = self.factory
        return r


class Interp:
    def __init__(self, P, choose, hooks=None, fuel=200000):
        self.P = P
        self.choose = choose
        self.hooks = hooks or {}
        self.fuel = fuel
        self.stack = []
        self.memo = {}            # question -> answer
        self.rows = []            # linear facts: (coefs, const) meaning <= 0
        self.neqs = []            # ... meaning != 0
        self.notes = []
        self.modconst = {}
        self.clsattrs = {}
        self.fresh = {}
        self.trace = None         # executed statements, when recorded

    # -------------------------------------------------------------- questions
    def ask(self, key, label=None):
        if key not in self.memo:
            self.memo[key] = bool(self.choose(2, label or key))
            if label:
                self.notes.append((label, self.memo[key]))
        return self.memo[key]

    def lin(self, x):
        c = {}
        for a, k in x.t:
            c[a] = k
        return c, x.c

    def bounds(self, x):
        out = []
        for a, k in x.t:
            lo, hi = 0 if a[0] != 'num' or len(a) > 2 else None, None
            w = width(a)
            if w is not None:
                hi = (1 << w) - 1
            if a[0] == 'f' and a[5]:
                lo, hi = -(1 << (a[3] * 8 - 1)), (1 << (a[3] * 8 - 1)) - 1
            if a[0] == 'num' and len(a) == 2:
                lo = 0
            if lo is not None:
                out.append(({a: -1}, lo))
            if hi is not None:
                out.append(({a: 1}, -hi))
        return out

    def feasible(self, rows, neqs=()):
        if not self.possible(rows):
            return False
        # a convex set lies in a union of hyperplanes only if it lies in one of them
        for c, k in list(self.neqs) + list(neqs):
            if not self.possible(rows + [(c, k + 1)]) and not self.possible(rows + [({a: -v for a, v in c.items()}, -k + 1)]):
                return False
        return True

    def possible(self, rows):
        rs = self.rows + rows
        key = frozenset((tuple(sorted(c.items(), key=repr)), k) for c, k in rs)
        r = _feas.get(key)
        if r is not None:
            return r
        seen = set()
        ext = []
        for c, k in rs:
            for a in c:
                if a not in seen:
                    seen.add(a)
                    ext += self.bounds(N(0, {a: 1}))
        r = _feas[key] = not empty(rs + ext)
        return r

    def decide(self, alts, label):
        """alts: [(outcome, rows, disequalities)] covering all cases; returns one feasible outcome."""
        ok = [(o, r, q) for o, r, q in alts if self.feasible(r, q)]
        if not ok:
            raise Prune('infeasible')
        i = self.choose(len(ok), label) if len(ok) > 1 else 0
        o, r, q = ok[i]
        self.rows += r
        self.neqs += q
        if len(ok) > 1:
            self.notes.append((label, o))
        return o

    def zero(self, x, label=None):
        """x == 0?"""
        if isinstance(x, Bits):
            un = [b for b in x.b if not isinstance(b, int)]
            if x.fill or any(b == 1 for b in x.b):
                return False
            if any(b[0][0] in ('or', 'and', 'xor') for b in un):
                raise Cannot('test of combined bits')
            for b in un:
                if self.ask(('bit', b), f'bit {b[1]} of {atom(b[0])}'):
                    return False
            return True
        if not isinstance(x, N):
            return x == 0
        # a single multi-bit field compared with a constant
        c, k = self.lin(x)
        neg = {a: -v for a, v in c.items()}
        below, above = [(c, k + 1)], [(neg, -k + 1)]
        if not self.possible(below):
            no = (False, above, [])
        elif not self.possible(above):
            no = (False, below, [])
        else:
            no = (False, [], [(c, k)])
        return self.decide([(True, [(c, k), (neg, -k)], []), no], label or f'{x!r} == 0')

    def less(self, x, label=None):
        """x < 0?"""
        if isinstance(x, Bits):
            return bool(x.fill)
        if not isinstance(x, N):
            return x < 0
        c, k = self.lin(x)
        return self.decide([(True, [(c, k + 1)], []), (False, [({a: -v for a, v in c.items()}, -k)], [])], label or f'{x!r} < 0')

    def truth(self, v):
        if isinstance(v, (N, Bits)):
            return not self.zero(v)
        if isinstance(v, AbsStr):
            return True
        if isinstance(v, (Inst, ClassVal, Func, Bound, Ext, Pos, Meth)):
            if isinstance(v, Inst):
                f = self.clsattr(v.cls, '__len__') or self.clsattr(v.cls, '__bool__')
                if f is not None:
                    raise Cannot('object with its own truth value')
            if isinstance(v, Pos):
                return not (v.i == 0 and v.o == 0)
            return True
        h = getattr(v, 'abs_truth', None)
        if h is not None:
            return h(self)
        return bool(v)

    # -------------------------------------------------------------- names
    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.env and n not in fr.globals:
                return f.env[n]
            f = f.parent
        return self.modname(n, fr.mod)

    def modname(self, n, m):
        if n in m.funcs:
            return Func(m.funcs[n], m)
        if n in m.classes:
            return self.classval(m.classes[n], m)
        k = (m.name, n)
        if k in self.modconst:
            return self.modconst[k]
        if n in m.assigns:
            if len(m.assigns[n]) != 1 or m.assigns[n][0][1] is None or not isinstance(m.assigns[n][0][0], ast.Name):
                raise Cannot(f'module variable {n}')
            v = self.ev(m.assigns[n][0][1], Frame(None, m, {}))
            self.modconst[k] = v
            return v
        if n in m.imports:
            return self.imported(m.imports[n])
        if hasattr(builtins, n):
            return Ext(n)
        raise PyExc(ExcInst('NameError', (n,)))

    def classval(self, node, m):
        k = ('cls', node)
        if k not in self.modconst:
            self.modconst[k] = ClassVal(node, m)
        return self.modconst[k]

    def imported(self, q):
        if q == PKG or q.startswith(PKG + '.'):
            rest = q[len(PKG) + 1:]
            if rest in self.P.modules:
                return ModVal(self.P.modules[rest])
            if '.' in rest:
                mn, nm = rest.rsplit('.', 1)
                if mn in self.P.modules:
                    return self.modname(nm, self.P.modules[mn])
        return Ext(q)

    def clsattr(self, cls, n, seen=()):
        """Raw class attribute (a node or value), searching project bases."""
        for x in cls.node.body:
            if isinstance(x, ast.FunctionDef) and x.name == n:
                return x, cls
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in x.targets):
                return x.value, cls
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == n and x.value is not None:
                return x.value, cls
        for b in cls.node.bases:
            try:
                v = self.ev(b, Frame(None, cls.mod, {}))
            except (Cannot, PyExc):
                continue
            if isinstance(v, ClassVal):
                r = self.clsattr(v, n)
                if r is not None:
                    return r
        return None

    def mro(self, v):
        """Names of the classes of an exception value or class."""
        if isinstance(v, ClassVal):
            out = [v.name]
            for b in v.node.bases:
                try:
                    out += self.mro(self.ev(b, Frame(None, v.mod, {})))
                except Cannot:
                    pass
            return out
        if isinstance(v, Inst):
            return self.mro(v.cls)
        q = v.etype if isinstance(v, ExcInst) else v.q if isinstance(v, Ext) else None
        if q is None:
            return []
        q = q.split('.')[-1]
        b = getattr(builtins, q, None)
        if isinstance(b, type):
            return [c.__name__ for c in b.__mro__]
        if q == 'FatalError':
            return ['FatalError', 'RuntimeError', 'Exception', 'BaseException', 'object']
        if q == 'error':
            return ['error', 'struct.error', 'Exception', 'BaseException', 'object']
        return [q, 'Exception', 'BaseException', 'object']

    def attr(self, v, n, node=None):
        h = getattr(v, 'abs_attr', None)
        if h is not None:
            return h(self, n)
        if isinstance(v, ModVal):
            if v.m.name == 'log':
                return Ext('log.' + n)
            return self.modname(n, v.m)
        if isinstance(v, Ext):
            return Ext(v.q + '.' + n)
        if isinstance(v, Inst):
            r = self.clsattr(v.cls, n)
            if r is not None and isinstance(r[0], ast.FunctionDef):
                decs = [ast.unparse(d).split('.')[-1].split('(')[0] for d in r[0].decorator_list]
                if 'property' in decs:
                    return self.call(Bound(Func(r[0], r[1].mod, None, r[1]), v), [], {}, node)
                if 'cached_property' in decs:
                    if n not in v.attrs:
                        v.attrs[n] = self.call(Bound(Func(r[0], r[1].mod, None, r[1]), v), [], {}, node)
                    return v.attrs[n]
            if n in v.attrs:
                return v.attrs[n]
            if n == '__class__':
                return v.cls
            if n == '__dict__':
                return v.attrs
            if r is not None:
                return self.bindattr(r, v)
            if n == 'args' and '__args__' in v.attrs:
                return v.attrs['__args__']
            raise PyExc(ExcInst('AttributeError', (n,)))
        if isinstance(v, ClassVal):
            if n == '__name__':
                return v.name
            r = self.clsattr(v, n)
            if r is None:
                raise PyExc(ExcInst('AttributeError', (n,)))
            return self.bindattr(r, None, v)
        if isinstance(v, ExcInst):
            if n == 'args':
                return v.args
            return Op(('exc', v.etype, n)) and AbsStr((Op(('exc', v.etype, n)),))
        return Meth(v, n)

    def bindattr(self, r, inst, cls=None):
        x, c = r
        if isinstance(x, ast.FunctionDef):
            decs = [ast.unparse(d) for d in x.decorator_list]
            f = Func(x, c.mod, None, c)
            if 'staticmethod' in decs:
                return f
            if 'classmethod' in decs:
                return Bound(f, inst.cls if inst is not None else cls)
            return Bound(f, inst) if inst is not None else f
        k = ('clsattr', c.node, id(x))
        if k not in self.clsattrs:
            self.clsattrs[k] = self.ev(x, Frame(None, c.mod, {}))
        return self.clsattrs[k]

    # -------------------------------------------------------------- calls
    def call(self, f, args, kw, node=None):
        self.burn()
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kw, node)
        if isinstance(f, Partial):
            return self.call(f.f, list(f.args) + list(args), {**f.kw, **kw}, node)
        if isinstance(f, Func):
            h = self.hooks.get(self.qual(f))
            if h is not None:
                return h(self, args, kw)
            return self.invoke(f, args, kw)
        if isinstance(f, ClassVal):
            return self.new(f, args, kw)
        if isinstance(f, Ext):
            return self.ext(f.q, args, kw, node)
        if isinstance(f, Meth):
            return self.method(f.v, f.name, args, kw, node)
        if callable(f) and getattr(f, 'abs_call', False):
            return f(self, args, kw)
        raise Cannot(f'call of {type(f).__name__}')

    def qual(self, f):
        return f'{f.mod.name}.{f.cls.name + "." if f.cls else ""}{getattr(f.node, "name", "<lambda>")}'

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        for n, v in zip(pos, args):
            env[n] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise PyExc(ExcInst('TypeError', ('too many arguments',)))
            env[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        extra = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc(ExcInst('TypeError', (f'unexpected keyword {k}',)))
        if a.kwarg is not None:
            env[a.kwarg.arg] = extra
        dfr = Frame(None, f.mod, {}, f.env)
        for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.ev(d, dfr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ev(d, dfr)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                raise PyExc(ExcInst('TypeError', (f'missing argument {n}',)))
        return env

    def invoke(self, f, args, kw):
        env = self.bind(f, args, kw)
        fr = Frame(f.node, f.mod, env, f.env)
        fr.cls = f.cls
        if len(self.stack) > 60:
            raise Cannot('recursion')
        self.stack.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if is_generator(f.node):
                fr.yields = []
                try:
                    self.block(f.node.body, fr)
                except Ret:
                    pass
                return iter(fr.yields)
            try:
                self.block(f.node.body, fr)
            except Ret as r:
                return r.v
            return None
        finally:
            self.stack.pop()

    def new(self, cls, args, kw):
        h = self.hooks.get(f'new:{cls.mod.name}.{cls.name}')
        if h is not None:
            return h(self, args, kw)
        i = Inst(cls)
        init = self.clsattr(cls, '__init__')
        if init is not None:
            self.call(Bound(Func(init[0], init[1].mod, None, init[1]), i), args, kw)
            return i
        if any('dataclass' in ast.unparse(d) for d in cls.node.decorator_list):
            fields = [x for x in cls.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and
                      'ClassVar' not in ast.unparse(x.annotation)]
            names = [x.target.id for x in fields]
            if len(args) > len(names):
                raise PyExc(ExcInst('TypeError', ('too many arguments',)))
            for n, v in zip(names, args):
                i.attrs[n] = v
            for k, v in kw.items():
                if k not in names:
                    raise PyExc(ExcInst('TypeError', (k,)))
                i.attrs[k] = v
            for x in fields:
                if x.target.id not in i.attrs:
                    if x.value is None:
                        raise PyExc(ExcInst('TypeError', (f'missing {x.target.id}',)))
                    if isinstance(x.value, ast.Call) and ast.unparse(x.value.func).endswith('field'):
                        kwd = {k.arg: k.value for k in x.value.keywords}
                        if 'default' in kwd:
                            i.attrs[x.target.id] = self.ev(kwd['default'], Frame(None, cls.mod, {}))
                        elif 'default_factory' in kwd:
                            i.attrs[x.target.id] = self.call(self.ev(kwd['default_factory'], Frame(None, cls.mod, {})), [], {})
                        continue
                    i.attrs[x.target.id] = self.ev(x.value, Frame(None, cls.mod, {}))
            post = self.clsattr(cls, '__post_init__')
            if post is not None:
                self.call(Bound(Func(post[0], post[1].mod, None, post[1]), i), [], {})
            return i
        if 'NamedTuple' in ' '.join(ast.unparse(b) for b in cls.node.bases):
            raise Cannot('named tuple')
        i.attrs['__args__'] = tuple(args)
        return i

    # -------------------------------------------------------------- externals
    def ext(self, q, args, kw, node):
        h = self.hooks.get(q)
        if h is not None:
            return h(self, args, kw)
        f = getattr(self, 'x_' + q.replace('.', '_'), None)
        if f is not None:
            return f(*args, **kw)
        if q.startswith('log.'):
            if q == 'log.die':
                raise PyExc(ExcInst('SystemExit', tuple(args)))
            return None
        b = getattr(builtins, q, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return ExcInst(q, tuple(args))
        if q.split('.')[-1] in ('FatalError', 'error') or q.endswith('Error') or q.endswith('Exception'):
            return ExcInst(q.split('.')[-1], tuple(args))
        if q in ('typing.cast', 'cast'):
            return args[1]
        raise Cannot(f'call of {q}')

    def x_len(self, v):
        if isinstance(v, AbsStr):
            return N(0, {('len', v.parts): 1})
        h = getattr(v, 'abs_len', None)
        if h is not None:
            return h(self)
        if isinstance(v, (list, tuple, dict, set, str, bytes, frozenset, range)):
            return len(v)
        raise Cannot('len')

    def x_int(self, v=0, base=10):
        if isinstance(v, str):
            try:
                return int(v, base)
            except ValueError:
                raise PyExc(ExcInst('ValueError', (v,)))
        if isinstance(v, AbsStr):
            ps = v.parts
            if len(ps) == 2 and ps[0] in ('0x', '0X') and isinstance(ps[1], Op) and ps[1].num is not None and base in (0, 16):
                return ps[1].num
            if len(ps) == 2 and isinstance(ps[1], Op) and ps[1].num is not None and base == 10:
                raise PyExc(ExcInst('ValueError', (v,)))
            if len(ps) == 1 and isinstance(ps[0], Op) and ps[0].num is not None:
                raise Cannot('base')
            if any(isinstance(p, str) and any(c not in '0123456789abcdefABCDEFxX_+- ' for c in p) for p in ps):
                raise PyExc(ExcInst('ValueError', (v,)))
            raise PyExc(ExcInst('ValueError', (v,)))
        if isinstance(v, (N, Bits, int)):
            return v if not isinstance(v, bool) else int(v)
        if isinstance(v, float):
            return int(v)
        if v is None:
            raise PyExc(ExcInst('TypeError', ()))
        raise Cannot('int')

    def x_str(self, v=''):
        if isinstance(v, (str, AbsStr)):
            return v
        if isinstance(v, (N, Bits)):
            return AbsStr((Op(('str', v)),))
        if isinstance(v, (int, float)) or v is None:
            return str(int(v)) if isinstance(v, LineNo) else str(v)
        if isinstance(v, (Inst,)) and '__args__' in v.attrs and len(v.attrs['__args__']) == 1:
            return self.x_str(v.attrs['__args__'][0])
        if isinstance(v, ExcInst):
            if len(v.args) == 1 and isinstance(v.args[0], (str, AbsStr)):
                return v.args[0]
            return AbsStr((Op(('exc', v.etype)),))
        return AbsStr((Op(('str', id(v))),))

    def x_repr(self, v):
        if isinstance(v, (str, int)) and not isinstance(v, LineNo):
            return repr(v)
        return mk(["'", self.x_str(v), "'"])

    def x_hex(self, v):
        if isinstance(v, int):
            return hex(v)
        return AbsStr((Op(('hex', v)),))

    def x_bool(self, v=False):
        return self.truth(v)

    def x_any(self, it):
        return any(self.truth(x) for x in self.iter(it))

    def x_all(self, it):
        return all(self.truth(x) for x in self.iter(it))

    def x_sum(self, it, start=0):
        for x in self.iter(it):
            start = self.binop('+', start, x)
        return start

    def x_min(self, *a, **kw):
        return self.extreme(a, kw, -1)

    def x_max(self, *a, **kw):
        return self.extreme(a, kw, 1)

    def extreme(self, a, kw, sign):
        xs = list(self.iter(a[0])) if len(a) == 1 else list(a)
        key = kw.get('key')
        if not xs:
            if 'default' in kw:
                return kw['default']
            raise PyExc(ExcInst('ValueError', ()))
        best = xs[0]
        bk = self.call(key, [best], {}) if key else best
        for x in xs[1:]:
            k = self.call(key, [x], {}) if key else x
            if self.compare('<', bk, k) if sign > 0 else self.compare('<', k, bk):
                best, bk = x, k
        return best

    def x_abs(self, v):
        return abs(v) if not isinstance(v, (N, Bits)) else (nmul(v, -1) if self.less(v) else v)

    def x_range(self, *a):
        if all(isinstance(x, int) for x in a):
            return range(*a)
        h = self.hooks.get('range')
        raise Cannot('range')

    def x_enumerate(self, it, start=0):
        def gen():
            i = start
            for x in self.iter(it):
                yield (i, x)
                i = i + 1 if not isinstance(i, LineNo) else LineNo(i + 1)
        return gen()

    def x_reversed(self, it):
        if isinstance(it, (list, tuple, range, dict)):
            return iter(list(it)[::-1])
        raise Cannot('reversed')

    def x_zip(self, *its):
        return zip(*[self.iter(x) for x in its])

    def x_iter(self, it):
        return iter(self.iter(it))

    def x_next(self, it, *d):
        try:
            return next(it)
        except StopIteration:
            if d:
                return d[0]
            raise PyExc(ExcInst('StopIteration', ()))
        except TypeError:
            raise Cannot('next')

    def x_map(self, f, *its):
        return (self.call(f, list(x), {}) for x in zip(*[self.iter(i) for i in its]))

    def x_filter(self, f, it):
        return (x for x in self.iter(it) if self.truth(x if f is None else self.call(f, [x], {})))

    def x_list(self, it=()):
        return list(self.iter(it))

    def x_tuple(self, it=()):
        return tuple(self.iter(it))

    def x_set(self, it=()):
        return set(self.iter(it))

    def x_frozenset(self, it=()):
        return frozenset(self.iter(it))

    def x_dict_fromkeys(self, it, value=None):
        return {k: value for k in self.iter(it)}

    def x_dict(self, it=(), **kw):
        d = dict(it) if isinstance(it, dict) else {k: v for k, v in (tuple(self.iter(x)) for x in self.iter(it))}
        d.update(kw)
        return d

    def x_collections_OrderedDict(self, it=(), **kw):
        return self.x_dict(it, **kw)

    def x_collections_defaultdict(self, factory=None, it=(), **kw):
        r = DefaultDict(self.x_dict(it, **kw))
        r.factory = factory
        return r

    def x_itertools_chain(self, *its):
        return [x for it in its for x in self.iter(it)]

    def x_itertools_chain_from_iterable(self, its):
        return [x for it in self.iter(its) for x in self.iter(it)]

    def x_operator_itemgetter(self, *ks):
        def get(I, args, kw):
            v = [I.index(args[0], k) for k in ks]
            return v[0] if len(ks) == 1 else tuple(v)
        get.abs_call = True
        return get

    def x_operator_attrgetter(self, k):
        def get(I, args, kw):
            v = args[0]
            for x in k.split('.'):
                v = I.attr(v, x)
            return v
        get.abs_call = True
        return get

    def x_functools_reduce(self, f, it, *start):
        xs = list(self.iter(it))
        if start:
            v = start[0]
        elif xs:
            v, xs = xs[0], xs[1:]
        else:
            raise PyExc(ExcInst('TypeError', ()))
        for x in xs:
            v = self.call(f, [v, x], {})
        return v

    def x_copy_deepcopy(self, v):
        if isinstance(v, set):
            return set(v)
        if isinstance(v, DefaultDict):
            r = DefaultDict({k: self.x_copy_deepcopy(x) for k, x in v.items()})
            r.factory = v.factory
            return r
        if isinstance(v, dict):
            return {k: self.x_copy_deepcopy(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.x_copy_deepcopy(x) for x in v]
        if isinstance(v, Inst):
            raise Cannot('deepcopy')
        return v

    def x_copy_copy(self, v):
        if isinstance(v, (dict, list, set)):
            return v.copy()
        raise Cannot('copy')

    def x_sorted(self, it, key=None, reverse=False):
        xs = list(self.iter(it))
        if len(xs) < 2:
            return xs
        ks = [self.call(key, [x], {}) if key else x for x in xs]
        if all(isinstance(k, (int, str)) for k in ks):
            o = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
            return [xs[i] for i in o]
        if all(isinstance(k, (int, N)) for k in ks) and len(xs) <= 12:
            out = []
            for i in range(len(xs)):
                j = len(out)
                while j > 0 and self.compare('<', *((ks[i], ks[out[j - 1]]) if not reverse else (ks[out[j - 1]], ks[i]))):
                    j -= 1
                out.insert(j, i)
            return [xs[i] for i in out]
        raise Cannot('sorted')

    def x_isinstance(self, v, t):
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, ClassVal):
                if isinstance(v, Inst) and x.name in self.mro(v.cls):
                    return True
            elif isinstance(x, Ext):
                n = x.q.split('.')[-1]
                if n == 'int' and (isinstance(v, (N, Bits, int, Pos))) or n == 'str' and isinstance(v, (str, AbsStr)) or \
                        n == 'dict' and isinstance(v, dict) or n == 'list' and isinstance(v, list) or \
                        n == 'tuple' and isinstance(v, tuple) or n == 'bool' and isinstance(v, bool) or \
                        n == 'bytes' and (isinstance(v, bytes) or hasattr(v, 'abs_bytes')) or n == 'float' and isinstance(v, float) or \
                        n == 'set' and isinstance(v, set):
                    return True
                if isinstance(v, ExcInst) and n in self.mro(v):
                    return True
        return False

    def x_getattr(self, v, n, *d):
        if not isinstance(n, str):
            raise Cannot('getattr')
        try:
            return self.attr(v, n)
        except PyExc:
            if d:
                return d[0]
            raise

    def x_hasattr(self, v, n):
        if isinstance(v, Inst):
            return n in v.attrs or self.clsattr(v.cls, n) is not None
        raise Cannot('hasattr')

    def x_setattr(self, v, n, x):
        if isinstance(v, Inst) and isinstance(n, str):
            v.attrs[n] = x
            return None
        raise Cannot('setattr')

    def x_callable(self, v):
        return isinstance(v, (Func, Bound, Ext, Meth, ClassVal, Partial))

    def x_id(self, v):
        return id(v)

    def x_print(self, *a, **k):
        return None

    def x_ord(self, v):
        if isinstance(v, str):
            return ord(v)
        raise Cannot('ord')

    def x_chr(self, v):
        if isinstance(v, int):
            return chr(v)
        raise Cannot('chr')

    def x_divmod(self, a, b):
        return (self.binop('//', a, b), self.binop('%', a, b))

    def x_functools_partial(self, f, *a, **k):
        return Partial(f, a, k)

    def x_os_path_basename(self, v):
        if isinstance(v, str):
            import posixpath
            return posixpath.basename(v)
        raise Cannot('basename')

    # -------------------------------------------------------------- methods
    def method(self, v, n, args, kw, node):
        h = getattr(v, 'abs_method', None)
        if h is not None:
            return h(self, n, args, kw)
        if isinstance(v, (str, AbsStr)):
            return self.strmeth(v, n, args, kw)
        if isinstance(v, (list, dict, set, tuple, bytes, frozenset, range)):
            return self.native(v, n, args, kw)
        if isinstance(v, (N, Bits)):
            if n == 'bit_length' or n == 'to_bytes':
                raise Cannot(n)
        if isinstance(v, int) and not isinstance(v, bool) and n in ('bit_length', 'to_bytes', 'conjugate'):
            return getattr(v, n)(*args, **kw)
        if hasattr(v, '__next__') and n in ('send', 'close', '__next__'):
            if n == '__next__':
                return self.x_next(v)
            raise Cannot(n)
        raise Cannot(f'method {n} of {type(v).__name__}')

    def native(self, v, n, args, kw):
        if isinstance(v, dict):
            if n == 'get':
                return v[args[0]] if args[0] in v else (args[1] if len(args) > 1 else kw.get('default'))
            if n in ('items', 'keys', 'values'):
                return list(getattr(v, n)())
            if n == 'setdefault':
                return v.setdefault(*args)
            if n == 'update':
                if args:
                    v.update(self.x_dict(args[0]))
                v.update(kw)
                return None
            if n == 'pop':
                if args[0] in v:
                    return v.pop(args[0])
                if len(args) > 1:
                    return args[1]
                raise PyExc(ExcInst('KeyError', (args[0],)))
            if n in ('copy', 'clear', 'popitem'):
                try:
                    return getattr(v, n)()
                except KeyError:
                    raise PyExc(ExcInst('KeyError', ()))
            if n == 'fromkeys':
                return self.x_dict_fromkeys(*args)
        if isinstance(v, list):
            if n in ('append', 'insert', 'clear', 'copy', 'reverse'):
                return getattr(v, n)(*args)
            if n == 'sort':
                v[:] = self.x_sorted(v, **kw)
                return None
            if n == 'extend':
                v.extend(list(self.iter(args[0])))
                return None
            if n == 'pop':
                try:
                    return v.pop(*args)
                except IndexError:
                    raise PyExc(ExcInst('IndexError', ()))
            if n in ('index', 'count', 'remove'):
                for i, x in enumerate(v):
                    if self.eq(x, args[0]):
                        if n == 'index':
                            return i
                        if n == 'remove':
                            del v[i]
                            return None
                if n == 'count':
                    return sum(1 for x in v if self.eq(x, args[0]))
                raise PyExc(ExcInst('ValueError', ()))
        if isinstance(v, set) and n in ('add', 'discard', 'update', 'copy', 'union'):
            return getattr(v, n)(*args)
        if isinstance(v, tuple) and n == 'index':
            return self.native(list(v), n, args, kw)
        if isinstance(v, bytes):
            try:
                return getattr(v, n)(*args, **kw)
            except ValueError:
                raise PyExc(ExcInst('ValueError', ()))
        raise Cannot(f'method {n} of {type(v).__name__}')

    def strmeth(self, v, n, args, kw):
        conc = isinstance(v, str) and all(isinstance(a, (str, int, tuple, type(None))) and
                                          (not isinstance(a, tuple) or all(isinstance(x, str) for x in a)) for a in args)
        if n == 'join':
            xs = list(self.iter(args[0]))
            out = []
            for i, x in enumerate(xs):
                if i:
                    out.append(v)
                if not isinstance(x, (str, AbsStr)):
                    raise PyExc(ExcInst('TypeError', ()))
                out.append(x)
            return mk(out)
        if n == 'format':
            raise Cannot('format')
        if conc and not kw:
            try:
                return getattr(v, n)(*args)
            except ValueError:
                raise PyExc(ExcInst('ValueError', ()))
        if n in ('strip', 'lstrip', 'rstrip'):
            return Str.strip(self, v, args[0] if args else None, n != 'rstrip', n != 'lstrip')
        if n == 'split':
            return Str.split(self, v, args[0] if args else kw.get('sep'), args[1] if len(args) > 1 else kw.get('maxsplit', -1))
        if n == 'rsplit':
            return Str.rsplit(self, v, args[0] if args else kw.get('sep'), args[1] if len(args) > 1 else kw.get('maxsplit', -1))
        if n == 'startswith':
            return Str.starts(self, v, args[0])
        if n == 'endswith':
            return Str.starts(self, v, args[0], True)
        if n in ('find', 'rfind', 'index', 'rindex') and len(args) == 1:
            p = Str.find(self, v, args[0], n[0] == 'r')
            if p == -1 and 'index' in n:
                raise PyExc(ExcInst('ValueError', ()))
            return p
        if n in ('partition', 'rpartition'):
            p = Str.find(self, v, args[0], n[0] == 'r')
            if p == -1:
                return (v, '', '') if n == 'partition' else ('', '', v)
            return (Str.slice(self, v, None, p), args[0], Str.slice(self, v, self.binop('+', p, len(args[0])), None))
        if n in ('removeprefix', 'removesuffix'):
            if Str.starts(self, v, args[0], n == 'removesuffix'):
                return Str.slice(self, v, len(args[0]), None) if n == 'removeprefix' else Str.slice(self, v, None, -len(args[0]))
            return v
        if n == 'count':
            return sum(p.count(args[0]) for p in Str.parts(v) if isinstance(p, str)) if all(
                isinstance(p, str) or any(c in p.excl for c in args[0]) for p in Str.parts(v)) else self.cannot('count')
        if n in ('isspace',):
            return False
        if n == 'replace' and all(isinstance(p, str) or any(c in p.excl for c in args[0]) for p in Str.parts(v)):
            return mk([p.replace(args[0], args[1]) if isinstance(p, str) else p for p in Str.parts(v)])
        if n in ('lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase'):
            return mk([getattr(p, n)() if isinstance(p, str) else p if p.num is not None else Op((n, p.id), p.excl) for p in Str.parts(v)])
        raise Cannot(f'text method {n}')

    def cannot(self, m):
        raise Cannot(m)

    def iter(self, v):
        h = getattr(v, 'abs_iter', None)
        if h is not None:
            return h(self)
        if isinstance(v, (list, tuple, set, frozenset, range, bytes, str)):
            return self.live(v) if isinstance(v, list) else iter(v)
        if isinstance(v, dict):
            return iter(list(v))
        if hasattr(v, '__next__'):
            return v
        if v is None:
            raise PyExc(ExcInst('TypeError', ()))
        raise Cannot(f'iteration over {type(v).__name__}')

    def live(self, v):
        i = 0
        while i < len(v):
            yield v[i]
            i += 1

    # -------------------------------------------------------------- operators
    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, (N, Bits)) or isinstance(b, (N, Bits)):
            if isinstance(a, (N, Bits, int)) and isinstance(b, (N, Bits, int)):
                return self.numeq(a, b)
            return False
        if isinstance(a, Pos) or isinstance(b, Pos):
            if isinstance(a, Pos) and isinstance(b, Pos):
                return a == b
            o = b if isinstance(a, Pos) else a
            if isinstance(o, int) and o < 0:
                return False
            p = a if isinstance(a, Pos) else b
            if p.i == 0 and isinstance(o, int):
                return p.o == o
            raise Cannot('position')
        if isinstance(a, (str, AbsStr)) and isinstance(b, (str, AbsStr)):
            return a == b if isinstance(a, str) and isinstance(b, str) else Str.eq(self, a, b)
        for x, y in ((a, b), (b, a)):
            h = getattr(x, 'abs_eq', None)
            if h is not None:
                return h(self, y)
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, (Inst, Func, ClassVal, dict)) or isinstance(b, (Inst, Func, ClassVal, dict)):
            if isinstance(a, dict) and isinstance(b, dict):
                return a.keys() == b.keys() and all(self.eq(a[k], b[k]) for k in a)
            if isinstance(a, (Bound, Func)) and isinstance(b, (Bound, Func)):
                raise Cannot('function identity')
            return False
        return a == b

    def numeq(self, a, b):
        if isinstance(a, Bits) or isinstance(b, Bits):
            x, y = tobits(a), tobits(b)
            n = max(len(x.b), len(y.b))
            if x.fill != y.fill:
                return False
            for i in range(n):
                p, q = x.bit(i), y.bit(i)
                if p == q:
                    continue
                if isinstance(p, int) and isinstance(q, int):
                    return False
                if isinstance(p, int) or isinstance(q, int):
                    s, w = (q, p) if isinstance(p, int) else (p, q)
                    if s[0][0] in ('or', 'and', 'xor'):
                        raise Cannot('test of combined bits')
                    if self.ask(('bit', s), f'bit {s[1]} of {atom(s[0])}') != bool(w):
                        return False
                    continue
                raise Cannot('comparison of unknown bits')
            return True
        return self.zero(nadd(a, b, -1), f'{a!r} == {b!r}')

    def compare(self, op, a, b):
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            return not self.eq(a, b)
        if op in ('is', 'is not'):
            r = a is b if not (isinstance(a, (N, Bits)) or isinstance(b, (N, Bits))) else a == b
            if isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            return r if op == 'is' else not r
        if op in ('in', 'not in'):
            r = self.contains(a, b)
            return r if op == 'in' else not r
        if op in ('>', '>='):
            return self.compare({'>': '<', '>=': '<='}[op], b, a)
        if isinstance(a, (N, Bits, int)) and isinstance(b, (N, Bits, int)):
            if isinstance(a, int) and isinstance(b, int):
                return a < b if op == '<' else a <= b
            if isinstance(a, Bits) and isinstance(b, int):
                return self.bitsbelow(a, b if op == '<' else b + 1)
            if isinstance(b, Bits) and isinstance(a, int):
                return not self.bitsbelow(b, a + 1 if op == '<' else a)
            if isinstance(a, Bits) or isinstance(b, Bits):
                x, y = self.nn(a), self.nn(b)
            else:
                x, y = a, b
            d = nadd(x, y, -1)
            if op == '<':
                return self.less(d, f'{a!r} < {b!r}')
            return not self.less(nmul(d, -1), f'{b!r} < {a!r}')
        if isinstance(a, Pos) or isinstance(b, Pos):
            if isinstance(a, int) and isinstance(b, Pos):
                if a < 0 or a == 0 and op == '<=' or a == 0 and (b.i or b.o):
                    return True
            if isinstance(b, int) and isinstance(a, Pos) and b <= 0:
                return op == '<=' and b == 0 and a.i == 0 and a.o == 0
            if isinstance(a, Pos) and isinstance(b, Pos) and a.s == b.s:
                return ((a.i, a.o) < (b.i, b.o)) or op == '<=' and a == b
            raise Cannot('position')
        if a is None or b is None:
            raise PyExc(ExcInst('TypeError', ()))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.compare('<', x, y)
            return len(a) < len(b) if op == '<' else len(a) <= len(b)
        if isinstance(a, (str, float, int, bytes)) and isinstance(b, (str, float, int, bytes)):
            return a < b if op == '<' else a <= b
        raise Cannot('comparison')

    def bitsbelow(self, x, c):
        """x < c for bits x and a number c."""
        if not isinstance(x.fill, int):
            raise Cannot('order of bit vectors')
        b = [int(self.memo[('bit', z)]) if not isinstance(z, int) and ('bit', z) in self.memo else z for z in x.b]
        base = -(1 << len(b)) if x.fill else 0
        lo = base + sum(1 << i for i, z in enumerate(b) if z == 1)
        hi = base + sum(1 << i for i, z in enumerate(b) if z != 0)
        if hi < c:
            return True
        if lo >= c:
            return False
        if not x.fill and c > 0 and c & (c - 1) == 0:
            return self.zero(Bits([0] * (c.bit_length() - 1) + list(x.b[c.bit_length() - 1:])))
        raise Cannot('order of bit vectors')

    def nn(self, x):
        if isinstance(x, Bits):
            raise Cannot('order of bit vectors')
        return x

    def contains(self, a, b):
        if isinstance(b, (str, AbsStr)):
            if isinstance(a, str) and isinstance(b, str):
                return a in b
            return Str.contains(self, b, a)
        h = getattr(b, 'abs_contains', None)
        if h is not None:
            return h(self, a)
        if isinstance(b, dict):
            if isinstance(a, (str, int, bytes, type(None))) and not isinstance(a, (N, Bits)):
                return a in b
            if a in b:
                return True
            if isinstance(a, (N, Bits)):
                return any(self.eq(a, k) for k in b)
            if isinstance(a, AbsStr):
                return any(isinstance(k, str) and self.eq(a, k) for k in b) or \
                    any(isinstance(k, AbsStr) and self.eq(a, k) for k in b)
            return False
        return any(self.eq(x, a) for x in self.iter(b))

    def binop(self, op, a, b):
        h = getattr(a, 'abs_binop', None) or getattr(b, 'abs_binop', None)
        if h is not None:
            return h(self, op, a, b)
        if op == '+' and isinstance(a, Pos) and isinstance(b, int):
            return Pos(a.s, a.i, a.o + b)
        if op == '+' and isinstance(b, Pos) and isinstance(a, int):
            return Pos(b.s, b.i, b.o + a)
        if op == '-' and isinstance(a, Pos) and isinstance(b, int):
            return Pos(a.s, a.i, a.o - b)
        if op == '+' and isinstance(a, (str, AbsStr)) and isinstance(b, (str, AbsStr)):
            return mk([a, b])
        if op == '%' and isinstance(a, str):
            return AbsStr((Op(('fmt', a)),))
        if a is None or b is None:
            raise PyExc(ExcInst('TypeError', ()))
        if isinstance(a, (N, Bits)) or isinstance(b, (N, Bits)):
            if not isinstance(a, (N, Bits, int)) or not isinstance(b, (N, Bits, int)):
                if isinstance(a, float) or isinstance(b, float):
                    raise Cannot('float')
                raise PyExc(ExcInst('TypeError', ()))
            if op in '+-' and not isinstance(a, Bits) and not isinstance(b, Bits):
                return nadd(a, b, 1 if op == '+' else -1)
            if op == '+':
                try:
                    return frombits(disjoint(tobits(a), tobits(b)))
                except Cannot:
                    return nadd(a, b)
            if op == '-' and a == b:
                return 0
            if op == '-' and isinstance(a, Bits) and isinstance(b, int) and b > 0 and b & (b - 1) == 0 and not a.fill and \
                    len(a.b) <= b.bit_length() - 1:
                # x - 2**k with x < 2**k: the bits of x below a negative fill
                k = b.bit_length() - 1
                return Bits(list(a.b) + [0] * (k - len(a.b)), 1)
            if op == '*':
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, int):
                        if isinstance(y, N):
                            return nmul(y, x)
                        if x == 0:
                            return 0
                        if x > 0 and x & (x - 1) == 0:
                            return frombits(Bits([0] * (x.bit_length() - 1) + list(y.b), y.fill))
                if isinstance(a, N) and isinstance(b, N):
                    return N(0, {('mul',) + tuple(sorted((repr(a), repr(b)))): 1})
            if op == '<<' and isinstance(b, int):
                x = tobits(a)
                return frombits(Bits([0] * b + list(x.b), x.fill))
            if op == '>>' and isinstance(b, int):
                x = tobits(a)
                return frombits(Bits(x.b[b:], x.fill))
            if op == '&':
                return bop(a, b, bit_and)
            if op == '|':
                return bop(a, b, bit_or)
            if op == '^':
                return bop(a, b, bit_xor)
            if op == '%' and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
                return bop(a, b - 1, bit_and)
            if op == '//' and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
                return self.binop('>>', a, b.bit_length() - 1)
            if op in ('//', '%', '/', '<<', '**'):
                return N(0, {(op, repr(a), repr(b)): 1})
            if op == '-':
                return nadd(a, b, -1)
            raise Cannot(f'{op} of unknown numbers')
        try:
            if isinstance(a, LineNo) or isinstance(b, LineNo):
                return LineNo(PYOPS[op](int(a), int(b)))
            return PYOPS[op](a, b)
        except TypeError:
            raise PyExc(ExcInst('TypeError', ()))
        except ZeroDivisionError:
            raise PyExc(ExcInst('ZeroDivisionError', ()))
        except KeyError:
            raise Cannot(op)

    # -------------------------------------------------------------- expressions
    def burn(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Cannot('step limit')

    def ev(self, n, fr):
        self.burn()
        f = getattr(self, 'e_' + type(n).__name__, None)
        if f is None:
            raise Cannot(f'expression {type(n).__name__}')
        return f(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.name(n.id, fr)

    def e_JoinedStr(self, n, fr):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.format_spec is not None or v.conversion == 114:
                    if isinstance(x, (str, int)) and not isinstance(x, LineNo) and v.format_spec is not None:
                        sp = self.e_JoinedStr(v.format_spec, fr)
                        if isinstance(sp, str):
                            try:
                                out.append(format(x, sp))
                                continue
                            except ValueError:
                                raise PyExc(ExcInst('ValueError', ()))
                    out.append(AbsStr((Op(('fmt', repr(x))),)))
                else:
                    out.append(self.x_str(x))
        return mk(out)

    def e_List(self, n, fr):
        return self.elts(n.elts, fr)

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        return set(self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out += list(self.iter(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def e_Attribute(self, n, fr):
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
            raise Cannot('super')
        return self.attr(self.ev(n.value, fr), n.attr, n)

    def e_Subscript(self, n, fr):
        v = self.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            lo = self.ev(s.lower, fr) if s.lower else None
            hi = self.ev(s.upper, fr) if s.upper else None
            st = self.ev(s.step, fr) if s.step else None
            return self.slice(v, lo, hi, st)
        return self.index(v, self.ev(n.slice, fr))

    def slice(self, v, lo, hi, st):
        h = getattr(v, 'abs_slice', None)
        if h is not None:
            return h(self, lo, hi, st)
        if isinstance(v, (str, AbsStr)):
            if isinstance(v, str) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return v[lo:hi:st]
            return Str.slice(self, v, lo, hi, st)
        if isinstance(v, (list, tuple, bytes)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return v[lo:hi:st]
        raise Cannot('slice')

    def index(self, v, k):
        h = getattr(v, 'abs_index', None)
        if h is not None:
            return h(self, k)
        if isinstance(v, DefaultDict) and k not in v:
            if isinstance(k, (N, Bits, AbsStr)):
                raise Cannot('key of a defaultdict')
            if v.factory is None:
                raise PyExc(ExcInst('KeyError', (k,)))
            v[k] = self.call(v.factory, [], {})
            return v[k]
        if isinstance(v, dict):
            if isinstance(k, (N, Bits)):
                for x in v:
                    if self.eq(k, x):
                        return v[x]
                raise PyExc(ExcInst('KeyError', (k,)))
            if k in v:
                return v[k]
            if isinstance(k, AbsStr):
                for x in v:
                    if isinstance(x, (str, AbsStr)) and self.eq(k, x):
                        return v[x]
            raise PyExc(ExcInst('KeyError', (k,)))
        if isinstance(v, AbsStr):
            return Str.slice(self, v, k, None if k == -1 else self.binop('+', k, 1))
        if isinstance(v, (list, tuple, str, bytes, range)):
            if isinstance(k, (N, Bits)):
                for i in range(len(v)):
                    if self.eq(k, i):
                        return v[i]
                raise PyExc(ExcInst('IndexError', ()))
            if not isinstance(k, int):
                raise PyExc(ExcInst('TypeError', ()))
            try:
                return v[k]
            except IndexError:
                raise PyExc(ExcInst('IndexError', ()))
        if v is None:
            raise PyExc(ExcInst('TypeError', ()))
        raise Cannot(f'index of {type(v).__name__}')

    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
            return self.supercall(n, fr)
        f = self.ev(n.func, fr)
        args = self.elts(n.args, fr)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, fr))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw, n)

    def supercall(self, n, fr):
        c = getattr(fr, 'cls', None)
        if c is None:
            raise Cannot('super')
        me = next(iter(fr.env.values()))
        args = self.elts(n.args, fr)
        kw = {k.arg: self.ev(k.value, fr) for k in n.keywords}
        for b in c.node.bases:
            v = self.ev(b, Frame(None, c.mod, {}))
            if isinstance(v, ClassVal):
                r = self.clsattr(v, n.func.attr)
                if r is not None:
                    return self.call(Bound(Func(r[0], r[1].mod, None, r[1]), me), args, kw)
        if n.func.attr == '__init__':
            me.attrs['__args__'] = tuple(args)
            return None
        raise Cannot('super')

    def e_BinOp(self, n, fr):
        return self.binop(OPS[type(n.op)], self.ev(n.left, fr), self.ev(n.right, fr))

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, N):
                return nmul(v, -1)
            if isinstance(v, Bits):
                raise Cannot('minus')
            return -v
        if isinstance(n.op, ast.Invert):
            x = tobits(v)
            if any(not isinstance(b, int) for b in x.b):
                raise Cannot('invert')
            return frombits(Bits([1 - b for b in x.b], 1 - x.fill))
        return v

    def e_BoolOp(self, n, fr):
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                return v
            if self.truth(v) != isinstance(n.op, ast.And):
                return v
        return v

    def e_Compare(self, n, fr):
        a = self.ev(n.left, fr)
        for op, r in zip(n.ops, n.comparators):
            b = self.ev(r, fr)
            if not self.compare(CMPS[type(op)], a, b):
                return False
            a = b
        return True

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def e_Lambda(self, n, fr):
        return Func(n, fr.mod, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Starred(self, n, fr):
        raise Cannot('starred')

    def e_Yield(self, n, fr):
        fr.yields.append(self.ev(n.value, fr) if n.value else None)
        return None

    def e_YieldFrom(self, n, fr):
        fr.yields += list(self.iter(self.ev(n.value, fr)))
        return None

    def comp(self, gens, fr):
        def go(i, f):
            if i == len(gens):
                yield f
                return
            g = gens[i]
            for x in self.iter(self.ev(g.iter, f)):
                self.burn()
                f2 = Frame(f.fn, f.mod, {}, f)
                self.assign(g.target, x, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    yield from go(i + 1, f2)
        return go(0, Frame(fr.fn, fr.mod, {}, fr))

    def e_ListComp(self, n, fr):
        return [self.ev(n.elt, f) for f in self.comp(n.generators, fr)]

    def e_SetComp(self, n, fr):
        return {self.ev(n.elt, f) for f in self.comp(n.generators, fr)}

    def e_GeneratorExp(self, n, fr):
        return (self.ev(n.elt, f) for f in self.comp(n.generators, fr))

    def e_DictComp(self, n, fr):
        d = {}
        for f in self.comp(n.generators, fr):
            d[self.ev(n.key, f)] = self.ev(n.value, f)
        return d

    # -------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.st(s, fr)

    def st(self, s, fr):
        self.burn()
        if self.trace is not None:
            self.trace.append(id(s))
        f = getattr(self, 's_' + type(s).__name__, None)
        if f is None:
            raise Cannot(f'statement {type(s).__name__}')
        try:
            f(s, fr)
        except PyExc as e:
            if e.node is None:
                e.node = s
                e.fr = fr
            raise

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, fr):
        base = s.module or ''
        if s.level:
            base = PKG + ('.' + base if base else '')
        for a in s.names:
            fr.env[a.asname or a.name] = self.imported(base + '.' + a.name)

    def s_Global(self, s, fr):
        fr.globals |= set(s.names)

    def s_Nonlocal(self, s, fr):
        for n in s.names:
            f = fr.parent
            while f is not None and n not in f.env:
                f = f.parent
            fr.nonlocals[n] = f

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Cannot('decorated function')
        fr.env[s.name] = Func(s, fr.mod, fr)

    def s_ClassDef(self, s, fr):
        raise Cannot('local class')

    def s_Return(self, s, fr):
        raise Ret(self.ev(s.value, fr) if s.value else None)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr)
            self.assign(t, self.inplace(op, old, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr(o, t.attr, self.inplace(op, self.attr(o, t.attr), self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            self.setitem(o, k, self.inplace(op, self.index(o, k), self.ev(s.value, fr)))
        else:
            raise Cannot('augmented assignment')

    def inplace(self, op, a, b):
        if op == '+' and isinstance(a, list):
            a.extend(list(self.iter(b)))
            return a
        if op == '|' and isinstance(a, (dict, set)):
            a.update(b)
            return a
        return self.binop(op, a, b)

    def setattr(self, o, n, v):
        if isinstance(o, Inst):
            r = self.clsattr(o.cls, n)
            if r is not None and isinstance(r[0], ast.FunctionDef):
                raise Cannot('property setter')
            o.attrs[n] = v
            return
        raise Cannot('attribute assignment')

    def setitem(self, o, k, v):
        if isinstance(o, dict):
            if isinstance(k, AbsStr) and k not in o:
                for x in o:
                    if isinstance(x, (str, AbsStr)) and self.eq(k, x):
                        k = x
                        break
            o[k] = v
            return
        if isinstance(o, list) and isinstance(k, int):
            try:
                o[k] = v
            except IndexError:
                raise PyExc(ExcInst('IndexError', ()))
            return
        raise Cannot('item assignment')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.nonlocals and fr.nonlocals[t.id] is not None:
                fr.nonlocals[t.id].env[t.id] = v
            elif t.id in fr.globals:
                self.modconst[(fr.mod.name, t.id)] = v
            else:
                fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iter(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise PyExc(ExcInst('ValueError', ('not enough values to unpack',)))
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, vs[i:len(vs) - after], fr)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(x, y, fr)
                return
            if len(vs) != len(t.elts):
                raise PyExc(ExcInst('ValueError', ('unpack',)))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                s = t.slice
                lo = self.ev(s.lower, fr) if s.lower else None
                hi = self.ev(s.upper, fr) if s.upper else None
                if isinstance(o, list) and all(x is None or isinstance(x, int) for x in (lo, hi)):
                    o[lo:hi] = list(self.iter(v))
                    return
                raise Cannot('slice assignment')
            self.setitem(o, self.ev(t.slice, fr), v)
        else:
            raise Cannot('assignment target')

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
                try:
                    del o[k]
                except (KeyError, IndexError) as e:
                    raise PyExc(ExcInst(type(e).__name__, ()))
            else:
                raise Cannot('del')

    def s_If(self, s, fr):
        self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)

    def s_For(self, s, fr):
        it = self.iter(self.ev(s.iter, fr))
        cur = getattr(fr, 'loops', None)
        if cur is None:
            cur = fr.loops = []
        cur.append(s)
        try:
            broke = False
            while True:
                try:
                    x = next(it)
                except StopIteration:
                    break
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except Brk:
                    broke = True
                    break
                except Cont:
                    continue
        finally:
            cur.pop()
        if not broke:
            self.block(s.orelse, fr)

    def s_While(self, s, fr):
        cur = getattr(fr, 'loops', None)
        if cur is None:
            cur = fr.loops = []
        cur.append(s)
        n = 0
        try:
            while self.truth(self.ev(s.test, fr)):
                n += 1
                h = self.hooks.get('while')
                if h is not None:
                    h(self, s, n, fr)
                try:
                    self.block(s.body, fr)
                except Brk:
                    return
                except Cont:
                    continue
        finally:
            cur.pop()
        self.block(s.orelse, fr)

    def s_Break(self, s, fr):
        raise Brk()

    def s_Continue(self, s, fr):
        raise Cont()

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyExc(ExcInst('AssertionError', ()))

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(fr, 'handling', None)
            if cur is None:
                raise Cannot('bare raise')
            raise PyExc(cur, s)
        v = self.ev(s.exc, fr)
        if isinstance(v, (ClassVal, Ext)):
            v = self.call(v, [], {})
        e = PyExc(v, s)
        e.fr = fr
        raise e

    def s_With(self, s, fr):
        for i in s.items:
            v = self.ev(i.context_expr, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr)
        self.block(s.body, fr)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyExc as e:
                h = self.handler(s, e, fr)
                if h is None:
                    raise
                if h.name:
                    fr.env[h.name] = e.inst
                old = getattr(fr, 'handling', None)
                fr.handling = e.inst
                try:
                    self.block(h.body, fr)
                finally:
                    fr.handling = old
            else:
                self.block(s.orelse, fr)
        finally:
            # (re-evaluated on every exit, as in the program)
            self.block(s.finalbody, fr)

    def handler(self, s, e, fr):
        names = self.mro(e.inst)
        for h in s.handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, fr)
            for x in (t if isinstance(t, tuple) else (t,)):
                n = x.name if isinstance(x, ClassVal) else x.q if isinstance(x, Ext) else None
                if n is None:
                    raise Cannot('exception type')
                if n in names or n.split('.')[-1] in names:
                    return h
        return None


PYOPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b,
         '%': lambda a, b: a % b, '**': lambda a, b: a ** b, '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b,
         '&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b}
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<',
       ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
        ast.In: 'in', ast.NotIn: 'not in'}

_gen = {}
_feas = {}


def is_generator(node):
    if node not in _gen:
        todo = list(node.body)
        r = False
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo += list(ast.iter_child_nodes(x))
        _gen[node] = r
    return _gen[node]


def empty(rows):
    """No rational solution: Fourier-Motzkin elimination."""
    rows = [(dict(c), k) for c, k in rows]
    while True:
        for c, k in rows:
            if not c and k > 0:
                return True
        vs = {}
        for c, _ in rows:
            for x in c:
                vs[x] = 1
        if not vs:
            return False
        best = None
        for x in vs:
            p = sum(1 for c, _ in rows if c.get(x, 0) > 0)
            n = sum(1 for c, _ in rows if c.get(x, 0) < 0)
            if best is None or p * n - p - n < best[0]:
                best = (p * n - p - n, x)
        x = best[1]
        pos = [(c, k) for c, k in rows if c.get(x, 0) > 0]
        neg = [(c, k) for c, k in rows if c.get(x, 0) < 0]
        rest = [(c, k) for c, k in rows if not c.get(x)]
        seen = set()
        for c1, k1 in pos:
            for c2, k2 in neg:
                a, b = -c2[x], c1[x]
                c = {}
                for y, v in c1.items():
                    c[y] = c.get(y, 0) + a * v
                for y, v in c2.items():
                    c[y] = c.get(y, 0) + b * v
                c = {y: v for y, v in c.items() if v}
                k = a * k1 + b * k2
                key = (tuple(sorted(((repr(y), v) for y, v in c.items()))), k)
                if key not in seen:
                    seen.add(key)
                    rest.append((c, k))
        if len(rest) > 400:
            return False
        rows = rest


# ------------------------------------------------------------------ liveness
def uses(n):
    """Names read by an expression or statement, nested functions included."""
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} if n is not None else set()


def stores(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def live_block(stmts, out, brk, cont):
    for s in reversed(stmts):
        out = live_stmt(s, out, brk, cont)
    return out


def live_stmt(s, out, brk, cont):
    if isinstance(s, ast.If):
        return uses(s.test) | live_block(s.body, out, brk, cont) | live_block(s.orelse, out, brk, cont)
    if isinstance(s, (ast.For, ast.While)):
        after = live_block(s.orelse, out, brk, cont)
        head = set(after)
        tgt = stores(s.target) if isinstance(s, ast.For) else set()
        test = uses(s.test) if isinstance(s, ast.While) else set()
        for _ in range(5):
            b = test | (live_block(s.body, head, out, head) - tgt) | after
            if b <= head:
                break
            head |= b
        return head | (uses(s.iter) if isinstance(s, ast.For) else set())
    if isinstance(s, ast.Break):
        return set(brk)
    if isinstance(s, ast.Continue):
        return set(cont)
    if isinstance(s, (ast.Return, ast.Raise)):
        return uses(s)
    if isinstance(s, (ast.Assign, ast.AnnAssign)):
        ts = s.targets if isinstance(s, ast.Assign) else [s.target]
        kill = set().union(*[{x.id for x in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, ast.Tuple) else [])
                              if isinstance(x, ast.Name)} for t in ts])
        return (out - kill) | uses(s.value) | set().union(*[uses(t) for t in ts])
    if isinstance(s, ast.AugAssign):
        return out | uses(s.value) | uses(s.target) | stores(s.target)
    if isinstance(s, (ast.Try, ast.With)):
        r = set(out) | uses(s)
        return r | set(brk) | set(cont)
    if isinstance(s, ast.FunctionDef):
        return out | uses(s)
    return out | uses(s)


def live_at_loop(fn, loop):
    """Names whose value may still be read when the loop asks for its next element."""
    body = fn.body
    captured = set()
    for x in ast.walk(fn):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
            captured |= uses(x) | {n for y in ast.walk(x) if isinstance(y, ast.Nonlocal) for n in y.names}
    # live after the loop: everything read anywhere after it (conservatively: outside the loop body, or in an enclosing loop)
    outer = set()

    def find(stmts, out):
        for i, s in enumerate(stmts):
            if s is loop:
                return live_block(stmts[i + 1:], out, out, out)
            for f in ('body', 'orelse', 'finalbody'):
                sub = getattr(s, f, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt):
                    o = live_block(stmts[i + 1:], out, out, out)
                    if isinstance(s, (ast.For, ast.While)):
                        o = o | uses(s)
                    r = find(sub, o)
                    if r is not None:
                        return r
            for h in getattr(s, 'handlers', ()):
                r = find(h.body, out | uses(s))
                if r is not None:
                    return r
        return None
    after = find(body, set())
    if after is None:
        return None
    tgt = stores(loop.target) if isinstance(loop, ast.For) else set()
    head = set(after)
    for _ in range(6):
        b = (live_block(loop.body, head, after, head) - tgt) | after
        if b <= head:
            break
        head |= b
    return head | captured
