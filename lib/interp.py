"""Random interpretation of value-graph terms.

Two terms (or guards) that differ syntactically are only reported as different
when some interpretation of their leaves tells them apart.  No code of the
analysed project is executed: what is evaluated are the closed formulas the
engine derived from the syntax tree (cf. Gulwani/Necula, random interpretation).
"""
import random

import terms as tm
from terms import BF, BT, B, Term, subterms


class Unk(Exception):
    pass


class Missing:
    def __repr__(self):
        return '<missing>'


MISSING = Missing()


class Node:
    def __init__(self, key, keys):
        self.key = key
        self.keys = keys

    def __repr__(self):
        return f'<{self.key} {self.keys}>'


NUMERIC = {'size', 'used', 'length', 'origin', 'address', 'fill', 'image_size', 'st_value', 'st_size', 'sh_size',
           'primary_address', 'secondary_address', 'sh_flags', 'sh_type', 'st_shndx', 'total', 'remain', 'pct'}


def flat(xs):
    for x in xs:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


def shape(t):
    if t.op == 'idx':
        k = t.args[1]
        if k.op == 'const':
            return ('k', k.args[0])
        return ('e', shape(t.args[0]))
    if t.op == 'attr':
        return ('a', t.args[1])
    if t.op in ('be', 'elem'):
        return ('el',)
    return (t.op, t.args[0] if t.args and not isinstance(t.args[0], (Term, B)) else None)


class Typer:
    def __init__(self, *ts):
        self.kind = {}
        self.consts = set()
        todo = list(ts)
        self.nones = False
        self.falsy = set()
        self.maynone = set()
        self.affix = set()
        self.strs = {shape(x.args[0]) for t in todo for x in visible(t) if x.op in ('swith', 'ewith', 'cat')
                     and isinstance(x.args[0], Term)}
        for t in todo:
            for x in visible(t):
                self.visit(x)
                if x.op == 'isnone':
                    self.nones = True
                    self.maynone.add(shape(x.args[0]))
                if x.op in ('swith', 'ewith') and x.args[1].op == 'const' and isinstance(x.args[1].args[0], str):
                    self.affix.add((x.op, x.args[1].args[0]))
                if x.op == 'truthy':
                    self.falsy.add(shape(x.args[0]))
                # constants that are compared or combined, not names of fields
                for n, y in enumerate(flat(x.args)):
                    if y.op == 'const' and isinstance(y.args[0], str) and not (x.op == 'idx' and y is x.args[1]):
                        self.consts.add(y.args[0])

    def num(self, t):
        if t.op in ('idx', 'attr', 'param', 'be', 'elem', 'key', 'bk', 'mu', 'call', 'mcall', 'bp'):
            self.kind.setdefault(shape(t), 'num')

    def node(self, t):
        if shape(t) in self.strs:
            return
        if t.op in ('idx', 'attr', 'param', 'be', 'elem', 'call', 'mcall'):
            self.kind[shape(t)] = 'node'

    def visit(self, x):
        op, a = x.op, x.args
        if op == 'aff':
            for t, _ in a[1]:
                self.num(t)
        elif op in ('mul', 'div', 'neg', 'eq0', 'max', 'min'):
            for t in flat(a):
                if isinstance(t, Term):
                    self.num(t)
        elif op == 'sum':
            self.node(a[0])
            self.num(a[2])
        elif op == 'ex':
            self.node(a[0])
        elif op == 'idx':
            self.node(a[0])
        elif op == 'attr':
            if isinstance(a[0], Term):
                self.node(a[0])
        elif op in ('in', 'inlist'):
            self.node(a[1])
        elif op in ('items', 'keys', 'values', 'perm', 'aslist', 'slice'):
            self.node(a[0])
        elif op == 'eqc':
            if a[1].op == 'const' and isinstance(a[1].args[0], (int, float)) and not isinstance(a[1].args[0], bool):
                self.num(a[0])
        elif op == 'call' and a[0] in ('min', 'max', 'abs', 'round'):
            for t in a[1]:
                self.num(t)


class Model:
    def __init__(self, seed, typer, facts=None, E=None):
        self.E = E
        self.r = random.Random(seed)
        self.ty = typer
        self.facts = facts
        self.memo = {}
        self.strs = ['a', 'b', 'c']
        self.pool = self.strs[:self.r.choice((1, 2, 2, 3, 3))]
        if typer.affix and self.r.random() < 0.8:
            for op, x in self.r.sample(sorted(typer.affix), min(2, len(typer.affix))):
                self.strs.append(x + 'x' if op == 'swith' else 'x' + x)
                self.pool.append(self.strs[-1])
        self.free = None
        self.m0 = {}
        self.depth = 0
        self.fz = []
        self.fzi = {}
        self.log = []

    # ---- leaves
    def loc(self, t, key):
        if key in self.memo:
            return self.memo[key]
        sh = shape(t)
        k = self.ty.kind.get(sh)
        if k is None and sh[0] in ('k', 'a') and sh[1] in NUMERIC:
            k = 'num'
        if k is None and sh[0] in ('k', 'a') and isinstance(sh[1], str) and sh[1].endswith('_diff'):
            k = 'num'
        if k == 'num':
            nm = sh[1] if len(sh) > 1 else None
            if isinstance(nm, str) and nm.endswith('_diff'):
                v = self.r.randint(-4, 4)
            elif self.r.random() < 0.2:
                v = 0
            else:
                v = self.r.randint(1, 9)
        elif k == 'node' and sh in self.ty.maynone and self.r.random() < 0.4:
            v = None
        elif k == 'node':
            ks = [x for x in self.strs if self.r.random() < 0.72]
            self.r.shuffle(ks)
            v = Node(key, ks)
        else:
            pool = self.pool
            if self.r.random() < 0.3 and self.ty.consts:
                pool = sorted(self.ty.consts)
            v = self.r.choice(pool)
            if sh[0] == 'k' and self.ty.nones and self.r.random() < 0.15 or \
                    sh in self.ty.maynone and self.r.random() < 0.4:
                v = None
            if sh in self.ty.falsy and self.r.random() < 0.35:
                v = ''
        self.memo[key] = v
        if len(self.log) < 200:
            self.log.append((t, v))
        return v

    # ---- terms
    def ev(self, t, env):
        op, a = t.op, t.args
        f = getattr(self, 'e_' + op, None)
        if f is None:
            raise Unk(op)
        return f(t, a, env)

    def e_const(self, t, a, env):
        return a[0]

    def e_param(self, t, a, env):
        return self.loc(t, ('param', a[0]))

    # ---- iterations of loops
    def bind(self, env, L, m0=None):
        """Environment in which loop L can be stepped: its collection and the order it is walked in."""
        ln = self.E.loops.get(L) if self.E is not None else None
        if ln is None or ln.dom is None or ln.kind == 'while' or getattr(ln, 'zipn', None):
            raise Unk('loop')
        d = ln.dom
        if m0:
            d = tm.replace(d, m0)
        node = self.dom(d, env)
        order = list(range(len(node.keys)))
        for p in reversed(ln.ordering):
            order = self.ordered(p, node, order, env)
        e = dict(env)
        e[('dom', L)], e[('ord', L)], e[('m0', L)] = node, order, m0
        return e, ln

    def ordered(self, p, node, order, env):
        if p.args[1] == 'reversed':
            return order[::-1]
        if p.args[1] != 'sorted' or p.args[3].op != 'const':
            raise Unk('order')
        key = p.args[2]
        if key.op != 'skey' or key.args[0] != 'by':
            raise Unk('order')
        ks = {}
        for i in order:
            e = dict(env)
            e['sortelem'] = (node, i)
            v = self.ev(key.args[1], e)
            if not isinstance(v, (int, float, str)):
                raise Unk('order')
            ks[i] = v
        return sorted(order, key=lambda i: ks[i], reverse=bool(p.args[3].args[0]))

    def e_sortelem(self, t, a, env):
        n, i = env['sortelem']
        return self.loc(tm.T('elem', 0), ('el', n.key, i))

    def e_sortelem_k(self, t, a, env):
        n, i = env['sortelem']
        return n.keys[i]

    def e_sortelem_v(self, t, a, env):
        n, i = env['sortelem']
        return self.loc(tm.T('idx', tm.T('elem', 0), tm.T('elem', 0)), ('idx', n.key, self.hk(n.keys[i])))

    def at(self, L, env):
        """Environment with the iteration loop L is in, or None when the iteration is arbitrary."""
        if ('it', L) in env:
            return env
        if self.free is not None and L in self.free:
            return None
        ln = self.E.loops.get(L) if self.E is not None else None
        if ln is not None and ln.exitcond is not BF:
            e, ln = self.bind(env, L, self.m0.get(L))
            i = self.exit_at(e, ln)
            if i is None:
                raise Unk('loop not left')
            e[('it', L)] = i
            return e
        if self.free is None:
            return None
        raise Unk('free iteration')

    def exit_at(self, e, ln):
        cond = ln.exitcond
        if e.get(('m0', ln.L)):
            cond = tm.replace(cond, e[('m0', ln.L)])
        for s in range(len(e[('ord', ln.L)])):
            x = dict(e)
            x[('it', ln.L)] = s
            if self.evb(cond, x):
                return s
        return None

    def idx_of(self, L, e):
        o, i = e[('ord', L)], e[('it', L)]
        if not 0 <= i < len(o):
            raise Unk('iteration')
        return e[('dom', L)], o[i]

    def e_key(self, t, a, env):
        e = self.at(a[0], env) if a[0].op == 'L' else None
        if e is None:
            return self.loc(t, ('key', a[0]))
        n, i = self.idx_of(a[0], e)
        return n.keys[i]

    def e_elem(self, t, a, env):
        e = self.at(a[0], env) if isinstance(a[0], Term) and a[0].op == 'L' else None
        if e is None:
            return self.loc(t, ('elem', a[0]))
        n, i = self.idx_of(a[0], e)
        return self.loc(t, ('el', n.key, i))

    def e_pos(self, t, a, env):
        e = self.at(a[0], env) if a[0].op == 'L' else None
        if e is None:
            raise Unk('pos')
        return e[('it', a[0])]

    def e_fz(self, t, a, env):
        return self.fz[a[0]]

    def tied(self, b, env):
        """Environment of the iteration a binder stands for."""
        n, L = b.args[0], b.args[1]
        if ('p', n) not in env:
            raise Unk('bound state')
        e = dict(env)
        m0 = dict(b.args[2])
        for lid, pos in b.args[3]:
            lo = tm.T('L', lid)
            if lo in m0 or ('it', lo) in e:
                continue
            e, _ = self.bind(e, lo, m0)
            i = self.ev(pos, env)
            if pos.op == 'bp':
                i = e[('ord', lo)].index(i)
            e[('it', lo)] = i
        e, ln = self.bind(e, L, m0)
        e[('it', L)] = e[('ord', L)].index(env[('p', n)])
        return L, e

    def freeze(self, t, env):
        """Replace what depends on the current iterations by its value."""
        m = {}
        for x in subterms(t):
            if x.op in ('elem', 'key', 'pos', 'be', 'bk', 'bp'):
                if x.op in ('elem', 'key', 'pos') and ('it', x.args[0]) not in env:
                    if self.free is not None and x.args[0] in self.free:
                        continue
                v = self.ev(x, env)
                k = (self.hk(v), x.op in ('elem', 'be'))
                if k not in self.fzi:
                    self.fzi[k] = len(self.fz)
                    self.fz.append(v)
                m[x] = tm.T('fz', self.fzi[k])
            elif x.op in ('mu', 'inmu', 'last', 'exists'):
                raise Unk('state in a name')
        return tm.replace(t, m) if m else t

    def carried(self, L, env, what, n):
        """Loop-carried state `what` of L before step n (env has the steps of the enclosing loops)."""
        ln = self.E.loops[L]
        m0 = env.get(('m0', L)) or {}
        encl = tuple(sorted((k[1].args[0], v) for k, v in env.items() if isinstance(k, tuple) and k[0] == 'it' and
                            k[1] is not L))
        key = ('state', L, what, n, encl, tuple(m0.items()))
        if key in self.memo:
            v = self.memo[key]
            if v is Unk:
                raise Unk('cycle')
            return v
        self.memo[key] = Unk
        self.depth += 1
        try:
            if self.depth > 60:
                raise Unk('depth')
            e = dict(env)
            if n == 0:
                for k in [k for k in e if isinstance(k, tuple) and k[1] is L]:
                    del e[k]
                v = self.state0(ln, what, m0, e)
            else:
                e[('it', L)] = n - 1
                v = self.state1(ln, what, m0, e)
        except BaseException:
            del self.memo[key]
            raise
        finally:
            self.depth -= 1
        self.memo[key] = v
        return v

    def state0(self, ln, what, m0, e):
        if what[0] == 'var':
            t = ln.init_env.get(what[1])
            if t is None:
                raise Unk('init')
            return self.ev(tm.replace(t, m0) if m0 else t, e)
        b = self.sym(('before', ln.L, what, tuple(m0.items())),
                     lambda: self.E.before(ln, what[1], what[2], what[0], m0))
        if what[0] == 'in':
            return self.evb(b, e)
        return self.ev(b, e)

    def state1(self, ln, what, m0, e):
        if what[0] == 'var':
            t = ln.next_env.get(what[1])
            if t is None:
                raise Unk('next')
            return self.ev(tm.replace(t, m0) if m0 else t, e)
        b = self.sym(('next', ln.L, what, tuple(m0.items())),
                     lambda: self.E.iteration(ln, what[1], what[2], what[0], m0))
        if what[0] == 'in':
            return self.evb(b, e)
        return self.ev(b, e)

    def sym(self, key, fn):
        d = self.E.__dict__.setdefault('_symcache', {})
        if key not in d:
            try:
                d[key] = fn()
            except Exception as ex:
                d[key] = None
        if d[key] is None:
            raise Unk('state')
        return d[key]

    def slot(self, t, env):
        """(loop, environment, kind of state) of a mu/inmu term; environment None: arbitrary iteration."""
        a = t.args
        if a[0].op == 'B':
            L, e = self.tied(a[0], env)
        else:
            L, e = a[0], self.at(a[0], env)
        if e is None:
            return L, None, None
        if t.op == 'mu' and a[1].op == 'var':
            return L, e, ('var', (a[1].args[0], a[1].args[1]))
        return L, e, ('load' if t.op == 'mu' else 'in', self.freeze(a[1], e), self.freeze(a[2], e))

    def e_mu(self, t, a, env):
        if ('muval', t) in env:
            return env[('muval', t)]
        L, e, w = self.slot(t, env)
        if e is None:
            return self.loc(t, ('mu', t))
        return self.carried(L, e, w, e[('it', L)])

    def e_last(self, t, a, env):
        L = a[0]
        e, ln = self.bind(env, L)
        n = len(e[('ord', L)])
        if ln.exitcond is not BF and self.exit_at(e, ln) is not None:
            raise Unk('loop left early')
        if len(a) < 4:
            if not n:
                raise Unk('unbound')
            e[('it', L)] = n - 1
            return self.ev(a[1], e)
        e['dom5'] = None
        if len(a) > 4:
            node = self.dom(a[4], env)
            if node.key != e[('dom', L)].key:
                e[('dom', L)] = node
                if ln.ordering:
                    raise Unk('order')
                e[('ord', L)] = list(range(len(node.keys)))
                n = len(node.keys)
        v = self.ev(a[3], env)
        for s in range(n):
            x = dict(e)
            x[('it', L)] = s
            x[('muval', a[2])] = v
            v = self.ev(a[1], x)
        return v

    def e_missing(self, t, a, env):
        return MISSING

    def e_bk(self, t, a, env):
        try:
            return env[('k', a[0])]
        except KeyError:
            raise Unk('bk')

    def e_be(self, t, a, env):
        try:
            n, i = env[('e', a[0])]
        except KeyError:
            raise Unk('be')
        return self.loc(t, ('el', n.key, i))

    def hk(self, v):
        if isinstance(v, Node):
            return ('N', v.key)
        if isinstance(v, tuple):
            return ('T',) + tuple(self.hk(x) for x in v)
        return v

    def hkt(self, t, env):
        if t.op in ('new', 'mu', 'L'):
            return t
        if t.op == 'idx':
            return ('I', self.hkt(t.args[0], env), self.hkt(t.args[1], env))
        return self.hk(self.ev(t, env))

    def e_idx(self, t, a, env):
        b = self.ev(a[0], env)
        k = self.ev(a[1], env)
        if isinstance(b, tuple) and isinstance(k, int):
            if -len(b) <= k < len(b):
                return b[k]
            raise Unk('index')
        if not isinstance(b, Node):
            raise Unk('idx of scalar')
        return self.loc(t, ('idx', b.key, self.hk(k)))

    def e_attr(self, t, a, env):
        b = self.ev(a[0], env)
        if not isinstance(b, Node):
            b = Node(('box', self.hk(b)), [])
        return self.loc(t, ('attr', b.key, a[1]))

    def e_aff(self, t, a, env):
        s = a[0]
        for x, k in a[1]:
            v = self.ev(x, env)
            if not isinstance(v, (int, float)):
                raise Unk('non-number')
            s += k * v
        return s

    def e_mul(self, t, a, env):
        s = 1
        for x in a:
            v = self.ev(x, env)
            if not isinstance(v, (int, float)):
                raise Unk('non-number')
            s *= v
        return s

    def e_div(self, t, a, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        if not isinstance(x, (int, float)) or not isinstance(y, (int, float)):
            raise Unk('non-number')
        if not y:
            return ('undef-div', x)
        return x / y

    def e_phi(self, t, a, env):
        return self.ev(a[1] if self.evb(a[0], env) else a[2], env)

    def e_bool(self, t, a, env):
        return self.evb(a[0], env)

    def e_tuple(self, t, a, env):
        return tuple(self.ev(x, env) for x in a[0])

    def e_cat(self, t, a, env):
        out = ''
        for x in a:
            v = self.ev(x, env)
            if isinstance(v, Node):
                raise Unk('cat node')
            out += str(v)
        return out

    def e_str(self, t, a, env):
        v = self.ev(a[0], env)
        if isinstance(v, (Node, tuple)):
            raise Unk('str node')
        return str(v)

    def e_call(self, t, a, env):
        args = [self.ev(x, env) for x in a[1]]
        if a[0] in ('min', 'max') and args and all(isinstance(x, (int, float)) for x in args):
            return min(args) if a[0] == 'min' else max(args)
        if a[0] == 'abs' and isinstance(args[0], (int, float)):
            return abs(args[0])
        if a[0] in ('round', 'int', 'float') and args and all(isinstance(x, (int, float)) for x in args):
            return {'round': round, 'int': int, 'float': float}[a[0]](*args)
        if a[0] == 'len':
            if isinstance(args[0], Node):
                return len(args[0].keys)
            if isinstance(args[0], (str, tuple)):
                return len(args[0])
        if len(a) > 2 and a[2]:
            rest = tuple(self.hk(self.ev(x, env)) if isinstance(x, Term) else x for x in a[2])
        else:
            rest = ()
        return self.loc(t, ('call', a[0], tuple(self.hk(x) for x in args), rest))

    def minmax(self, f, a, env):
        args = [self.ev(x, env) for x in flat(a)]
        if not args or not all(isinstance(x, (int, float)) for x in args):
            raise Unk('min/max')
        return f(args)

    def e_max(self, t, a, env):
        return self.minmax(max, a, env)

    def e_min(self, t, a, env):
        return self.minmax(min, a, env)

    def e_mcall(self, t, a, env):
        def go(x):
            if isinstance(x, Term):
                return self.hk(self.ev(x, env))
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        return self.loc(t, ('mcall',) + tuple(go(x) for x in a))

    def dom(self, d, env):
        if d.op in ('perm', 'aslist'):
            return self.dom(d.args[0], env)
        if d.op in ('items', 'keys', 'values'):
            return self.dom(d.args[0], env)
        v = self.ev(d, env)
        if not isinstance(v, Node):
            raise Unk('domain')
        return v

    def each(self, t, a, env):
        n = self.dom(a[0], env)
        lvl = self.level(t)
        for i, k in enumerate(n.keys):
            e = dict(env)
            e[('k', lvl)] = k
            e[('e', lvl)] = (n, i)
            e[('p', lvl)] = i
            yield e

    def level(self, t):
        # binder number: highest bound index in the body (binders are numbered inside out)
        top = 0
        for x in t.args[1:]:
            for s in subterms(x):
                if s.op in ('bk', 'be', 'bp'):
                    top = max(top, s.args[0])
        inner = 0
        for x in t.args[1:]:
            for s in subterms(x):
                if s.op in ('sum', 'ex') and s is not t:
                    inner = max(inner, self.level(s))
        return max(inner + 1, 1) if top <= inner else self._lvl(t, top, inner)

    def _lvl(self, t, top, inner):
        return inner + 1

    def e_bp(self, t, a, env):
        return env[('p', a[0])]

    def e_sum(self, t, a, env):
        s = 0
        for e in self.each(t, a, env):
            if self.evb(a[1], e):
                v = self.ev(a[2], e)
                if not isinstance(v, (int, float)):
                    raise Unk('non-number')
                s += v
        return s

    # ---- guards
    def evb(self, b, env):
        while b is not BT and b is not BF:
            b = b.hi if self.atom(b.atom, env) else b.lo
        return b is BT

    def atom(self, t, env):
        op, a = t.op, t.args
        if self.facts is not None:
            r = self.facts(t)
            if r is not None:
                return r
        if op == 'truthy':
            v = self.ev(a[0], env)
            if isinstance(v, Node):
                return bool(v.keys)
            return bool(v)
        if op in ('eq', 'eqc'):
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            return self.hk(x) == self.hk(y)
        if op == 'eq0':
            return self.ev(a[0], env) == 0
        if op == 'neg':
            v = self.ev(a[0], env)
            if not isinstance(v, (int, float)):
                raise Unk('cmp')
            return v < 0
        if op == 'isnone':
            return self.ev(a[0], env) is None
        if op == 'in':
            k, c = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(c, Node):
                if k in c.keys:
                    return True
                if k in self.strs:
                    return False
                key = ('in', c.key, self.hk(k))
                if key not in self.memo:
                    self.memo[key] = self.r.random() < 0.6
                return self.memo[key]
            if isinstance(c, (tuple, str)):
                try:
                    return k in c
                except TypeError:
                    raise Unk('in')
            raise Unk('in')
        if op == 'ex':
            return any(self.evb(a[1], e) for e in self.each(t, a, env))
        if op in ('swith', 'ewith'):
            s, p = self.ev(a[0], env), self.ev(a[1], env)
            if not isinstance(s, str) or not isinstance(p, (str, tuple)):
                raise Unk(op)
            return s.startswith(p) if op == 'swith' else s.endswith(p)
        if op == 'bool':
            return self.evb(a[0], env)
        if op == 'exists':
            L = a[0]
            m0 = self.m0.get(L)
            e, ln = self.bind(env, L, m0)
            left = tm.replace(ln.exitcond, m0) if m0 else ln.exitcond
            for s in range(len(e[('ord', L)])):
                x = dict(e)
                x[('it', L)] = s
                if self.evb(a[1], x):
                    return True
                if left is not BF and left is not a[1] and self.evb(left, x):
                    return False
            return False
        if op == 'same':
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            return self.hk(x) == self.hk(y)
        if op == 'inmu':
            L, e, w = self.slot(t, env)
            if e is not None:
                return self.carried(L, e, w, e[('it', L)])
            key = ('inmu', a[0], self.hkt(a[1], env), self.hkt(a[2], env))
            if key not in self.memo:
                self.memo[key] = self.r.random() < 0.5
            return self.memo[key]
        if op == 'isinst':
            raise Unk('isinst')
        raise Unk(op)


OPAQUE = {'opaque', 'opin', 'opne', 'unbound', 'nonemptymu', 'new'}


def visible(t):
    """Subterms that matter for evaluation (not the objects loop-carried atoms are keyed on)."""
    seen = {}
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen[x] = True
            if x.op in ('mu', 'missing'):
                continue
            if x.op == 'inmu':
                st.append(x.args[2])
                continue
            st.extend(a for a in x.args if isinstance(a, (Term, B, tuple)))
        elif isinstance(x, B):
            st.extend(tm.batoms(x))
        elif isinstance(x, tuple):
            st.extend(a for a in x if isinstance(a, (Term, B, tuple)))
    return seen


def free_loops(*ts, E=None):
    """Loops of which an arbitrary iteration is meant."""
    out = set()
    seen = set()

    def rec(x, bound):
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, (Term, B, tuple)):
                    rec(y, bound)
            return
        if isinstance(x, B):
            if (x.id, bound) not in seen:
                seen.add((x.id, bound))
                for a in tm.batoms(x):
                    rec(a, bound)
            return
        if (x, bound) in seen:
            return
        seen.add((x, bound))
        if x.op in ('elem', 'key', 'pos', 'mu', 'inmu') and isinstance(x.args[0], Term) and x.args[0].op == 'L':
            L = x.args[0]
            ln = E.loops.get(L) if E is not None else None
            if L not in bound and (ln is None or ln.exitcond is BF):
                out.add(L)
            if x.op == 'inmu':
                rec(x.args[2], bound)
            return
        if x.op == 'missing':
            return
        if x.op == 'last':
            rec(x.args[1], bound | {x.args[0]})
            rec(x.args[3:], bound)
            return
        if x.op == 'exists':
            rec(x.args[1], bound | {x.args[0]})
            return
        rec(x.args, bound)
    for t in ts:
        rec(t, frozenset())
    return out


def understood(*ts, step=False, E=None):
    for t in ts:
        for x in visible(t):
            if x.op in OPAQUE:
                return False
            if E is None and x.op in ('last', 'exists', 'missing'):
                return False
    return True


def matched(x, y, m):
    """Does replacing keys and elements of loops by m turn x into y? Extends m."""
    if x is y:
        return True
    if isinstance(x, B):
        return isinstance(y, B) and x not in (BT, BF) and y not in (BT, BF) and matched(x.atom, y.atom, m) and \
            matched(x.hi, y.hi, m) and matched(x.lo, y.lo, m)
    if isinstance(x, tuple):
        return isinstance(y, tuple) and len(x) == len(y) and all(matched(a, b, m) for a, b in zip(x, y))
    if not isinstance(x, Term) or not isinstance(y, Term):
        return x == y
    if x in m:
        return m[x] is y
    if x.op == y.op and len(x.args) == len(y.args) and x.op not in ('key', 'elem'):
        m2 = dict(m)
        if matched(x.args, y.args, m2):
            m.update(m2)
            return True
    if x.op in ('key', 'elem'):
        m[x] = y
        return True
    return False


def instances(E, *ts):
    """loop -> the entries its surrounding loops stand at, read off the conditions under which it is left."""
    out, bad = {}, set()
    if E is None:
        return out
    for t in ts:
        for z in visible(t):
            if z.op == 'exists':
                L, w = z.args[0], z.args[1]
            elif z.op == 'idx' and z.args[1].op == 'key':
                L, w = z.args[1].args[0], z.args[0]
            else:
                continue
            ln = E.loops.get(L)
            if ln is None or ln.dom is None or ln.exitcond is BF:
                continue
            m = {}
            pat = ln.exitcond if z.op == 'exists' else ln.dom
            if w is pat or not matched(pat, w, m):
                continue
            m = {k: v for k, v in m.items() if k is not v and k.args[0] is not L}
            if out.setdefault(L, m) != m:
                bad.add(L)
    return {k: v for k, v in out.items() if k not in bad and v}


evaluated = 0


def differ(x, y, assume=BT, facts=None, n=400, seed=1, want=3, E=None, step=False):
    """A model telling x and y apart (terms or guards), or None."""
    global evaluated
    evaluated = 0
    if x is y:
        return None
    if not understood(x, y, assume, step=step, E=E):
        return None
    free = free_loops(x, y, assume, E=E)
    if not step and any(z.op in ('mu', 'inmu') and z.args[0] in free for t in (x, y, assume) for z in visible(t)):
        # state of an arbitrary iteration need not be reachable
        return None
    inst = instances(E, x, y, assume)
    ty = Typer(x, y, assume)
    ok = bad = 0
    hits = []
    for i in range(n * 10):
        m = Model(seed * 1000003 + i, ty, facts, E)
        m.free = free
        m.m0 = inst
        try:
            if not m.evb(assume, {}):
                continue
            ok += 1
            if isinstance(x, B):
                u, v = m.evb(x, {}), m.evb(y, {})
            else:
                u, v = m.ev(x, {}), m.ev(y, {})
        except (Unk, KeyError, TypeError, OverflowError):
            bad += 1
            if bad > 400:
                return None
            continue
        if u is MISSING or v is MISSING:
            bad += 1
            if bad > 400:
                return None
            continue
        if isinstance(u, float) or isinstance(v, float):
            if isinstance(u, (int, float)) and isinstance(v, (int, float)) and \
                    abs(u - v) <= 1e-9 * max(1, abs(u), abs(v)):
                continue
        if m.hk(u) != m.hk(v):
            hits.append({'left': repr(u), 'right': repr(v),
                         'leaves': {tm.show(t)[:120]: repr(w)[:60] for t, w in m.log[:24]}})
            if len(hits) >= want:
                return hits[0]
        if ok >= n:
            break
    evaluated = ok - bad
    return hits[0] if hits else None


def sat(g, facts=None, n=400, seed=1):
    """A model satisfying guard g, or None (not found / not understood)."""
    if g is BF or not understood(g):
        return None
    if g is BT:
        return {}
    ty = Typer(g)
    for i in range(n * 5):
        m = Model(seed * 7919 + i, ty, facts)
        try:
            if m.evb(g, {}):
                return {tm.show(t)[:120]: repr(w)[:60] for t, w in m.log[:24]}
        except (Unk, KeyError, TypeError):
            continue
    return None
