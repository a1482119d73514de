"""Interprocedural value-graph and effect analysis over the Python syntax tree.

The analysed code is never imported or executed.  Every function is turned into
  * value terms (lib/terms.py) for what each expression denotes, as a function
    of the symbolic parameters, and
  * a tree of effect events (stores, appends, calls, raises ...), each with the
    guard (a BDD over opaque conditions) and the loops under which it happens.

Control flow is joined with gated phi nodes, loops are analysed once for a
generic element with loop-carried values as mu terms (closed to sums where the
update is additive).  There is no path enumeration and no solver.
Whatever is not understood becomes an 'opaque' term; rules never report a
violation that depends on an opaque term.
"""
import ast
import sys

import terms as tm
from terms import (BF, BT, NONE, T, ZERO, B, Term, add, aff_parts, band, batom, bconst, bite, bnot, bor, const,
                   constrain, div, implies, is_opaque, mentions, mul, neg, phi, replace, sub, subterms)

sys.setrecursionlimit(20000)

PKG = 'esp_idf_size'
MAXDEPTH = 40


class Unsupported(Exception):
    pass


class St:
    __slots__ = ('envs', 'guard')

    def __init__(self, envs, guard):
        self.envs = envs
        self.guard = guard

    def copy(self):
        return St(dict(self.envs), self.guard)


class Frame:
    def __init__(self, fid, node, mod, parent=None, cls=None, name=''):
        self.fid = fid
        self.node = node
        self.mod = mod
        self.parent = parent
        self.cls = cls
        self.name = name
        self.nonlocals = set()
        self.globals = set()
        self.ctxs = []
        self.yieldfn = None


class FuncInfo:
    def __init__(self, node, mod, parent, cls, name):
        self.node, self.mod, self.parent, self.cls, self.name = node, mod, parent, cls, name


class Event:
    __slots__ = ('kind', 'obj', 'key', 'val', 'guard', 'seq', 'node', 'fn', 'mod', 'extra', '_cv', '_c', 'loops')

    def __repr__(self):
        return (f'<{self.kind} {self.obj}[{self.key}] := {self.val} if {self.guard} '
                f'loops={[str(l) for l in self.loops]} @{self.fn}:{getattr(self.node, "lineno", "?")}>')


class LoopNode:
    def __init__(self, L, dom, kind, node, guard):
        self.L = L
        self.dom = dom
        self.kind = kind
        self.node = node
        self.entry = guard
        self.items = []
        self.open = True
        self.written = []
        self.exitcond = BF
        self.exists = BF
        self.ordering = ()
        self.loops = ()
        self.seq = 0
        self.body_guard = guard
        self.next_env = {}
        self.init_env = {}
        self.cond = None
        self.zipn = None
        self.shrunk = []


class Escape:
    def __init__(self, kind, target, st, val=None, node=None):
        self.kind, self.target, self.st, self.val, self.node = kind, target, st, val, node


class Ctx:
    pass


def mkbool(b):
    if b is BT:
        return tm.TRUE_T
    if b is BF:
        return tm.FALSE_T
    return T('bool', b)


SCALAR_DEFAULT = True
CONTAINER_KEYS = {'memory_types', 'sections', 'archives', 'object_files', 'symbols', 'input_sections', 'layout',
                  'parts', 'type', 'filter'}
NONNEG_KEYS = {'size', 'used', 'length', 'fill', 'address', 'origin', 'total'}
NONNEG_ATTRS = {'st_size', 'sh_size', 'st_value'}


def strip_perm(d):
    while d.op in ('perm', 'aslist'):
        d = d.args[0]
    return d


class Engine:
    def __init__(self, project, stop=(), facts=None, inline_classes=(), maxdepth=MAXDEPTH):
        self.P = project
        self.stop = set(stop)
        self.user_facts = facts
        self.inline_classes = set(inline_classes)
        self.maxdepth = maxdepth
        self.root = []
        self.cur = self.root
        self.openloops = []
        self.loops = {}
        self.nloop = 0
        self.nfid = 0
        self.seq = 0
        self.functab = {}
        self.forward = {}
        self.fwdver = 0
        self.newinfo = {}
        self.unpopped = set()
        self.trymarks = []
        self.fails = []
        self.placed = {}
        self.esc = []
        self.discovery = 0
        self.callstack = []
        self.callpath = ()
        self.modcache = {}
        self.opaque_reasons = {}
        self.nopaque = 0
        self.stats = {'calls_inlined': 0, 'loops': 0, 'events': 0, 'loads': 0, 'functions': set()}
        self.term_cls = {}
        self.gens = {}
        self.defaults = {}
        self.deepsrc = {}
        self.slotobjs = set()
        self.reads = []
        tm.ATOMFIX[0] = self.atomfix
        tm.REBUILD.clear()
        tm.REBUILD.update({
            'idx': self.mk_idx,
            'key': self.mk_key,
            'elem': self.mk_elem,
            'bool': lambda b: mkbool(b),
            'items': lambda d: T('items', d),
            'cat': lambda *a: self.cat(list(a)),
            'min': lambda *a: self.mk_minmax('min', a),
            'max': lambda *a: self.mk_minmax('max', a),
            'call': lambda n, a, *r: self.mk_call(n, a, *r),
        })

    # ------------------------------------------------------------------ utils
    def opaque(self, why, node=None, dep=()):
        self.nopaque += 1
        t = T('opaque', self.nopaque, why, tuple(dep))
        self.opaque_reasons[t] = (why, getattr(node, 'lineno', None))
        return t

    def mk_idx(self, b, k):
        if b.op == 'phi':
            return phi(b.args[0], self.mk_idx(b.args[1], k), self.mk_idx(b.args[2], k))
        if b.op == 'tuple' and k.op == 'const' and isinstance(k.args[0], int):
            try:
                return b.args[0][k.args[0]]
            except IndexError:
                pass
        return T('idx', b, k)

    def mk_key(self, L):
        if L.op == 'Lk':
            return L.args[1]
        return T('key', L)

    def mk_elem(self, L):
        if L.op == 'Le':
            return L.args[1]
        return T('elem', L)

    def mk_call(self, name, args, *rest):
        if all(isinstance(a, Term) and a.op == 'const' for a in args) and not rest:
            v = fold_call(name, [a.args[0] for a in args])
            if v is not None:
                return v
        return T('call', name, tuple(args), *rest)

    def mk_minmax(self, op, args):
        args = list(dict.fromkeys(args))
        if len(args) == 1:
            return args[0]
        if all(a.op == 'const' for a in args):
            return const((min if op == 'min' else max)(a.args[0] for a in args))
        return T(op, *sorted(args, key=lambda t: t.id))

    def cat(self, parts):
        out = []
        for p in parts:
            if p.op == 'cat':
                ps = list(p.args)
            else:
                ps = [p]
            for q in ps:
                if q.op == 'const' and isinstance(q.args[0], str):
                    if q.args[0] == '':
                        continue
                    if out and out[-1].op == 'const' and isinstance(out[-1].args[0], str):
                        out[-1] = const(out[-1].args[0] + q.args[0])
                        continue
                out.append(q)
        if not out:
            return const('')
        if len(out) == 1 and (out[0].op == 'const' or out[0].op == 'fmt' or out[0].op == 'str'):
            return out[0]
        return T('cat', *out)

    # ------------------------------------------------------- atoms and truth
    def facts(self, atom):
        if self.user_facts is not None:
            r = self.user_facts(atom)
            if r is not None:
                return bconst(r)
        return batom(atom)

    def atomfix(self, t):
        op, a = t.op, t.args
        if op == 'truthy':
            return self.truth0(a[0])
        if op == 'eq':
            return self.eq(a[0], a[1])
        if op == 'eqc':
            return self.eq(a[0], a[1])
        if op == 'eq0':
            return self.eq(a[0], ZERO)
        if op == 'neg':
            return self.lt(a[0], ZERO)
        if op == 'in':
            return self.in_initial(a[0], a[1])
        if op == 'isnone':
            return self.isnone(a[0])
        if op == 'bool':
            return a[0]
        if op in ('swith', 'ewith'):
            return self.strpred(op, a[0], a[1])
        if op == 'exists' and a[1] is BF:
            return BF
        return self.facts(t)

    def nonneg(self, t):
        if t.op == 'idx' and t.args[1].op == 'const' and t.args[1].args[0] in NONNEG_KEYS:
            return True
        if t.op == 'attr' and t.args[1] in NONNEG_ATTRS:
            return True
        if t.op == 'call' and t.args[0] == 'len':
            return True
        if t.op == 'mu' and len(t.args) == 3 and t.args[2].op == 'const' and t.args[2].args[0] in NONNEG_KEYS:
            return True
        return False

    def truth0(self, t):
        """Truth of a term as a value of the initial heap (no events)."""
        op = t.op
        if op == 'const':
            return bconst(bool(t.args[0]))
        if op == 'bool':
            return t.args[0]
        if op == 'phi':
            return bite(t.args[0], self.truth0(t.args[1]), self.truth0(t.args[2]))
        if op == 'tuple':
            return bconst(len(t.args[0]) > 0)
        if op in ('func', 'class', 'mod', 'bound', 'ext'):
            return BT
        if op == 'aff':
            return bnot(self.eq(t, ZERO))
        if op == 'call' and t.args[0] == 'len' and len(t.args[1]) == 1:
            return self.truth0(t.args[1][0])
        if op == 'cat':
            if any(p.op == 'const' for p in t.args):
                return BT
        if op in ('items', 'keys', 'values'):
            return self.truth0(t.args[0])
        if op in ('perm', 'aslist'):
            return self.truth0(t.args[0])
        if op == 'call' and self.is_instance_call(t) and self.find_method(t.args[0], '__len__') is None and \
                self.find_method(t.args[0], '__bool__') is None:
            return BT
        return self.facts(T('truthy', t))

    def truth(self, t, st):
        op = t.op
        if op == 'phi':
            return bite(t.args[0], self.truth(t.args[1], st), self.truth(t.args[2], st))
        if op in ('perm', 'aslist', 'items', 'keys', 'values'):
            return self.truth(t.args[0], st)
        if op == 'call' and t.args[0] == 'len' and len(t.args[1]) == 1:
            return self.truth(t.args[1][0], st)
        c = self.canon(t)
        if op == 'new' or c.op == 'new' or self.is_container_path(c):
            return self.nonempty(c, st)
        return self.truth0(t)

    def is_container_path(self, t):
        if t.op == 'idx':
            # path below a fresh object: look for container events
            r = t
            while r.op == 'idx':
                r = r.args[0]
            if r.op == 'new':
                return True
            return any(self.touches(it, t) for it in self.root)
        return False

    def touches(self, item, obj):
        if isinstance(item, LoopNode):
            return any(self.touches(i, obj) for i in item.items)
        if item.kind not in ('put', 'append', 'fresh', 'del', 'opaque'):
            return False
        o, _ = self.ecanon(item)
        return o is obj

    def eq(self, a, b):
        if a is b:
            return BT
        for x, y in ((a, b), (b, a)):
            if x.op == 'phi':
                return bite(x.args[0], self.eq(x.args[1], y), self.eq(x.args[2], y))
        if a.op == 'bool' or b.op == 'bool':
            x, y = (a, b) if a.op == 'bool' else (b, a)
            if y.op == 'const' and isinstance(y.args[0], (bool, int)):
                if y.args[0] == 1:
                    return x.args[0]
                if y.args[0] == 0:
                    return bnot(x.args[0])
                return BF
            if y.op == 'bool':
                return bite(x.args[0], y.args[0], bnot(y.args[0]))
        if a.op == 'const' and b.op == 'const':
            return bconst(a.args[0] == b.args[0])
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args[0]) != len(b.args[0]):
                return BF
            return band(*[self.eq(x, y) for x, y in zip(a.args[0], b.args[0])])
        if a.op == 'const':
            a, b = b, a
        if b.op == 'const':
            v = b.args[0]
            if v is None:
                return self.isnone(a)
            if isinstance(v, bool):
                if a.op in ('new', 'tuple', 'func', 'class'):
                    return BF
                return self.truth0(a) if v else bnot(self.truth0(a))
            if a.op in ('new', 'tuple', 'func', 'class', 'mod'):
                return BF
            if a.op == 'aff' and isinstance(v, (int, float)):
                x = tm.canon_sign(sub(a, b))
                return self._eq0(x)
            if v == 0 and isinstance(v, int):
                return bnot(self.truth0(a))
            if a.op == 'cat' and isinstance(v, str):
                pre = a.args[0]
                if pre.op == 'const' and not v.startswith(pre.args[0]):
                    return BF
                suf = a.args[-1]
                if suf.op == 'const' and not v.endswith(suf.args[0]):
                    return BF
            return self.facts(T('eqc', a, b))
        if a.op == 'aff' or b.op == 'aff':
            if aff_parts(a) is not None and aff_parts(b) is not None:
                return self._eq0(tm.canon_sign(sub(a, b)))
        if a.op == 'new' or b.op == 'new':
            if a.op == b.op and a.args[0] != b.args[0]:
                return BF
            if a.op != b.op and not (a.op in ('mu', 'opaque') or b.op in ('mu', 'opaque')):
                return BF
        x, y = sorted((a, b), key=lambda t: t.id)
        return self.facts(T('eq', x, y))

    def _eq0(self, x):
        if x.op == 'const':
            return bconst(x.args[0] == 0)
        if x.op != 'aff':
            return bnot(self.truth0(x))
        c, items = x.args
        if len(items) == 1 and items[0][1] == 1:
            return self.facts(T('eqc', items[0][0], const(-c)))
        if c == 0 and len(items) == 2 and sorted(k for _, k in items) == [-1, 1]:
            p, q = sorted((items[0][0], items[1][0]), key=lambda t: t.id)
            return self.facts(T('eq', p, q))
        return self.facts(T('eq0', x))

    def lt(self, a, b):
        for x, flip in ((a, 0), (b, 1)):
            if x.op == 'phi':
                if flip:
                    return bite(x.args[0], self.lt(a, x.args[1]), self.lt(a, x.args[2]))
                return bite(x.args[0], self.lt(x.args[1], b), self.lt(x.args[2], b))
        if a is b:
            return BF
        if aff_parts(a) is None or aff_parts(b) is None:
            if a.op == 'const' and b.op == 'const':
                try:
                    return bconst(a.args[0] < b.args[0])
                except TypeError:
                    return BF
            return self.facts(T('ltx', a, b))
        d = sub(a, b)
        if d.op == 'const':
            return bconst(d.args[0] < 0)
        c, items = aff_parts(d)
        if len(items) == 1 and self.nonneg(items[0][0]):
            t, k = items[0]
            if k < 0 and c == 0:        # 0 < k*t
                return self.truth0(t)
            if k < 0 and c == 1 and k == -1:   # 1 < t ... keep
                return self.facts(T('neg', d))
            if k > 0 and c >= 0:        # t + c < 0 impossible
                return BF
            if k == 1 and c == -1:      # t < 1
                return bnot(self.truth0(t))
        return self.facts(T('neg', d))

    def isnone(self, t):
        if t.op == 'phi':
            return bite(t.args[0], self.isnone(t.args[1]), self.isnone(t.args[2]))
        if t.op == 'const':
            return bconst(t.args[0] is None)
        if t.op in ('new', 'tuple', 'aff', 'bool', 'cat', 'func', 'class', 'mod', 'sum', 'items', 'fmt', 'div', 'mul',
                    'perm') or t in self.slotobjs:
            return BF
        if t.op == 'call' and self.is_instance_call(t):
            return BF
        if t.op == 'idx':
            # a node of a deep copy is None exactly when the node it was copied from is
            r = t
            while r.op == 'idx':
                r = r.args[0]
            src = self.deepsrc.get(r)
            if src is not None and src is not r:
                b = self.isnone(replace(t, {r: src}))
                if b is BT or b is BF:
                    return b
        return self.facts(T('isnone', t))

    def is_instance_call(self, t):
        n = t.args[0]
        return isinstance(n, str) and '.' in n and self.find_class(n)[1] is not None

    def strpred(self, op, s, p):
        if p.op == 'tuple':
            return bor(*[self.strpred(op, s, x) for x in p.args[0]])
        if p.op == 'phi':
            return bite(p.args[0], self.strpred(op, s, p.args[1]), self.strpred(op, s, p.args[2]))
        if s.op == 'phi':
            return bite(s.args[0], self.strpred(op, s.args[1], p), self.strpred(op, s.args[2], p))
        if s.op == 'const' and p.op == 'const' and isinstance(s.args[0], str) and isinstance(p.args[0], str):
            return bconst(s.args[0].startswith(p.args[0]) if op == 'swith' else s.args[0].endswith(p.args[0]))
        return self.facts(T(op, s, p))

    def in_initial(self, k, c):
        c = strip_perm(c)
        if c.op in ('keys',):
            c = c.args[0]
        if c.op == 'phi':
            return bite(c.args[0], self.in_initial(k, c.args[1]), self.in_initial(k, c.args[2]))
        if k.op == 'phi':
            return bite(k.args[0], self.in_initial(k.args[1], c), self.in_initial(k.args[2], c))
        if c.op == 'tuple':
            return bor(*[self.eq(k, x) for x in c.args[0]])
        if c.op == 'const':
            if k.op == 'const':
                try:
                    return bconst(k.args[0] in c.args[0])
                except TypeError:
                    return BF
            return self.facts(T('in', k, c))
        if k.op == 'key' and k.args[0] in self.loops:
            ln = self.loops[k.args[0]]
            if strip_perm(ln.dom) is c:
                return BT
        if k.op == 'elem' and k.args[0] in self.loops:
            if strip_perm(self.loops[k.args[0]].dom) is c:
                return BT
        if c.op == 'new':
            return BF
        return self.facts(T('in', k, c))

    # ------------------------------------------------------------ heap: names
    def canon(self, t):
        """Canonical name of an object (fresh objects are named after the slot they were placed in)."""
        if not self.forward:
            return t
        if t.op == 'new':
            f = self.forward.get(t.args[0])
            if f is None:
                return t
            loops, target, _g, _ = f
            m = {a: b for a, b in zip(loops, t.args[1]) if a is not b}
            return self.canon(replace(target, m) if m else target)
        if t.op == 'idx':
            b = self.canon(t.args[0])
            return t if b is t.args[0] else self.mk_idx(b, t.args[1])
        if t.op == 'phi':
            return phi(t.args[0], self.canon(t.args[1]), self.canon(t.args[2]))
        return t

    def canon_guard(self, t):
        """(canonical name, placement guard) for an event object."""
        if t.op == 'new':
            f = self.forward.get(t.args[0])
            if f is None:
                return t, BT
            loops, target, g, _ = f
            m = {a: b for a, b in zip(loops, t.args[1]) if a is not b}
            if m:
                target = replace(target, m)
                g = replace(g, m)
            o, g2 = self.canon_guard(target)
            return o, band(g, g2)
        if t.op == 'idx':
            b, g = self.canon_guard(t.args[0])
            return (t if b is t.args[0] else self.mk_idx(b, t.args[1])), g
        return t, BT

    def ecanon(self, e):
        if e._cv != self.fwdver:
            o, g = self.canon_guard(e.obj)
            if o is e.obj:
                e._c = (o, e.guard)
            else:
                # placement guard and event guard share their context
                e._c = (o, band(e.guard, g))
            e._cv = self.fwdver
        return e._c

    # ------------------------------------------------------------ heap: match
    def match(self, p, t, bindable, sg):
        """Condition under which pattern p (event side) denotes the same thing as t.

        Loops in `bindable` may be instantiated; bindings go to sg (L -> instance)."""
        if p is t:
            fr = [x for x in subterms(p) if x.op == 'L' and x in bindable] if bindable else []
            for x in fr:
                sg.setdefault(x, x)
            return BT
        if sg:
            p2 = replace(p, sg)
            if p2 is t:
                return BT
        if p.op == 'key' and p.args[0] in bindable:
            L = p.args[0]
            if L in sg:
                return self.eq(replace(p, sg), t)
            if t.op == 'key' and t.args[0].op == 'L' and t.args[0] in self.loops and \
                    strip_perm(self.loops[t.args[0]].dom) is strip_perm(self.loops[L].dom):
                sg[L] = t.args[0]
            else:
                sg[L] = T('Lk', L, t)
            return BT
        if p.op == 'elem' and p.args[0] in bindable:
            L = p.args[0]
            if L in sg:
                return self.same(replace(p, sg), t)
            dom = strip_perm(self.loops[L].dom)
            if t.op == 'elem' and t.args[0] in self.loops:
                d2 = strip_perm(self.loops[t.args[0]].dom)
                if d2 is dom or self.canon(d2) is self.canon(dom):
                    sg[L] = t.args[0]
                    return BT
                return BF
            if t.op == 'Le' or (t.op == 'idx' and (t.args[0] is dom or self.canon(t.args[0]) is self.canon(dom))):
                sg[L] = T('Le', L, t)
                return BT
            if t.op in ('pick', 'elem'):
                sg[L] = T('Le', L, t)
                return self.facts(T('same', p, t))
            if t.op == 'mu':
                sg[L] = T('Le', L, t)
                return self.facts(T('same', p, t))
            return BF
        if p.op == 'idx' and t.op == 'idx':
            c1 = self.match(p.args[0], t.args[0], bindable, sg)
            if c1 is BF:
                return BF
            return band(c1, self.match_key(p.args[1], t.args[1], bindable, sg))
        if p.op == 'attr' and t.op == 'attr' and p.args[1] == t.args[1]:
            return self.match(p.args[0], t.args[0], bindable, sg)
        if p.op == 'new' and t.op == 'new':
            if p.args[0] != t.args[0] or len(p.args[1]) != len(t.args[1]):
                return BF
            for a, b in zip(p.args[1], t.args[1]):
                a2 = sg.get(a, a)
                if a2 is b:
                    continue
                if a in bindable and a not in sg:
                    sg[a] = b
                    continue
                return BF
            return BT
        return self.same(replace(p, sg) if sg else p, t)

    def match_key(self, p, t, bindable, sg):
        if p.op == 'const' and t.op == 'const':
            return bconst(p.args[0] == t.args[0])
        if p.op == 'key' and p.args[0] in bindable:
            return self.match(p, t, bindable, sg)
        if p.op == 'elem' and p.args[0] in bindable and p.args[0] not in sg:
            # key that is itself an element of a list of keys
            if t.op == 'elem' and t.args[0] in self.loops and \
                    strip_perm(self.loops[t.args[0]].dom) is strip_perm(self.loops[p.args[0]].dom):
                sg[p.args[0]] = t.args[0]
                return BT
        return self.eq(replace(p, sg) if sg else p, t)

    def same(self, a, b):
        """Alias condition of two object names."""
        if a is b:
            return BT
        if a.op == 'idx' and b.op == 'idx':
            c = self.same(a.args[0], b.args[0])
            if c is BF:
                return BF
            return band(c, self.eq(a.args[1], b.args[1]))
        if a.op == 'phi':
            return bite(a.args[0], self.same(a.args[1], b), self.same(a.args[2], b))
        if b.op == 'phi':
            return bite(b.args[0], self.same(a, b.args[1]), self.same(a, b.args[2]))
        if a.op == 'fz' or b.op == 'fz':
            x, y = sorted((a, b), key=lambda t: t.id)
            return self.facts(T('same', x, y))
        dyn = ('mu', 'pick', 'elem', 'last', 'opaque')
        if a.op in dyn or b.op in dyn:
            if self.may_same(a, b):
                x, y = sorted((a, b), key=lambda t: t.id)
                return self.facts(T('same', x, y))
        return BF

    def may_same(self, a, b):
        def dom(x):
            if x.op == 'elem' and x.args[0] in self.loops:
                return self.canon(strip_perm(self.loops[x.args[0]].dom))
            if x.op == 'pick':
                return self.canon(strip_perm(x.args[1]))
            if x.op == 'idx':
                return self.canon(x.args[0])
            return None
        da, db = dom(a), dom(b)
        if da is not None and db is not None:
            return da is db
        for x, y in ((a, b), (b, a)):
            if x.op in ('last', 'mu') and self.caller_owned(y):
                ks = self.fresh_only(x) if x.op == 'last' else self.fresh_slot(x)
                if ks and not any(self.leaks(k, set()) for k in ks):
                    return False
        if 'mu' in (a.op, b.op) or 'last' in (a.op, b.op):
            x = a if a.op in ('mu', 'last') else b
            y = b if x is a else a
            return y.op in ('mu', 'last', 'pick', 'elem', 'idx') and self.kindhint(x) == self.kindhint(y)
        return False

    def fresh_only(self, t):
        """Keys of the fresh objects a finished-loop value can be, or None if it may be something else."""
        out = set()
        own = set()

        def rec(x):
            if x.op == 'phi':
                return rec(x.args[1]) and rec(x.args[2])
            if x.op == 'last':
                own.add(x.args[2])
                return rec(x.args[1]) and (x.args[3].op == 'missing' or rec(x.args[3]))
            if x.op == 'new':
                out.add(x.args[0])
                return True
            return x.op == 'mu' and x in own
        return out if rec(t) else None

    def fresh_slot(self, x):
        """Keys of the fresh objects a slot of a fresh container can hold during a loop, or None."""
        if len(x.args) != 3 or x.args[0] not in self.loops:
            return None
        obj, key = x.args[1], x.args[2]
        r = obj
        while r.op == 'idx':
            r = r.args[0]
        if r.op != 'new' or key.op != 'const':
            return None
        out = set()
        todo = [(w[0], w[2], w[3]) for w in self.loops[x.args[0]].written]

        def rec(items):
            for it in items:
                if isinstance(it, LoopNode):
                    rec(it.items)
                elif it.kind in ('put', 'copyfrom', 'opaque'):
                    todo.append((it.kind, it.key, it.val))
        rec(self.root)
        for kind, k, v in todo:
            if kind in ('copyfrom', 'opaque'):
                return None
            if kind != 'put' or k.op == 'const' and k.args[0] != key.args[0]:
                continue
            if k.op != 'const':
                continue    # tables keyed by names do not hold the fields of an entry
            if v is None or v.op != 'new':
                return None
            out.add(v.args[0])
        return out or None

    def caller_owned(self, t):
        while True:
            if t.op in ('idx', 'attr') and isinstance(t.args[0], Term):
                t = t.args[0]
            elif t.op == 'elem' and t.args[0] in self.loops:
                d = self.loops[t.args[0]].dom
                if d is None:
                    return False
                t = strip_perm(d)
            elif t.op == 'pick':
                t = strip_perm(t.args[1])
            else:
                return t.op == 'param'

    def leaks(self, key, seen):
        """May the fresh object be reachable from something that is not fresh?"""
        if key in seen:
            return False
        seen.add(key)
        for r in self.placed.get(key, ()):
            if r is None or self.leaks(r, seen):
                return True
        return False

    def kindhint(self, t):
        return None if t.op in ('mu', 'last', 'pick', 'elem') else 'x'

    # ------------------------------------------------------------ heap: walk
    def member(self, sg):
        c = BT
        for L, inst in sg.items():
            if inst.op == 'Lk':
                ln = self.loops[L]
                d = ln.dom
                m = {k: v for k, v in sg.items() if k is not v}
                d = replace(d, m)
                c = band(c, self.in_at(inst.args[1], d, ln.seq))
        return c

    def in_at(self, k, d, seq):
        """Membership k in d as of program point seq."""
        d = strip_perm(d)
        if d.op in ('keys', 'items'):
            d = d.args[0]
        if d.op == 'phi':
            return bite(d.args[0], self.in_at(k, d.args[1], seq), self.in_at(k, d.args[2], seq))
        r = d
        while r.op == 'idx':
            r = r.args[0]
        if r.op in ('new', 'param', 'elem', 'mu', 'attr', 'pick') and not (k.op == 'key' and d.op == 'new'):
            return self.walk(d, k, 'in', None, upto=seq)
        return self.in_initial(k, d)

    def emit(self, kind, obj, key, val, st, node, fr, extra=None):
        if obj is not None and obj.op == 'phi':
            g = st.guard
            for c, o in ((obj.args[0], obj.args[1]), (bnot(obj.args[0]), obj.args[2])):
                g2 = band(g, c)
                if tm.unsat(g2):
                    continue
                s2 = St(st.envs, g2)
                self.emit(kind, o, key, val, s2, node, fr, extra)
            return None
        e = Event()
        e.kind, e.obj, e.key, e.val, e.guard = kind, obj, key, val, st.guard
        if isinstance(val, Term) and kind not in ('call', 'fresh') and obj is not None:
            r = obj
            while r.op in ('idx', 'attr') and isinstance(r.args[0], Term):
                r = r.args[0]
            tgt = (r.args[0],) if r.op == 'new' else self.fresh_only(r) if r.op == 'last' else None
            for x in subterms(val):
                if x.op == 'new':
                    self.placed.setdefault(x.args[0], set()).update(tgt or (None,))
        self.seq += 1
        e.seq = self.seq
        e.node = node
        e.fn = fr.name if fr else ''
        e.mod = fr.mod.name if fr else ''
        e.extra = extra
        e._cv = -1
        e._c = None
        e.loops = tuple(l.L for l in self.openloops)
        self.cur.append(e)
        self.stats['events'] += 1
        return e

    def new(self, kind, st, node, fr, tag=''):
        key = f'{fr.mod.name}:{getattr(node, "lineno", 0)}:{getattr(node, "col_offset", 0)}{tag}/{self.cpid()}'
        t = T('new', key, tuple(l.L for l in self.openloops))
        self.newinfo[key] = kind
        self.emit('fresh', t, None, None, st, node, fr, extra=kind)
        return t

    def cpid(self):
        return '.'.join(str(x) for x in self.callpath)

    def initial(self, obj, key, mode):
        r = obj
        while r.op in ('idx', 'attr'):
            r = r.args[0]
        if mode == 'in':
            if r.op == 'new':
                return BF
            return self.in_initial(key, obj)
        if r.op == 'new':
            return T('missing', obj, key)
        if key.op == 'const' and isinstance(key.args[0], str) and key.args[0].startswith('@'):
            return T('attr', obj, key.args[0][1:])
        return self.mk_idx(obj, key)

    def walk(self, obj, key, mode, st, upto=None):
        """Value (mode 'load') or presence (mode 'in') of obj[key] at this point."""
        self.stats['loads'] += 1
        obj = self.canon(obj)
        v = self.initial(obj, key, mode)
        return self.walk_items(self.root, obj, key, mode, v, st.guard if st is not None else BT, upto)

    def sel(self, mode, c, a, b):
        return bite(c, a, b) if mode == 'in' else phi(c, a, b)

    def walk_items(self, items, obj, key, mode, v, g, upto):
        for it in items:
            if upto is not None and it.seq > upto:
                break
            if isinstance(it, LoopNode):
                if it.open:
                    if self.carried(it, obj, key, mode):
                        v = self.mu_base(it, obj, key, mode, v)
                    v = self.walk_items(it.items, obj, key, mode, v, g, upto)
                else:
                    v = self.loop_effect(it, obj, key, mode, v, g, upto)
            else:
                v = self.ev_effect(it, obj, key, mode, v, g, (), {})
        return v

    def mu_base(self, ln, obj, key, mode, v):
        if mode == 'in':
            if v is BT:
                return BT
            return self.facts(T('inmu', ln.L, obj, key))
        # slots that only ever hold the object named after the slot
        p = self.initial(obj, key, 'load')
        if p.op == 'missing':
            p = T('idx', obj, key)
        if all(self.selfref(w, obj, key) for w in ln.written):
            if any(w[0] == 'put' and self.canon(w[1]) is not None and self.wmatch(ln, w, obj, key) is not BF
                   for w in ln.written):
                self.slotobjs.add(p)
                return p
        return T('mu', ln.L, obj, key)

    def selfref(self, w, obj, key):
        kind, o, k, val, loops = w
        if kind != 'put' or val is None:
            return True if kind != 'put' else False
        c = self.wmatch(None, w, obj, key)
        if c is BF:
            return True
        return self.canon(val) is self.mk_idx(self.canon(o), k)

    def wmatch(self, ln, w, obj, key):
        kind, o, k, val, loops = w
        sg = {}
        bindable = set(loops)
        c = self.match(self.canon(o), obj, bindable, sg)
        if c is BF:
            return BF
        if kind == 'put' or kind == 'del':
            return band(c, self.match_key(k, key, bindable, sg))
        return c

    def carried(self, ln, obj, key, mode):
        """May obj[key] have been written by an earlier iteration of this open loop?"""
        ren = T('L', -ln.L.args[0])
        if ren not in self.loops:
            l2 = LoopNode(ren, ln.dom, ln.kind, ln.node, ln.entry)
            self.loops[ren] = l2
        kc = key.args[0] if key.op == 'const' else None
        for w in ln.written:
            kind, o, k, val, loops = w
            if kind == 'append':
                continue
            if kind in ('put', 'del') and kc is not None and k.op == 'const' and k.args[0] != kc:
                continue
            if kind == 'fresh' and mode == 'load' and False:
                continue
            m = {ln.L: ren}
            o2 = replace(o, m)
            k2 = replace(k, m) if k is not None else None
            o2 = self.canon(o2)
            bindable = set(loops) | {ren}
            sg = {}
            if kind == 'copyfrom' and val is not None and w[0] == 'copyfrom':
                c = self.match_prefix(o2, obj, bindable, sg)
            else:
                c = self.match(o2, obj, bindable, sg)
            if c is BF:
                continue
            if kind in ('put', 'del'):
                c = band(c, self.match_key(k2, key, bindable, sg))
                if c is BF:
                    continue
            inst = sg.get(ren)
            if inst is ln.L or (inst is not None and inst.op == 'Lk' and inst.args[1] is T('key', ln.L)) or \
                    (inst is not None and inst.op == 'Le' and inst.args[1] is T('elem', ln.L)):
                continue        # same iteration only
            return True
        return False

    def match_prefix(self, p, obj, bindable, sg):
        o = obj
        while True:
            s2 = dict(sg)
            c = self.match(p, o, bindable, s2)
            if c is not BF:
                sg.update(s2)
                return c
            if o.op == 'idx':
                o = o.args[0]
            else:
                return BF

    def ev_effect(self, e, obj, key, mode, v, g, bindable, sg0):
        kind = e.kind
        if kind not in ('put', 'del', 'fresh', 'copyfrom', 'opaque'):
            return v
        if kind in ('put', 'del') and key.op == 'const' and e.key.op == 'const' and e.key.args[0] != key.args[0]:
            return v
        o, eg = self.ecanon(e)
        r = self.ev_match(e, o, obj, key, bindable, sg0)
        if r is None:
            return v
        c, sg, suffix = r
        m = {a: b for a, b in sg.items() if a is not b}
        if m:
            eg = replace(eg, m)
        full = band(c, eg, self.member(sg))
        if full is BF or tm.unsat(band(full, g)):
            return v
        if implies(g, full):
            cond = BT
        else:
            cond = constrain(full, g)
        if kind == 'put':
            nv = BT if mode == 'in' else self.canon(replace(e.val, m) if m else e.val)
        elif kind == 'del' or kind == 'fresh':
            nv = BF if mode == 'in' else T('missing', obj, key)
        elif kind == 'opaque':
            nv = self.facts(T('opin', obj, key)) if mode == 'in' else self.opaque('unmodelled effect', e.node)
        else:
            src = replace(e.val, m) if m else e.val
            for k in suffix:
                src = self.load_at(src, k, e.seq)
            if mode == 'in':
                nv = self.walk(src, key, 'in', None, upto=e.seq)
            else:
                deep = e.extra == 'deep'
                if deep and self.container_key(key):
                    nv = self.mk_idx(obj, key)
                else:
                    nv = self.walk(src, key, 'load', None, upto=e.seq)
        return self.sel(mode, cond, nv, v)

    def ev_match(self, e, o, obj, key, bindable, sg0):
        sg = dict(sg0)
        if e.kind == 'copyfrom' and e.extra == 'deep':
            a = obj
            suffix = []
            while True:
                s2 = dict(sg)
                c = self.match(o, a, bindable, s2)
                if c is not BF:
                    return c, s2, list(reversed(suffix))
                if a.op != 'idx':
                    return None
                suffix.append(a.args[1])
                a = a.args[0]
        c = self.match(o, obj, bindable, sg)
        if c is BF:
            return None
        if e.kind in ('put', 'del'):
            c = band(c, self.match_key(e.key, key, bindable, sg))
            if c is BF:
                return None
        return c, sg, []

    def load_at(self, obj, key, seq):
        if obj.op == 'phi':
            return phi(obj.args[0], self.load_at(obj.args[1], key, seq), self.load_at(obj.args[2], key, seq))
        return self.walk(obj, key, 'load', None, upto=seq)

    def container_key(self, key):
        if key.op == 'const':
            return key.args[0] in CONTAINER_KEYS
        return True

    def loop_events(self, ln, inner=()):
        """(event, chain of closed loops below and including ln)"""
        for it in ln.items:
            if isinstance(it, LoopNode):
                yield from ((e, (ln,) + ch) for e, ch in self.loop_events(it))
            else:
                yield it, (ln,)

    def loop_effect(self, ln, obj, key, mode, v, g, upto, sg0=None):
        """Effect of a completed loop on obj[key].  sg0 instantiates enclosing loops."""
        sg0 = sg0 or {}
        hits = []
        unbound = False
        for e, chain in self.loop_events(ln):
            if upto is not None and e.seq > upto:
                continue
            if e.kind not in ('put', 'del', 'fresh', 'copyfrom', 'opaque'):
                continue
            if e.kind in ('put', 'del') and key.op == 'const' and e.key.op == 'const' \
                    and e.key.args[0] != key.args[0]:
                continue
            o, _ = self.ecanon(e)
            bind = {l.L for l in chain}
            r = self.ev_match(e, o, obj, key, bind, sg0)
            if r is None:
                continue
            hits.append((e, chain, r))
            if any(l.L not in r[1] for l in chain):
                unbound = True
        if not hits:
            return v
        if not unbound:
            for e, chain, r in hits:
                v = self.ev_effect(e, obj, key, mode, v, g, {l.L for l in chain}, sg0)
            return v
        inst = {h[2][1].get(ln.L) for h in hits}
        if len(inst) == 1 and None not in inst:
            # this loop is pinned to one iteration; its body is straight-line for this location
            sg1 = dict(sg0)
            sg1[ln.L] = inst.pop()
            for it in ln.items:
                if upto is not None and it.seq > upto:
                    break
                if isinstance(it, LoopNode):
                    v = self.loop_effect(it, obj, key, mode, v, g, upto, sg1)
                else:
                    v = self.ev_effect(it, obj, key, mode, v, g, (), sg1)
            return v
        m0 = {a: b for a, b in sg0.items() if a is not b}
        if mode == 'in':
            for e, chain, (c, sg, _s) in hits:
                m = {a: b for a, b in sg.items() if a is not b}
                _, eg = self.ecanon(e)
                full = band(c, replace(eg, m) if m else eg, self.member(sg))
                if e.kind == 'put':
                    full = self.drop_absence(full, obj, key)
                    for l in reversed([l for l in chain if l.L not in sg]):
                        ent = replace(l.entry, m) if m else l.entry
                        full = band(ent, self.exb(l, constrain(full, ent), m))
                    v = bor(v, full)
                elif e.kind == 'fresh':
                    continue      # fresh containers placed under an absence guard never clear others
                elif e.kind == 'copyfrom' and self.absent_case(full, obj, key):
                    # a template copied into a slot that did not exist before
                    src = replace(e.val, m) if m else e.val
                    for k in _s:
                        src = self.load_at(src, k, e.seq)
                    sp = self.walk(src, key, 'in', None, upto=e.seq)
                    loops = [l for l in chain if l.L not in sg]
                    if mentions(sp, lambda y: any(y is l.L for l in loops)):
                        return self.facts(T('opin', obj, key))
                    full = self.drop_absence_path(full, obj, key)
                    for l in reversed(loops):
                        ent = replace(l.entry, m) if m else l.entry
                        full = band(ent, self.exb(l, constrain(full, ent), m))
                    v = bor(v, band(full, sp))
                else:
                    return self.facts(T('opin', obj, key))
            return v
        if self.only_selfputs(hits, obj, key):
            p = T('idx', obj, key)
            self.slotobjs.add(p)
            if v.op == 'missing' or v is p:
                return p
            pres = self.loop_effect(ln, obj, key, 'in', BF, g, upto, sg0)
            return phi(constrain(pres, g), p, v)
        cv = self.constant_puts(hits, obj, key)
        if cv is not None:
            if v.op == 'missing' or v is cv:
                return cv
            pres = self.loop_effect(ln, obj, key, 'in', BF, g, upto, sg0)
            return phi(constrain(pres, g), cv, v)
        # generic iteration: transformer from MU
        MU = T('mu', ln.L, obj, key)
        r = MU
        for it in ln.items:
            if upto is not None and it.seq > upto:
                break
            if isinstance(it, LoopNode):
                r = self.loop_effect(it, obj, key, mode, r, BT, upto, sg0)
            else:
                r = self.ev_effect(it, obj, key, mode, r, BT, (), sg0)
        mus = {}
        for x in subterms(r):
            if x.op == 'mu' and x is not MU and len(x.args) == 3 and x.args[0] is ln.L and x.args[2] is key:
                if self.match(x.args[1], obj, (), {}) is not BF:
                    mus[x] = MU
        if mus:
            r = replace(r, mus)
        return self.close(ln, r, MU, v, m0)

    def iteration(self, ln, obj, key, mode, sg0, upto=None):
        """obj[key] after one iteration of ln (or before item `upto` of its body), given its value before."""
        r = T('mu', ln.L, obj, key) if mode == 'load' else batom(T('inmu', ln.L, obj, key))
        for it in ln.items:
            if it is upto:
                break
            if isinstance(it, LoopNode):
                r = self.loop_effect(it, obj, key, mode, r, BT, None, sg0)
            else:
                r = self.ev_effect(it, obj, key, mode, r, BT, (), sg0)
        return r

    def before(self, ln, obj, key, mode, sg0):
        """obj[key] when ln starts (in terms of the current iteration of the loop around it, if any)."""
        par = self.parent_loop(ln)
        if par is not None and par.L not in sg0:
            return self.iteration(par, obj, key, mode, sg0, upto=ln)
        obj = self.canon(obj)
        v = self.initial(obj, key, mode)
        if par is not None:
            # enclosing loop pinned to one iteration: only this iteration touches the object
            for it in par.items:
                if it is ln:
                    break
                if isinstance(it, LoopNode):
                    v = self.loop_effect(it, obj, key, mode, v, BT, None, sg0)
                else:
                    v = self.ev_effect(it, obj, key, mode, v, BT, (), sg0)
            return v
        return self.walk_items(self.root, obj, key, mode, v, BT, ln.seq - 1)

    def parent_loop(self, ln):
        def rec(items, par):
            for it in items:
                if it is ln:
                    return True, par
                if isinstance(it, LoopNode):
                    r = rec(it.items, it)
                    if r[0]:
                        return r
            return False, None
        return rec(self.root, None)[1]

    def exb(self, ln, g, m=None):
        """Some iteration of ln satisfies g (binder form)."""
        if g is BF:
            return BF
        if ln.kind == 'while' or ln.dom is None:
            return self.facts(T('exists', ln.L, g))
        dom = strip_perm(ln.dom)
        if m:
            dom = replace(dom, m)
        n, sub_ = self.binder(ln, (g, dom), m)
        g2 = replace(g, sub_)
        if g2 is BT:
            return self.truth0(dom) if dom.op != 'new' else self.facts(T('ex', dom, g2))
        # some element equals t and satisfies the rest: t is an element and satisfies the rest
        if dom.op in ('idx', 'param', 'keys'):
            be = T('be', n)
            for a in tm.batoms(g2):
                if a.op != 'eq' or be not in a.args or band(g2, bnot(batom(a))) is not BF:
                    continue
                t = a.args[1] if a.args[0] is be else a.args[0]
                if any(x.op in ('bk', 'be', 'bp', 'B') and x.args[0] == n for x in subterms(t)):
                    continue
                if any(x.op in ('bk', 'bp', 'B', 'Le', 'Lk') and x.args[0] == n or x.op in ('Le', 'Lk') for x in subterms(g2)):
                    continue
                d = dom.args[0] if dom.op == 'keys' else dom
                return band(self.facts(T('in', t, d)), replace(g2, {be: t}))
        # conditions independent of the element
        return self.facts(T('ex', dom, g2))

    def binder(self, ln, ts, m0=None):
        n = 1
        ins = []
        for x in ts:
            for t in subterms(x):
                if t.op in ('bk', 'be', 'bp'):
                    n = max(n, t.args[0] + 1)
                elif t.op in ('inmu', 'mu') and t.args[0] is ln.L or \
                        t.op == 'new' and len(t.args) > 1 and isinstance(t.args[1], tuple) and ln.L in t.args[1]:
                    ins.append(t)
        m = {T('key', ln.L): T('bk', n), T('elem', ln.L): T('be', n), T('pos', ln.L): T('bp', n)}
        # loop-carried state as it is when the iteration starts: tied to the bound iteration
        tie = T('B', n, ln.L, tuple((m0 or {}).items()), tuple((l.args[0], T('pos', l)) for l in ln.loops))
        for t in sorted(set(ins), key=lambda t: t.id):
            if t.op == 'new':
                # object created by the bound iteration
                inst = T('Lk', ln.L, T('bk', n)) if ln.kind == 'dict' else T('Le', ln.L, T('be', n))
                m[t] = T('new', t.args[0], tuple(inst if x is ln.L else x for x in t.args[1]))
                continue
            m[t] = T(t.op, tie, *[replace(x, m) for x in t.args[1:]])
        return n, m

    def inmu_def(self, a):
        """Presence condition behind a bound inmu atom, over all iterations of its loop."""
        b = a.args[0]
        ln = self.loops[b.args[1]]
        r = self.loop_effect(ln, self.canon(a.args[1]), a.args[2], 'in', BF, BT, None, dict(b.args[2]))
        dom = strip_perm(ln.dom)
        if b.args[2]:
            dom = replace(dom, dict(b.args[2]))
        return r, dom

    def only_selfputs(self, hits, obj, key):
        def clears_nothing(e, c, sg):
            m = {a: b for a, b in sg.items() if a is not b}
            eg = self.ecanon(e)[1]
            return self.absent_case(band(c, replace(eg, m) if m else eg), obj, key)
        hits = [h for h in hits if not (h[0].kind == 'fresh' and clears_nothing(h[0], h[2][0], h[2][1]))]
        puts = BF
        for e, _b, (c, sg, _s) in hits:
            if e.kind == 'fresh':
                continue
            if not self.selfput(e, sg):
                return False
            puts = bor(puts, self.ecanon(e)[1])
        if puts is BF:
            return False
        # a fresh object must get its slot filled under the same condition
        return all(implies(self.ecanon(e)[1], puts) for e, _b, _r in hits if e.kind == 'fresh')

    def constant_puts(self, hits, obj, key):
        """Every write in the loop stores one and the same loop-independent value."""
        vals = set()
        for e, chain, (c, sg, _s) in hits:
            m = {a: b for a, b in sg.items() if a is not b}
            eg = self.ecanon(e)[1]
            g = band(c, replace(eg, m) if m else eg)
            if e.kind == 'fresh':
                if self.absent_case(g, obj, key):
                    continue
                return None
            if e.kind != 'put' or e.val is None:
                return None
            t = self.canon(e.val)
            t = replace(t, m) if m else t
            loops = [l for l in chain if l.L not in sg]

            def free(x):
                return not mentions(x, lambda y: any(y is l.L for l in loops) or y.op in ('mu', 'new')) and not is_opaque(x)
            if not free(t):
                for a in tm.batoms(g):
                    if a.op in ('eq', 'eqc') and implies(g, batom(a)):
                        x, y = a.args
                        if x is t and free(y):
                            t = y
                            break
                        if y is t and free(x):
                            t = x
                            break
                else:
                    return None
            vals.add(t)
        return vals.pop() if len(vals) == 1 else None

    def selfput(self, e, sg):
        if e.kind != 'put' or e.val is None:
            return False
        o, _ = self.ecanon(e)
        return self.canon(e.val) is self.mk_idx(o, e.key)

    def by_equality(self, t, g, ln):
        """An iteration-independent term that g makes equal to t."""
        def free(x):
            return not mentions(x, lambda y: y is ln.L or (y.op == 'mu' and y.args[0] is ln.L))
        if free(t):
            return t
        for a in tm.batoms(g):
            if a.op in ('eq', 'eqc') and implies(g, batom(a)):
                x, y = a.args
                for p, q in ((x, y), (y, x)):
                    if p is t and free(q):
                        return q
        return None

    def chain_of(self, ln, e):
        for e2, ch in self.loop_events(ln):
            if e2 is e:
                return ch
        return (ln,)

    def drop_absence(self, g, obj, key):
        """'put if absent' makes the key present whether or not the test succeeds."""
        def f(a):
            if a.op == 'inmu' and self.match(a.args[1], obj, (), {}) is not BF:
                return BF
            return batom(a)
        if not any(a.op == 'inmu' for a in tm.batoms(g)):
            return g
        return tm.bmap(g, f)

    def drop_absence_path(self, g, obj, key):
        def f(a):
            if a.op == 'inmu':
                o, k = obj, key
                while True:
                    if self.same(a.args[1], o) is not BF and (self.eq(a.args[2], k) is not BF):
                        return BF
                    if o.op != 'idx':
                        break
                    o, k = o.args[0], o.args[1]
            return batom(a)
        return tm.bmap(g, f)

    def close(self, ln, r, MU, init, m0=None):
        """Value after the loop for a carried location/variable with per-iteration value r(MU)."""
        if r is MU:
            return init
        total = init
        if init.op == 'missing':
            total = ZERO
        try:
            cs = tm.cases(r)
        except RecursionError:
            return self.mk_last(ln, r, MU, init, m0)
        if len(cs) > 64:
            return self.mk_last(ln, r, MU, init, m0)
        out = {}
        over = []
        if len(MU.args) == 3:
            ow = [(g, t) for g, t in cs if t is not MU]
            if ow and all(not mentions(t, lambda x: x is MU) and aff_parts(t) is not None and
                          self.absent_case(g, MU.args[1], MU.args[2]) for g, t in ow) and len({t for _, t in ow}) == 1:
                t = ow[0][1]
                gg = bor(*[g for g, _ in ow])
                t2 = self.by_equality(t, gg, ln)
                if t2 is not None and init.op == 'missing':
                    return t2
                if t2 is not None and ln.dom is not None and ln.kind != 'while':
                    # set once, by the first iteration that comes across it
                    g2 = self.drop_absence_path(gg, MU.args[1], MU.args[2])
                    return phi(self.exb(ln, constrain(g2, ln.body_guard), m0), t2, init)
        for g, t in cs:
            has = mentions(t, lambda x: x is MU)
            gm = mentions(g, lambda x: x is MU)
            if not has:
                # overwritten: fine only if the slot is known absent in this case
                if len(MU.args) == 3 and self.absent_case(g, MU.args[1], MU.args[2]):
                    d = t
                else:
                    over.append((g, t))
                    continue
            else:
                d = sub(t, MU)
                if mentions(d, lambda x: x is MU):
                    return self.mk_last(ln, r, MU, init, m0)
            if gm:
                return self.mk_last(ln, r, MU, init, m0)
            if d is ZERO:
                continue
            g2 = strip_absent(g, ln)
            out.setdefault(d, BF)
            out[d] = bor(out[d], g2)
        if over:
            # last-writer-wins; closed only if iteration-independent
            if not out and len({t for _, t in over}) == 1:
                t = over[0][1]
                gg = bor(*[g for g, _ in over])
                if not mentions(t, lambda x: x is ln.L) and not mentions(t, lambda x: x.op == 'mu' and x.args[0] is ln.L):
                    gg = constrain(gg, ln.body_guard)
                    return phi(self.exists(ln.L, gg, ln), t, init)
            return self.mk_last(ln, r, MU, init, m0)
        for d, gd in out.items():
            if d.op in ('cat', 'tuple') or aff_parts(d) is None:
                return self.mk_last(ln, r, MU, init, m0)
            bg = replace(ln.body_guard, m0) if m0 else ln.body_guard
            total = add(total, self.mk_sum(ln, constrain(gd, bg), d, m0))
        return total

    def mk_last(self, ln, r, MU, init, m0=None):
        if ln.dom is None:
            return T('last', ln.L, r, MU, init)
        dom = strip_perm(ln.dom)
        if m0:
            dom = replace(dom, m0)
        return T('last', ln.L, r, MU, init, dom)

    def absent_case(self, g, obj, key):
        """Does g imply that obj[key], or an object on the way to it, did not exist before?"""
        some = BF
        for a in tm.batoms(g):
            if a.op == 'inmu':
                o, k = obj, key
                while True:
                    if implies(g, band(self.same(a.args[1], o), self.eq(a.args[2], k))):
                        some = bor(some, bnot(batom(a)))
                        break
                    if o.op != 'idx':
                        break
                    o, k = o.args[0], o.args[1]
        return some is not BF and implies(g, some)

    def mk_sum(self, ln, g, d, m0=None):
        dom = strip_perm(ln.dom)
        if m0:
            dom = replace(dom, m0)
        n, m = self.binder(ln, (d, g, dom), m0)
        return T('sum', dom, replace(g, m), replace(d, m))

    def exists(self, L, g, ln=None):
        if g is BF:
            return BF
        ln = ln or self.loops.get(L)
        if g is BT and ln is not None and ln.dom is not None and ln.kind != 'while':
            return self.truth0(ln.dom) if ln.dom.op not in ('new',) else self.facts(T('exists', L, g))
        return self.facts(T('exists', L, g))

    # --------------------------------------------------------- list contents
    def nonempty(self, obj, st):
        obj = self.canon(obj)
        r = self.initial_nonempty(obj)
        return self._nonempty(self.root, obj, r, st.guard)

    def initial_nonempty(self, obj):
        return BF if obj.op == 'new' else self.truth0(obj)

    def _nonempty(self, items, obj, v, g):
        for it in items:
            if isinstance(it, LoopNode):
                if it.open:
                    for w in it.written:
                        if w[0] in ('append', 'put', 'del', 'opaque'):
                            sg = {}
                            ren = T('L', -it.L.args[0])
                            if ren not in self.loops:
                                self.loops[ren] = LoopNode(ren, it.dom, it.kind, it.node, it.entry)
                            o2 = self.canon(replace(w[1], {it.L: ren}))
                            c = self.match(o2, obj, set(w[4]) | {ren}, sg)
                            if c is not BF and sg.get(ren) is not it.L:
                                if v is not BT or w[0] == 'del':
                                    v = self.facts(T('nonemptymu', it.L, obj))
                                break
                    if any(self.match(self.canon(o), obj, (), {}) is not BF for o in it.shrunk):
                        v = self.facts(T('nonemptymu', it.L, obj))
                    v = self._nonempty(it.items, obj, v, g)
                else:
                    for e, chain in self.loop_events(it):
                        if e.kind not in ('append', 'put', 'fresh', 'del', 'opaque', 'popitem'):
                            continue
                        o, eg = self.ecanon(e)
                        bind = {l.L for l in chain}
                        sg = {}
                        c = self.match(o, obj, bind, sg)
                        if c is BF:
                            continue
                        m = {a: b for a, b in sg.items() if a is not b}
                        eg = replace(eg, m) if m else eg
                        full = band(c, eg, self.member(sg))
                        free = [l for l in chain if l.L not in sg]
                        if free:
                            for l in reversed(free):
                                full = band(l.entry, self.exists(l.L, constrain(full, l.entry), l))
                        full = constrain(full, g)
                        if e.kind in ('append', 'put'):
                            v = bor(v, full)
                        elif e.kind == 'fresh':
                            v = band(v, bnot(full)) if not free else v
                        else:
                            v = self.facts(T('opne', obj, T('s', self.seq)))
                continue
            if it.kind not in ('append', 'put', 'fresh', 'del', 'opaque', 'copyfrom', 'popitem'):
                continue
            if it.kind == 'put' and it.key.op == 'const' and isinstance(it.key.args[0], str) and \
                    it.key.args[0].startswith('@'):
                continue
            o, eg = self.ecanon(it)
            sg = {}
            c = self.match(o, obj, (), sg)
            if c is BF:
                continue
            full = constrain(band(c, eg), g) if not implies(g, band(c, eg)) else BT
            if it.kind in ('append', 'put'):
                v = bor(v, full)
            elif it.kind == 'fresh':
                v = band(v, bnot(full))
            elif it.kind == 'copyfrom':
                v = bite(full, self.truth0(it.val), v)
            else:
                v = bite(full, self.facts(T('opne', obj, T('s', self.seq))), v)
        return v

    def contents(self, obj):
        """All insertion events into obj: [(event, (closed loops chain))], or None if not reconstructible."""
        obj = self.canon(obj)
        out = []
        ok = [True]

        def rec(items, chain):
            for it in items:
                if isinstance(it, LoopNode):
                    if it.open:
                        for w in it.written:
                            if w[0] in ('append', 'put', 'del', 'opaque'):
                                ren = T('L', -it.L.args[0])
                                if ren not in self.loops:
                                    self.loops[ren] = LoopNode(ren, it.dom, it.kind, it.node, it.entry)
                                o2 = self.canon(replace(w[1], {it.L: ren}))
                                sg = {}
                                c = self.match(o2, obj, set(w[4]) | {ren}, sg)
                                if c is not BF and sg.get(ren) is not it.L:
                                    ok[0] = False
                        rec(it.items, chain)
                    else:
                        rec(it.items, chain + (it,))
                    continue
                if it.kind not in ('append', 'put', 'del', 'opaque', 'copyfrom', 'fresh'):
                    continue
                o, eg = self.ecanon(it)
                sg = {}
                c = self.match(o, obj, {l.L for l in chain}, sg)
                if c is BF:
                    continue
                if it.kind == 'put' and it.key.op == 'const' and isinstance(it.key.args[0], str) and \
                        it.key.args[0].startswith('@'):
                    continue
                if it.kind in ('del', 'opaque', 'copyfrom'):
                    ok[0] = False
                elif it.kind in ('append', 'put'):
                    out.append((it, chain, c, sg))
        rec(self.root, ())
        return out if ok[0] else None

    # ====================================================== states
    def merge(self, states):
        states = [s for s in states if s is not None and s.guard is not BF]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        care = BF
        acc = None
        for s in reversed(states):
            if acc is None:
                acc = dict(s.envs)
                care = s.guard
                continue
            care = bor(care, s.guard)
            c = constrain(s.guard, care)
            for k in list(acc.keys() | s.envs.keys()):
                a = s.envs.get(k)
                b = acc.get(k)
                if a is b:
                    continue
                if a is None:
                    a = T('unbound', k[1])
                if b is None:
                    b = T('unbound', k[1])
                acc[k] = phi(c, a, b)
        return St(acc, care)

    # ====================================================== loops
    def written_of(self, ln):
        out = []

        def rec(items, loops):
            for it in items:
                if isinstance(it, LoopNode):
                    rec(it.items, loops + (it.L,))
                elif it.kind in ('put', 'del', 'append', 'fresh', 'copyfrom', 'opaque'):
                    out.append((it.kind, it.obj, it.key, it.val, loops))
                elif it.kind == 'popitem' and it.obj not in ln.shrunk:
                    ln.shrunk.append(it.obj)
        rec(ln.items, ())
        # canonicalise with the current placement
        res = []
        seen = set()
        for kind, o, k, v, loops in out:
            o2 = self.canon(o)
            v2 = self.canon(v) if v is not None else None
            sig = (kind, o2, k, v2 if kind == 'put' else None)
            if sig in seen:
                continue
            seen.add(sig)
            res.append((kind, o2, k, v2, loops))
        return res

    def assigned_names(self, node):
        names = set()
        if node is None:
            return names
        body = list(getattr(node, 'body', [])) if isinstance(node, (ast.For, ast.While)) else []
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
        if isinstance(node, ast.For):
            for n in ast.walk(node.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        return names

    def only_augmented(self, node, name, op):
        """Every store to name in the loop is an in-place `name op= ...`."""
        n, m = 0, 0
        for b in [node.target] * isinstance(node, ast.For) + list(node.body) + list(node.orelse):
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load):
                    n += 1
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name and \
                        isinstance(x.op, op):
                    m += 1
        return n == m

    def run_loop(self, dom, kind, node, st, fr, body, ordering=(), cond=None):
        """Analyse one generic iteration. body(st, L) -> St|None. Returns normal-exit state."""
        if st.guard is BF:
            return st
        self.stats['loops'] += 1
        self.nloop += 1
        L = T('L', self.nloop)
        ln = LoopNode(L, dom, kind, node, st.guard)
        ln.ordering = tuple(ordering)
        self.seq += 1
        ln.seq = self.seq
        ln.loops = tuple(l.L for l in self.openloops)
        ln.fn = fr.name
        ln.modname = fr.mod.name
        self.loops[L] = ln
        parent = self.cur
        parent.append(ln)
        self.openloops.append(ln)
        entry = st.guard
        keys = {(fr.fid, n) for n in self.assigned_names(node)}
        keys = {k for k in keys if k in st.envs}
        inplace = {k for k in keys if (self.is_list(st.envs[k]) or self.is_dict(st.envs[k])) and
                   self.only_augmented(node, k[1], ast.Add if self.is_list(st.envs[k]) else ast.BitOr)}
        keys -= inplace
        rounds = 1 if self.discovery else 4

        def start():
            s = st.copy()
            for k in keys:
                s.envs[k] = T('mu', L, T('var', k[0], k[1]))
            return s

        for rnd in range(rounds):
            last = self.discovery > 0
            if last:
                break
            fw = dict(self.forward)
            e0 = len(self.esc)
            ln.items = []
            self.cur = ln.items
            self.discovery += 1
            s = start()
            base = dict(s.envs)
            try:
                out = body(s, L)
            finally:
                self.discovery -= 1
            changed = set()
            for s2 in [out] + [x.st for x in self.esc[e0:]]:
                if s2 is None:
                    continue
                for k, v in s2.envs.items():
                    if k in st.envs and v is not base.get(k):
                        changed.add(k)
            w = self.written_of(ln)
            del self.esc[e0:]
            self.forward = fw
            self.fwdver += 1
            stable = changed <= keys and len(w) == len(ln.written)
            keys |= changed
            ln.written = w
            if stable:
                break
        ln.items = []
        self.cur = ln.items
        e0 = len(self.esc)
        s = start()
        out = body(s, L)
        self.openloops.pop()
        self.cur = parent
        ln.open = False
        exits = self.esc[e0:]
        E = bor(*[x.st.guard for x in exits]) if exits else BF
        if cond is not None and cond.get('b') is not None:
            ln.body_guard = band(entry, cond['b'])
            ln.cond = cond['b']
        relE = constrain(E, entry) if E is not BF else BF
        always = kind == 'while' and cond is not None and cond.get('b') is BT
        if E is BF:
            X = BF
        elif always:
            X = BT
        else:
            X = self.exists(L, relE, ln)
        ln.exitcond = relE
        ln.exists = X
        if E is not BF:
            self.hoist(ln, parent, relE, X, entry)
            for x in exits:
                x.st.guard = band(entry, X, x.st.guard)
        ln.mukeys = set(keys)
        ln.init_env = {k: st.envs[k] for k in keys}
        ln.next_state = out
        # normal exit
        post = st.copy()
        post.guard = band(entry, bnot(X))
        if cond is not None and cond.get('b') is not None and not always:
            pass
        for k in keys:
            init = st.envs[k]
            MU = T('mu', L, T('var', k[0], k[1]))
            if out is None:
                post.envs[k] = init
                continue
            r = out.envs.get(k, MU)
            ln.next_env[k] = r
            try:
                post.envs[k] = self.close(ln, r, MU, init)
            except Unsupported:
                post.envs[k] = T('last', L, r)
        if out is not None:
            for k, v in out.envs.items():
                if k not in post.envs:
                    post.envs[k] = T('last', L, v)
                elif k not in keys and k in st.envs and v is not st.envs[k]:
                    # changed although nothing was announced (only while discovering): make it visible outside
                    post.envs[k] = T('last', L, v)
        if post.guard is BF and not exits:
            post.guard = BF
        return post

    def hoist(self, ln, parent, relE, X, entry):
        """Items that only run in the iteration leaving the loop are moved behind it."""
        full = band(entry, relE)
        stay, move = [], []
        for it in ln.items:
            g = it.entry if isinstance(it, LoopNode) else it.guard
            if g is not BF and implies(g, full):
                move.append(it)
            else:
                stay.append(it)
        if not move:
            return
        ln.items = stay

        def fix(it):
            if isinstance(it, LoopNode):
                it.entry = band(it.entry, X)
                it.body_guard = band(it.body_guard, X)
                it.loops = tuple(l for l in it.loops if l is not ln.L)
                for x in it.items:
                    fix(x)
            else:
                it.guard = band(it.guard, X)
                it.loops = tuple(l for l in it.loops if l is not ln.L)
                it._cv = -1
                if it.extra is None and it.kind in ('put', 'append', 'call'):
                    pass
        for it in move:
            fix(it)
            parent.append(it)

    # ====================================================== iteration
    def iterate(self, it, st, fr, node, body, ordering=(), hint=None):
        """body(st, elem, pos) -> St|None. Returns the state after normal exhaustion."""
        if st is None or st.guard is BF:
            return st
        op = it.op
        if op == 'phi':
            s1 = st.copy()
            s1.guard = band(st.guard, it.args[0])
            s2 = st.copy()
            s2.guard = band(st.guard, bnot(it.args[0]))
            outs = []
            for s, x in ((s1, it.args[1]), (s2, it.args[2])):
                if s.guard is BF or tm.unsat(s.guard):
                    continue
                outs.append(self.iterate(x, s, fr, node, body, ordering, hint))
            return self.merge(outs) or St(st.envs, BF)
        if op == 'perm':
            return self.iterate(it.args[0], st, fr, node, body, ordering + (it,), hint)
        if op == 'aslist':
            if not any(self.touches(x, it) for x in self.root):
                return self.iterate(it.args[0], st, fr, node, body, ordering, hint)
        if op == 'enum':
            start = it.args[1]
            return self.iterate(it.args[0], st, fr, node,
                                lambda s, e, p: body(s, T('tuple', (add(p, start), e)), p), ordering, hint)
        if op == 'mapf':
            f = it.args[0]
            return self.iterate(it.args[1], st, fr, node,
                                lambda s, e, p: body(s, self.call(f, [e], {}, s, fr, node), p), ordering, hint)
        if op == 'filterf':
            f = it.args[0]

            def fb(s, e, p):
                r = self.call(f, [e], {}, s, fr, node) if not (f.op == 'const') else e
                c = self.truth(r, s)
                s1 = s.copy()
                s1.guard = band(s.guard, c)
                s2 = s.copy()
                s2.guard = band(s.guard, bnot(c))
                o = body(s1, e, p) if s1.guard is not BF else None
                return self.merge([o, s2])
            return self.iterate(it.args[1], st, fr, node, fb, ordering, hint)
        if op == 'chain':
            for x in it.args[0]:
                st = self.iterate(x, st, fr, node, body, ordering, hint)
                if st is None or st.guard is BF:
                    return st
            return st
        if op == 'tuple':
            return self.unroll([(e, BT) for e in it.args[0]], st, body)
        if op == 'const' and isinstance(it.args[0], (str, bytes)) and len(it.args[0]) <= 8:
            return self.unroll([(const(c), BT) for c in it.args[0]], st, body)
        if op == 'range' and all(a.op == 'const' for a in it.args) and len(range(*[a.args[0] for a in it.args])) <= 8:
            return self.unroll([(const(i), BT) for i in range(*[a.args[0] for a in it.args])], st, body)
        if op == 'gen':
            return self.run_gen(it, st, fr, node, body)
        if op in ('items', 'keys', 'values'):
            return self.iter_dict(it.args[0], op, st, fr, node, body, ordering)
        if op == 'new' or (op == 'idx' and self.canon(it) is not it):
            c = self.canon(it)
            kind = self.newinfo.get(it.args[0] if op == 'new' else None)
            if kind in ('dict', 'defaultdict'):
                return self.iter_dict(it, 'keys', st, fr, node, body, ordering)
            r = self.iter_contents(it, st, fr, node, body, tuple(ordering) + self.inplace(c, st))
            if r is not NotImplemented:
                return r
        elif op == 'idx' and self.is_container_path(it):
            r = self.iter_contents(it, st, fr, node, body, ordering)
            if r is not NotImplemented:
                return r
        if op == 'zip':
            a = it.args[0]
            if all(x.op == 'tuple' for x in a):
                rows = list(zip(*[x.args[0] for x in a]))
                return self.unroll([(T('tuple', tuple(r)), BT) for r in rows], st, body)

            def bz(s, e, p):
                return body(s, T('tuple', (e,) + tuple(self.index(x, p, s, fr, node) for x in a[1:])), p)
            return self.iterate(a[0], st, fr, node, bz, ordering, hint)
        dom = it
        if hint == 'dict':
            return self.iter_dict(it, 'keys', st, fr, node, body, ordering)

        def b(s, L):
            return body(s, T('elem', L), T('pos', L))
        return self.run_loop(dom, 'list', node, st, fr, b, ordering)

    def inplace(self, c, st):
        """Orders given to a list by .sort() after it was filled."""
        out = ()
        for e, ch in self.events(('append', 'sort', 'fresh')):
            if e.obj is not c:
                continue
            if e.kind != 'sort':
                out = ()
            elif e.key.op == 'skey' and implies(st.guard, e.guard) and all(l.open for l in ch):
                out = (T('perm', c, 'sorted', e.key, e.val),) if e.key.args[0] != 'reversed' else \
                    out + (T('perm', c, 'reversed', NONE, NONE),)
            else:
                out = (T('perm', c, 'some', NONE, NONE),)
        return out

    def unroll(self, elems, st, body):
        e0 = len(self.esc)
        for i, (e, g) in enumerate(elems):
            if st is None or st.guard is BF:
                return st
            if g is BT:
                st = body(st, e, const(i))
            else:
                s1 = st.copy()
                s1.guard = band(st.guard, g)
                s2 = st.copy()
                s2.guard = band(st.guard, bnot(g))
                o = body(s1, e, self.opaque('pos')) if s1.guard is not BF else None
                st = self.merge([o, s2])
        return st

    def iter_dict(self, d, what, st, fr, node, body, ordering):
        if d.op == 'phi':
            outs = []
            for c, x in ((d.args[0], d.args[1]), (bnot(d.args[0]), d.args[2])):
                s = st.copy()
                s.guard = band(st.guard, c)
                if s.guard is BF or tm.unsat(s.guard):
                    continue
                outs.append(self.iter_dict(x, what, s, fr, node, body, ordering))
            return self.merge(outs) or St(st.envs, BF)
        if d.op == 'perm':
            return self.iter_dict(d.args[0], what, st, fr, node, body, ordering + (d,))
        dc = self.canon(d)

        def give(s, k, v, p):
            e = T('tuple', (k, v)) if what == 'items' else (k if what == 'keys' else v)
            return body(s, e, p)

        if dc.op == 'new' or self.fresh_path(dc):
            ins = self.contents(d)
            if ins is not None and self.replayable(ins):
                for e, chain, c, sg in ins:
                    if st is None or st.guard is BF:
                        return st
                    st = self.replay(e, chain, c, sg, st, fr, node, ordering,
                                     lambda s, ev, m: give(s, replace(ev.key, m), self.canon(replace(ev.val, m)),
                                                           self.opaque('pos')))
                return st

        def b(s, L):
            k = T('key', L)
            v = self.walk(d, k, 'load', s) if what != 'keys' else None
            if v is not None:
                # members are present
                v = self.assume_present(v, d, k, s)
            return give(s, k, v, T('pos', L))
        return self.run_loop(d, 'dict', node, st, fr, b, ordering)

    def assume_present(self, v, d, k, s):
        cs = [(g, t) for g, t in tm.cases(v, s.guard)] if v.op == 'phi' else [(BT, v)]
        ok = [(g, t) for g, t in cs if t.op != 'missing']
        if len({t for _, t in ok}) == 1:
            return ok[0][1]
        if v.op == 'phi' and ok:
            r = ok[-1][1]
            for g, t in reversed(ok[:-1]):
                r = phi(constrain(g, s.guard), t, r)
            return r
        if v.op == 'missing':
            return T('idx', self.canon(d), k)
        return v

    def fresh_path(self, t):
        if t.op != 'idx':
            return False
        found = [False]

        def rec(items):
            for it in items:
                if isinstance(it, LoopNode):
                    rec(it.items)
                elif it.kind == 'fresh' and it.extra in ('dict', 'list', 'set'):
                    o, _ = self.ecanon(it)
                    if o is t or (o.op == 'idx' and self.match(o, t, set(it.loops) - {l.L for l in self.openloops},
                                                               {}) is BT):
                        found[0] = True
        rec(self.root)
        r = t
        while r.op == 'idx':
            r = r.args[0]
        return found[0] and r.op == 'new'

    def replayable(self, ins):
        for e, chain, c, sg in ins:
            if e.kind != 'put':
                return False
            inj = set()
            self.inj_loops(e.key, inj)
            for l in chain:
                if l.L in sg:
                    continue
                if l.L not in inj:
                    return False
        # two different families with possibly equal keys
        if len(ins) > 1 and any(ch for _, ch, _, _ in ins):
            return False
        if len(ins) > 1:
            ks = [e.key for e, *_ in ins]
            if any(k.op != 'const' for k in ks) or len({k.args[0] for k in ks}) != len(ks):
                return False
        return True

    def inj_loops(self, k, out):
        if k.op in ('key', 'elem'):
            out.add(k.args[0])
        elif k.op == 'tuple':
            for x in k.args[0]:
                self.inj_loops(x, out)

    def replay(self, e, chain, c, sg, st, fr, node, ordering, fn):
        m0 = {a: b for a, b in sg.items() if a is not b}
        todo = [l for l in chain if l.L not in sg]
        _, eg = self.ecanon(e)

        def go(s, i, m):
            if i == len(todo):
                g = replace(band(eg, c), m) if m else band(eg, c)
                g = band(s.guard, g)
                if g is BF or tm.unsat(g):
                    return s
                s1 = s.copy()
                s1.guard = g
                rest = band(s.guard, bnot(g))
                out = fn(s1, e, m)
                if rest is BF:
                    return out
                s2 = s.copy()
                s2.guard = rest
                return self.merge([out, s2])
            l = todo[i]
            dom = replace(l.dom, m) if m else l.dom

            def b(s2, L):
                m2 = dict(m)
                m2[l.L] = L
                return go(s2, i + 1, m2)
            return self.run_loop(dom, l.kind, node, s, fr, b, ordering=l.ordering + tuple(ordering))
        return go(st, 0, m0)

    def popped(self, obj, stop=None):
        """Were elements taken out of the list (before the event stop)?"""
        obj = self.canon(obj)
        res = [False]

        def rec(items):
            for it in items:
                if it is stop:
                    return True
                if isinstance(it, LoopNode):
                    if rec(it.items):
                        return True
                elif it.kind == 'popitem' and self.ecanon(it)[0] is obj:
                    res[0] = True
            return False
        rec(self.root)
        return res[0]

    def iter_left(self, obj, st, fr, node, body, ordering):
        def part(s, e, p):
            c = batom(T('left', self.canon(obj), e))
            s1 = s.copy()
            s1.guard = band(s.guard, c)
            s2 = s.copy()
            s2.guard = band(s.guard, bnot(c))
            return self.merge([x for x in (body(s1, e, self.opaque('pos')), s2) if x is not None])
        self.unpopped.add(obj)
        try:
            return self.iter_contents(obj, st, fr, node, part, ordering)
        finally:
            self.unpopped.discard(obj)

    def iter_contents(self, obj, st, fr, node, body, ordering):
        if obj not in self.unpopped and self.popped(obj):
            return self.iter_left(obj, st, fr, node, body, ordering)
        ins = self.contents(obj)
        if ins is None:
            # pure shallow copy?
            src = self.only_copy(obj, True)
            if src is not None and src.val.op == 'new' and src.val not in self.unpopped:
                if self.popped(src.val, src):
                    return self.iter_left(src.val, st, fr, node, body, ordering)
                self.unpopped.add(src.val)
                try:
                    return self.iterate(src.val, st, fr, node, body, ordering)
                finally:
                    self.unpopped.discard(src.val)
            if src is not None:
                return self.iterate(src.val, st, fr, node, body, ordering)
            return NotImplemented
        if any(e.kind != 'append' for e, *_ in ins):
            return NotImplemented
        if any(l.kind == 'while' for _, ch, _, _ in ins for l in ch):
            return NotImplemented
        if len(ins) > 12:
            return NotImplemented
        n = 0
        for e, chain, c, sg in ins:
            if st is None or st.guard is BF:
                return st
            if not [l for l in chain if l.L not in sg]:
                p = const(n) if e.guard is BT or implies(st.guard, band(self.ecanon(e)[1], c)) else self.opaque('pos')
                n += 1
            else:
                p = self.opaque('pos')
            st = self.replay(e, chain, c, sg, st, fr, node, ordering,
                             lambda s, ev, m: body(s, self.canon(replace(ev.val, m)), p))
        return st

    def only_copy(self, obj, event=False):
        obj = self.canon(obj)
        src = []
        bad = [False]

        def rec(items):
            for it in items:
                if isinstance(it, LoopNode):
                    for w in (it.written if it.open else ()):
                        if w[0] in ('append', 'put', 'del', 'opaque') and self.canon(w[1]) is obj:
                            bad[0] = True
                    rec(it.items)
                    continue
                if it.kind in ('append', 'put', 'del', 'opaque', 'copyfrom'):
                    o, _ = self.ecanon(it)
                    if o is obj:
                        if it.kind == 'copyfrom':
                            src.append(it)
                        else:
                            bad[0] = True
        rec(self.root)
        if len(src) == 1 and not bad[0]:
            return src[0] if event else src[0].val
        return None

    def run_gen(self, it, st, fr, node, body):
        info, args, kwargs = self.gens[it.args[0]]

        def yf(s, v):
            return body(s, v, self.opaque('pos'))
        self.inline(info, list(args), dict(kwargs), st, fr, node, yieldfn=yf)
        return st

    # ====================================================== statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None or st.guard is BF:
                return None
            st = self.stmt(s, st, fr)
        if st is not None and st.guard is BF:
            return None
        return st

    def stmt(self, n, st, fr):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            # unknown statement: havoc assigned names
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    st.envs[self.namekey(x.id, fr)] = self.opaque('stmt ' + type(n).__name__, n)
            return st
        return m(n, st, fr)

    def s_Pass(self, n, st, fr):
        return st

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Import(self, n, st, fr):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            st.envs[(fr.fid, nm)] = self.modterm(a.name if a.asname else a.name.split('.')[0])
        return st

    def s_ImportFrom(self, n, st, fr):
        base = n.module or ''
        if n.level:
            base = PKG + ('.' + base if base else '')
        for a in n.names:
            st.envs[(fr.fid, a.asname or a.name)] = self.dotted(base + '.' + a.name)
        return st

    def s_Global(self, n, st, fr):
        fr.globals.update(n.names)
        return st

    def s_Nonlocal(self, n, st, fr):
        fr.nonlocals.update(n.names)
        return st

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return st
        self.ev(n.value, st, fr)
        return st if st.guard is not BF else None

    def s_Assert(self, n, st, fr):
        c = self.truth(self.ev(n.test, st, fr), st)
        st.guard = band(st.guard, c)
        return st if st.guard is not BF else None

    def s_Assign(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        for t in n.targets:
            self.assign(t, v, st, fr, n)
        return st if st.guard is not BF else None

    def s_AnnAssign(self, n, st, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st, fr), st, fr, n)
        return st if st.guard is not BF else None

    def s_AugAssign(self, n, st, fr):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st, fr, n)
            v = self.ev(n.value, st, fr)
            if isinstance(n.op, ast.Add) and self.is_list(cur):
                self.extend(cur, v, st, n, fr)
                return st
            if isinstance(n.op, ast.BitOr) and self.is_dict(cur):
                self.update(cur, v, st, n, fr)
                return st
            st.envs[self.namekey(t.id, fr)] = self.binop(n.op, cur, v, st, n, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            k = self.ev(t.slice, st, fr)
            cur = self.index(o, k, st, fr, n)
            v = self.ev(n.value, st, fr)
            if isinstance(n.op, ast.Add) and self.is_list(cur):
                self.extend(cur, v, st, n, fr)
                return st
            self.put(o, k, self.binop(n.op, cur, v, st, n, fr), st, n, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            cur = self.getattr(o, t.attr, st, fr, n)
            v = self.ev(n.value, st, fr)
            self.put(o, const('@' + t.attr), self.binop(n.op, cur, v, st, n, fr), st, n, fr)
        return st if st.guard is not BF else None

    def is_list(self, t):
        return t.op == 'new' and self.newinfo.get(t.args[0]) == 'list'

    def is_dict(self, t):
        return t.op == 'new' and self.newinfo.get(t.args[0]) in ('dict', 'defaultdict')

    def namekey(self, name, fr):
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in getattr(p, 'localnames', ()):
                    return (p.fid, name)
                p = p.parent
        return (fr.fid, name)

    def assign(self, t, v, st, fr, n):
        if isinstance(t, ast.Name):
            st.envs[self.namekey(t.id, fr)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                j = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                after = len(t.elts) - j - 1
                es = self.known_elems(v, st)
                if es is not None and len(es) >= j + after:
                    for i, e in enumerate(t.elts):
                        if i == j:
                            l = self.new('list', st, n, fr)
                            for x in es[j:len(es) - after]:
                                self.append(l, x, st, n, fr)
                            self.assign(e.value, l, st, fr, n)
                        else:
                            self.assign(e, es[i] if i < j else es[len(es) - len(t.elts) + i], st, fr, n)
                    return
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.opaque('starred', n), st, fr, n)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.unpack(v, i, len(t.elts), st, fr, n), st, fr, n)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            k = self.ev(t.slice, st, fr)
            self.put(o, k, v, st, n, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.put(o, const('@' + t.attr), v, st, n, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.opaque('starred', n), st, fr, n)

    def unpack(self, v, i, cnt, st, fr, n):
        if v.op == 'phi':
            return phi(v.args[0], self.unpack(v.args[1], i, cnt, st, fr, n), self.unpack(v.args[2], i, cnt, st, fr, n))
        if v.op == 'tuple':
            return v.args[0][i] if i < len(v.args[0]) else self.opaque('unpack', n)
        if v.op == 'range' and all(a.op == 'const' for a in v.args):
            return const(list(range(*[a.args[0] for a in v.args]))[i])
        if v.op == 'new':
            return self.index(v, const(i), st, fr, n)
        return self.mk_idx(v, const(i))

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                k = self.ev(t.slice, st, fr)
                self.emit('del', self.canon(o), k, None, st, n, fr)
            elif isinstance(t, ast.Name):
                st.envs.pop(self.namekey(t.id, fr), None)
        return st

    def s_Return(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        if st.guard is not BF:
            self.esc.append(Escape('return', fr, st, v, n))
        return None

    def s_Raise(self, n, st, fr):
        v = self.ev(n.exc, st, fr) if n.exc is not None else self.opaque('reraise', n)
        if n.cause is not None:
            self.ev(n.cause, st, fr)
        self.emit('raise', None, None, v, st, n, fr)
        self.esc.append(Escape('raise', None, st, v, n))
        return None

    def s_Continue(self, n, st, fr):
        self.esc.append(Escape('continue', fr.ctxs[-1], st, None, n))
        return None

    def s_Break(self, n, st, fr):
        self.esc.append(Escape('break', fr.ctxs[-1], st, None, n))
        return None

    def s_If(self, n, st, fr):
        c = self.truth(self.ev(n.test, st, fr), st)
        if st.guard is BF:
            return None
        s1 = st.copy()
        s1.guard = band(st.guard, c)
        s2 = st.copy()
        s2.guard = band(st.guard, bnot(c))
        outs = []
        if s1.guard is not BF and not tm.unsat(s1.guard):
            outs.append(self.block(n.body, s1, fr))
        if s2.guard is not BF and not tm.unsat(s2.guard):
            outs.append(self.block(n.orelse, s2, fr))
        return self.merge(outs)

    def take(self, e0, pred):
        got = [x for x in self.esc[e0:] if pred(x)]
        self.esc[e0:] = [x for x in self.esc[e0:] if not pred(x)]
        return got

    def s_For(self, n, st, fr):
        it = self.ev(n.iter, st, fr)
        ctx = Ctx()
        e0 = len(self.esc)

        def body(s, e, p):
            self.assign(n.target, e, s, fr, n)
            fr.ctxs.append(ctx)
            e1 = len(self.esc)
            try:
                out = self.block(n.body, s, fr)
            finally:
                fr.ctxs.pop()
            conts = self.take(e1, lambda x: x.kind == 'continue' and x.target is ctx)
            return self.merge([out] + [x.st for x in conts])
        hint = self.dict_hint(n, fr, it)
        e_before = len(self.esc)
        out = self.iterate_guard(it, st, fr, n, body, hint, ctx)
        brks = self.take(e0, lambda x: x.kind == 'break' and x.target is ctx)
        if out is not None and out.guard is not BF and n.orelse:
            out = self.block(n.orelse, out, fr)
        return self.merge([out] + [x.st for x in brks])

    def iterate_guard(self, it, st, fr, n, body, hint, ctx):
        return self.iterate(it, st, fr, n, body, (), hint)

    @staticmethod
    def copy_of(node, fr):
        """The list(...)/sorted(...) call a local name is bound to, if it is bound exactly once."""
        if not isinstance(node, ast.Name) or not isinstance(fr.node, (ast.FunctionDef, ast.Lambda)):
            return None
        bound = [x for x in ast.walk(fr.node) if isinstance(x, ast.Name) and x.id == node.id and isinstance(x.ctx, ast.Store)]
        if len(bound) != 1:
            return None
        for x in ast.walk(fr.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and x.targets[0] is bound[0] and isinstance(x.value, ast.Call) and \
                    isinstance(x.value.func, ast.Name) and x.value.func.id in ('sorted', 'list', 'reversed', 'tuple', 'set') and \
                    x.value.args:
                return x.value
        return None

    def dict_hint(self, n, fr, it):
        """Is a directly iterated value a mapping (iteration yields keys)?"""
        node = n.iter
        tgt = getattr(n, 'target', None)
        for _ in range(4):
            while isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.args and \
                    node.func.id in ('sorted', 'list', 'reversed', 'tuple', 'set'):
                node = node.args[0]
            x = self.copy_of(node, fr)
            if x is None:
                break
            node = x
        if isinstance(node, ast.Name):
            ann = None
            f = fr
            while f is not None and ann is None:
                a = getattr(f.node, 'args', None)
                if a is not None:
                    for x in a.args + a.kwonlyargs:
                        if x.arg == node.id and x.annotation is not None:
                            ann = ast.unparse(x.annotation)
                f = f.parent
            if ann is not None:
                return 'dict' if 'Dict' in ann.split('[')[0] or ann.startswith(('dict', 'Optional[Dict')) else None
        if isinstance(tgt, ast.Name):
            src = ast.dump(node)
            body = n.body if isinstance(n, ast.For) else []
            comps = body or [n]
            for b in comps:
                for x in ast.walk(b):
                    if isinstance(x, ast.Subscript) and ast.dump(x.value) == src and isinstance(x.slice, ast.Name) \
                            and x.slice.id == tgt.id:
                        return 'dict'
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get' and \
                            ast.dump(x.func.value) == src and x.args and isinstance(x.args[0], ast.Name) and \
                            x.args[0].id == tgt.id:
                        return 'dict'
        return None

    def s_While(self, n, st, fr):
        ctx = Ctx()
        e0 = len(self.esc)
        cond = {}

        def body(s, L):
            c = self.truth(self.ev(n.test, s, fr), s)
            cond['b'] = constrain(c, s.guard) if c not in (BT, BF) else c
            s.guard = band(s.guard, c)
            if s.guard is BF:
                return None
            fr.ctxs.append(ctx)
            e1 = len(self.esc)
            try:
                out = self.block(n.body, s, fr)
            finally:
                fr.ctxs.pop()
            conts = self.take(e1, lambda x: x.kind == 'continue' and x.target is ctx)
            return self.merge([out] + [x.st for x in conts])
        out = self.run_loop(NONE, 'while', n, st, fr, body, cond=cond)
        brks = self.take(e0, lambda x: x.kind == 'break' and x.target is ctx)
        if out is not None and out.guard is not BF and n.orelse:
            out = self.block(n.orelse, out, fr)
        return self.merge([out] + [x.st for x in brks])

    def s_With(self, n, st, fr):
        for i in n.items:
            v = self.ev(i.context_expr, st, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, fr, n)
        return self.block(n.body, st, fr)

    def s_Try(self, n, st, fr):
        e0 = len(self.esc)
        types = [self.handler_types(h, fr) for h in n.handlers]
        entry = st.copy()
        exc = None
        # try: x = d[k] / except KeyError  ==  presence test
        if len(n.handlers) == 1 and types[0] == ['KeyError'] and len(n.body) == 1:
            subs = [x for x in ast.walk(n.body[0]) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load)]
            calls = [x for x in ast.walk(n.body[0]) if isinstance(x, ast.Call)]
            if len(subs) == 1 and not calls:
                o = self.ev(subs[0].value, st, fr)
                k = self.ev(subs[0].slice, st, fr)
                exc = bnot(self.contains(k, o, st))
        if exc is None:
            exc = self.facts(T('exc', f'{fr.mod.name}:{n.lineno}', tuple(t for ts in types for t in ts),
                               tuple(l.L for l in self.openloops))) if n.handlers else BF
        s1 = st.copy()
        s1.guard = band(st.guard, bnot(exc))
        self.trymarks.append((f'{fr.mod.name}:{n.lineno}', types))
        out = self.block(n.body, s1, fr)
        self.trymarks.pop()
        raised = self.take(e0, lambda x: x.kind == 'raise' and x.target is None and
                           any(self.catches(ts, x.val) for ts in types))
        if out is not None and n.orelse:
            out = self.block(n.orelse, out, fr)
        outs = [out]
        for h, ts in zip(n.handlers, types):
            hs = [x.st for x in raised if self.catches(ts, x.val)]
            raised = [x for x in raised if not self.catches(ts, x.val)]
            s2 = entry.copy()
            # values assigned in the body are uncertain in the handler
            which = BT
            if len(n.handlers) > 1:
                which = self.facts(T('exctype', f'{fr.mod.name}:{n.lineno}', tuple(ts),
                                     tuple(l.L for l in self.openloops)))
            s2.guard = band(entry.guard, exc, which)
            for k in {(fr.fid, x) for b in n.body for x in self.store_names(b)}:
                if k in s2.envs:
                    s2.envs[k] = phi(self.facts(T('partial', f'{fr.mod.name}:{n.lineno}')), T('unbound', k[1]),
                                     s2.envs[k]) if False else s2.envs[k]
            hst = self.merge([s2] + hs)
            if hst is None:
                continue
            if h.name:
                hst.envs[(fr.fid, h.name)] = T('excval', f'{fr.mod.name}:{h.lineno}', tuple(ts))
            self.emit('except', None, None, None, hst, h, fr, extra=tuple(ts))
            outs.append(self.block(h.body, hst, fr))
        res = self.merge(outs)
        if n.finalbody:
            if res is not None:
                res = self.block(n.finalbody, res, fr)
        return res

    s_TryStar = s_Try

    def store_names(self, b):
        return {x.id for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def handler_types(self, h, fr):
        if h.type is None:
            return ['BaseException']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split('.')[-1] for t in ts]

    def catches(self, ts, val):
        name = self.excname(val)
        if name is None:
            return True
        for t in ts:
            if t in ('BaseException', 'Exception') and not (t == 'Exception' and name in ('SystemExit',
                                                                                         'KeyboardInterrupt')):
                return True
            if t in self.exc_mro(name):
                return True
        return False

    def excname(self, val):
        if val.op in ('new', 'call', 'class', 'ext'):
            s = val.args[0]
            if val.op == 'new':
                s = self.newinfo.get(s, s)
            return str(s).split('.')[-1]
        return None

    def exc_mro(self, name):
        out = [name]
        for m in self.P.modules.values():
            if name in m.classes:
                for b in m.classes[name].bases:
                    out += self.exc_mro(ast.unparse(b).split('.')[-1])
        std = {'FatalError': ['RuntimeError'], 'FileNotFoundError': ['OSError'], 'PermissionError': ['OSError'],
               'KeyError': ['LookupError'], 'IndexError': ['LookupError'], 'UnicodeDecodeError': ['ValueError'],
               'JSONDecodeError': ['ValueError'], 'IOError': ['OSError']}
        for x in list(out):
            out += std.get(x, [])
        return out

    def s_FunctionDef(self, n, st, fr):
        st.envs[(fr.fid, n.name)] = self.mkfunc(n, fr.mod, fr, None, n.name)
        return st

    def s_ClassDef(self, n, st, fr):
        st.envs[(fr.fid, n.name)] = self.opaque('local class', n)
        return st

    def s_Match(self, n, st, fr):
        subj = self.ev(n.subject, st, fr)
        outs = []
        rest = st.guard
        for c in n.cases:
            b = self.pattern(c.pattern, subj, st, fr)
            s = st.copy()
            binds = []
            if b is None:
                b = self.facts(T('matchcase', f'{fr.mod.name}:{c.pattern.lineno}'))
            s.guard = band(rest, b)
            if s.guard is BF:
                continue
            for x in ast.walk(c.pattern):
                if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    s.envs[(fr.fid, x.name)] = subj if isinstance(x, ast.MatchAs) and x.pattern is None else \
                        self.opaque('match', n)
            if c.guard is not None:
                gg = self.truth(self.ev(c.guard, s, fr), s)
                b = band(b, gg)
                s.guard = band(s.guard, gg)
            rest = band(rest, bnot(b))
            if s.guard is not BF:
                outs.append(self.block(c.body, s, fr))
        s = st.copy()
        s.guard = rest
        outs.append(s)
        return self.merge(outs)

    def pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, st, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.eq(v, const(p.value))
        if isinstance(p, ast.MatchOr):
            rs = [self.pattern(x, v, st, fr) for x in p.patterns]
            return None if any(r is None for r in rs) else bor(*rs)
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            return BT
        return None

    # ====================================================== names
    def modterm(self, dotted):
        return T('mod', dotted)

    def dotted(self, d):
        """Resolve a dotted import target."""
        if d == PKG or d.startswith(PKG + '.'):
            rest = d[len(PKG) + 1:]
            if rest in self.P.modules:
                return T('mod', d)
            if '.' in rest:
                m, nm = rest.rsplit('.', 1)
                if m in self.P.modules:
                    return self.modattr(self.P.modules[m], nm)
            elif rest and '__init__' in self.P.modules:
                m = self.P.modules['__init__']
                if rest in m.funcs or rest in m.assigns or rest in m.classes:
                    return self.modattr(m, rest)
        return T('ext', d)

    def modattr(self, m, name):
        k = (m.name, name)
        if k in self.modcache:
            return self.modcache[k]
        r = None
        if name in m.funcs:
            r = self.mkfunc(m.funcs[name], m, None, None, name)
        elif name in m.classes:
            r = T('class', f'{m.name}.{name}')
        elif name in m.assigns:
            lst = m.assigns[name]
            if len(lst) == 1 and lst[0][1] is not None:
                self.modcache[k] = T('glob', f'{m.name}.{name}')
                r = self.eval_module_const(m, name, lst[0])
            else:
                r = T('glob', f'{m.name}.{name}')
        elif name in m.imports:
            r = self.dotted(m.imports[name])
        if r is not None:
            self.modcache[k] = r
        return r

    def eval_module_const(self, m, name, tv):
        tgt, val = tv
        fr = self.frame(None, m, None, None, '<module>')
        st = St({}, BT)
        sv = (self.root, self.cur, self.openloops, self.esc, self.discovery)
        # literal containers of module level are evaluated into the root event list
        self.cur = self.root
        saved_open = self.openloops
        self.openloops = []
        keep = self.root[:]
        try:
            if isinstance(val, (ast.List, ast.Set)):
                v = T('tuple', tuple(self.ev(e, st, fr) for e in val.elts))
            else:
                tmp = []
                self.cur = tmp
                v = self.ev(val, st, fr)
                if v.op == 'new':
                    self.root[0:0] = tmp
                    for e in tmp:
                        if isinstance(e, Event):
                            e.seq = 0
            if isinstance(tgt, (ast.Tuple, ast.List)):
                for i, e in enumerate(tgt.elts):
                    if isinstance(e, ast.Name) and e.id == name:
                        v = self.unpack(v, i, len(tgt.elts), st, fr, val)
        finally:
            self.cur = sv[1]
            self.openloops = saved_open
        return v

    def frame(self, node, mod, parent, cls, name):
        self.nfid += 1
        f = Frame(self.nfid, node, mod, parent, cls, name)
        if node is not None:
            f.localnames = self.locals_of(node)
        else:
            f.localnames = set()
        return f

    def locals_of(self, node):
        names = set()
        a = node.args
        for x in a.args + a.kwonlyargs + a.posonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        nl = set()
        body = node.body if isinstance(node.body, list) else [node.body]

        def rec(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                nl.update(n.names)
            if isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            for c in ast.iter_child_nodes(n):
                rec(c)
        for b in body:
            rec(b)
        return names - nl

    def name(self, nm, st, fr, n):
        f = fr
        while f is not None:
            if (f.fid, nm) in st.envs:
                return st.envs[(f.fid, nm)]
            f = f.parent
        v = self.modattr(fr.mod, nm)
        if v is not None:
            return v
        if nm in BUILTINS:
            return T('ext', 'builtins.' + nm)
        return self.opaque('name ' + nm, n)

    def mkfunc(self, node, mod, parent, cls, name):
        k = f'{mod.name}.{(cls + ".") if cls else ""}{name}@{node.lineno}:{node.col_offset}' + \
            (f'#{parent.fid}' if parent is not None else '')
        self.functab[k] = FuncInfo(node, mod, parent, cls, name)
        return T('func', k)

    # ====================================================== expressions
    def ev(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return self.opaque('expr ' + type(n).__name__, n)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        if n.value is Ellipsis:
            return T('const', '...')
        return const(n.value)

    def e_Name(self, n, st, fr):
        return self.name(n.id, st, fr, n)

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        st.envs[self.namekey(n.target.id, fr)] = v
        return v

    def e_Tuple(self, n, st, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fr)
                els = self.known_elems(v, st)
                if els is None:
                    return self.opaque('starred', n)
                out += els
            else:
                out.append(self.ev(e, st, fr))
        return T('tuple', tuple(out))

    def known_elems(self, v, st):
        if v.op == 'tuple':
            return list(v.args[0])
        if v.op == 'new':
            ins = self.contents(v)
            if ins is not None and all(not ch and e.kind == 'append' and implies(st.guard, band(self.ecanon(e)[1], c))
                                       for e, ch, c, sg in ins):
                return [self.canon(e.val) for e, *_ in ins]
        return None

    def e_List(self, n, st, fr):
        t = self.new('list', st, n, fr)
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.extend(t, self.ev(e.value, st, fr), st, n, fr)
            else:
                self.append(t, self.ev(e, st, fr), st, n, fr)
        return t

    def e_Set(self, n, st, fr):
        t = self.new('set', st, n, fr)
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.extend(t, self.ev(e.value, st, fr), st, n, fr)
            else:
                self.append(t, self.ev(e, st, fr), st, n, fr)
        return t

    def e_Dict(self, n, st, fr):
        t = self.new('dict', st, n, fr)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.update(t, self.ev(v, st, fr), st, n, fr)
            else:
                kk = self.ev(k, st, fr)
                vv = self.ev(v, st, fr)
                self.put(t, kk, vv, st, v, fr, init=True)
        return t

    def comp(self, n, st, fr, emitfn):
        """Run the generators of a comprehension; emitfn(state) at the innermost level."""
        saved = {}
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        for nm in names:
            saved[nm] = st.envs.get((fr.fid, nm))

        def level(i, s):
            if i == len(n.generators):
                emitfn(s)
                return s if s.guard is not BF else None
            g = n.generators[i]
            it = self.ev(g.iter, s, fr)
            hint = None
            fake = type('F', (), {})()
            fake.iter, fake.target, fake.body = g.iter, g.target, []
            hint = self.dict_hint_comp(g, n, fr)

            def body(s2, e, p):
                self.assign(g.target, e, s2, fr, n)
                skips = []
                for c in g.ifs:
                    b = self.truth(self.ev(c, s2, fr), s2)
                    if b is BT:
                        continue
                    sk = s2.copy()
                    sk.guard = band(s2.guard, bnot(b))
                    skips.append(sk)
                    s2.guard = band(s2.guard, b)
                    if s2.guard is BF:
                        break
                out = level(i + 1, s2) if s2.guard is not BF else None
                return self.merge([out] + skips)
            return self.iterate(it, s, fr, n, body, (), hint)
        out = level(0, st)
        if out is not None:
            st.envs = out.envs
            st.guard = out.guard
        else:
            st.guard = BF
        for nm in names:
            if saved[nm] is None:
                st.envs.pop((fr.fid, nm), None)
            else:
                st.envs[(fr.fid, nm)] = saved[nm]

    def dict_hint_comp(self, g, n, fr):
        fake = ast.For(target=g.target, iter=g.iter, body=[ast.Expr(value=n)], orelse=[])
        return self.dict_hint(fake, fr, None)

    def e_ListComp(self, n, st, fr):
        t = self.new('list', st, n, fr)
        self.comp(n, st, fr, lambda s: self.append(t, self.ev(n.elt, s, fr), s, n, fr))
        return t

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, fr):
        t = self.new('set', st, n, fr)
        self.comp(n, st, fr, lambda s: self.append(t, self.ev(n.elt, s, fr), s, n, fr))
        return t

    def e_DictComp(self, n, st, fr):
        t = self.new('dict', st, n, fr)

        def em(s):
            k = self.ev(n.key, s, fr)
            v = self.ev(n.value, s, fr)
            self.put(t, k, v, s, n, fr)
        self.comp(n, st, fr, em)
        return t

    def e_IfExp(self, n, st, fr):
        c = self.truth(self.ev(n.test, st, fr), st)
        return self.branch(c, lambda s: self.ev(n.body, s, fr), lambda s: self.ev(n.orelse, s, fr), st)

    def branch(self, c, f1, f2, st):
        s1 = st.copy()
        s1.guard = band(st.guard, c)
        s2 = st.copy()
        s2.guard = band(st.guard, bnot(c))
        v1 = f1(s1) if s1.guard is not BF and not tm.unsat(s1.guard) else None
        v2 = f2(s2) if s2.guard is not BF and not tm.unsat(s2.guard) else None
        outs = [s for s, v in ((s1, v1), (s2, v2)) if v is not None]
        m = self.merge(outs)
        if m is None:
            st.guard = BF
            return NONE
        st.envs, st.guard = m.envs, m.guard
        if v1 is None:
            return v2
        if v2 is None:
            return v1
        return phi(c, v1, v2)

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)

        def rec(i, s):
            v = self.ev(n.values[i], s, fr)
            if i == len(n.values) - 1:
                return v
            b = self.truth(v, s)
            cont = b if isand else bnot(b)
            if cont is BF:
                return v
            return self.branch(cont, lambda s2: rec(i + 1, s2), lambda s2: v, s)
        v = rec(0, st)
        return v

    def e_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return mkbool(bnot(self.truth(v, st)))
        if isinstance(n.op, ast.USub):
            if v.op == 'phi':
                return phi(v.args[0], neg(v.args[1]), neg(v.args[2]))
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if v.op == 'const' and isinstance(v.args[0], int):
            return const(~v.args[0])
        return T('inv', v)

    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.binop(n.op, a, b, st, n, fr)

    def isstr(self, t):
        return (t.op == 'const' and isinstance(t.args[0], str)) or t.op in ('cat', 'fmt') or \
            (t.op == 'call' and t.args[0] in STRCALLS) or \
            (t.op == 'phi' and (self.isstr(t.args[1]) or self.isstr(t.args[2])))

    def binop(self, op, a, b, st, n, fr):
        if a.op == 'const' and b.op == 'const':
            r = fold_bin(op, a.args[0], b.args[0])
            if r is not None:
                return r
        if isinstance(op, ast.Add):
            if self.isstr(a) or self.isstr(b):
                if a.op == 'phi' and not self.isstr(b):
                    pass
                return self.cat([a, b])
            if (a.op == 'tuple' and b.op == 'tuple'):
                return T('tuple', a.args[0] + b.args[0])
            if self.is_list(a) or self.is_list(b):
                t = self.new('list', st, n, fr, '+')
                self.extend(t, a, st, n, fr)
                self.extend(t, b, st, n, fr)
                return t
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.BitOr) and (self.is_dict(a) or self.is_dict(b)):
            t = self.new('dict', st, n, fr, '|')
            self.update(t, a, st, n, fr)
            self.update(t, b, st, n, fr)
            return t
        if isinstance(op, ast.Mod) and self.isstr(a):
            return T('fmt', '%', a, b)
        sym = type(op).__name__
        if sym in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = sorted((a, b), key=lambda t: t.id)
            return T('bin', sym, x, y)
        return T('bin', sym, a, b)

    def e_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        res = BT
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, st, fr)
            res = band(res, self.compare(op, left, right, st))
            left = right
        return mkbool(res)

    def compare(self, op, a, b, st):
        a, b = self.canon(a), self.canon(b)
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.eq_state(a, b, st)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return bnot(self.eq_state(a, b, st))
        if isinstance(op, ast.Lt):
            return self.lt(a, b)
        if isinstance(op, ast.Gt):
            return self.lt(b, a)
        if isinstance(op, ast.LtE):
            return bnot(self.lt(b, a))
        if isinstance(op, ast.GtE):
            return bnot(self.lt(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b, st)
        if isinstance(op, ast.NotIn):
            return bnot(self.contains(a, b, st))
        return self.facts(T('cmp', type(op).__name__, a, b))

    def eq_state(self, a, b, st):
        # comparison with empty literals
        for x, y in ((a, b), (b, a)):
            if y.op == 'new' and self.newinfo.get(y.args[0]) in ('dict', 'list', 'set') and x.op != 'new':
                ins = self.contents(y)
                if ins == []:
                    return bnot(self.truth(x, st))
        for x, y in ((a, b), (b, a)):
            if y is ZERO and x.op == 'call' and x.args[0] == 'len':
                return bnot(self.truth(x.args[1][0], st))
        return self.eq(a, b)

    def contains(self, k, c, st):
        c0 = c
        if c.op == 'phi':
            return bite(c.args[0], self.contains(k, c.args[1], st), self.contains(k, c.args[2], st))
        if k.op == 'phi':
            return bite(k.args[0], self.contains(k.args[1], c, st), self.contains(k.args[2], c, st))
        c = strip_perm(c)
        if c.op == 'keys':
            c = c.args[0]
        if c.op == 'values' or c.op == 'items':
            return self.facts(T('in', k, c))
        if c.op == 'new':
            kind = self.newinfo.get(c.args[0])
            if kind in ('list', 'set', 'tuple'):
                return self.list_contains(k, c, st)
            return self.walk(c, k, 'in', st)
        if c.op in ('idx', 'param', 'attr', 'mu', 'elem', 'pick'):
            if c.op == 'idx' and self.is_list_path(c):
                return self.list_contains(k, self.canon(c), st)
            return self.walk(c, k, 'in', st)
        return self.in_initial(k, c)

    def is_list_path(self, c):
        c = self.canon(c)
        res = [False]

        def rec(items):
            for it in items:
                if isinstance(it, LoopNode):
                    rec(it.items)
                elif it.kind == 'append' or (it.kind == 'fresh' and it.extra in ('list', 'set')):
                    o, _ = self.ecanon(it)
                    if o is c or self.match(o, c, set(it.loops), {}) is not BF:
                        res[0] = True
        rec(self.root)
        return res[0]

    def list_contains(self, k, c, st):
        ins = self.contents(c)
        if ins is None or any(e.kind != 'append' for e, *_ in ins):
            return self.facts(T('inlist', k, self.canon(c), T('s', self.seq)))
        res = BF
        for e, chain, cc, sg in ins:
            m = {a: b for a, b in sg.items() if a is not b}
            _, eg = self.ecanon(e)
            full = band(cc, replace(eg, m) if m else eg, self.eq(k, replace(e.val, m) if m else e.val))
            for l in reversed(chain):
                if l.L in sg:
                    if sg[l.L].op == 'Lk':
                        # iteration for a given key: it must be in the domain
                        full = band(full, self.contains(sg[l.L].args[1], replace(l.dom, m) if m else l.dom, St({}, BT)))
                    continue
                # injective element: membership of the domain
                if e.val is T('key', l.L):
                    inst = {l.L: T('Lk', l.L, k)}
                    full = band(replace(full, inst), self.in_initial(k, l.dom))
                elif e.val is T('elem', l.L):
                    inst = {l.L: T('Le', l.L, k)}
                    full = band(replace(full, inst), self.in_initial(k, l.dom))
                else:
                    full = band(l.entry, self.exists(l.L, constrain(full, l.entry), l))
            res = bor(res, constrain(full, st.guard) if not implies(st.guard, full) else BT)
        return res

    def e_Subscript(self, n, st, fr):
        o = self.ev(n.value, st, fr)
        if isinstance(n.slice, ast.Slice):
            a = self.ev(n.slice.lower, st, fr) if n.slice.lower else NONE
            b = self.ev(n.slice.upper, st, fr) if n.slice.upper else NONE
            c = self.ev(n.slice.step, st, fr) if n.slice.step else NONE
            if o.op == 'tuple' and all(x.op == 'const' for x in (a, b, c)):
                return T('tuple', o.args[0][a.args[0]:b.args[0]:c.args[0]])
            if o.op == 'const' and all(x.op == 'const' for x in (a, b, c)):
                return const(o.args[0][a.args[0]:b.args[0]:c.args[0]])
            if c.op == 'const' and c.args[0] == -1 and a is NONE and b is NONE:
                return T('perm', o, 'reversed', NONE, NONE)
            if a is NONE and b is NONE and c is NONE:
                return self.shallow(o, st, n, fr)
            return T('slice', o, a, b, c)
        k = self.ev(n.slice, st, fr)
        return self.index(o, k, st, fr, n)

    def index(self, o, k, st, fr, n):
        if o.op == 'phi':
            c = o.args[0]
            v1 = self.index(o.args[1], k, st, fr, n) if not tm.unsat(band(st.guard, c)) else None
            v2 = self.index(o.args[2], k, st, fr, n) if not tm.unsat(band(st.guard, bnot(c))) else None
            if v1 is None:
                return v2
            if v2 is None:
                return v1
            return phi(c, v1, v2)
        if k.op == 'phi':
            return phi(k.args[0], self.index(o, k.args[1], st, fr, n), self.index(o, k.args[2], st, fr, n))
        if o.op == 'tuple' and k.op == 'const' and isinstance(k.args[0], int):
            try:
                return o.args[0][k.args[0]]
            except IndexError:
                self.fail('IndexError', st, n)
                return self.opaque('index', n)
        if o.op == 'const' and k.op == 'const':
            try:
                return const(o.args[0][k.args[0]])
            except Exception:
                return self.opaque('index', n)
        if o.op in ('perm', 'aslist'):
            return T('pick', self.pickid(n), strip_perm(o), k) if o.op == 'perm' else self.index(o.args[0], k, st, fr, n)
        if o.op == 'new' and self.newinfo.get(o.args[0]) in ('list', 'tuple') and k.op == 'const' and \
                isinstance(k.args[0], int):
            els = self.known_elems(o, st)
            if els is not None:
                try:
                    return els[k.args[0]]
                except IndexError:
                    self.fail('IndexError', st, n)
                    return self.opaque('index', n)
            return T('pick', self.pickid(n), self.canon(o), k)
        if o.op == 'new' and self.newinfo.get(o.args[0]) == 'list':
            return T('pick', self.pickid(n), self.canon(o), k)
        if o.op in ('new', 'idx', 'param', 'attr', 'mu', 'elem', 'pick', 'glob', 'call', 'last', 'slice'):
            if self.is_default(o) is not None and self.contains(k, o, st) is not BT:
                return self.setdefault(o, k, self.is_default(o), st, fr, n)
            if o.op == 'param' and k.op == 'const':
                self.reads.append((o, k.args[0], st.guard, n, fr))
            v = self.walk(o, k, 'load', st)
            return self.drop_missing(v, st)
        return T('idx', o, k)

    def drop_missing(self, v, st):
        if v.op != 'phi':
            return v
        cs = tm.cases(v, st.guard)
        ok = [(g, t) for g, t in cs if t.op != 'missing']
        if len(ok) == len(cs) or not ok or len(cs) > 32:
            return v
        if len({t for _, t in ok}) == 1:
            return ok[0][1]
        r = ok[-1][1]
        for g, t in reversed(ok[:-1]):
            r = phi(constrain(g, st.guard), t, r)
        return r

    def is_default(self, o):
        if o.op == 'new' and self.newinfo.get(o.args[0]) == 'defaultdict':
            return self.defaults.get(o.args[0])
        return None

    def pickid(self, n):
        return f'{getattr(n, "lineno", 0)}:{getattr(n, "col_offset", 0)}/{self.cpid()}/' + \
            ','.join(str(l.L.args[0]) for l in self.openloops)

    def e_Attribute(self, n, st, fr):
        o = self.ev(n.value, st, fr)
        return self.getattr(o, n.attr, st, fr, n)

    def getattr(self, o, a, st, fr, n):
        if o.op == 'phi':
            return phi(o.args[0], self.getattr(o.args[1], a, st, fr, n), self.getattr(o.args[2], a, st, fr, n))
        if o.op == 'tuple' and len(o.args) == 2:
            if a in o.args[1]:
                return o.args[0][o.args[1].index(a)]
            return T('attr', o, a)
        if o.op == 'mod':
            d = o.args[0]
            if d == PKG or d.startswith(PKG + '.'):
                rest = d[len(PKG) + 1:]
                sub_ = (rest + '.' if rest else '') + a
                if sub_ in self.P.modules:
                    return T('mod', PKG + '.' + sub_)
                if rest in self.P.modules:
                    v = self.modattr(self.P.modules[rest], a)
                    if v is not None:
                        return v
                return self.opaque('modattr', n)
            return T('ext', d + '.' + a)
        if o.op == 'ext':
            return T('ext', o.args[0] + '.' + a)
        if o.op == 'class':
            f = self.class_attr(o.args[0], a, st, fr)
            return f if f is not None else T('attr', o, a)
        cls = self.cls_of(o, fr)
        if cls is not None:
            f = self.find_method(cls, a)
            if f is not None:
                node, mod, cname, deco = f
                if 'property' in deco or 'cached_property' in deco:
                    key = f'{mod.name}.{cname}.{a}'
                    if key not in self.stop and 'cached_property' not in deco:
                        v = self.walk(o, const('@' + a), 'load', st)
                        fn = self.mkfunc(node, mod, None, cname, a)
                        return self.call(T('bound', fn.args[0], o), [], {}, st, fr, n)
                elif 'staticmethod' in deco:
                    return self.mkfunc(node, mod, None, cname, a)
                else:
                    fn = self.mkfunc(node, mod, None, cname, a)
                    return T('bound', fn.args[0], o)
            v = self.walk(o, const('@' + a), 'load', st)
            if v.op in ('missing', 'attr'):
                ca = self.class_attr(cls, a, st, fr)
                if ca is not None:
                    return ca
            return v
        v = self.walk(o, const('@' + a), 'load', st)
        if v.op == 'missing':
            return T('attr', o, a)
        return v

    def cls_of(self, o, fr):
        if o in self.term_cls:
            return self.term_cls[o]
        if o.op == 'new':
            k = self.newinfo.get(o.args[0])
            if k and k.startswith('cls:'):
                return k[4:]
        return None

    def find_class(self, q):
        m, c = q.rsplit('.', 1)
        mod = self.P.modules.get(m)
        return (mod, mod.classes.get(c)) if mod else (None, None)

    def find_method(self, q, a):
        mod, c = self.find_class(q)
        if c is None:
            return None
        for x in c.body:
            if isinstance(x, ast.FunctionDef) and x.name == a:
                return x, mod, c.name, [ast.unparse(d).split('.')[-1] for d in x.decorator_list]
        for b in c.bases:
            if isinstance(b, ast.Name) and b.id in mod.classes:
                r = self.find_method(f'{mod.name}.{b.id}', a)
                if r:
                    return r
        return None

    def class_attr(self, q, a, st, fr):
        mod, c = self.find_class(q)
        if c is None:
            return None
        f = self.find_method(q, a)
        if f:
            return self.mkfunc(f[0], mod, None, c.name, a)
        for x in c.body:
            tgt = None
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                tgt = x.targets[0].id
            elif isinstance(x, ast.AnnAssign) and x.value is not None and isinstance(x.target, ast.Name):
                tgt = x.target.id
            if tgt == a:
                k = ('cls', q, a)
                if k not in self.modcache:
                    fr2 = self.frame(None, mod, None, None, c.name)
                    v = x.value
                    if isinstance(v, (ast.List, ast.Set)):
                        r = T('tuple', tuple(self.ev(e, St({}, BT), fr2) for e in v.elts))
                    elif isinstance(v, ast.Dict):
                        r = T('clsconst', q, a)
                    else:
                        tmp, sv = [], self.cur
                        self.cur = tmp
                        try:
                            r = self.ev(v, St({}, BT), fr2)
                        finally:
                            self.cur = sv
                    self.modcache[k] = r
                return self.modcache[k]
        return None

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st, fr)
                spec = ''
                if v.format_spec is not None:
                    spec = ast.unparse(v.format_spec)
                if x.op == 'const' and not spec and v.conversion == -1 and isinstance(x.args[0], (str, int)):
                    parts.append(const(str(x.args[0])))
                elif not spec and v.conversion in (-1, 115):
                    parts.append(T('str', x))
                else:
                    parts.append(T('fmt', x, spec, v.conversion))
        return self.cat(parts) if parts else const('')

    def e_Lambda(self, n, st, fr):
        return self.mkfunc(n, fr.mod, fr, None, '<lambda>')

    def e_Starred(self, n, st, fr):
        return T('star', self.ev(n.value, st, fr))

    def e_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        if fr.yieldfn is None:
            self.emit('yield', None, None, v, st, n, fr)
            return NONE
        out = fr.yieldfn(st.copy(), v)
        if out is None:
            st.guard = BF
        else:
            st.envs, st.guard = out.envs, out.guard
        return NONE

    def e_YieldFrom(self, n, st, fr):
        it = self.ev(n.value, st, fr)
        if fr.yieldfn is None:
            return self.opaque('yield from', n)
        out = self.iterate(it, st, fr, n, lambda s, e, p: fr.yieldfn(s, e))
        if out is None:
            st.guard = BF
        else:
            st.envs, st.guard = out.envs, out.guard
        return NONE

    def e_Await(self, n, st, fr):
        return self.opaque('await', n)

    # ====================================================== heap mutation
    def put(self, o, k, v, st, n, fr, init=False):
        if o.op == 'phi':
            for c, x in ((o.args[0], o.args[1]), (bnot(o.args[0]), o.args[2])):
                s2 = St(st.envs, band(st.guard, c))
                if s2.guard is not BF and not tm.unsat(s2.guard):
                    self.put(x, k, v, s2, n, fr)
            return
        if k.op == 'phi':
            for c, x in ((k.args[0], k.args[1]), (bnot(k.args[0]), k.args[2])):
                s2 = St(st.envs, band(st.guard, c))
                if s2.guard is not BF and not tm.unsat(s2.guard):
                    self.put(o, x, v, s2, n, fr)
            return
        if v.op == 'phi':
            # placing one of several objects: place each under its guard
            if any(t.op == 'new' for _, t in tm.cases(v, st.guard)) and len(tm.cases(v, st.guard)) <= 8:
                for c, x in ((v.args[0], v.args[1]), (bnot(v.args[0]), v.args[2])):
                    s2 = St(st.envs, band(st.guard, c))
                    if s2.guard is not BF and not tm.unsat(s2.guard):
                        self.put(o, k, x, s2, n, fr)
                return
        vv = self.canon(v)
        if vv.op == 'new' and vv.args[0] not in self.forward and not str(k.args[0] if k.op == 'const' else '').startswith('@'):
            oc = self.canon(o)
            path = self.mk_idx(oc, k)
            absent = init
            if not absent:
                pres = self.walk(o, k, 'in', st)
                absent = pres is BF or implies(st.guard, bnot(pres))
            if absent and not mentions(path, lambda x: x is vv) and self.loops_cover(path, vv):
                self.forward[vv.args[0]] = (vv.args[1], path, st.guard, None)
                self.fwdver += 1
        self.emit('put', o, k, v, st, n, fr)

    def loops_cover(self, path, new):
        """One object, one slot: the slot varies only with the loops the object is created in."""
        other = {l.L for l in self.openloops} - set(new.args[1])
        return not other or not mentions(path, lambda x: x in other)

    def append(self, o, v, st, n, fr):
        self.emit('append', o, None, v, st, n, fr)

    def extend(self, o, v, st, n, fr):
        if v.op in ('opaque',):
            self.emit('opaque', o, None, v, st, n, fr)
            return

        def body(s, e, p):
            self.append(o, e, s, n, fr)
            return s
        out = self.iterate(v, st.copy(), fr, n, body)
        if out is not None:
            st.envs, st.guard = out.envs, out.guard

    def update(self, o, v, st, n, fr):
        if v.op in ('opaque',):
            self.emit('opaque', o, None, v, st, n, fr)
            return

        def body(s, e, p):
            self.put(o, self.unpack(e, 0, 2, s, fr, n), self.unpack(e, 1, 2, s, fr, n), s, n, fr)
            return s
        src = v if v.op in ('items', 'perm', 'gen', 'tuple') or self.is_list(v) else T('items', v)
        out = self.iterate(src, st.copy(), fr, n, body)
        if out is not None:
            st.envs, st.guard = out.envs, out.guard

    def setdefault(self, o, k, mk, st, fr, n):
        pres = self.contains(k, o, st)
        s2 = st.copy()
        s2.guard = band(st.guard, bnot(pres))
        if s2.guard is not BF and not tm.unsat(s2.guard):
            v = mk(s2)
            self.put(o, k, v, s2, n, fr)
        r = self.walk(o, k, 'load', st)
        return self.drop_missing(self.canon(r), st)

    def shallow(self, o, st, n, fr):
        t = self.new(self.kind_of(o), st, n, fr, 'copy')
        self.emit('copyfrom', t, None, o, st, n, fr, extra='shallow')
        return t

    def kind_of(self, o):
        o = self.canon(o)
        if o.op == 'new':
            return self.newinfo.get(o.args[0], 'obj')
        if o.op in ('items', 'keys', 'values', 'tuple', 'perm', 'slice', 'range'):
            return 'list'
        return 'copy'

    def deep(self, o, st, n, fr):
        if o.op == 'phi':
            return phi(o.args[0], self.deep(o.args[1], st, n, fr), self.deep(o.args[2], st, n, fr))
        t = self.new('copy', st, n, fr, 'deep')
        if self.canon(o).op in ('param', 'idx'):
            self.deepsrc[t] = self.canon(o)
        self.emit('copyfrom', t, None, self.canon(o), st, n, fr, extra='deep')
        return t

    # ====================================================== calls
    def e_Call(self, n, st, fr):
        f = n.func
        # method calls on values
        recv = None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                fterm = self.opaque('super', n)
            else:
                o = self.ev(f.value, st, fr)
                if st.guard is BF:
                    return NONE
                if o.op in ('mod', 'ext', 'class') or self.cls_of(o, fr) is not None:
                    fterm = self.getattr(o, f.attr, st, fr, n)
                else:
                    recv = o
                    fterm = None
        else:
            fterm = self.ev(f, st, fr)
        args, kwargs = self.evargs(n, st, fr)
        if st.guard is BF:
            return NONE
        if recv is not None:
            return self.method(recv, f.attr, args, kwargs, st, fr, n)
        return self.call(fterm, args, kwargs, st, fr, n)

    def evargs(self, n, st, fr):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                els = self.known_elems(v, st)
                if els is None:
                    args.append(T('star', v))
                else:
                    args += els
            else:
                args.append(self.ev(a, st, fr))
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def qual(self, info):
        return f'{info.mod.name}.{(info.cls + ".") if info.cls else ""}{info.name}'

    def call_event(self, name, args, kwargs, st, node, fr, recv=None):
        val = T('args', tuple(args), tuple(sorted(kwargs.items(), key=lambda x: x[0])))
        return self.emit('call', None, const(name), val, st, node, fr, extra=recv)

    def call_term(self, name, args, kwargs):
        if kwargs:
            return T('call', name, tuple(args), tuple(sorted(kwargs.items(), key=lambda x: x[0])))
        return self.mk_call(name, tuple(args))

    def call(self, f, args, kwargs, st, fr, n):
        if f.op == 'phi':
            return self.branch(f.args[0], lambda s: self.call(f.args[1], args, kwargs, s, fr, n),
                               lambda s: self.call(f.args[2], args, kwargs, s, fr, n), st)
        if f.op == 'partial':
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(f.args[0], list(f.args[1]) + list(args), kw, st, fr, n)
        if f.op in ('func', 'bound'):
            info = self.functab[f.args[0]]
            if f.op == 'bound':
                args = [f.args[1]] + list(args)
            q = self.qual(info)
            if info.mod.name == 'log' and info.cls is None:
                self.call_event(q, args, kwargs, st, n, fr)
                if info.name == 'die':
                    self.esc.append(Escape('raise', None, st.copy(), T('ext', 'SystemExit'), n))
                    st.guard = BF
                return NONE
            if q in self.stop or self.callstack.count(info.node) >= 6 or len(self.callstack) > self.maxdepth:
                self.call_event(q, args, kwargs, st, n, fr)
                return self.call_term(q, args, kwargs)
            return self.inline(info, list(args), dict(kwargs), st, fr, n)
        if f.op == 'ntclass':
            return self.mk_nt(f.args[1], args, kwargs, n)
        if f.op == 'class':
            return self.instantiate(f.args[0], args, kwargs, st, fr, n)
        if f.op == 'ext':
            return self.external(f.args[0], args, kwargs, st, fr, n)
        if f.op == 'attr':
            return self.method(f.args[0], f.args[1], args, kwargs, st, fr, n)
        self.call_event('?', [f] + list(args), kwargs, st, n, fr)
        return self.opaque('call of unknown value', n)

    def instantiate(self, q, args, kwargs, st, fr, n):
        nt = self.namedtuple_fields(q)
        if nt is not None:
            return self.mk_nt(nt, args, kwargs, n)
        mod, c = self.find_class(q)
        if c is not None and q in self.inline_classes:
            t = self.new('cls:' + q, st, n, fr)
            m = self.find_method(q, '__init__')
            if m is not None:
                fn = self.mkfunc(m[0], m[1], None, m[2], '__init__')
                self.call(T('bound', fn.args[0], t), args, kwargs, st, fr, n)
            return t
        self.call_event(q, args, kwargs, st, n, fr)
        return self.call_term(q, args, kwargs)

    def namedtuple_fields(self, q):
        mod, c = self.find_class(q)
        if c is None or not any(ast.unparse(b).split('.')[-1] == 'NamedTuple' for b in c.bases):
            return None
        return tuple(x.target.id for x in c.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name))

    def mk_nt(self, fields, args, kwargs, n):
        if any(a.op == 'star' for a in args) or '**' in kwargs or len(args) + len(kwargs) != len(fields) or \
                any(k not in fields for k in kwargs):
            return self.opaque('namedtuple', n)
        vals = list(args) + [kwargs[k] for k in fields[len(args):] if k in kwargs]
        return T('tuple', tuple(vals), tuple(fields)) if len(vals) == len(fields) else self.opaque('namedtuple', n)

    def x_collections_namedtuple(self, args, kw, st, fr, n):
        if len(args) < 2 or kw:
            return NotImplemented
        f = args[1]
        if f.op == 'const' and isinstance(f.args[0], str):
            fs = f.args[0].replace(',', ' ').split()
        else:
            els = self.known_elems(f, st)
            if els is None or any(e.op != 'const' for e in els):
                return NotImplemented
            fs = [e.args[0] for e in els]
        return T('ntclass', args[0].args[0] if args[0].op == 'const' else '?', tuple(fs))

    def is_generator(self, node):
        if isinstance(node, ast.Lambda):
            return False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
            stack.extend(ast.iter_child_nodes(x))
        return False

    def inline(self, info, args, kwargs, st, fr, node, yieldfn=None):
        isgen = self.is_generator(info.node)
        if isgen and yieldfn is None:
            self.nopaque += 1
            gid = self.nopaque
            self.gens[gid] = (info, tuple(args), dict(kwargs))
            return T('gen', gid)
        fn = info.node
        f2 = self.frame(fn, info.mod, info.parent, info.cls, info.name)
        f2.yieldfn = yieldfn
        self.stats['calls_inlined'] += 1
        self.stats['functions'].add(self.qual(info))
        env = self.bind(fn, args, kwargs, st, info, node)
        for k, v in env.items():
            st.envs[(f2.fid, k)] = v
        e0 = len(self.esc)
        self.callstack.append(fn)
        sp = self.callpath
        self.callpath = sp + (f'{getattr(node, "lineno", 0)}c{getattr(node, "col_offset", 0)}',)
        rk = (f2.fid, '$ret')
        try:
            if isinstance(fn, ast.Lambda):
                v = self.ev(fn.body, st, f2)
                return v
            s = st.copy()
            out = self.block(fn.body, s, f2)
        finally:
            self.callstack.pop()
            self.callpath = sp
        rets = self.take(e0, lambda x: x.kind == 'return' and x.target is f2)
        states = []
        for x in rets:
            x.st.envs[rk] = x.val
            states.append(x.st)
        if out is not None and out.guard is not BF:
            out.envs[rk] = NONE
            states.append(out)
        m = self.merge(states)
        if m is None:
            st.guard = BF
            return NONE
        v = m.envs.pop(rk)
        hasclos = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for b in fn.body for x in ast.walk(b))
        st.envs = m.envs if hasclos else {k: t for k, t in m.envs.items() if k[0] != f2.fid}
        st.guard = m.guard
        return v

    def bind(self, fn, args, kwargs, st, info, node):
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        star = kwargs.pop('**', None)
        if any(x.op == 'star' for x in args):
            i = next(i for i, x in enumerate(args) if x.op == 'star')
            rest = args[i].args[0]
            args = args[:i]
            for j, p in enumerate(pos[i:]):
                env[p] = self.mk_idx(rest, const(j))
            if a.vararg and i >= len(pos):
                env[a.vararg.arg] = rest
        for p, v in zip(pos, args):
            env[p] = v
        if a.vararg and a.vararg.arg not in env:
            env[a.vararg.arg] = T('tuple', tuple(args[len(pos):]))
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwo:
                env[k] = v
            else:
                extra[k] = v
        f0 = self.frame(None, info.mod, info.parent, None, info.name)
        if star is not None:
            for p in pos + kwo:
                if p not in env:
                    env[p] = self.mk_idx(star, const(p))
        defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defs.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in pos + kwo:
            if p not in env:
                if p in defs:
                    env[p] = self.ev(defs[p], St(dict(st.envs), st.guard), f0 if info.parent is None else info.parent)
                else:
                    env[p] = self.opaque('unbound parameter ' + p, node)
        if a.kwarg:
            env[a.kwarg.arg] = star if star is not None else T('kw', tuple(sorted(extra.items())))
        return env

    # ------------------------------------------------------------ externals
    def external(self, name, args, kwargs, st, fr, n):
        short = name[9:] if name.startswith('builtins.') else name
        m = getattr(self, 'x_' + short.replace('.', '_'), None)
        if m is not None:
            r = m(args, kwargs, st, fr, n)
            if r is not NotImplemented:
                return r
        if name.startswith('builtins.') and short in EXCEPTIONS:
            return T('call', short, tuple(args))
        if not is_pure(short):
            self.call_event(short, args, kwargs, st, n, fr)
        return self.call_term(short, args, kwargs)

    def lift(self, fn, args):
        """Apply fn pointwise over phis of the arguments."""
        for i, a in enumerate(args):
            if a.op == 'phi':
                x = list(args)
                y = list(args)
                x[i], y[i] = a.args[1], a.args[2]
                return phi(a.args[0], self.lift(fn, x), self.lift(fn, y))
        return fn(*args)

    def x_len(self, args, kw, st, fr, n):
        x = args[0]
        while x.op in ('perm', 'aslist', 'keys', 'values', 'items'):
            x = x.args[0]
        els = self.known_elems(x, st)
        if els is not None:
            return const(len(els))
        if x.op == 'const' and isinstance(x.args[0], (str, bytes)):
            return const(len(x.args[0]))
        if x.op == 'new' and self.newinfo.get(x.args[0]) in ('list', 'dict', 'set', 'defaultdict'):
            return T('lenat', self.canon(x), T('s', self.seq))
        return T('call', 'len', (x,))

    def x_min(self, args, kw, st, fr, n):
        if kw or len(args) < 2:
            return self.call_term('min', args, kw) if len(args) == 1 and not kw else NotImplemented
        return self.lift(lambda *a: self.mk_minmax('min', a), args)

    def x_max(self, args, kw, st, fr, n):
        if kw or len(args) < 2:
            return NotImplemented
        return self.lift(lambda *a: self.mk_minmax('max', a), args)

    def x_int(self, args, kw, st, fr, n):
        if len(args) == 1:
            v = args[0]
            if v.op == 'const' and isinstance(v.args[0], (int, float)):
                return const(int(v.args[0]))
            if v.op == 'bool':
                return phi(v.args[0], const(1), ZERO)
            if v.op == 'const' and isinstance(v.args[0], str):
                try:
                    return const(int(v.args[0]))
                except ValueError:
                    self.fail('ValueError', st, n)
        return self.call_term('int', args, kw)

    def fail(self, name, st, n):
        """A constant operation that certainly raises: note the try statement that catches it."""
        site = None
        for t, types in reversed(self.trymarks):
            for ts in types:
                if any(x in ('Exception', 'BaseException') or x in self.exc_mro(name) for x in ts):
                    site = site or t
        self.fails.append((name, site, st.guard, n))

    def x_str(self, args, kw, st, fr, n):
        if len(args) != 1:
            return self.call_term('str', args, kw)
        return self.lift(lambda v: const(str(v.args[0])) if v.op == 'const' else self.cat([T('str', v)]) if v.op != 'cat' else v, args)

    def x_bool(self, args, kw, st, fr, n):
        return mkbool(self.truth(args[0], st)) if args else tm.FALSE_T

    def x_float(self, args, kw, st, fr, n):
        return args[0] if args else const(0.0)

    def x_sum(self, args, kw, st, fr, n):
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)
        key = (fr.fid, f'$sum{n.lineno}.{n.col_offset}')
        s = st.copy()
        s.envs[key] = start

        def body(s2, e, p):
            s2.envs[key] = add(s2.envs[key], e)
            return s2
        out = self.iterate(args[0], s, fr, n, body)
        if out is None or out.guard is BF:
            return self.opaque('sum', n)
        v = out.envs.pop(key)
        st.envs, st.guard = out.envs, out.guard
        return v

    def anyall(self, which, args, st, fr, n):
        key = (fr.fid, f'${which}{n.lineno}.{n.col_offset}')
        ctx = Ctx()
        s = st.copy()
        s.envs[key] = const(which == 'all')
        e0 = len(self.esc)

        def body(s2, e, p):
            c = self.truth(e, s2)
            hit = c if which == 'any' else bnot(c)
            h = s2.copy()
            h.guard = band(s2.guard, hit)
            if h.guard is not BF and not tm.unsat(h.guard):
                h.envs[key] = const(which == 'any')
                self.esc.append(Escape('break', ctx, h, None, n))
            s2.guard = band(s2.guard, bnot(hit))
            return s2 if s2.guard is not BF else None
        out = self.iterate(args[0], s, fr, n, body)
        brks = self.take(e0, lambda x: x.kind == 'break' and x.target is ctx)
        m = self.merge([out] + [x.st for x in brks])
        if m is None:
            st.guard = BF
            return NONE
        v = m.envs.pop(key)
        st.envs, st.guard = m.envs, m.guard
        return mkbool(self.truth0(v))

    def x_any(self, args, kw, st, fr, n):
        return self.anyall('any', args, st, fr, n)

    def x_all(self, args, kw, st, fr, n):
        return self.anyall('all', args, st, fr, n)

    def x_next(self, args, kw, st, fr, n):
        # first matching element
        if args[0].op == 'call' and args[0].args[0] == 'iter':
            return NotImplemented
        key = (fr.fid, f'$next{n.lineno}.{n.col_offset}')
        ctx = Ctx()
        s = st.copy()
        if len(args) > 1:
            s.envs[key] = args[1]
        else:
            s.envs[key] = T('unbound', 'next')
        e0 = len(self.esc)

        def body(s2, e, p):
            s2.envs[key] = e
            self.esc.append(Escape('break', ctx, s2.copy(), None, n))
            return None
        out = self.iterate(args[0], s, fr, n, body)
        brks = self.take(e0, lambda x: x.kind == 'break' and x.target is ctx)
        outs = [x.st for x in brks]
        if len(args) > 1:
            outs.append(out)
        m = self.merge(outs)
        if m is None:
            return self.opaque('next', n)
        v = m.envs.pop(key)
        st.envs, st.guard = m.envs, m.guard
        return v

    def sortkey(self, key, rev, dom, st, fr, n):
        """The sort key as a term over a bound element."""
        if key is None or key is NONE:
            k = T('skey', 'id')
        else:
            x = T('sortelem')
            s = st.copy()
            if self.elem_is_pair(dom):
                x = T('tuple', (T('sortelem_k'), T('sortelem_v')))
            sv, self.cur = self.cur, []
            e0 = len(self.esc)
            try:
                k = T('skey', 'by', self.call(key, [x], {}, s, fr, n))
            finally:
                self.cur = sv
                del self.esc[e0:]
        return k

    def elem_is_pair(self, dom):
        d = strip_perm(dom)
        return d.op == 'items'

    def x_sorted(self, args, kw, st, fr, n):
        k = self.sortkey(kw.get('key'), kw.get('reverse'), args[0], st, fr, n)
        rev = kw.get('reverse', tm.FALSE_T)
        return T('perm', args[0], 'sorted', k, rev)

    def x_reversed(self, args, kw, st, fr, n):
        return T('perm', args[0], 'reversed', NONE, NONE)

    def x_enumerate(self, args, kw, st, fr, n):
        return T('enum', args[0], args[1] if len(args) > 1 else kw.get('start', ZERO))

    def x_zip(self, args, kw, st, fr, n):
        return T('zip', tuple(args))

    def x_itertools_chain(self, args, kw, st, fr, n):
        return T('chain', tuple(args))

    def x_map(self, args, kw, st, fr, n):
        return T('mapf', args[0], args[1]) if len(args) == 2 else self.opaque('map', n)

    def x_filter(self, args, kw, st, fr, n):
        return T('filterf', args[0], args[1])

    def x_range(self, args, kw, st, fr, n):
        return T('range', *args)

    def x_list(self, args, kw, st, fr, n):
        if not args:
            return self.new('list', st, n, fr)
        x = args[0]
        if x.op in ('perm', 'items', 'keys', 'values', 'aslist', 'enum', 'tuple', 'range', 'mapf', 'filterf', 'zip') and \
                not self.mutated_name(n):
            return x if x.op in ('aslist', 'tuple') else T('aslist', x)
        if x.op == 'gen':
            t = self.new('list', st, n, fr)
            self.extend(t, x, st, n, fr)
            return t
        return self.shallow(x, st, n, fr)

    def mutated_name(self, n):
        return False

    def x_tuple(self, args, kw, st, fr, n):
        if not args:
            return T('tuple', ())
        els = self.known_elems(args[0], st)
        if els is not None:
            return T('tuple', tuple(els))
        return T('aslist', args[0])

    def x_set(self, args, kw, st, fr, n):
        t = self.new('set', st, n, fr)
        if args:
            self.extend(t, args[0], st, n, fr)
        return t

    x_frozenset = x_set

    def x_dict(self, args, kw, st, fr, n):
        if args and args[0].op in ('perm',) and strip_perm(args[0]).op == 'items':
            # dict(sorted(d.items(), ...)): the same mapping in another order
            t = self.new('dict', st, n, fr)

            def body(s, e, p):
                self.put(t, self.index(e, ZERO, s, fr, n), self.index(e, const(1), s, fr, n), s, n, fr)
                return s
            out = self.iterate(args[0], st.copy(), fr, n, body)
            if out is not None:
                st.envs, st.guard = out.envs, out.guard
            return t
        t = self.new('dict', st, n, fr)
        if args:
            if args[0].op == 'zip':
                self.update(t, args[0], st, n, fr)
            else:
                self.update(t, args[0], st, n, fr)
        for k, v in kw.items():
            if k == '**':
                self.update(t, v, st, n, fr)
            else:
                self.put(t, const(k), v, st, n, fr)
        return t

    def x_dict_fromkeys(self, args, kw, st, fr, n):
        t = self.new('dict', st, n, fr)
        v = args[1] if len(args) > 1 else NONE

        def body(s, e, p):
            self.put(t, e, v, s, n, fr)
            return s
        out = self.iterate(args[0], st.copy(), fr, n, body)
        if out is not None:
            st.envs, st.guard = out.envs, out.guard
        return t

    x_collections_OrderedDict_fromkeys = x_dict_fromkeys

    def x_collections_OrderedDict(self, args, kw, st, fr, n):
        return self.x_dict(args, kw, st, fr, n)

    def x_collections_defaultdict(self, args, kw, st, fr, n):
        t = self.new('defaultdict', st, n, fr)
        f = args[0] if args else None
        if f is not None and f is not NONE:
            def mk(s):
                return self.call(f, [], {}, s, fr, n)
            self.defaults[t.args[0]] = mk
        return t

    def x_copy_deepcopy(self, args, kw, st, fr, n):
        return self.deep(args[0], st, n, fr)

    def x_copy_copy(self, args, kw, st, fr, n):
        return self.shallow(args[0], st, n, fr)

    def x_isinstance(self, args, kw, st, fr, n):
        o, c = args
        names = []
        for x in (c.args[0] if c.op == 'tuple' else (c,)):
            names.append(str(x.args[0]).split('.')[-1] if x.op in ('ext', 'class') else '?')

        def one(o):
            if o.op == 'const' and not any(x == '?' for x in names):
                v = o.args[0]
                return mkbool(bconst(any(v.__class__.__name__ == nm or (nm == 'int' and isinstance(v, int)) for nm in names)))
            if o.op == 'new' and self.newinfo.get(o.args[0]) in ('dict', 'list', 'set') and not any(x == '?' for x in names):
                return mkbool(bconst(self.newinfo[o.args[0]] in names))
            return mkbool(self.facts(T('isinst', o, tuple(names))))
        return self.lift(one, [o])

    def x_getattr(self, args, kw, st, fr, n):
        if len(args) >= 2 and args[1].op == 'const':
            v = self.getattr(args[0], args[1].args[0], st, fr, n)
            return v
        return NotImplemented

    def x_hasattr(self, args, kw, st, fr, n):
        return mkbool(self.facts(T('hasattr', args[0], args[1])))

    def x_abs(self, args, kw, st, fr, n):
        if args[0].op == 'const':
            return const(abs(args[0].args[0]))
        return self.call_term('abs', args, kw)

    def x_functools_partial(self, args, kw, st, fr, n):
        return T('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))

    def x_operator_itemgetter(self, args, kw, st, fr, n):
        return T('partial', T('ext', 'verif.itemget'), tuple(args), ())

    def x_verif_itemget(self, args, kw, st, fr, n):
        ks, o = args[:-1], args[-1]
        vs = [self.index(o, k, st, fr, n) for k in ks]
        return vs[0] if len(vs) == 1 else T('tuple', tuple(vs))

    def x_sys_exit(self, args, kw, st, fr, n):
        self.call_event('sys.exit', args, kw, st, n, fr)
        self.esc.append(Escape('raise', None, st.copy(), T('ext', 'SystemExit'), n))
        st.guard = BF
        return NONE

    x_exit = x_quit = x_os__exit = x_sys_exit

    # ------------------------------------------------------------ methods
    def method(self, o, name, args, kw, st, fr, n):
        if o.op == 'phi':
            return self.branch(o.args[0], lambda s: self.method(o.args[1], name, args, kw, s, fr, n),
                               lambda s: self.method(o.args[2], name, args, kw, s, fr, n), st)
        if o.op in ('mod', 'ext', 'class') or self.cls_of(o, fr) is not None:
            return self.call(self.getattr(o, name, st, fr, n), args, kw, st, fr, n)
        m = getattr(self, 'm_' + name, None)
        if m is not None:
            r = m(o, args, kw, st, fr, n)
            if r is not NotImplemented:
                return r
        # attribute holding a callable (functions stored in objects)
        v = self.walk(o, const('@' + name), 'load', st) if o.op in ('new', 'param', 'attr', 'idx') else None
        if v is not None and v.op in ('func', 'bound', 'partial'):
            return self.call(v, args, kw, st, fr, n)
        if name not in PURE_METHODS:
            self.call_event('.' + name, [o] + list(args), kw, st, n, fr, recv=o)
            if name in MUTATORS:
                self.emit('opaque', self.canon(o), None, None, st, n, fr)
            return T('mcall', name, o, tuple(args), tuple(sorted(kw.items())))
        if all(a.op == 'const' for a in [o] + list(args)) and not kw:
            try:
                v = getattr(o.args[0], name)(*[a.args[0] for a in args])
                if isinstance(v, (str, int, bool, bytes)) or v is None:
                    return const(v)
            except Exception:
                pass
        return T('mcall', name, o, tuple(args), tuple(sorted(kw.items())))

    def m_items(self, o, args, kw, st, fr, n):
        return T('items', o) if o.op != 'permdict' else T('perm', T('items', o.args[0]), *o.args[1].args[1:])

    def m_keys(self, o, args, kw, st, fr, n):
        return T('keys', o) if o.op != 'permdict' else T('perm', T('keys', o.args[0]), *o.args[1].args[1:])

    def m_values(self, o, args, kw, st, fr, n):
        return T('values', o) if o.op != 'permdict' else T('perm', T('values', o.args[0]), *o.args[1].args[1:])

    def m_get(self, o, args, kw, st, fr, n):
        if o.op in ('call', 'mcall'):
            return NotImplemented
        k = args[0]
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        if o.op == 'param' and k.op == 'const':
            self.reads.append((o, k.args[0], st.guard, None, fr))
        c = self.contains(k, o, st)
        if c is BF or tm.unsat(band(st.guard, c)):
            return d
        s1 = St(st.envs, band(st.guard, c))
        v = self.drop_missing(self.walk(o, k, 'load', s1), s1)
        if c is BT:
            return v
        return phi(constrain(c, st.guard), v, d)

    def m_setdefault(self, o, args, kw, st, fr, n):
        d = args[1] if len(args) > 1 else NONE
        return self.setdefault(o, args[0], lambda s: d, st, fr, n)

    def m_pop(self, o, args, kw, st, fr, n):
        if (o.op == 'new' and self.newinfo.get(o.args[0]) == 'list') or not args or \
                (args[0].op == 'const' and isinstance(args[0].args[0], int)):
            k = args[0] if args else const(-1)
            els = self.known_elems(o, st)
            v = T('pick', self.pickid(n), self.canon(o), k)
            self.emit('popitem', self.canon(o), k, v, st, n, fr)
            return v
        k = args[0]
        v = self.drop_missing(self.walk(o, k, 'load', st), st)
        if len(args) > 1:
            c = self.contains(k, o, st)
            v = phi(constrain(c, st.guard), v, args[1])
        self.emit('del', o, k, None, st, n, fr)
        return v

    def m_update(self, o, args, kw, st, fr, n):
        if o.op == 'new' and self.newinfo.get(o.args[0]) == 'set':
            for a in args:
                self.extend(o, a, st, n, fr)
            return NONE
        for a in args:
            self.update(o, a, st, n, fr)
        for k, v in kw.items():
            if k == '**':
                self.update(o, v, st, n, fr)
            else:
                self.put(o, const(k), v, st, n, fr)
        return NONE

    def m_copy(self, o, args, kw, st, fr, n):
        return self.shallow(o, st, n, fr)

    def m_append(self, o, args, kw, st, fr, n):
        self.append(o, args[0], st, n, fr)
        return NONE

    def m_add(self, o, args, kw, st, fr, n):
        if len(args) != 1:
            return NotImplemented
        if o.op == 'new' or o.op in ('idx', 'mu', 'elem'):
            self.append(o, args[0], st, n, fr)
            return NONE
        return NotImplemented

    def m_extend(self, o, args, kw, st, fr, n):
        self.extend(o, args[0], st, n, fr)
        return NONE

    def m_insert(self, o, args, kw, st, fr, n):
        if len(args) != 2:
            return NotImplemented
        e = self.emit('append', o, None, args[1], st, n, fr, extra=('insert', args[0]))
        return NONE

    def m_sort(self, o, args, kw, st, fr, n):
        k = self.sortkey(kw.get('key'), None, o, st, fr, n)
        self.emit('sort', self.canon(o), k, kw.get('reverse', tm.FALSE_T), st, n, fr)
        return NONE

    def m_reverse(self, o, args, kw, st, fr, n):
        self.emit('sort', self.canon(o), T('skey', 'reversed'), tm.TRUE_T, st, n, fr)
        return NONE

    def m_clear(self, o, args, kw, st, fr, n):
        self.emit('fresh', self.canon(o), None, None, st, n, fr, extra=self.kind_of(o))
        return NONE

    def m_join(self, o, args, kw, st, fr, n):
        if len(args) != 1:
            return NotImplemented
        ks = self.known_elems(self.canon(args[0]), st)
        if ks is None:
            return NotImplemented
        parts = []
        for i, x in enumerate(ks):
            if i:
                parts.append(o)
            parts.append(x)
        return self.cat(parts)

    def m_startswith(self, o, args, kw, st, fr, n):
        if len(args) != 1:
            return NotImplemented
        return mkbool(self.strpred('swith', o, self.seq_const(args[0], st)))

    def m_endswith(self, o, args, kw, st, fr, n):
        if len(args) != 1:
            return NotImplemented
        return mkbool(self.strpred('ewith', o, self.seq_const(args[0], st)))

    def seq_const(self, t, st):
        els = self.known_elems(t, st)
        return T('tuple', tuple(els)) if els is not None else t

    # ====================================================== entry point
    def run(self, node, mod, args, cls=None, guard=BT):
        """Analyse function `node` with the given argument terms (name -> term)."""
        info = FuncInfo(node, mod, None, cls, node.name)
        st = St({}, guard)
        self.stats['functions'].add(self.qual(info))
        e0 = len(self.esc)
        yielded = []

        def yf(s, v):
            self.emit('yield', None, None, v, s, node, None)
            return s
        gen = self.is_generator(node)
        v = self.inline(info, [], dict(args), st, self.frame(None, mod, None, None, ''), node,
                        yieldfn=yf if gen else None)
        self.final = st
        self.raised = self.esc[e0:]
        return v

    # ====================================================== event listing
    def events(self, kinds=None):
        """Flat [(event, closed-loop chain)] in program order."""
        out = []

        def rec(items, chain):
            for it in items:
                if isinstance(it, LoopNode):
                    rec(it.items, chain + (it,))
                elif kinds is None or it.kind in kinds:
                    out.append((it, chain))
        rec(self.root, ())
        return out


BUILTINS = set(dir(__import__('builtins')))
EXCEPTIONS = {x for x in BUILTINS if isinstance(getattr(__import__('builtins'), x), type) and
              issubclass(getattr(__import__('builtins'), x), BaseException)}
STRCALLS = {'str', 'hex', 'repr', 'format', 'os.path.join', 'os.path.basename', 'os.path.dirname', 'json.dumps', 'chr',
            'rich.markup.escape'}
PURE_EXT = {'len', 'int', 'str', 'float', 'bool', 'hex', 'repr', 'format', 'abs', 'round', 'min', 'max', 'chr', 'ord',
            'bytes', 'iter', 'id', 'type', 'hash', 'divmod', 'pow', 'callable', 'slice', 'vars', 'locals', 'super',
            'fnmatch.fnmatch', 'fnmatch.fnmatchcase', 'json.dumps', 'struct.calcsize', 'struct.unpack',
            'struct.unpack_from', 'rich.markup.escape', 'rich.text.Text', 'rich.table.Table', 'rich.tree.Tree',
            'collections.namedtuple', 'struct.Struct', 'zip', 'bytearray', 'object'}
PURE_PREFIX = ('os.path.', 're.', 'posixpath.', 'ntpath.', 'math.', 'string.')
PURE_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines', 'join', 'replace',
                'format', 'index', 'find', 'rfind', 'count', 'isdigit', 'isidentifier', 'decode', 'encode', 'group',
                'groups', 'groupdict', 'match', 'search', 'fullmatch', 'partition', 'rpartition', 'title', 'isupper',
                'islower', 'ljust', 'rjust', 'zfill', 'hex', 'union', 'intersection', 'difference', 'issubset',
                'symmetric_difference', 'casefold', 'isalpha', 'isspace', 'start', 'end', 'span', '_asdict',
                'removeprefix', 'removesuffix', 'isalnum', 'capitalize', 'with_suffix', 'exists', 'is_file', 'is_dir',
                'joinpath', 'as_posix', 'resolve', 'absolute', 'bit_length', 'to_bytes', 'expandtabs', 'isdecimal',
                'isnumeric', 'get', '_replace', 'finditer', 'findall', 'sub'}
MUTATORS = {'remove', 'discard', 'popitem', 'difference_update', 'intersection_update', 'move_to_end', 'appendleft',
            'popleft', 'rotate'}


def is_pure(name):
    return name in PURE_EXT or name.startswith(PURE_PREFIX)


def fold_call(name, args):
    try:
        if name in ('hex', 'str', 'abs', 'len', 'int', 'ord', 'chr', 'round'):
            v = {'hex': hex, 'str': str, 'abs': abs, 'len': len, 'int': int, 'ord': ord, 'chr': chr, 'round': round}[name](*args)
            return const(v)
        if name == 'struct.calcsize' and isinstance(args[0], str):
            import struct
            return const(struct.calcsize(args[0]))
    except Exception:
        return None
    return None


def fold_bin(op, a, b):
    import operator
    ops = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'FloorDiv': operator.floordiv,
           'Mod': operator.mod, 'LShift': operator.lshift, 'RShift': operator.rshift, 'BitOr': operator.or_,
           'BitAnd': operator.and_, 'BitXor': operator.xor, 'Pow': operator.pow, 'Div': operator.truediv}
    f = ops.get(type(op).__name__)
    if f is None:
        return None
    try:
        if type(op).__name__ == 'Pow' and (not isinstance(b, int) or abs(b) > 128):
            return None
        v = f(a, b)
        if isinstance(v, (str, bytes)) and len(v) > 4096:
            return None
        return const(v)
    except Exception:
        return None


def strip_absent(g, ln):
    return g
