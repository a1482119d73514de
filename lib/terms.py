"""Hash-consed value terms, affine normal form and guard BDDs.

Nothing in here runs code of the analysed project: terms are the nodes of the
value graph that lib/engine.py builds from the syntax tree.
"""

_intern = {}
_count = [0]


class Term:
    __slots__ = ('op', 'args', 'id', '_h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __reduce__(self):
        return (T, (self.op,) + self.args)


def _key(a):
    if isinstance(a, (Term, B)):
        return (0, id(a))
    if isinstance(a, tuple):
        return (2, tuple(_key(x) for x in a))
    return (1, type(a).__name__, a)


def T(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = _intern.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        _count[0] += 1
        t.id = _count[0]
        t._h = hash(k)
        _intern[k] = t
    return t


def const(v):
    return T('const', v)


NONE = None
TRUE_T = None
FALSE_T = None
ZERO = None


def is_const(t):
    return t.op == 'const'


# --------------------------------------------------------------------------
# BDDs (guards)
# --------------------------------------------------------------------------

class B:
    """Reduced ordered BDD node over atom terms."""
    __slots__ = ('atom', 'hi', 'lo', 'id')

    def __repr__(self):
        return show_b(self)

    def __reduce__(self):
        raise TypeError


_bintern = {}
_bcount = [0]
_ite_memo = {}
_atom_order = {}


def _mkb(atom, hi, lo):
    if hi is lo:
        return hi
    k = (atom, id(hi), id(lo))
    b = _bintern.get(k)
    if b is None:
        b = B.__new__(B)
        b.atom, b.hi, b.lo = atom, hi, lo
        _bcount[0] += 1
        b.id = _bcount[0]
        _bintern[k] = b
    return b


BT = B.__new__(B)
BT.atom = BT.hi = BT.lo = None
BT.id = -1
BF = B.__new__(B)
BF.atom = BF.hi = BF.lo = None
BF.id = -2


def _ord(b):
    return _atom_order[b.atom] if b.atom is not None else 1 << 60


def batom(t):
    if t not in _atom_order:
        _atom_order[t] = len(_atom_order)
    return _mkb(t, BT, BF)


def bite(c, a, b):
    if c is BT:
        return a
    if c is BF:
        return b
    if a is b:
        return a
    if a is BT and b is BF:
        return c
    k = (c.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    o = min(_ord(c), _ord(a), _ord(b))
    at = next(x.atom for x in (c, a, b) if _ord(x) == o)

    def cof(x, side):
        if _ord(x) == o:
            return x.hi if side else x.lo
        return x
    r = _mkb(at, bite(cof(c, 1), cof(a, 1), cof(b, 1)), bite(cof(c, 0), cof(a, 0), cof(b, 0)))
    _ite_memo[k] = r
    return r


def bnot(a):
    return bite(a, BF, BT)


def band(*xs):
    r = BT
    for x in xs:
        r = bite(r, x, BF)
    return r


def bor(*xs):
    r = BF
    for x in xs:
        r = bite(r, BT, x)
    return r


def bconst(v):
    return BT if v else BF


_con_memo = {}


def constrain(f, c):
    """Generalised cofactor: agrees with f wherever c holds."""
    if c is BF or f is BT or f is BF or c is BT:
        return f
    if f is c:
        return BT
    k = (f.id, c.id)
    r = _con_memo.get(k)
    if r is not None:
        return r
    of, oc = _ord(f), _ord(c)
    if oc < of:
        # restrict operator: drop the variable f does not depend on
        r = constrain(f, bor(c.hi, c.lo))
    elif of < oc:
        r = _mkb(f.atom, constrain(f.hi, c), constrain(f.lo, c))
    else:
        if c.hi is BF:
            r = constrain(f.lo, c.lo)
        elif c.lo is BF:
            r = constrain(f.hi, c.hi)
        else:
            r = _mkb(f.atom, constrain(f.hi, c.hi), constrain(f.lo, c.lo))
    _con_memo[k] = r
    return r


def batoms(b, acc=None):
    acc = {} if acc is None else acc
    seen = set()
    st = [b]
    while st:
        x = st.pop()
        if x.atom is None or x.id in seen:
            continue
        seen.add(x.id)
        acc[x.atom] = True
        st.append(x.hi)
        st.append(x.lo)
    return acc


def bmap(b, f, memo=None):
    """Rebuild b with every atom replaced by the BDD f(atom)."""
    memo = {} if memo is None else memo
    if b.atom is None:
        return b
    r = memo.get(b.id)
    if r is None:
        r = bite(f(b.atom), bmap(b.hi, f, memo), bmap(b.lo, f, memo))
        memo[b.id] = r
    return r


def axioms(*bs):
    """Theory facts relating the atoms occurring in the given BDDs."""
    atoms = {}
    for b in bs:
        batoms(b, atoms)
    out = BT
    al = list(atoms)
    byterm = {}
    for a in al:
        if a.op == 'eqc':           # eqc(t, const)
            byterm.setdefault(a.args[0], []).append(a)
    for t, eqs in byterm.items():
        for i, a in enumerate(eqs):
            for c in eqs[i + 1:]:
                out = band(out, bnot(band(batom(a), batom(c))))
            tt = T('truthy', t)
            if tt in atoms:
                lit = batom(tt) if a.args[1].args[0] else bnot(batom(tt))
                out = band(out, bor(bnot(batom(a)), lit))
            nn = T('isnone', t)
            if nn in atoms:
                out = band(out, bnot(band(batom(a), batom(nn))))
    for a in al:
        if a.op == 'isnone':
            tt = T('truthy', a.args[0])
            if tt in atoms:
                out = band(out, bnot(band(batom(a), batom(tt))))
        elif a.op == 'neg':        # neg(aff): aff < 0
            x = a.args[0]
            m = T('neg', neg(x))
            e = eq0_atom(x)
            if m in atoms:
                out = band(out, bnot(band(batom(a), batom(m))))
            if e in atoms:
                nz = bnot(batom(e)) if e.op == 'eq0' else batom(e)
                out = band(out, bor(bnot(batom(a)), nz))
                if m in atoms and m.id < a.id:
                    out = band(out, bor(bnot(nz), batom(a), batom(m)))
        elif a.op == 'exists':
            # witness satisfies the condition
            out = band(out, bor(bnot(batom(a)), a.args[1]))
        elif a.op == 'startswith_any':
            pass
    return out


def eq0_atom(x):
    x = canon_sign(x)
    if x.op != 'aff':
        return T('truthy', x)
    return T('eq0', x)


def implies(a, b):
    if a is BF or b is BT or a is b:
        return True
    if band(a, bnot(b)) is BF:
        return True
    ax = axioms(a, b)
    for _ in range(3):
        ax2 = axioms(a, b, ax)
        if ax2 is ax:
            break
        ax = ax2
    return band(a, ax, bnot(b)) is BF


def unsat(a):
    if a is BF:
        return True
    if a is BT:
        return False
    return band(a, axioms(a)) is BF


# --------------------------------------------------------------------------
# arithmetic
# --------------------------------------------------------------------------

def _isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def aff_parts(t):
    if t.op == 'const':
        v = t.args[0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float)):
            return v, ()
        return None
    if t.op == 'aff':
        return t.args[0], t.args[1]
    return 0, ((t, 1),)


def mk_aff(c, d):
    items = [(t, k) for t, k in d.items() if k]
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return T('aff', c, tuple(items))


def add(a, b, sign=1):
    pa, pb = aff_parts(a), aff_parts(b)
    if pa is None or pb is None:
        return T('bin', '+' if sign == 1 else '-', a, b)
    d = dict(pa[1])
    for t, k in pb[1]:
        d[t] = d.get(t, 0) + sign * k
    return mk_aff(pa[0] + sign * pb[0], d)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    p = aff_parts(a)
    if p is None:
        return T('neg1', a)
    return mk_aff(-p[0], {t: -k for t, k in p[1]})


def canon_sign(x):
    if x.op == 'aff':
        items = x.args[1]
        if items[0][1] < 0:
            return neg(x)
    return x


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'const' and _isnum(x.args[0]):
            p = aff_parts(y)
            if p is not None:
                k = x.args[0]
                return mk_aff(p[0] * k, {t: c * k for t, c in p[1]})
    if a.op in ('mul',) or b.op in ('mul',):
        fs = []
        for x in (a, b):
            fs += list(x.args) if x.op == 'mul' else [x]
        fs.sort(key=lambda t: t.id)
        return T('mul', *fs)
    fs = sorted((a, b), key=lambda t: t.id)
    return T('mul', *fs)


def div(a, b):
    # keep a/b*100 canonical: (k*x)/y == k*(x/y)
    if b.op == 'const' and _isnum(b.args[0]) and b.args[0] and a.op == 'const' and _isnum(a.args[0]):
        return const(a.args[0] / b.args[0])
    if a.op == 'aff' and len(a.args[1]) == 1 and a.args[0] == 0 and a.args[1][0][1] != 1:
        t, k = a.args[1][0]
        return mul(const(k), T('div', t, b))
    return T('div', a, b)


# --------------------------------------------------------------------------
# phi
# --------------------------------------------------------------------------

def phi(c, a, b):
    if c is BT:
        return a
    if c is BF:
        return b
    if a is b:
        return a
    if a.op == 'phi' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'phi' and b.args[0] is c:
        b = b.args[2]
    if b.op == 'phi' and b.args[1] is a:
        return phi(bor(c, b.args[0]), a, b.args[2])
    if b.op == 'phi' and b.args[2] is a:
        return phi(band(bnot(c), b.args[0]), b.args[1], a)
    if a.op == 'phi' and a.args[2] is b:
        return phi(band(c, a.args[0]), a.args[1], b)
    if a.op == 'phi' and a.args[1] is b:
        return phi(band(c, bnot(a.args[0])), a.args[2], b)
    if a is b:
        return a
    return T('phi', c, a, b)


MAXCASES = 256


def cases(t, assume=BT):
    """Split t on every phi inside it. Returns [(bdd, phi-free term)]."""
    out = []
    _cases(t, assume, out)
    return out


def find_phi(t, seen=None):
    """Innermost-first: find a phi node in t whose condition has no nested phi."""
    seen = set() if seen is None else seen
    if not isinstance(t, Term) or t.id in seen:
        return None
    seen.add(t.id)
    if t.op == 'phi':
        return t
    if t.op in ('const', 'key', 'elem', 'param', 'mu', 'sum', 'new', 'func', 'last'):
        return None
    for a in t.args:
        r = None
        if isinstance(a, Term):
            r = find_phi(a, seen)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, Term):
                    r = find_phi(x, seen)
                elif isinstance(x, tuple) and x and isinstance(x[0], Term):
                    r = find_phi(x[0], seen)
                if r is not None:
                    break
        if r is not None:
            return r
    return None


def _cases(t, assume, out):
    if len(out) > MAXCASES:
        return
    p = find_phi(t)
    if p is None:
        out.append((assume, t))
        return
    c = p.args[0]
    for cond, val in ((c, p.args[1]), (bnot(c), p.args[2])):
        g = band(assume, cond)
        if unsat(g):
            continue
        _cases(replace(t, {p: val}), g, out)


# --------------------------------------------------------------------------
# traversal / substitution
# --------------------------------------------------------------------------

def rebuild(op, args):
    """Re-normalising constructor used by substitution."""
    if op == 'aff':
        acc = const(args[0])
        for t, k in args[1]:
            acc = add(acc, mul(const(k), t))
        return acc
    if op == 'mul':
        acc = args[0]
        for x in args[1:]:
            acc = mul(acc, x)
        return acc
    if op == 'div':
        return div(*args)
    if op == 'phi':
        return phi(*args)
    h = REBUILD.get(op)
    if h is not None:
        return h(*args)
    return T(op, *args)


REBUILD = {}      # op -> constructor (engine registers cmp/idx/...)
ATOMFIX = [None]  # engine hook: atom term -> BDD


def atom_to_b(t):
    """BDD for a (possibly re-simplified) atom term."""
    if ATOMFIX[0] is not None:
        return ATOMFIX[0](t)
    return batom(t)


def replace(t, m, memo=None):
    """Substitute terms by terms (m: Term -> Term), re-normalising."""
    memo = {} if memo is None else memo
    return _replace(t, m, memo)


def _replace(t, m, memo):
    if isinstance(t, B):
        if t.atom is None:
            return t
        k = ('b', t.id)
        r = memo.get(k)
        if r is None:
            na = _replace(t.atom, m, memo)
            cb = batom(t.atom) if na is t.atom else atom_to_b(na)
            r = bite(cb, _replace(t.hi, m, memo), _replace(t.lo, m, memo))
            memo[k] = r
        return r
    if isinstance(t, tuple):
        n = tuple(_replace(x, m, memo) for x in t)
        return t if all(a is b for a, b in zip(n, t)) else n
    if not isinstance(t, Term):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op in ('const', 'param'):
        memo[t] = t
        return t
    changed = False
    na = []
    for a in t.args:
        x = _replace(a, m, memo) if isinstance(a, (Term, B, tuple)) else a
        if x is not a:
            changed = True
        na.append(x)
    r = rebuild(t.op, na) if changed else t
    memo[t] = r
    return r


def subterms(t, acc=None):
    """All Terms reachable from t (through guards too)."""
    acc = {} if acc is None else acc
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in acc:
                continue
            acc[x] = True
            st.extend(a for a in x.args if isinstance(a, (Term, B, tuple)))
        elif isinstance(x, B):
            for a in batoms(x):
                st.append(a)
        elif isinstance(x, tuple):
            st.extend(a for a in x if isinstance(a, (Term, B, tuple)))
    return acc


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


OPAQUE_OPS = ('opaque', 'missing', 'last')


def is_opaque(t):
    return mentions(t, lambda x: x.op in OPAQUE_OPS)


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------

LOOPNAME = {}


def show(t, d=0):
    if isinstance(t, B):
        return show_b(t)
    if not isinstance(t, Term):
        return repr(t)
    if d > 14:
        return '…'
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.args
    if op == 'const':
        return repr(a[0])
    if op == 'param':
        return str(a[0])
    if op == 'idx':
        return f'{s(a[0])}[{s(a[1])}]'
    if op == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if op == 'key':
        return f'key#{a[0]}'
    if op == 'elem':
        return f'elem#{a[0]}'
    if op == 'aff':
        parts = []
        for x, k in a[1]:
            parts.append(('- ' if k < 0 else '+ ') + (f'{abs(k)}*' if abs(k) != 1 else '') + s(x))
        r = ' '.join(parts)
        if r.startswith('+ '):
            r = r[2:]
        if a[0]:
            r += f' + {a[0]}'
        return f'({r})'
    if op == 'phi':
        return f'({s(a[1])} if {show_b(a[0])} else {s(a[2])})'
    if op == 'div':
        return f'({s(a[0])} / {s(a[1])})'
    if op == 'mul':
        return '(' + ' * '.join(s(x) for x in a) + ')'
    if op == 'new':
        return f'new@{a[0]}'
    if op == 'in':
        return f'{s(a[0])} in {s(a[1])}'
    if op == 'eqc':
        return f'{s(a[0])} == {s(a[1])}'
    if op == 'eq':
        return f'{s(a[0])} == {s(a[1])}'
    if op == 'truthy':
        return s(a[0])
    if op == 'neg':
        return f'{s(a[0])} < 0'
    if op == 'eq0':
        return f'{s(a[0])} == 0'
    if op == 'isnone':
        return f'{s(a[0])} is None'
    if op == 'call':
        return f'{a[0]}(' + ', '.join(s(x) for x in a[1]) + ')'
    parts = []
    for x in a:
        if isinstance(x, tuple):
            parts.append('(' + ','.join(s(y) for y in x) + ')')
        else:
            parts.append(s(x))
    return f'{op}(' + ', '.join(parts) + ')'


def show_b(b, limit=8):
    if b is BT:
        return 'True'
    if b is BF:
        return 'False'
    paths = []

    def rec(x, lits):
        if len(paths) > limit:
            return
        if x is BT:
            paths.append(lits)
        elif x is not BF:
            rec(x.hi, lits + [show(x.atom, 6)])
            rec(x.lo, lits + ['not ' + show(x.atom, 6)])
    rec(b, [])
    return ' or '.join('(' + ' and '.join(p) + ')' if len(p) > 1 else (p[0] if p else 'True') for p in paths[:limit])


NONE = const(None)
TRUE_T = const(True)
FALSE_T = const(False)
ZERO = const(0)
