"""Rewrite conditions over lists that the analysed code builds into conditions over the data they are built from."""
import terms as tm
from sums import Ex, binder
from terms import BF, BT, B, T, Term, band, batom, bnot, bor, const, replace, subterms

_n = [0]


class Lists:
    def __init__(self, E):
        self.E = E
        self.memo = {}

    # ------------------------------------------------------------ contents
    def items(self, N):
        """[(val, keep, dom, elem)]: dom None - one element appended; else one per element of dom. None if not understood."""
        E = self.E
        try:
            ins = E.contents(N)
        except Exception:
            return None
        if not ins or any(e.kind != 'append' for e, *_ in ins):
            return None
        out = []
        base = None
        for e, chain, cc, sg in ins:
            m = {a: b for a, b in sg.items() if a is not b}
            free = [l for l in chain if l.L not in sg]
            if len(free) > 1 or cc is not BT or any(l.kind == 'while' or l.dom is None for l in free):
                return None
            g = E.ecanon(e)[1]
            g = replace(g, m) if m else g
            v = replace(e.val, m) if m else e.val
            if not free:
                out.append((v, g, None, None))
            else:
                l = free[0]
                d = strip(replace(l.dom, m) if m else l.dom)
                out.append((v, g, d, l.L))
        # conditions under which the list exists at all
        for o, g in self.fresh(N):
            base = g if base is None else bor(base, g)
        if base is not None:
            out = [(v, tm.constrain(g, base), d, L) for v, g, d, L in out]
        return out

    def fresh(self, N):
        E = self.E
        obj = E.canon(N)
        for e, ch in E.events(('fresh',)):
            o, eg = E.ecanon(e)
            sg = {}
            c = E.match(o, obj, {l.L for l in ch}, sg)
            if c is BF:
                continue
            m = {a: b for a, b in sg.items() if a is not b}
            yield o, replace(eg, m) if m else eg

    def some(self, its, body):
        """Some element satisfies body(elem term)."""
        res = BF
        for v, keep, d, L in its:
            if d is None:
                res = bor(res, band(keep, body(v)))
            else:
                def f(k, e, v=v, keep=keep, L=L):
                    mm = {T('elem', L): e, T('key', L): k}
                    return self.b(band(replace(keep, mm), body(replace(v, mm))))
                res = bor(res, self.exb(self.t(d), f))
        return res

    def exb(self, d, f):
        x = Ex(d, f)
        if x.args[1] is BF:
            return BF
        return batom(x)

    # ------------------------------------------------------------ rewriting
    def b(self, g):
        if not isinstance(g, B):
            return g
        return tm.bmap(g, self.atom)

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        r = self._atom(a)
        self.memo[a] = r
        return r

    def _atom(self, a):
        E = self.E
        if a.op == 'exists' and isinstance(a.args[0], Term) and a.args[0] in E.loops:
            ln = E.loops[a.args[0]]
            if ln.kind != 'while' and ln.dom is not None:
                L = a.args[0]
                return self.exb(self.t(strip(ln.dom)), lambda k, e: self.b(replace(a.args[1], {T('elem', L): e, T('key', L): k})))
        if a.op == 'ex':
            dom, body = a.args[0], a.args[1]
            n = level(a)
            its, lo = None, 0
            N = dom
            if dom.op == 'slice' and dom.args[1].op == 'const' and dom.args[2] is const(None):
                N, lo = dom.args[0], dom.args[1].args[0] or 0
            if built(N):
                its = self.items(N)
            if its is not None and isinstance(lo, int) and 0 <= lo <= len(its) and all(i[2] is None and i[1] is BT for i in its[:lo]):
                return self.some(its[lo:], lambda v: self.b(replace(body, {T('be', n): v})))
            return self.exb(self.t(dom), lambda k, e: self.b(replace(body, {T('bk', n): k, T('be', n): e})))
        if a.op in ('neg', 'zero', 'truthy', 'eq'):
            ls = {x for x in subterms(a) if x.op == 'lenat'}
            if a.op == 'neg' and len(ls) == 1 and a.args[0].op == 'aff' and len(a.args[0].args[1]) == 1:
                c, ((x, k),) = a.args[0].args
                if x.op == 'lenat' and k == -1:
                    r = self.longer(x.args[0], c)
                    if r is not None:
                        return r
                if x.op == 'lenat' and k == 1:
                    # len + c < 0  <=>  not len > -c - 1
                    r = self.longer(x.args[0], -c - 1)
                    if r is not None:
                        return bnot(r)
        n = self.t(a)
        return batom(n) if n is a else tm.atom_to_b(n)

    def longer(self, N, n):
        """len(N) > n"""
        its = self.items(N)
        if its is None:
            return None
        sure = [i for i in its if i[2] is None and i[1] is BT]
        rest = [i for i in its if not (i[2] is None and i[1] is BT)]
        if n < len(sure):
            return BT
        if n == len(sure):
            return self.some(rest, lambda v: BT)
        return None

    def t(self, x):
        if isinstance(x, tuple):
            return tuple(self.t(y) for y in x)
        if isinstance(x, B):
            return self.b(x)
        if not isinstance(x, Term) or not x.args or x.op in ('const', 'param', 'L'):
            return x
        if x in self.memo:
            return self.memo[x]
        if x.op in ('missing', 'idx') and len(x.args) == 2 and x.args[1].op == 'const' and isinstance(x.args[1].args[0], int) and x.args[1].args[0] >= 0 and built(x.args[0]):
            its = self.items(x.args[0])
            i = x.args[1].args[0]
            if its is not None and len(its) > i and all(j[2] is None and j[1] is BT for j in its[:i + 1]):
                return self.t(its[i][0])
        a = tuple(self.t(y) for y in x.args)
        if x.op == 'idx' and a[0].op == 'tuple' and a[1].op == 'const' and isinstance(a[1].args[0], int) and a[1].args[0] < len(a[0].args[0]):
            r = a[0].args[0][a[1].args[0]]
        else:
            r = x if all(p is q for p, q in zip(a, x.args)) else T(x.op, *a)
        self.memo[x] = r
        return r


def built(N):
    return any(y.op == 'new' for y in subterms(N))


def strip(d):
    while d is not None and d.op == 'perm':
        d = d.args[0]
    return d


def level(a):
    """The binder number of an ex/sum term: the one bound in its body at the outermost level."""
    ns = [x.args[0] for x in subterms(a.args[1]) if x.op in ('bk', 'be', 'bp')] if isinstance(a.args[1], (Term, B)) else []
    return max(ns, default=1)


# ---------------------------------------------------------------- comparing conditions with quantifiers
def opened(a, k, e):
    n = level(a)
    return replace(a.args[1], {T('bk', n): k, T('be', n): e})


_canon = {}


def canon(b):
    """Substitute equals (eq(param, t) implied by the condition), inside quantifiers too."""
    if not isinstance(b, B) or b.atom is None:
        return b
    r = _canon.get(b.id)
    if r is None:
        def atom(a):
            if a.op == 'ex':
                x = Ex(a.args[0], lambda k, e: canon(opened(a, k, e)))
                return BF if x.args[1] is BF else batom(x)
            return batom(a)
        r = tm.bmap(b, atom)
        for _ in range(4):
            done = True
            for a in sorted(tm.batoms(r), key=lambda t: t.id):
                if a.op != 'eq' or len(a.args) != 2:
                    continue
                for p, t in (a.args, a.args[::-1]):
                    if p.op == 'param' and not str(p.args[0]).startswith('§') and t.op != 'const' and p not in subterms(t) and tm.implies(r, batom(a)):
                        n = tm.constrain(r, batom(a))
                        n2 = replace(n, {t: p})
                        if n2 is not n:
                            r = band(batom(a), n2)
                            r = tm.bmap(r, atom)
                            done = False
                        break
                if not done:
                    break
            if done:
                break
        _canon[b.id] = r
    return r


def imp(x, y, depth=0):
    """x implies y, using monotonicity of quantifiers."""
    if tm.implies(x, y):
        return True
    if depth > 4:
        return False
    for a in tm.batoms(x):
        if a.op == 'eq' and len(a.args) == 2 and tm.implies(x, batom(a)):
            for p, t in (a.args, a.args[::-1]):
                if p.op == 'param' and t.op not in ('const', 'param') and p not in subterms(t):
                    y = replace(y, {t: p})
                    x = band(batom(a), replace(tm.constrain(x, batom(a)), {t: p}))
                    break
    ax = quant([*tm.batoms(x), *tm.batoms(y)], depth)
    return tm.unsat(band(x, bnot(y), ax))


def quant(atoms, depth):
    ex = [a for a in dict.fromkeys(atoms) if a.op == 'ex']
    out = BT
    k, e = T('param', f'§q{depth}'), T('param', f'§qe{depth}')
    for a in ex:
        for b in ex:
            if a is not b and a.args[0] is b.args[0] and imp(opened(a, k, e), opened(b, k, e), depth + 1):
                out = band(out, bor(bnot(batom(a)), batom(b)))
    return out


def equivalent(x, y, guard=BT):
    x, y = canon(band(x, guard)), canon(band(y, guard))
    return imp(x, y) and imp(y, x)
