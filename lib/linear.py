"""Emptiness of a condition over linear integer (in)equalities: a polyhedral domain with Fourier-Motzkin elimination."""
from fractions import Fraction

import terms as tm
from terms import BF, BT, band, bnot

MAXPATHS = 4000
MAXROWS = 400


def paths(b, lits=()):
    """All ways to make the condition true, as lists of (atom, polarity)."""
    out = []
    st = [(b, lits)]
    while st:
        x, ls = st.pop()
        if x is BF:
            continue
        if x is BT:
            out.append(ls)
            if len(out) > MAXPATHS:
                return None
            continue
        st.append((x.hi, ls + ((x.atom, True),)))
        st.append((x.lo, ls + ((x.atom, False),)))
    return out


def row(t):
    p = tm.aff_parts(t)
    if p is None:
        return None
    return ({x: Fraction(k) for x, k in p[1]}, Fraction(p[0]))


def rows_of(lits):
    """Rows r meaning sum + const <= 0; None for a contradiction."""
    out = []
    for a, pol in lits:
        if a.op == 'neg':
            r = row(a.args[0])
            if r is None:
                continue
            c, k = r
            if pol:
                out.append((c, k + 1))
            else:
                out.append(({x: -v for x, v in c.items()}, -k))
        elif a.op == 'eq0' and pol:
            r = row(a.args[0])
            if r is None:
                continue
            c, k = r
            out.append((c, k))
            out.append(({x: -v for x, v in c.items()}, -k))
        elif a.op == 'eq' and pol and not any(x.op == 'const' and not isinstance(x.args[0], int) for x in a.args):
            r, q = row(a.args[0]), row(a.args[1])
            if r is None or q is None:
                continue
            c = dict(r[0])
            for x, v in q[0].items():
                c[x] = c.get(x, 0) - v
            c = {x: v for x, v in c.items() if v}
            k = r[1] - q[1]
            out.append((c, k))
            out.append(({x: -v for x, v in c.items()}, -k))
        elif a.op == 'truthy' and not pol and a.args[0].op == 'idx':
            out.append(({a.args[0]: Fraction(1)}, Fraction(0)))
            out.append(({a.args[0]: Fraction(-1)}, Fraction(0)))
    return out


def empty(rows):
    """No rational solution (after the integer tightening of strict rows)."""
    rows = [(dict(c), k) for c, k in rows]
    while True:
        for c, k in rows:
            if not c and k > 0:
                return True
        vs = {}
        for c, _ in rows:
            for x in c:
                vs[x] = vs.get(x, 0) + 1
        if not vs:
            return False
        best = None
        for x in vs:
            p = sum(1 for c, _ in rows if c.get(x, 0) > 0)
            n = sum(1 for c, _ in rows if c.get(x, 0) < 0)
            if best is None or p * n - p - n < best[0]:
                best = (p * n - p - n, x)
        x = best[1]
        pos = [(c, k) for c, k in rows if c.get(x, 0) > 0]
        neg = [(c, k) for c, k in rows if c.get(x, 0) < 0]
        rest = [(c, k) for c, k in rows if not c.get(x)]
        seen = {(tuple(sorted(((y.id, v) for y, v in c.items()))), k) for c, k in rest}
        for c1, k1 in pos:
            for c2, k2 in neg:
                a, b = -c2[x], c1[x]
                c = {}
                for y, v in c1.items():
                    c[y] = c.get(y, 0) + a * v
                for y, v in c2.items():
                    c[y] = c.get(y, 0) + b * v
                c = {y: v for y, v in c.items() if v}
                k = a * k1 + b * k2
                key = (tuple(sorted((y.id, v) for y, v in c.items())), k)
                if key not in seen:
                    seen.add(key)
                    rest.append((c, k))
        if len(rest) > MAXROWS:
            return False
        rows = rest


def unsat(b):
    """Sound: True only if no integer assignment satisfies the condition."""
    if b is BF or tm.unsat(b):
        return True
    # the condition x != 0 splits
    ps = paths(b)
    if ps is None:
        return False
    for ls in ps:
        stack = [ls]
        for a, pol in ls:
            if a.op == 'eq0' and not pol:
                lt = (tm.T('neg', a.args[0]), True)
                gt = (tm.T('neg', tm.neg(a.args[0])), True)
                stack = [s + (x,) for s in stack for x in (lt, gt)]
        for s in stack:
            if not empty(rows_of(s)):
                return False
    return True


def implies(a, b):
    return unsat(band(a, bnot(b)))


def equal(x, y, g):
    """x == y whenever g holds."""
    for c, u in tm.cases(x, g):
        for c2, v in tm.cases(y, c):
            if u is v:
                continue
            d = tm.sub(u, v)
            if tm.aff_parts(d) is None:
                if unsat(c2):
                    continue
                return False
            for z in (d, tm.neg(d)):
                if not empty_with(c2, z):
                    return False
    return True


def empty_with(g, z):
    ps = paths(g)
    if ps is None:
        return False
    lit = (tm.T('neg', z), True)
    if not tm.aff_parts(z)[1]:
        if tm.aff_parts(z)[0] >= 0:
            return True
    for ls in ps:
        if not unsat_lits(ls + (lit,)):
            return False
    return True


def unsat_lits(ls):
    b = BT
    stack = [ls]
    for a, pol in ls:
        if a.op == 'eq0' and not pol:
            stack = [s + (x,) for s in stack for x in ((tm.T('neg', a.args[0]), True), (tm.T('neg', tm.neg(a.args[0])), True))]
    return all(empty(rows_of(s)) for s in stack)


PLAINOPS = {'param', 'const', 'attr', 'idx', 'aff', 'call', 'neg', 'eq0', 'eq', 'truthy', 'isnone', 'tuple', 'cat', 'str', 'lt', 'mul', 'eqc', 'hasattr'}


def plain(t):
    return all(not isinstance(x, tm.Term) or x.op in PLAINOPS and not (x.op == 'call' and x.args[0] != 'hasattr')
               for x in tm.subterms(t))


def solve(rows):
    """An integer point of the rows, or None (not found)."""
    rows = [(dict(c), k) for c, k in rows]
    steps = []
    while True:
        if any(not c and k > 0 for c, k in rows):
            return None
        vs = {x for c, _ in rows for x in c}
        if not vs:
            break
        x = min(vs, key=lambda v: (sum(1 for c, _ in rows if c.get(v, 0) > 0) * sum(1 for c, _ in rows if c.get(v, 0) < 0), v.id))
        pos = [(c, k) for c, k in rows if c.get(x, 0) > 0]
        neg = [(c, k) for c, k in rows if c.get(x, 0) < 0]
        steps.append((x, pos, neg))
        rest = [(c, k) for c, k in rows if not c.get(x)]
        for c1, k1 in pos:
            for c2, k2 in neg:
                a, b = -c2[x], c1[x]
                c = {}
                for y, v in c1.items():
                    c[y] = c.get(y, 0) + a * v
                for y, v in c2.items():
                    c[y] = c.get(y, 0) + b * v
                c = {y: v for y, v in c.items() if v}
                if (c, a * k1 + b * k2) not in rest:
                    rest.append((c, a * k1 + b * k2))
        if len(rest) > MAXROWS:
            return None
        rows = rest
    m = {}
    for x, pos, neg in reversed(steps):
        val = lambda c, k: (k + sum(v * m.get(y, 0) for y, v in c.items() if y is not x))
        lo = [-(val(c, k)) / c[x] for c, k in neg]
        hi = [-(val(c, k)) / c[x] for c, k in pos]
        if lo:
            v = max(lo)
            v = -((-v.numerator) // v.denominator) if isinstance(v, Fraction) else v
        elif hi:
            v = min(hi)
            v = v.numerator // v.denominator if isinstance(v, Fraction) else v
        else:
            v = 0
        if hi and v > min(hi):
            return None
        m[x] = v
    return m


def witness(b, limit=300):
    """An assignment of the leaves satisfying the condition; None if not found."""
    if b is BF or tm.unsat(b):
        return None
    if not all(plain(a) for a in tm.batoms(b)):
        return None
    ps = paths(b)
    if ps is None:
        return None
    for ls in ps[:limit]:
        num = {x for a, pol in ls if a.op in ('neg', 'eq0') for x in tm.subterms(a.args[0])}
        stack = [ls]
        bad = False
        eqs = {}
        for a, pol in ls:
            if a.op == 'eq0' and not pol:
                stack = [s + (x,) for s in stack for x in ((tm.T('neg', a.args[0]), True), (tm.T('neg', tm.neg(a.args[0])), True))]
            elif a.op == 'truthy' and pol:
                if a.args[0] in num:
                    stack = [s + ((tm.T('neg', tm.neg(a.args[0])), True),) for s in stack]
            elif a.op == 'truthy' and a.args[0] in num:
                stack = [s + ((tm.T('eq0', a.args[0]), True),) for s in stack]
            elif a.op == 'isnone' and pol and (a.args[0] in num or (tm.T('truthy', a.args[0]), True) in ls):
                bad = True
            elif a.op in ('eq', 'eqc'):
                x, y = a.args
                if not isinstance(y, tm.Term):
                    y = tm.const(y)
                if y.op != 'const':
                    x, y = y, x
                if y.op == 'const' and pol:
                    if eqs.setdefault(x, y) is not y:
                        bad = True
                elif y.op != 'const' and not pol:
                    d = tm.sub(x, y)
                    if x in num or y in num:
                        stack = [s + (z,) for s in stack for z in ((tm.T('neg', d), True), (tm.T('neg', tm.neg(d)), True))]
            elif a.op == 'lt':
                bad = True
        for a, pol in ls:
            if a.op in ('eq', 'eqc') and not pol:
                x, y = a.args
                if not isinstance(y, tm.Term):
                    y = tm.const(y)
                if eqs.get(x) is y or eqs.get(y) is x:
                    bad = True
        if bad:
            continue
        for s in stack:
            m = solve(rows_of(s))
            if m is not None:
                out = {tm.show(x)[:60]: int(v) for x, v in m.items()}
                out.update({tm.show(x)[:60]: y.args[0] for x, y in eqs.items() if x not in m})
                return out
    return None


def never(u, v):
    """Two texts that differ whatever the leaves are."""
    def parts(t):
        return list(t.args[0]) if t.op == 'cat' and isinstance(t.args[0], tuple) else list(t.args) if t.op == 'cat' else [t]
    a, b = parts(u), parts(v)
    if u.op != 'cat' and v.op != 'cat':
        return u.op == 'const' and v.op == 'const' and u.args[0] != v.args[0]
    while a and b and a[0] is b[0]:
        a.pop(0)
        b.pop(0)
    while a and b and a[-1] is b[-1]:
        a.pop()
        b.pop()
    ok = lambda p: all(x.op == 'const' and isinstance(x.args[0], str) for x in p)
    return ok(a) and ok(b) and ''.join(x.args[0] for x in a) != ''.join(x.args[0] for x in b)


def differs(x, y, g):
    """A witness that two values differ under g."""
    for c, u in tm.cases(x, g):
        for c2, v in tm.cases(y, c):
            if u is v:
                continue
            if u.op in ('cat', 'str') or v.op in ('cat', 'str') or (u.op == 'const' and not isinstance(u.args[0], int)) or \
                    (v.op == 'const' and not isinstance(v.args[0], int)):
                if never(u, v):
                    w = witness(c2)
                    if w is not None:
                        return w
                continue
            if not plain(u) or not plain(v):
                continue
            d = tm.sub(u, v)
            if tm.aff_parts(d) is None:
                continue
            for z in (d, tm.neg(d)):
                if not tm.aff_parts(z)[1]:
                    if tm.aff_parts(z)[0] < 0:
                        w = witness(c2)
                        if w is not None:
                            return w
                    continue
                w = witness(band(c2, tm.batom(tm.T('neg', z))))
                if w is not None:
                    return w
    return None
