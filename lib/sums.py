"""Normal form of nested sums / existentials, and builders for expected formulas."""
import terms as tm
from terms import BF, BT, B, T, Term, band, batom, bite, bmap, bnot, const, replace, subterms

_lv = {}


def level(t):
    """Binder number of a sum/ex term (inner binders have smaller numbers)."""
    r = _lv.get(t)
    if r is None:
        r = _lv[t] = 1 + inner(t.args[1:])
    return r


def inner(xs):
    n = 0
    for x in xs:
        for s in subterms(x):
            if s.op in ('sum', 'ex', 'all', 'collect'):
                n = max(n, level(s))
    return n


_ph = [0]


def binder(op, dom, fn, keyf=None):
    """Build sum/ex over the keys of dom; fn(key term) -> (guard, delta) or guard."""
    _ph[0] += 1
    k = T('param', f'§{_ph[0]}')
    e = T('param', f'§e{_ph[0]}')
    r = fn(k) if fn.__code__.co_argcount == 1 else fn(k, e)
    parts = list(r) if isinstance(r, tuple) else [r]
    n = 1 + inner(parts)
    m = {k: T('bk', n), e: T('be', n)}
    parts = [replace(x, m) for x in parts]
    return T(op, dom, *parts)


def Sum(dom, fn):
    return binder('sum', dom, fn)


def Ex(dom, fn):
    return binder('ex', dom, fn)


def assume_guard(g, assume):
    """Drop from g the literals assume already fixes."""
    if assume is BT:
        return g
    lits = {}
    for a in tm.batoms(g):
        if tm.implies(assume, batom(a)):
            lits[a] = BT
        elif tm.implies(assume, bnot(batom(a))):
            lits[a] = BF
    if not lits:
        return g
    return bmap(g, lambda a: lits.get(a, batom(a)))


def norm(t, assume=BT, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, B):
        k = ('b', t.id)
        if k in memo:
            return memo[k]
        g = assume_guard(t, assume)
        r = bmap(g, lambda a: normatom(a, assume, memo))
        memo[k] = r
        return r
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(norm(x, assume, memo) for x in t)
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'sum':
        r = nsum(t.args[0], norm(t.args[1], assume, memo), norm(t.args[2], assume, memo), level(t))
    elif t.op == 'phi':
        r = tm.phi(norm(t.args[0], assume, memo), norm(t.args[1], assume, memo), norm(t.args[2], assume, memo))
    elif t.op in ('const', 'param', 'new', 'bk', 'be', 'bp', 'key', 'elem') or not t.args:
        r = t
    else:
        na = [norm(a, assume, memo) if isinstance(a, (Term, B, tuple)) else a for a in t.args]
        r = tm.rebuild(t.op, na) if any(x is not y for x, y in zip(na, t.args)) else t
    memo[t] = r
    return r


def normatom(a, assume, memo):
    if a.op == 'ex':
        return nex(a.args[0], norm(a.args[1], assume, memo), level(a))
    n = norm(a, assume, memo)
    return batom(a) if n is a else tm.atom_to_b(n)


def rebind(op, dom, parts, old):
    new = 1 + inner(parts)
    if new != old:
        m = {T('bk', old): T('bk', new), T('be', old): T('be', new), T('bp', old): T('bp', new)}
        parts = [replace(p, m) for p in parts]
    return T(op, dom, *parts)


def nsum(dom, g, d, lvl):
    if g is BF:
        return tm.ZERO
    p = tm.aff_parts(d)
    if d.op == 'phi':
        return tm.add(nsum(dom, band(g, d.args[0]), d.args[1], lvl), nsum(dom, band(g, bnot(d.args[0])), d.args[2], lvl))
    if d.op == 'const' and d.args[0] == 0:
        return tm.ZERO
    if d.op == 'aff':
        acc = tm.ZERO
        if p[0]:
            acc = rebind('sum', dom, [g, const(p[0])], lvl)
        for x, k in p[1]:
            acc = tm.add(acc, tm.mul(const(k), nsum(dom, g, x, lvl)))
        return acc
    if d.op == 'sum' and g is not BT:
        # conditions of the outer loop move to the innermost sum
        d2 = nsum(d.args[0], band(g, d.args[1]), d.args[2], level(d))
        return nsum(dom, BT, d2, lvl) if d2.op == 'sum' or d2 is tm.ZERO else rebind('sum', dom, [BT, d2], lvl)
    return rebind('sum', dom, [g, d], lvl)


def nex(dom, g, lvl):
    if g is BF:
        return BF
    # distribute over nested existentials: conjunction of literals with one ex: push literals inside
    if g.atom is not None:
        exs = [a for a in tm.batoms(g) if a.op == 'ex']
        if len(exs) == 1:
            e = exs[0]
            hi = bmap(g, lambda a: BT if a is e else batom(a))
            lo = bmap(g, lambda a: BF if a is e else batom(a))
            if lo is BF and hi is not BT:
                ne = nex(e.args[0], band(hi, e.args[1]), level(e))
                return nex(dom, ne, lvl) if ne is not g else batom(rebind('ex', dom, [g], lvl))
    return batom(rebind('ex', dom, [g], lvl))
