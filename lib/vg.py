"""Helpers for rules stated as value-graph formulas."""
import ast
import re

import interp
import mm
import sums
import terms as tm
from engine import Engine, Frame, St
from project import AnchorMissing, Project
from report import PROVED, REFUTED, UNKNOWN
from sums import Ex, Sum
from terms import BF, BT, B, T, Term, band, batom, bnot, bor, const, implies, show, show_b, subterms, unsat

__all__ = ['PROVED', 'REFUTED', 'UNKNOWN', 'verdict', 'vguard', 'run', 'mm', 'tm', 'T', 'const', 'band', 'bnot', 'bor',
           'batom', 'BT', 'BF', 'implies', 'unsat', 'show', 'show_b', 'St', 'Frame', 'Project', 'Engine', 'loc', 'cut',
           'params', 'AnchorMissing', 'subterms', 'interp', 'lookup', 'local', 'Term', 'B', 'ast', 're', 'sums', 'Sum', 'Ex', 'scenario']


def cut(s, n=400):
    s = str(s)
    return s if len(s) <= n else s[:n] + '…'


def loc(P, node):
    m = P.func_module(node)
    return f'{m.path if m else "?"}:{getattr(node, "lineno", "?")}' + (f' {node.name}' if hasattr(node, 'name') else '')


def params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def run(P, mod, name, args=None, stop=(), facts=None, inline=(), cls=None, positional=None, guard=BT,
        pre=()):
    """Analyse mod.name. args: by name; positional: terms by position (names may have changed)."""
    node = P.func(mod, name)
    m = P.func_module(node)
    E = Engine(P, stop=stop, facts=facts, inline_classes=inline)
    names = params(node)
    a = {n: T('param', n) for n in names}
    if positional:
        for n, t in zip(names, positional):
            a[n] = t
    for k, v in (args or {}).items():
        if k in a:
            a[k] = v
    if cls is None and '.' in name:
        cls = name.split('.')[0]
    if cls and 'self' in a:
        E.term_cls[a['self']] = f'{m.name}.{cls}'
    for o, k, x in pre:
        E.put(o, k, x, St({}, guard), node, Frame(0, None, m))
    v = E.run(node, m, a, cls=cls, guard=guard)
    return E, v, a


def scenario(P, mod, name, **kw):
    """run(), with exceptions of constant operations decided: caught ones are followed into their handler, others do not happen."""
    hit = set()
    user = kw.pop('facts', None)
    for _ in range(5):
        def facts(atom):
            if atom.op == 'exc' and len(atom.args) == 3:
                return atom.args[0] in hit
            return user(atom) if user else None
        E, v, a = run(P, mod, name, facts=facts, **kw)
        new = {site for n, site, g, node in E.fails if site is not None and not tm.unsat(g)} - hit
        if not new:
            break
        hit |= new
    return E, v, a


def stepwise(E, x, y, guard, facts, seed, what, depth=0):
    """x = last(L, r, MU, init) against a closed form y = base + sums over L's collection.

    A fold whose result must be base + sum of d over the collection, for every collection, must
    transform the carried value S into S + d in every iteration, so one iteration is compared.
    """
    if depth > 6:
        return None
    if x.op != 'last' or len(x.args) != 5:
        return None
    L, r, MU, init, dom = x.args
    ln = E.loops.get(L)
    if ln is None or ln.dom is None or ln.kind == 'while':
        return None
    if any(z.op == 'mu' and z is not MU and z.args[0] is L for z in subterms(r)):
        return None
    p = tm.aff_parts(y)
    if p is None:
        return None
    base, step = const(p[0]), tm.ZERO
    n = 0
    for t, k in p[1]:
        if t.op == 'sum' and t.args[0] is dom:
            lv = sums.level(t)
            m = {T('bk', lv): E.mk_key(L), T('be', lv): E.mk_elem(L), T('bp', lv): T('pos', L)}
            d = tm.phi(tm.replace(t.args[1], m), tm.replace(t.args[2], m), tm.ZERO)
            step = tm.add(step, tm.mul(const(k), d))
            n += 1
        else:
            base = tm.add(base, tm.mul(const(k), t))
    if not n:
        return None
    absent = BT
    for a in {z for z in subterms(r) if z.op == 'inmu'}:
        if a.args[0] is L and len(MU.args) == 3:
            o, k = MU.args[1], MU.args[2]
            while True:
                hit = band(E.same(E.canon(a.args[1]), E.canon(o)), E.eq(a.args[2], k))
                if hit is not BF:
                    # slot (or the object holding it) not there yet: the value so far counts as zero
                    absent = band(absent, bor(batom(a), bnot(hit)))
                    break
                if o.op != 'idx':
                    break
                o, k = o.args[0], o.args[1]
    before = tm.phi(absent, MU, tm.ZERO)
    if init.op == 'missing':
        init = tm.ZERO
    if init is not base:
        v = verdict(init, base, guard, facts, seed, what=what + ' before the loop', E=E)
        if v[0] == REFUTED:
            return v
        if v[0] != PROVED:
            return None
    g = guard
    K = E.mk_key(L)
    member = BT
    if K.op == 'key' and any(x is K for t in (r, step) for x in subterms(t)):
        member = batom(T('in', K, dom))
    v = verdict(r, tm.add(before, step), band(g, member), facts, seed, what=what + ' after one iteration', E=E,
                step=True)
    return v


def strip_perm(d):
    while d.op in ('perm', 'aslist'):
        d = d.args[0]
    return d


def cases(x, g):
    return tm.cases(x, g)


def absent(x, g):
    neg = {a for a in tm.batoms(g) if a.op == 'in'}
    return any(t.op == 'idx' and T('in', t.args[1], t.args[0]) in neg and implies(g, bnot(batom(T('in', t.args[1], t.args[0]))))
               for t in subterms(x))


def verdict(actual, expected, guard=BT, facts=None, seed=1, n=300, what='', E=None, step=False):
    """Is actual == expected whenever guard holds?"""
    if actual is expected:
        return PROVED, f'{what} = {cut(show(expected), 200)}'
    okall = True
    for c, x in tm.cases(actual, guard):
        for c2, y in tm.cases(expected, c):
            if x is not y and sums.norm(x, c2) is not sums.norm(y, c2):
                okall = False
                break
        if not okall:
            break
    if okall:
        return PROVED, f'{what} = {cut(show(expected), 200)}'
    for c, x in tm.cases(actual, guard):
        for c2, y in tm.cases(expected, c):
            x, y = sums.norm(x, c2), sums.norm(y, c2)
            if x is y:
                continue
            if absent(x, c2):
                # an entry that is not there is read: not the value this case produces
                continue
            w = interp.differ(x, y, c2, facts, n=n, seed=seed, E=E, step=step)
            if w is None and E is not None and x.op == 'last' and interp.evaluated < n // 4:
                # the fold itself could not be evaluated: compare one iteration
                r = stepwise(E, x, y, c2, facts, seed, what)
                if r is not None and r[0] == REFUTED:
                    return r
                continue
            if w is not None:
                return REFUTED, (f'{what} is {cut(show(x))} but must be {cut(show(y))} when {cut(show_b(c2, 2))}; '
                                 f'witness: {cut(w, 700)}')
    return UNKNOWN, f'{what}: cannot compare {cut(show(actual))} with {cut(show(expected))}'


def vguard(actual, expected, guard=BT, facts=None, seed=1, what='', E=None):
    """Are the two conditions equivalent under guard?"""
    if implies(band(guard, actual), expected) and implies(band(guard, expected), actual):
        return PROVED, f'{what} iff {cut(show_b(expected, 3), 300)}'
    a2, e2 = sums.norm(actual, guard), sums.norm(expected, guard)
    if implies(band(guard, a2), e2) and implies(band(guard, e2), a2):
        return PROVED, f'{what} iff {cut(show_b(expected, 3), 300)}'
    w = interp.differ(a2, e2, guard, facts, seed=seed, E=E)
    if w is not None:
        return REFUTED, (f'{what} holds iff {cut(show_b(actual, 3))} but must hold iff {cut(show_b(expected, 3))}; '
                         f'witness: {cut(w, 700)}')
    return UNKNOWN, f'{what}: cannot compare {cut(show_b(actual, 3))} with {cut(show_b(expected, 3))}'


def local(x, m=None):
    """One arbitrary iteration: elements of loops become parameters, 'the loop is left' is taken as given."""
    m = dict(m or {})
    for a in (tm.batoms(x) if isinstance(x, B) else [x]):
        for t in subterms(a):
            if t.op == 'elem' and t not in m:
                m[t] = T('param', f'element{t.args[0].args[0]}')
    if isinstance(x, B):
        x = tm.bmap(x, lambda a: BT if a.op == 'exists' else batom(a))
    return tm.replace(x, m)


def lookup(E, o, k, guard, module):
    return E.index(o, k, St({}, guard), Frame(0, None, module), None)
