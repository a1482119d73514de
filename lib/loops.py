"""Repeating loop states: a loop head reached again with the state it had before never ends."""
import ast

from absint import AbsStr, Bits, Cannot, Inst, N, Prune, live_stmt, nadd

NUM = (int, N, Bits)


class Loop(Exception):
    def __init__(self, node, fr, names, what):
        super().__init__(what)
        self.node, self.fr, self.names = node, fr, names


class Blind(Exception):
    pass


def live_in(loop):
    """Names a further iteration may read before it sets them."""
    return live_stmt(loop, set(), set(), set())


def snap(v, depth=4, seen=()):
    if isinstance(v, (bool, str, bytes, type(None), float)):
        return ('c', v)
    if isinstance(v, NUM):
        return ('n', v)
    if isinstance(v, AbsStr):
        return ('s', v)
    if id(v) in seen or depth == 0:
        return ('id', id(v))
    seen = seen + (id(v),)
    if isinstance(v, (list, tuple)):
        return ('list' if isinstance(v, list) else 'tuple', id(v) if isinstance(v, list) else 0, tuple(snap(x, depth - 1, seen) for x in v))
    if isinstance(v, dict):
        return ('dict', id(v), tuple((repr(k), snap(x, depth - 1, seen)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return ('set', id(v), tuple(sorted(map(repr, v))))
    if isinstance(v, Inst):
        d = getattr(v, 'attrs', None)
        if d is None:
            d = {k: x for k, x in vars(v).items() if k not in ('cls',)}
        return ('inst', id(v), tuple((k, snap(x, depth - 1, seen)) for k, x in sorted(d.items(), key=lambda z: z[0])))
    h = getattr(v, 'abs_snap', None)
    if h is not None:
        return ('obj', id(v), tuple(snap(x, depth - 1, seen) for x in h()))
    if hasattr(v, 'off') and hasattr(v, 'n'):
        return ('win', 0, (snap(v.off), snap(v.n)))
    if hasattr(v, '__next__'):
        raise Blind('iterator')
    return ('id', id(v))


ADDERS = ('append', 'extend', 'insert', 'add', 'appendleft')


def reached(P, loop):
    """The loop and the functions it may call (by name)."""
    byname = {}
    for m in P.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.FunctionDef):
                byname.setdefault(x.name, []).append(x)
            elif isinstance(x, ast.ClassDef):
                for f in x.body:
                    if isinstance(f, ast.FunctionDef) and f.name in ('__init__', '__post_init__', '__new__'):
                        byname.setdefault(x.name, []).append(f)
    seen, todo, out = set(), [loop], []
    while todo:
        t = todo.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        out.append(t)
        for x in ast.walk(t):
            n = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
            if n is not None:
                todo += byname.get(n, [])
    return out


def append_only(P, loop):
    """Names of variables and attributes the loop only adds to."""
    added, read = set(), set()
    for t in reached(P, loop):
        recv = set()
        for x in ast.walk(t):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ADDERS and isinstance(x.func.value, (ast.Name, ast.Attribute)):
                v = x.func.value
                recv.add(id(v))
                added.add(v.attr if isinstance(v, ast.Attribute) else v.id)
        for x in ast.walk(t):
            if id(x) not in recv and isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load):
                read.add(x.attr if isinstance(x, ast.Attribute) else x.id)
    return added - read


def match(a, b, eqs, quiet=frozenset()):
    """Numbers that must agree for b to be the state a; None: they differ. True: a list has grown."""
    if a[0] != b[0]:
        return None
    k = a[0]
    if k in ('c', 's', 'id'):
        return False if a[1] == b[1] and type(a[1]) is type(b[1]) else None
    if k == 'n':
        if a[1] != b[1]:
            eqs.append((a[1], b[1]))
        return False
    if k == 'set':
        return False if a == b else None
    # object identity does not matter for fresh values of the same shape
    x, y = a[2], b[2]
    grown = False
    if k == 'list' and len(x) < len(y) and a[1] == b[1]:
        y = y[:len(x)]
        grown = True
    if len(x) != len(y):
        return None
    if k == 'inst' and a[1] != b[1]:
        return None
    for p, q in zip(x, y):
        if k in ('dict', 'inst'):
            if p[0] != q[0]:
                return None
            name, p, q = p[0], p[1], q[1]
        r = match(p, q, eqs, quiet)
        if r is None:
            return None
        if k == 'inst' and name in quiet and p[0] == 'list':
            r = False
        grown = grown or r
    return grown


class Watch:
    """Hook for Interp: looks for repeating states and strictly monotone numbers."""

    def __init__(self, bound=8):
        self.bound = bound
        self.hist = {}
        self.seen = {}            # loop -> [runs, iterations, pruned, monotone names or None]
        self.blind = {}
        self.quiet = {}
        self.free = {}

    def start(self):
        self.hist = {}

    def __call__(self, I, s, n, fr):
        key = (id(s), id(fr))
        st = self.seen.setdefault(id(s), [s, 0, 0, 0, None])
        if n == 1:
            self.hist[key] = []
            st[1] += 1
        st[2] += 1
        names = live_in(s)
        env = {}
        f = fr
        while f is not None:
            for k in names:
                if k in f.env and k not in env:
                    env[k] = f.env[k]
            f = f.parent
        h = self.hist[key]
        # iterations that took a decision count against the bound
        mark = (len(I.memo), len(I.rows), len(I.neqs), len(I.notes))
        if n == 1:
            self.free[key] = [0, mark]
        elif self.free[key][1] != mark:
            self.free[key] = [self.free[key][0] + 1, mark]
        n = self.free[key][0]
        if I.trace is None:
            I.trace = []
        tr = tuple(I.trace[h[-1][2]:]) if h else None
        try:
            now = {k: snap(v) for k, v in env.items()}
            if getattr(I, 'file', None) is not None:
                now['<file>'] = snap(getattr(I.file, 'pos', 0))
        except Blind as e:
            self.blind[id(s)] = str(e)
            if n >= self.bound:
                st[3] += 1
                raise Prune()
            return
        if h:
            self.monotone(I, st, h[-1][0], now)
            self.repeated(I, s, fr, h, now, tr)
        h.append((now, tr, len(I.trace)))
        if n >= self.bound:
            st[3] += 1
            raise Prune()

    def repeated(self, I, s, fr, h, now, tr):
        prev = h[-1][0]
        if prev.keys() != now.keys():
            return
        eqs = []
        grown = False
        quiet = self.quiet.get(id(s))
        if quiet is None:
            quiet = self.quiet[id(s)] = frozenset(append_only(I.P, s))
        for k in now:
            r = match(prev[k], now[k], eqs, quiet)
            if r is None:
                return
            grown = grown or (r and k not in quiet)
        if grown:
            # the prefix read so far is the same: two iterations that took the same way, twice
            if len(h) < 3 or h[-1][1] != tr or h[-2][1] != tr:
                return
            for i in (-2, -3):
                if h[i][0].keys() != now.keys() or any(match(h[i][0][k], h[i + 1][0][k], eqs, quiet) is None for k in now):
                    return
        rows = []
        for a, b in eqs:
            if isinstance(a, Bits) or isinstance(b, Bits):
                return
            d = nadd(b, a, -1)
            if not isinstance(d, N):
                if d:
                    return
                continue
            c, k = I.lin(d)
            rows += [(c, k), ({x: -v for x, v in c.items()}, -k)]
        if rows and not I.feasible(rows):
            return
        why = ', '.join(f'{a!r} = {b!r}' for a, b in eqs[:4])
        raise Loop(s, fr, sorted(now), (f'with {why} ' if why else '') + 'the loop is at its start again with nothing changed')

    def monotone(self, I, st, prev, now):
        ok = set()
        for k in now:
            for name, x, y in sizes(k, prev.get(k), now[k]):
                d = nadd(y, x, -1)
                if isinstance(d, int):
                    if d:
                        ok.add((name, d > 0))
                    continue
                c, q = I.lin(d)
                neg = {a: -v for a, v in c.items()}
                if not I.feasible([(c, q)]):          # y - x <= 0 impossible
                    ok.add((name, True))
                elif not I.feasible([(neg, -q)]):
                    ok.add((name, False))
        st[4] = ok if st[4] is None else st[4] & ok


def sizes(k, a, b):
    if a is None or a[0] != b[0]:
        return
    if a[0] == 'n' and not isinstance(a[1], (Bits, bool)) and not isinstance(b[1], (Bits, bool)):
        yield k, a[1], b[1]
    if a[0] == 'list':
        yield f'len({k})', len(a[2]), len(b[2])
