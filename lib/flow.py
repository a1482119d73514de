"""Path-sensitive typestate analysis over the syntax tree, including exceptional control flow.

Abstract states carry constants of local variables, the outcome of tests on symbolic expressions and a
finite typestate supplied by the rule.  Loops run to a fixpoint; project functions are analysed in place;
every call may also raise.  Nothing is executed.
"""
import ast
import builtins

from project import PKG


class GiveUp(Exception):
    pass


UNK = None


class S:
    __slots__ = ('env', 'known', 'ts', 'trace')

    def __init__(self, env=None, known=None, ts=None, trace=()):
        self.env = env or {}
        self.known = known or {}
        self.ts = ts
        self.trace = trace

    def copy(self):
        return S(dict(self.env), dict(self.known), self.ts, self.trace)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.known.items()), self.ts)

    def with_ts(self, ts, note=None):
        s = self.copy()
        s.ts = ts
        if note is not None:
            s.trace = s.trace + (note,)
        return s


def dedupe(states, key=lambda s: s.key()):
    seen, out = set(), []
    for s in states:
        k = key(s)
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


class Frame:
    n = 0

    def __init__(self, mod, node, parent=None, cls=None):
        Frame.n += 1
        self.fid = Frame.n
        self.mod = mod
        self.node = node
        self.parent = parent
        self.cls = cls
        self.locals = {x.arg for x in ast.walk(node.args) if isinstance(x, ast.arg)} if hasattr(node, 'args') else set()
        body = node.body if isinstance(node.body, list) else []
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.locals.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    self.locals.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a in x.names:
                        self.locals.add((a.asname or a.name).split('.')[0])


class Out:
    def __init__(self):
        self.normal, self.ret, self.brk, self.cont = [], [], [], []


class Hooks:
    """Rule specific part."""
    cap = 3000

    def relevant(self, text):
        return True

    def domain(self, text):
        return None

    def inline(self, q):
        return True

    def call(self, fl, node, q, recv, args, kw, s, fr):
        """None for the default, or list of ('ok', S, val) / ('exc', S, etype)."""
        return None

    def default_raises(self, q):
        return True

    def stmt(self, fl, node, s, fr):
        return s


class Flow:
    def __init__(self, P, hooks):
        self.P = P
        self.h = hooks
        self.raises = []
        self.depth = 0
        self.stack = []
        self.calls = set()
        self.nstates = 0

    # ---------------------------------------------------------------- names
    def resolve(self, name, fr):
        """Dotted target of a module level name."""
        m = fr.mod
        if name in m.funcs or name in m.classes or name in m.assigns:
            return f'{m.name}.{name}'
        if name in m.imports:
            t = m.imports[name]
            return t[len(PKG) + 1:] if t.startswith(PKG + '.') else t
        return name

    def find(self, q):
        """(module, node, classname) of a project function 'mod.f' or 'mod.C.f'."""
        parts = q.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:i])
            if mod in self.P.modules:
                rest = parts[i:]
                m = self.P.modules[mod]
                if len(rest) == 1:
                    if rest[0] in m.funcs:
                        return m, m.funcs[rest[0]], None
                    if rest[0] in m.classes:
                        return m, m.classes[rest[0]], None
                    t = m.imports.get(rest[0])
                    if t and t.startswith(PKG + '.') and t[len(PKG) + 1:] != q:
                        return self.find(t[len(PKG) + 1:])
                if len(rest) == 2 and rest[0] in m.classes:
                    for x in m.classes[rest[0]].body:
                        if isinstance(x, ast.FunctionDef) and x.name == rest[1]:
                            return m, x, rest[0]
        return None

    def dotted(self, n, fr):
        if isinstance(n, ast.Name):
            f = fr
            while f is not None:
                if n.id in f.locals:
                    return None
                f = f.parent
            return self.resolve(n.id, fr)
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value, fr)
            return f'{b}.{n.attr}' if b else None
        return None

    # ---------------------------------------------------------------- values
    def look(self, s, text):
        return s.known.get(text)

    def learn(self, s, text, fact):
        if not self.h.relevant(text):
            return s
        s = s.copy()
        old = s.known.get(text)
        if fact[0] == 'ne' and old is not None and old[0] == 'ne':
            fact = ('ne', old[1] | fact[1])
        elif fact[0] in ('ne', 'T', 'NN') and old is not None and old[0] == 'c':
            return s
        s.known[text] = fact
        d = self.h.domain(text)
        if d is not None and fact[0] == 'ne' and all(x in fact[1] for x in d):
            return None
        return s

    def lookup_name(self, name, s, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = s.env.get((f.fid, name))
                if v is not None and v[0] == 'x':
                    k = s.known.get(v[1])
                    if k is not None and k[0] == 'c':
                        return k
                return v
            f = f.parent
        q = self.resolve(name, fr)
        if q in ('True', 'False', 'None'):
            return ('c', {'True': True, 'False': False, 'None': None}[q])
        return ('g', q)

    def truth_val(self, v, s):
        if v is None:
            return None
        if v[0] == 'c':
            return bool(v[1])
        if v[0] in ('o', 'g', 'f'):
            return True
        if v[0] == 'x':
            k = s.known.get(v[1])
            if k is None:
                return None
            if k[0] == 'c':
                return bool(k[1])
            if k[0] == 'T':
                return True
            if k[0] == 'F':
                return False
        return None

    def branch(self, v, s):
        """[(state, bool)] for the truth of value v."""
        t = self.truth_val(v, s)
        if t is not None:
            return [(s, t)]
        if v is not None and v[0] == 'x':
            out = []
            for b in (True, False):
                s2 = self.learn(s, v[1], ('T',) if b else ('F',))
                if s2 is not None:
                    out.append((s2, b))
            return out
        return [(s, True), (s, False)]

    def truth(self, n, s, fr):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(a, not b) for a, b in self.truth(n.operand, s, fr)]
        if isinstance(n, ast.BoolOp):
            stop = isinstance(n.op, ast.Or)
            cur, out = [s], []
            for x in n.values:
                nxt = []
                for c in cur:
                    for a, b in self.truth(x, c, fr):
                        (out if b == stop else nxt).append(a)
                cur = nxt
            return [(a, stop) for a in dedupe(out)] + [(a, not stop) for a in dedupe(cur)]
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            out = []
            for s1, a in self.ev(n.left, s, fr):
                for s2, b in self.ev(n.comparators[0], s1, fr):
                    out += self.compare(n.ops[0], a, b, n, s2, fr)
            return out
        out = []
        for s1, v in self.ev(n, s, fr):
            out += self.branch(v, s1)
        return out

    def compare(self, op, a, b, n, s, fr):
        neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if a is not None and a[0] == 'c' and b is not None and b[0] != 'c':
                a, b = b, a
            if a is not None and b is not None and b[0] == 'c':
                k = a
                if a[0] == 'x':
                    k = s.known.get(a[1]) or a
                if k[0] == 'c':
                    return [(s, (k[1] == b[1]) != neg)]
                if k[0] in ('o', 'g', 'f'):
                    return [(s, neg)]
                if k[0] == 'ne' and b[1] in k[1]:
                    return [(s, neg)]
                if b[1] is None and k[0] in ('T', 'NN'):
                    return [(s, neg)]
                if k[0] == 'T' and not b[1]:
                    return [(s, neg)]
                if k[0] == 'F' and b[1]:
                    return [(s, neg)]
                if a[0] == 'x':
                    out = []
                    s1 = self.learn(s, a[1], ('c', b[1]))
                    if s1 is not None:
                        out.append((s1, not neg))
                    s2 = s
                    if k[0] == 'x' or k[0] == 'ne':
                        s2 = self.learn(s, a[1], ('ne', frozenset([b[1]])))
                    if s2 is not None:
                        out.append((s2, neg))
                    return out
        if isinstance(op, (ast.In, ast.NotIn)):
            c = n.comparators[0]
            if isinstance(c, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in c.elts):
                out, cur = [], [s]
                for x in c.elts:
                    nxt = []
                    for y in cur:
                        for s2, t in self.compare(ast.Eq(), a, ('c', x.value), n, y, fr):
                            (out if t else nxt).append(s2)
                    cur = nxt
                return [(x, not neg) for x in dedupe(out)] + [(x, neg) for x in dedupe(cur)]
        v = self.texts(n, a, b)
        if v:
            return self.branch(('x', v), s)
        return [(s, True), (s, False)]

    def texts(self, n, *vals):
        if any(v is None for v in vals):
            return None
        if len(n.ops) != 1:
            return None
        return type(n.ops[0]).__name__ + repr(vals)

    def ev(self, n, s, fr):
        """[(state, value)]"""
        if isinstance(n, ast.Constant):
            return [(s, ('c', n.value))] if not isinstance(n.value, (bytes, complex, float)) or True else [(s, None)]
        if isinstance(n, ast.Name):
            return [(s, self.lookup_name(n.id, s, fr))]
        if isinstance(n, ast.NamedExpr):
            out = []
            for s1, v in self.ev(n.value, s, fr):
                out.append((self.bind(n.target, v, s1, fr, n.value), v))
            return out
        if isinstance(n, ast.IfExp):
            out = []
            for s1, t in self.truth(n.test, s, fr):
                out += self.ev(n.body if t else n.orelse, s1, fr)
            return self.dd(out)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) or isinstance(n, ast.Compare):
            return [(a, ('c', b)) for a, b in self.truth(n, s, fr)]
        if isinstance(n, ast.BoolOp):
            stop = isinstance(n.op, ast.Or)
            out, cur = [], [s]
            for i, x in enumerate(n.values):
                nxt = []
                for c in cur:
                    for s1, v in self.ev(x, c, fr):
                        if i == len(n.values) - 1:
                            out.append((s1, v))
                            continue
                        for s2, t in self.branch(v, s1):
                            if t == stop:
                                out.append((s2, v))
                            else:
                                nxt.append(s2)
                cur = dedupe(nxt)
            return self.dd(out)
        if isinstance(n, ast.Attribute):
            out = []
            for s1, b in self.ev(n.value, s, fr):
                out.append((s1, self.slot(b, '.' + n.attr, s1)))
            return out
        if isinstance(n, ast.Subscript):
            out = []
            for s1, b in self.ev(n.value, s, fr):
                for s2, k in self.ev(n.slice, s1, fr) if not isinstance(n.slice, ast.Slice) else self.generic(n.slice, s1, fr):
                    if k is not None and k[0] == 'c':
                        out.append((s2, self.slot(b, f'[{k[1]!r}]', s2)))
                    else:
                        out.append((s2, None))
            return out
        if isinstance(n, ast.Call):
            return self.call(n, s, fr)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return [(x, None) for x in self.comp(n, s, fr)]
        if isinstance(n, ast.Lambda):
            return [(s, ('o', 'lambda'))]
        if isinstance(n, (ast.List, ast.Tuple, ast.Dict, ast.Set)):
            r = self.generic(n, s, fr)
            e = bool(getattr(n, 'elts', None) or getattr(n, 'keys', None))
            return [(a, ('o', f'lit{n.lineno}:{n.col_offset}') if e and False else None) for a, _ in r]
        return self.generic(n, s, fr)

    def dd(self, l):
        seen, out = set(), []
        for s, v in l:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        return out

    def slot(self, b, suffix, s):
        if b is None:
            return None
        if b[0] == 'g':
            return ('g', b[1] + suffix) if suffix.startswith('.') else None
        if b[0] in ('x', 'o'):
            t = str(b[1]) + suffix
            k = s.env.get(('slot', t))
            if k is not None:
                return k if k[0] != 'unknown' else None
            f = s.known.get(t)
            if f is not None and f[0] == 'c':
                return f
            return ('x', t)
        return None

    def generic(self, n, s, fr):
        cur = [s]
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                nxt = []
                for x in cur:
                    nxt += [a for a, _ in self.ev(c, x, fr)]
                cur = dedupe(nxt)
            elif isinstance(c, (ast.keyword, ast.FormattedValue)):
                nxt = []
                for x in cur:
                    nxt += [a for a, _ in self.ev(c.value, x, fr)]
                cur = dedupe(nxt)
        return [(x, None) for x in cur]

    def comp(self, n, s, fr):
        out = []
        gens = n.generators
        f2 = Frame(fr.mod, ast.parse('def f(): pass').body[0], fr, fr.cls)
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    f2.locals.add(x.id)
        elts = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]

        def level(i, st):
            if i == len(gens):
                cur = [st]
                for e in elts:
                    cur = dedupe([a for c in cur for a, _ in self.ev(e, c, f2)])
                return cur
            g = gens[i]
            res = []
            for a, _ in self.ev(g.iter, st, f2):
                pend, seen = [a], {a.key()}
                while pend:
                    y = pend.pop()
                    res.append(y)
                    ok = [self.bind(g.target, None, y, f2, None)]
                    for c in g.ifs:
                        ok = dedupe([p for o in ok for p, t in self.truth(c, o, f2) if t])
                    for o in ok:
                        for z in level(i + 1, o):
                            if z.key() not in seen:
                                seen.add(z.key())
                                pend.append(z)
            return dedupe(res)
        return level(0, s)

    # ---------------------------------------------------------------- calls
    def call(self, n, s, fr):
        out = []
        states = [(s, None, None)]
        q0 = self.dotted(n.func, fr)
        fvals = []
        if isinstance(n.func, ast.Attribute) and q0 is None:
            for s1, b in self.ev(n.func.value, s, fr):
                fvals.append((s1, b, '.' + n.func.attr))
        elif isinstance(n.func, ast.Attribute):
            fvals.append((s, None, q0))
        elif isinstance(n.func, ast.Name):
            v = self.lookup_name(n.func.id, s, fr)
            if v is not None and v[0] == 'g':
                fvals.append((s, None, v[1]))
            elif v is not None and v[0] == 'f':
                fvals.append((s, v, 'local.' + v[1].name))
            else:
                fvals.append((s, v, '?'))
        else:
            for s1, v in self.ev(n.func, s, fr):
                fvals.append((s1, v, '?'))
        for s1, recv, q in fvals:
            cur = [(s1, [], {})]
            for a in n.args:
                x = a.value if isinstance(a, ast.Starred) else a
                cur = [(s2, args + [v], kw) for s0, args, kw in cur for s2, v in self.ev(x, s0, fr)]
            for k in n.keywords:
                cur = [(s2, args, dict(kw, **{k.arg or '**': v})) for s0, args, kw in cur for s2, v in self.ev(k.value, s0, fr)]
            for s2, args, kw in cur:
                out += self.docall(n, q, recv, args, kw, s2, fr)
        return self.dd(out)

    def docall(self, n, q, recv, args, kw, s, fr):
        if recv is not None and recv[0] == 'o' and q.startswith('.') and isinstance(recv[1], str) and \
                recv[1].startswith('self:'):
            q = recv[1][5:] + q
        self.calls.add((q, getattr(n, 'lineno', 0), fr.mod.name))
        r = self.h.call(self, n, q, recv, args, kw, s, fr)
        if r is None:
            r = self.default_call(n, q, recv, args, kw, s, fr)
        out = []
        for x in r:
            if x[0] == 'ok':
                out.append((x[1], x[2] if len(x) > 2 else None))
            else:
                self.throw(x[1], x[2], n)
        return out

    def throw(self, s, etype, node):
        self.raises.append((s, etype, node))

    def default_call(self, n, q, recv, args, kw, s, fr):
        target = None
        if q.startswith('local.') and recv is not None and recv[0] == 'f':
            target = (recv[2].mod, recv[1], recv[2].cls, recv[2])
        else:
            f = self.find(q) if q != '?' and not q.startswith('.') else None
            if f is not None and isinstance(f[1], ast.FunctionDef):
                target = (f[0], f[1], f[2], None)
            elif f is not None and isinstance(f[1], ast.ClassDef):
                init = [x for x in f[1].body if isinstance(x, ast.FunctionDef) and x.name == '__init__']
                obj = ('o', f'self:{q}')
                if init and self.h.inline(q) and init[0] not in self.stack:
                    res = self.invoke(f[0], init[0], f[1].name, None, [obj] + args, kw, s)
                    return [('ok', a, obj) for a, _ in res]
                return [('ok', s, ('o', f'{q}@{n.lineno}'))] + ([('exc', s, '*')] if self.h.default_raises(q) else [])
        if target is not None and self.h.inline(q) and target[1] not in self.stack and len(self.stack) < 25:
            if recv is not None and q.count('.') >= 2 and recv[0] == 'o':
                args = [recv] + args
            res = self.invoke(target[0], target[1], target[2], target[3], args, kw, s)
            return [('ok', a, v) for a, v in res]
        val = None
        if q and q[0].isupper() or (q and '.' in q and q.rsplit('.', 1)[1][:1].isupper()):
            val = ('o', f'{q}@{getattr(n, "lineno", 0)}')
        if q == 'bool' and len(args) == 1:
            return [('ok', a, ('c', t)) for a, t in self.branch(args[0], s)]
        r = [('ok', s, val)]
        if self.h.default_raises(q):
            r.append(('exc', s, '*'))
        return r

    def invoke(self, mod, node, cls, parent, args, kw, s):
        fr = Frame(mod, node, parent, cls)
        s = s.copy()
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        for p, v in zip(pos, args):
            bound[p] = v
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                bound[k] = v
        defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in bound and p in defs and isinstance(defs[p], ast.Constant):
                bound[p] = ('c', defs[p].value)
        if a.kwarg is not None:
            bound[a.kwarg.arg] = kw.get('**', ('x', f'{node.name}.{a.kwarg.arg}'))
        for p, v in bound.items():
            if v is not None:
                s.env[(fr.fid, p)] = v
        self.stack.append(node)
        try:
            r0 = len(self.raises)
            o = self.block(node.body, [s], fr)
            res = [(x, ('c', None)) for x in o.normal] + o.ret
        finally:
            self.stack.pop()
        # drop the frame
        out = []
        for x, v in res:
            out.append((self.leave(x, fr), v))
        self.raises[r0:] = [(self.leave(x, fr), t, nd) for x, t, nd in self.raises[r0:]]
        return self.dd(out)

    def leave(self, s, fr):
        if any(k[0] == fr.fid for k in s.env):
            s = s.copy()
            s.env = {k: v for k, v in s.env.items() if k[0] != fr.fid}
        return s

    # ---------------------------------------------------------------- statements
    def bind(self, t, v, s, fr, src):
        s = s.copy()
        if isinstance(t, ast.Name):
            f = fr
            if t.id not in f.locals:
                while f is not None and t.id not in f.locals:
                    f = f.parent
            k = ((f or fr).fid, t.id)
            if v is None:
                s.env.pop(k, None)
            else:
                s.env[k] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                sub = None
                if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                    if isinstance(src.elts[i], ast.Constant):
                        sub = ('c', src.elts[i].value)
                s = self.bind(x.value if isinstance(x, ast.Starred) else x, sub, s, fr, None)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            for s1, b in self.ev(t.value, s, fr)[:1]:
                s = s1.copy()
                suf = None
                if isinstance(t, ast.Attribute):
                    suf = '.' + t.attr
                elif isinstance(t.slice, ast.Constant):
                    suf = f'[{t.slice.value!r}]'
                if b is not None and b[0] in ('x', 'o') and suf:
                    text = str(b[1]) + suf
                    for k in [k for k in s.known if text in k]:
                        del s.known[k]
                    if self.h.relevant(text):
                        s.env[('slot', text)] = v if v is not None else ('unknown', text)
        return s

    def block(self, stmts, states, fr):
        o = Out()
        cur = dedupe(states)
        for n in stmts:
            if not cur:
                break
            nxt = Out()
            for s in cur:
                s = self.h.stmt(self, n, s, fr)
                if s is None:
                    continue
                r = self.stmt(n, s, fr)
                nxt.normal += r.normal
                nxt.ret += r.ret
                nxt.brk += r.brk
                nxt.cont += r.cont
            o.ret += nxt.ret
            o.brk += nxt.brk
            o.cont += nxt.cont
            cur = dedupe(nxt.normal)
            self.nstates += len(cur)
            if len(cur) > self.h.cap:
                raise GiveUp(f'more than {self.h.cap} abstract states at line {n.lineno}')
        o.normal = cur
        o.ret = self.dd(o.ret)
        o.brk, o.cont = dedupe(o.brk), dedupe(o.cont)
        return o

    def stmt(self, n, s, fr):
        o = Out()
        if isinstance(n, ast.Expr):
            o.normal = [a for a, _ in self.ev(n.value, s, fr)]
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            if n.value is None:
                o.normal = [s]
                return o
            for a, v in self.ev(n.value, s, fr):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    a = self.bind(t, v, a, fr, n.value)
                o.normal.append(a)
        elif isinstance(n, ast.AugAssign):
            for a, v in self.ev(n.value, s, fr):
                o.normal.append(self.bind(n.target, None, a, fr, None))
        elif isinstance(n, ast.If):
            for a, t in self.truth(n.test, s, fr):
                r = self.block(n.body if t else n.orelse, [a], fr)
                o.normal += r.normal
                o.ret += r.ret
                o.brk += r.brk
                o.cont += r.cont
        elif isinstance(n, (ast.For, ast.While)):
            self.loop(n, s, fr, o)
        elif isinstance(n, ast.Return):
            if n.value is None:
                o.ret = [(s, ('c', None))]
            else:
                o.ret = self.ev(n.value, s, fr)
        elif isinstance(n, ast.Raise):
            if n.exc is None:
                cur = s.env.get(('exc', 'current'))
                self.throw(s, cur[1] if cur else '*', n)
            else:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                name = ast.unparse(e).split('.')[-1]
                if isinstance(e, ast.Name):
                    v = self.lookup_name(e.id, s, fr)
                    if v is not None and v[0] == 'e':
                        name = v[1]
                for a, _ in (self.ev(n.exc, s, fr) if isinstance(n.exc, ast.Call) else [(s, None)]):
                    self.throw(a, name, n)
        elif isinstance(n, ast.Break):
            o.brk = [s]
        elif isinstance(n, ast.Continue):
            o.cont = [s]
        elif isinstance(n, ast.Try) or type(n).__name__ == 'TryStar':
            self.try_(n, s, fr, o)
        elif isinstance(n, ast.With):
            self.with_(n, n.items, s, fr, o)
        elif isinstance(n, (ast.FunctionDef,)):
            o.normal = [self.bind(ast.Name(n.name, ast.Store()), ('f', n, fr), s, fr, None)]
        elif isinstance(n, ast.Assert):
            for a, t in self.truth(n.test, s, fr):
                if t:
                    o.normal.append(a)
                else:
                    self.throw(a, 'AssertionError', n)
        elif isinstance(n, ast.Delete):
            o.normal = [s]
        elif isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.ClassDef)):
            o.normal = [s]
        elif isinstance(n, ast.Match):
            raise GiveUp('match statement')
        else:
            o.normal = [s]
        return o

    def loop(self, n, s, fr, o):
        exits, brks = [], []
        if isinstance(n, ast.For):
            pend = [a for a, _ in self.ev(n.iter, s, fr)]
        else:
            pend = [s]
        seen = {x.key() for x in pend}
        it = 0
        while pend:
            x = pend.pop()
            it += 1
            if it > self.h.cap:
                raise GiveUp(f'loop at line {n.lineno} has too many abstract states')
            if isinstance(n, ast.For):
                exits.append(x)
                starts = [self.bind(n.target, None, x, fr, None)]
            else:
                starts = []
                for a, t in self.truth(n.test, x, fr):
                    (starts if t else exits).append(a)
            r = self.block(n.body, starts, fr)
            o.ret += r.ret
            brks += r.brk
            for y in r.normal + r.cont:
                if y.key() not in seen:
                    seen.add(y.key())
                    pend.append(y)
        exits = dedupe(exits)
        if n.orelse:
            r = self.block(n.orelse, exits, fr)
            exits = r.normal
            o.ret += r.ret
            o.brk += r.brk
            o.cont += r.cont
        o.normal = dedupe(exits + brks)

    def types(self, h):
        if h is None:
            return ['BaseException']
        ts = h.elts if isinstance(h, ast.Tuple) else [h]
        return [ast.unparse(t).split('.')[-1] for t in ts]

    def mro(self, name):
        out = [name]
        for m in self.P.modules.values():
            if name in m.classes:
                for b in m.classes[name].bases:
                    out += self.mro(ast.unparse(b).split('.')[-1])
                return out + ['Exception', 'BaseException']
        c = getattr(builtins, name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return out + [x.__name__ for x in c.__mro__]
        ext = {'FatalError': 'RuntimeError', 'JSONDecodeError': 'ValueError', 'YAMLError': 'Exception',
               'error': 'Exception', 'Exit': 'RuntimeError', 'Abort': 'RuntimeError', 'ClickException': 'Exception'}
        if name in ext:
            return out + self.mro(ext[name])
        return out + ['Exception', 'BaseException']

    def catches(self, types, etype):
        """True / False / None (maybe)."""
        if etype in ('*', '**'):
            if 'BaseException' in types:
                return True
            return None
        m = self.mro(etype)
        if any(t in m for t in types):
            return True
        # a handler for a subclass may match when only the base is known: no, etype is exact
        return False

    def try_(self, n, s, fr, o):
        r0 = len(self.raises)
        res = self.block(n.body, [s], fr)
        mine = self.raises[r0:]
        del self.raises[r0:]
        if n.orelse and res.normal:
            r = self.block(n.orelse, res.normal, fr)
            res.normal = r.normal
            res.ret += r.ret
            res.brk += r.brk
            res.cont += r.cont
        pend = mine
        left = []
        seen = set()
        for (x, et, nd) in pend:
            k0 = (x.key(), et)
            if k0 in seen:
                continue
            seen.add(k0)
            done = False
            for h in n.handlers:
                c = self.catches(self.types(h.type), et)
                if c is False:
                    continue
                y = x.copy()
                y.env[('exc', 'current')] = ('e', et)
                if h.name:
                    y.env[(fr.fid, h.name)] = ('e', et)
                y = self.h.caught(self, h, y, et, nd, fr) if hasattr(self.h, 'caught') else y
                if y is not None:
                    r = self.block(h.body, [y], fr)

                    def clean(z):
                        z = z.copy()
                        z.env.pop(('exc', 'current'), None)
                        z.env.pop((fr.fid, h.name), None)
                        return z
                    res.normal += [clean(z) for z in r.normal]
                    res.ret += [(clean(z), v) for z, v in r.ret]
                    res.brk += [clean(z) for z in r.brk]
                    res.cont += [clean(z) for z in r.cont]
                if c is True:
                    done = True
                    break
            if not done:
                left.append((x, et, nd))
        self.raises += left
        if n.finalbody:
            # exceptions still in flight (body and handlers)
            inflight = self.raises[r0:]
            del self.raises[r0:]
            for (x, et, nd) in inflight:
                r = self.block(n.finalbody, [x], fr)
                for y in r.normal:
                    self.throw(y, et, nd)
                o.ret += r.ret
                res.brk += r.brk
                res.cont += r.cont
            fin = Out()
            r = self.block(n.finalbody, dedupe(res.normal), fr)
            fin.normal = r.normal
            fin.ret += r.ret
            for x, v in self.dd(res.ret):
                r = self.block(n.finalbody, [x], fr)
                fin.ret += [(y, v) for y in r.normal] + r.ret
            for x in dedupe(res.brk):
                r = self.block(n.finalbody, [x], fr)
                fin.brk += r.normal
            for x in dedupe(res.cont):
                r = self.block(n.finalbody, [x], fr)
                fin.cont += r.normal
            res = fin
        o.normal += dedupe(res.normal)
        o.ret += self.dd(res.ret)
        o.brk += dedupe(res.brk)
        o.cont += dedupe(res.cont)

    def with_(self, n, items, s, fr, o):
        if not items:
            r = self.block(n.body, [s], fr)
            o.normal += r.normal
            o.ret += r.ret
            o.brk += r.brk
            o.cont += r.cont
            return
        it = items[0]
        c = it.context_expr
        if isinstance(c, ast.Call) and ast.unparse(c.func).split('.')[-1] == 'suppress':
            types = [ast.unparse(t).split('.')[-1] for t in c.args]
            r0 = len(self.raises)
            o2 = Out()
            self.with_(n, items[1:], s, fr, o2)
            mine = self.raises[r0:]
            del self.raises[r0:]
            o.normal += o2.normal
            o.ret += o2.ret
            o.brk += o2.brk
            o.cont += o2.cont
            for x, et, nd in mine:
                k = self.catches(types, et)
                if k is not False:
                    y = self.h.caught(self, c, x, et, nd, fr) if hasattr(self.h, 'caught') else x
                    if y is not None:
                        o.normal.append(y)
                if k is not True:
                    self.throw(x, et, nd)
            return
        for a, v in self.ev(c, s, fr):
            if it.optional_vars is not None:
                a = self.bind(it.optional_vars, v, a, fr, None)
            self.with_(n, items[1:], a, fr, o)
