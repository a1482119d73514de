"""Unordered-value inference (sets, directory listings, ...) and order-sensitive consumption."""
import ast

from project import PKG

SRC = {'set', 'frozenset', 'os.listdir', 'os.scandir', 'glob.glob', 'glob.iglob', 'os.walk', 'concurrent.futures.as_completed'}
SRCM = {'iterdir', 'glob', 'rglob', 'union', 'intersection', 'difference', 'symmetric_difference', 'imap_unordered', 'scandir'}
INSENS = {'sum', 'len', 'any', 'all', 'set', 'frozenset', 'bool', 'isinstance', 'fsum', 'math.fsum', 'Counter',
          'collections.Counter'}
SENS = {'list', 'tuple', 'enumerate', 'zip', 'map', 'filter', 'iter', 'next', 'dict.fromkeys', 'reversed', 'str', 'repr', 'print',
        'itertools.chain', 'chain', 'chain.from_iterable', 'OrderedDict'}


class Order:
    def __init__(self, P):
        self.P = P
        self.keys, self.attrs, self.funcs, self.params = set(), set(), set(), set()
        self.mapkeys, self.mapattrs = set(), set()
        self.fn_of = {}
        self.mod_of = {}
        self.parent = {}
        for m in P.modules.values():
            self.index(m, m.tree, None)
        self.fns = [n for n in self.mod_of if isinstance(n, (ast.FunctionDef,))]
        self.byname = {}
        for f in self.fns:
            self.byname.setdefault(f.name, []).append(f)
        for _ in range(6):
            n = len(self.keys) + len(self.attrs) + len(self.funcs) + len(self.params) + len(self.mapkeys) + len(self.mapattrs)
            self.pass_()
            if n == len(self.keys) + len(self.attrs) + len(self.funcs) + len(self.params) + len(self.mapkeys) + len(self.mapattrs):
                break

    def index(self, m, n, fn):
        for x in ast.iter_child_nodes(n):
            self.parent[x] = n
            self.fn_of[x] = fn
            self.mod_of[x] = m
            self.index(m, x, x if isinstance(x, (ast.FunctionDef, ast.Lambda)) else fn)

    def callname(self, c, m):
        f = c.func
        if isinstance(f, ast.Name):
            t = m.imports.get(f.id)
            return t if t else f.id
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in m.imports:
            return m.imports[f.value.id] + '.' + f.attr
        if isinstance(f, ast.Attribute):
            return '.' + f.attr
        return '?'

    # ------------------------------------------------------------ inference
    def assigns(self, name, fn):
        """(lineno, value, kind) of bindings of name inside fn."""
        out = []
        body = fn.body if fn is not None and isinstance(fn.body, list) else []
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                    for t in ts:
                        if isinstance(t, ast.Name) and t.id == name:
                            out.append((x.lineno, x.value, '='))
                        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, (ast.Tuple, ast.List)) and \
                                len(t.elts) == len(x.value.elts):
                            for a, v in zip(t.elts, x.value.elts):
                                if isinstance(a, ast.Name) and a.id == name:
                                    out.append((x.lineno, v, '='))
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                    out.append((x.lineno, x.value, 'aug'))
                elif isinstance(x, (ast.For, ast.comprehension)):
                    it = x.iter
                    if isinstance(x.target, ast.Name) and x.target.id == name:
                        out.append((x.target.lineno, it, 'elem'))
                    elif isinstance(x.target, ast.Tuple) and len(x.target.elts) == 2:
                        if isinstance(x.target.elts[1], ast.Name) and x.target.elts[1].id == name:
                            out.append((x.target.lineno, it, 'item1'))
                elif isinstance(x, ast.NamedExpr) and x.target.id == name:
                    out.append((x.lineno, x.value, '='))
        return out

    def binding(self, n):
        """Nearest binding textually before the use (enclosing functions as fallback)."""
        fn = self.fn_of.get(n)
        while fn is not None:
            if isinstance(fn, ast.Lambda):
                fn = self.fn_of.get(fn)
                continue
            a = self.assigns(n.id, fn)
            if a:
                before = [x for x in a if x[0] <= n.lineno and x[2] != 'aug' and n not in set(ast.walk(x[1]))]
                return (max(before, key=lambda x: x[0]) if before else a[0]), fn
            if any(p.arg == n.id for p in ast.walk(fn.args) if isinstance(p, ast.arg)):
                return ('param', fn), fn
            fn = self.fn_of.get(fn)
        m = self.mod_of.get(n)
        if m is not None and n.id in m.assigns:
            v = m.assigns[n.id][-1][1]
            if v is not None:
                return (0, v, '='), None
        return None, None

    def unordered(self, e, depth=0):
        if e is None or depth > 12:
            return False
        m = self.mod_of.get(e)
        if isinstance(e, (ast.Set, ast.SetComp)):
            return not (isinstance(e, ast.Set) and len(e.elts) <= 1)
        if isinstance(e, ast.Call):
            q = self.callname(e, m) if m else '?'
            if q in SRC:
                return not (q in ('set', 'frozenset') and False)
            if isinstance(e.func, ast.Attribute):
                a = e.func.attr
                if a in SRCM:
                    if a in ('glob', 'rglob', 'iterdir', 'imap_unordered', 'scandir'):
                        return True
                    return self.unordered(e.func.value, depth + 1) or \
                        (isinstance(e.func.value, ast.Name) and e.func.value.id in ('set', 'frozenset'))
                if a == 'copy':
                    return self.unordered(e.func.value, depth + 1)
                if a in ('get', 'setdefault', 'pop'):
                    if self.mapset(e.func.value, depth + 1):
                        return True
                    if e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value in self.keys:
                        return True
                    return len(e.args) > 1 and self.unordered(e.args[1], depth + 1)
            if q in ('copy.copy', 'copy.deepcopy') and e.args:
                return self.unordered(e.args[0], depth + 1)
            if q in ('list', 'tuple', 'iter', 'reversed', 'enumerate') and e.args:
                return self.unordered(e.args[0], depth + 1)
            for f in self.callees(e):
                if f in self.funcs:
                    return True
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)):
                l, r = self.unordered(e.left, depth + 1), self.unordered(e.right, depth + 1)
                kv = [self.is_keys(x) for x in (e.left, e.right)]
                return l or (r and not isinstance(e.op, ast.Sub)) or any(kv)
        if isinstance(e, ast.IfExp):
            return self.unordered(e.body, depth + 1) or self.unordered(e.orelse, depth + 1)
        if isinstance(e, ast.BoolOp):
            return any(self.unordered(v, depth + 1) for v in e.values)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Constant) and e.slice.value in self.keys and isinstance(e.slice.value, str):
                return True
            return self.mapset(e.value, depth + 1)
        if isinstance(e, ast.Attribute):
            return e.attr in self.attrs
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.unordered(e.generators[0].iter, depth + 1)
        if isinstance(e, ast.Name):
            b, fn = self.binding(e)
            if b is None:
                return False
            if b[0] == 'param':
                return (fn, e.id) in self.params
            ln, v, kind = b
            if kind == '=':
                if isinstance(v, ast.Name) and v.id == e.id:
                    return False
                return self.unordered(v, depth + 1)
            if kind == 'item1':
                return isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'items' and \
                    self.mapset(v.func.value, depth + 1)
            if kind == 'elem':
                return isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'values' and \
                    self.mapset(v.func.value, depth + 1)
        return False

    def is_keys(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('keys', 'items') and not e.args

    def mapset(self, e, depth=0):
        """A mapping whose values are unordered."""
        if depth > 12:
            return False
        if isinstance(e, ast.Call):
            m = self.mod_of.get(e)
            q = self.callname(e, m) if m else '?'
            return q.split('.')[-1] == 'defaultdict' and e.args and isinstance(e.args[0], ast.Name) and \
                e.args[0].id in ('set', 'frozenset')
        if isinstance(e, ast.DictComp):
            return self.unordered(e.value, depth + 1)
        if isinstance(e, ast.Dict):
            return bool(e.values) and any(self.unordered(v, depth + 1) for v, k in zip(e.values, e.keys)
                                          if not isinstance(k, ast.Constant))
        if isinstance(e, ast.Name):
            b, fn = self.binding(e)
            if b is not None and b[0] != 'param' and b[2] == '=' and self.mapset(b[1], depth + 1):
                return True
            if b is not None and b[0] != 'param':
                for x in ast.walk(fn) if fn is not None else ():
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id and \
                                    not isinstance(t.slice, ast.Constant) and self.unordered(x.value, depth + 1):
                                return True
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'setdefault' and \
                            isinstance(x.func.value, ast.Name) and x.func.value.id == e.id and len(x.args) > 1 and \
                            self.unordered(x.args[1], depth + 1):
                        return True
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            return e.slice.value in self.mapkeys
        if isinstance(e, ast.Attribute):
            return e.attr in self.mapattrs
        return False

    def callees(self, c):
        f = c.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        return self.byname.get(nm, []) if nm else []

    def pass_(self):
        for n, m in self.mod_of.items():
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                        if self.unordered(n.value):
                            self.keys.add(t.slice.value)
                        elif self.mapset(n.value):
                            self.mapkeys.add(t.slice.value)
                    if isinstance(t, ast.Attribute):
                        if self.unordered(n.value):
                            self.attrs.add(t.attr)
                        elif self.mapset(n.value):
                            self.mapattrs.add(t.attr)
            elif isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        if self.unordered(v):
                            self.keys.add(k.value)
                        elif self.mapset(v):
                            self.mapkeys.add(k.value)
            elif isinstance(n, ast.Return) and n.value is not None and isinstance(self.fn_of.get(n), ast.FunctionDef):
                if self.unordered(n.value):
                    self.funcs.add(self.fn_of[n])
            elif isinstance(n, ast.Call):
                fs = self.callees(n)
                if len(fs) == 1:
                    ps = [a.arg for a in fs[0].args.posonlyargs + fs[0].args.args]
                    off = 1 if ps[:1] == ['self'] and isinstance(n.func, ast.Attribute) else 0
                    for i, a in enumerate(n.args):
                        if i + off < len(ps) and self.unordered(a):
                            self.params.add((fs[0], ps[i + off]))
                    for k in n.keywords:
                        if k.arg in ps and self.unordered(k.value):
                            self.params.add((fs[0], k.arg))

    # ------------------------------------------------------------ consumption
    def body_sensitive(self, stmts):
        """True / False / None: does the order of iterations matter?"""
        res = False
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Break)):
                    return True
                if isinstance(x, ast.Return):
                    if x.value is not None and not isinstance(x.value, ast.Constant):
                        return True
                if isinstance(x, ast.Call):
                    f = x.func
                    if isinstance(f, ast.Attribute) and f.attr in ('append', 'extend', 'insert', 'setdefault', 'write', 'add_row',
                                                                   'add_column', 'print'):
                        return True
                    if isinstance(f, ast.Attribute) and f.attr in ('add', 'discard', 'get', 'startswith', 'endswith', 'lower',
                                                                   'debug', 'eprint', 'warn'):
                        continue
                    if isinstance(f, ast.Name) and f.id in ('len', 'int', 'min', 'max', 'abs', 'sum', 'isinstance', 'any', 'all'):
                        continue
                    res = None if res is False else res
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Constant):
                            return True
                if isinstance(x, ast.AugAssign):
                    if isinstance(x.op, ast.Add) and isinstance(x.value, (ast.JoinedStr, ast.List, ast.ListComp)):
                        return True
                    if isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, str):
                        return True
        return res

    def key_total(self, key):
        """A sort key that tells all elements apart (contains the element itself)."""
        if isinstance(key, ast.Lambda) and key.args.args:
            a = key.args.args[0].arg
            b = key.body
            parts = b.elts if isinstance(b, ast.Tuple) else [b]
            return any(isinstance(p, ast.Name) and p.id == a for p in parts)
        return False

    def uses(self):
        """[(node, verdict True=order matters/None=unknown, description)] of every consumption of unordered values."""
        out = []
        for n, m in list(self.mod_of.items()):
            if isinstance(n, ast.For) and self.unordered(n.iter):
                out.append((n, self.body_sensitive(n.body), 'loop'))
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    if self.unordered(g.iter):
                        out.append((n, self.context(n), 'comprehension'))
            elif isinstance(n, ast.Call):
                q = self.callname(n, m)
                kw = {k.arg: k.value for k in n.keywords}
                for a in n.args:
                    x = a.value if isinstance(a, ast.Starred) else a
                    if not self.unordered(x) or isinstance(x, (ast.ListComp, ast.GeneratorExp)):
                        continue
                    if isinstance(a, ast.Starred):
                        out.append((n, True, 'unpacking'))
                    elif q in INSENS:
                        pass
                    elif q in ('sorted', 'min', 'max', 'heapq.nlargest', 'heapq.nsmallest'):
                        k = kw.get('key')
                        if k is not None and not self.key_total(k):
                            out.append((n, True if isinstance(k, ast.Lambda) else None, f'{q} with a key that can tie'))
                    elif q in ('list', 'tuple', 'iter', 'enumerate', 'reversed', 'map', 'filter', 'zip'):
                        out.append((n, self.context(n), q))
                    elif q in ('.join', '.fromkeys', 'dict.fromkeys', 'str', 'repr', 'json.dumps', 'next') or q in SENS:
                        out.append((n, True, q))
                    elif q in ('.extend',):
                        out.append((n, self.listvar(n.func.value), q))
                    elif q.startswith('log.') or q.endswith('.print'):
                        if not q.endswith(('debug', 'eprint')):
                            out.append((n, True, 'printed'))
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and not n.args and self.unordered(n.func.value):
                    out.append((n, None, 'set.pop'))
            elif isinstance(n, ast.Starred) and isinstance(self.parent.get(n), (ast.List, ast.Tuple)) and self.unordered(n.value):
                out.append((n, self.context(self.parent[n]), 'unpacking'))
            elif isinstance(n, ast.FormattedValue) and self.unordered(n.value):
                p = n
                while p is not None and not isinstance(p, (ast.Call, ast.stmt)):
                    p = self.parent.get(p)
                if not (isinstance(p, ast.Call) and self.callname(p, m).endswith(('debug', 'eprint'))):
                    out.append((n, True, 'formatted'))
        return out

    def listvar(self, v):
        """Is the list expression v sorted (totally) later?"""
        if isinstance(v, ast.Name):
            fn = self.fn_of.get(v)
            for x in ast.walk(fn) if fn is not None else ():
                if isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Attribute) and x.func.attr == 'sort' and isinstance(x.func.value, ast.Name) and \
                            x.func.value.id == v.id and not any(k.arg == 'key' for k in x.keywords):
                        return False
                    if isinstance(x.func, ast.Name) and x.func.id in ('sorted', 'set', 'sum', 'len') and x.args and \
                            isinstance(x.args[0], ast.Name) and x.args[0].id == v.id:
                        return None
        return True

    def context(self, n):
        """How is the value of expression n consumed?"""
        p = self.parent.get(n)
        m = self.mod_of.get(n)
        if isinstance(p, ast.Call) and n in p.args:
            q = self.callname(p, m)
            if q in INSENS or q in ('min', 'max') and not p.keywords:
                return False
            if q == 'sorted':
                k = [x.value for x in p.keywords if x.arg == 'key']
                return False if not k or self.key_total(k[0]) else True
            if q in ('list', 'tuple', 'enumerate', 'map', 'filter', 'iter', 'reversed', 'zip'):
                return self.context(p)
            if q in ('.join', 'next', 'dict.fromkeys', 'json.dumps'):
                return True
            if q in ('.update', '.union', '.intersection', '.difference'):
                return None
            return None
        if isinstance(p, (ast.Assign, ast.AnnAssign)):
            t = p.targets[0] if isinstance(p, ast.Assign) else p.target
            if isinstance(t, ast.Name):
                return self.listvar(t)
            return True
        if isinstance(p, ast.Return):
            return True
        if isinstance(p, ast.Compare):
            return False if any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops) else None
        if isinstance(p, ast.For):
            return self.body_sensitive(p.body)
        if isinstance(p, ast.Subscript):
            return True
        if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Add):
            return self.context(p)
        if isinstance(p, ast.AugAssign):
            return self.listvar(p.target) if isinstance(p.target, ast.Name) else True
        if isinstance(p, (ast.IfExp, ast.BoolOp, ast.Starred)):
            return None
        return None
