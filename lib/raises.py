"""Interprocedural may-raise analysis: where exceptions come from and which handler takes them."""
import ast

import flow
from project import PKG

IO = {'open': 'read', 'io.open': 'read', 'codecs.open': 'read', '.open': 'read', '.read_text': 'read', '.read_bytes': 'read',
      'json.load': 'json', 'json.loads': 'json', 'yaml.safe_load': 'yaml', 'yaml.load': 'yaml', '.write_text': 'write',
      '.write_bytes': 'write', '.mkdir': 'write', 'os.makedirs': 'write', 'os.mkdir': 'write', 'os.replace': 'write',
      'os.rename': 'write'}
EXIT = {'log.die', 'sys.exit', 'os._exit', 'exit', 'quit', '.die'}
BUILTIN_METHODS = {m for t in (str, bytes, list, dict, set, tuple, int) for m in dir(t)}


class Origin:
    def __init__(self, kind, etype, q, node, mod, sure=True):
        self.kind, self.etype, self.q, self.node, self.mod, self.sure = kind, etype, q, node, mod, sure

    def key(self):
        return (self.kind, self.etype, self.q, id(self.node))

    def at(self):
        return f'{self.mod.path}:{self.node.lineno} {self.q}'


class Raises:
    def __init__(self, P):
        self.P = P
        self.fl = flow.Flow(P, flow.Hooks())
        self.funcs = {}          # node -> (mod, q, clsname)
        self.meth = {}           # method name -> [nodes]
        self.props = {}
        for m in P.modules.values():
            self.scan(m, m.tree, m.name, None)
        self.memo = {}
        self.busy = set()
        self.edges = {}

    def scan(self, m, node, prefix, cls):
        for x in ast.iter_child_nodes(node):
            if isinstance(x, ast.FunctionDef):
                self.funcs[x] = (m, f'{prefix}.{x.name}', cls)
                if cls:
                    self.meth.setdefault(x.name, []).append(x)
                    if any(ast.unparse(d).split('.')[-1] in ('property', 'cached_property') for d in x.decorator_list):
                        self.props.setdefault(x.name, []).append(x)
                self.scan(m, x, f'{prefix}.{x.name}', None)
            elif isinstance(x, ast.ClassDef):
                self.scan(m, x, f'{prefix}.{x.name}', x.name)
            else:
                self.scan(m, x, prefix, cls)

    # ------------------------------------------------------------ resolution
    def name(self, call, m):
        """Qualified name of the callee, '.meth' for methods."""
        f = call.func
        if isinstance(f, ast.Name):
            return self.modname(f.id, m)
        if isinstance(f, ast.Attribute):
            d = self.dotted(f, m)
            return d or '.' + f.attr
        return '?'

    def modname(self, n, m):
        if n in m.funcs or n in m.classes:
            return f'{m.name}.{n}'
        if n in m.imports:
            t = m.imports[n]
            return t[len(PKG) + 1:] if t.startswith(PKG + '.') else t
        return n

    def dotted(self, f, m):
        if isinstance(f, ast.Name):
            if f.id in m.imports or f.id in m.classes:
                return self.modname(f.id, m)
            return None
        if isinstance(f, ast.Attribute):
            b = self.dotted(f.value, m)
            return f'{b}.{f.attr}' if b else None
        return None

    def targets(self, call, m, fn):
        """[(function node, sure)]"""
        q = self.name(call, m)
        f = call.func
        if isinstance(f, ast.Name):
            # local function?
            cur = fn
            while cur is not None:
                for x in ast.walk(cur):
                    if isinstance(x, ast.FunctionDef) and x.name == f.id and x is not cur:
                        return [(x, True)]
                cur = None
        if not q.startswith('.') and q != '?':
            r = self.fl.find(q)
            if r is not None:
                if isinstance(r[1], ast.FunctionDef):
                    return [(r[1], True)]
                return [(x, True) for x in r[1].body if isinstance(x, ast.FunctionDef) and
                        x.name in ('__init__', '__post_init__', '__new__')]
        if isinstance(f, ast.Attribute):
            nm = f.attr
            if isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls'):
                mod, _, cls = self.funcs.get(fn, (m, None, None))
                c = m.classes.get(cls) if cls else None
                if c is not None:
                    own = [x for x in c.body if isinstance(x, ast.FunctionDef) and x.name == nm]
                    if own:
                        return [(own[0], True)]
            ts = self.meth.get(nm, [])
            return [(t, len(ts) == 1 and nm not in BUILTIN_METHODS) for t in ts]
        return []

    # ------------------------------------------------------------ origins
    def of_func(self, fn):
        if fn in self.memo:
            return self.memo[fn]
        if fn in self.busy:
            return []
        self.busy.add(fn)
        m, q, cls = self.funcs[fn]
        r = self.block(fn.body, m, fn)
        self.busy.discard(fn)
        self.memo[fn] = r
        return r

    def dedupe(self, l):
        d = {}
        for o in l:
            k = o.key()
            if k not in d or (o.sure and not d[k].sure):
                d[k] = o
        return list(d.values())

    def block(self, stmts, m, fn):
        out = []
        for s in stmts:
            out += self.stmt(s, m, fn)
        return self.dedupe(out)

    def stmt(self, s, m, fn):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return []
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            body = self.block(s.body, m, fn)
            out = [o for o in body if not any(self.fl.catches(self.fl.types(h.type), o.etype) for h in s.handlers)]
            for h in s.handlers:
                got = [o for o in body if self.fl.catches(self.fl.types(h.type), o.etype)]
                hb = self.block(h.body, m, fn)
                if any(isinstance(x, ast.Raise) and x.exc is None for b in h.body for x in ast.walk(b)):
                    hb = hb + got
                out += hb
            return self.dedupe(out + self.block(s.orelse, m, fn) + self.block(s.finalbody, m, fn))
        out = []
        if isinstance(s, ast.With):
            sup = []
            for it in s.items:
                c = it.context_expr
                if isinstance(c, ast.Call) and ast.unparse(c.func).split('.')[-1] == 'suppress':
                    sup += [ast.unparse(t).split('.')[-1] for t in c.args]
                else:
                    out += self.expr(c, m, fn)
            body = self.block(s.body, m, fn)
            return out + [o for o in body if not (sup and self.fl.catches(sup, o.etype))]
        if isinstance(s, ast.Raise):
            if s.exc is None:
                return []
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(e).split('.')[-1]
            q = self.funcs[fn][1] if fn in self.funcs else m.name
            return self.expr(s.exc, m, fn) + [Origin('raise', name, q, s, m)]
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(s, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                out += self.block(v, m, fn)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                out += self.expr(c, m, fn)
            elif isinstance(c, ast.match_case if hasattr(ast, 'match_case') else ()):
                out += self.block(c.body, m, fn)
        return self.dedupe(out)

    def expr(self, e, m, fn):
        out = []
        q0 = self.funcs[fn][1] if fn in self.funcs else m.name
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                q = self.name(x, m)
                base = '.' + q.rsplit('.', 1)[-1] if '.' in q else q
                k = IO.get(q)
                if k is None and q.startswith('.'):
                    k = IO.get(q)
                if k:
                    if k == 'read':
                        mode = None
                        for a in list(x.args[1:2] if not q.startswith('.') else x.args[:1]) + \
                                [z.value for z in x.keywords if z.arg == 'mode']:
                            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                                mode = a.value
                        if mode and any(c in mode for c in 'wax+'):
                            k = 'write'
                    out.append(Origin('io.' + k, 'OSError', q0, x, m))
                    if k in ('json', 'yaml', 'read'):
                        out.append(Origin('io.' + k, 'ValueError', q0, x, m))
                if q in EXIT or q == 'esp_pylib.logger.log.die':
                    out.append(Origin('exit', 'SystemExit', q0, x, m))
                for t, sure in self.targets(x, m, fn):
                    if t in self.funcs:
                        self.edges.setdefault(fn, set()).add(t)
                        for o in self.of_func(t):
                            if not sure or not o.sure:
                                o = Origin(o.kind, o.etype, o.q, o.node, o.mod, False)
                            out.append(o)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr in self.props:
                ts = self.props[x.attr]
                for t in ts:
                    self.edges.setdefault(fn, set()).add(t)
                    for o in self.of_func(t):
                        out.append(Origin(o.kind, o.etype, o.q, o.node, o.mod, False))
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and fn is not None:
                # functions passed as values
                for y in ast.walk(fn):
                    if isinstance(y, ast.FunctionDef) and y is not fn and y.name == x.id:
                        self.edges.setdefault(fn, set()).add(y)
                        out += [Origin(o.kind, o.etype, o.q, o.node, o.mod, False) for o in self.of_func(y)]
        return self.dedupe(out)

    def reach(self, fn):
        """q names of functions reachable from fn."""
        self.of_func(fn)
        seen, todo = set(), [fn]
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            todo += self.edges.get(f, ())
        return {self.funcs[f][1] for f in seen if f in self.funcs}
