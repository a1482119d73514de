"""Parses the package under analysis (never imports it) and resolves names."""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'esp_idf_size'


class AnchorMissing(Exception):
    """A public entry point the property talks about does not exist any more."""


class SortedLists(ast.NodeTransformer):
    """`x = list(e)` (or a list comprehension) directly followed by `x.sort(...)` is `x = sorted(e, ...)`."""

    def generic_visit(self, node):
        super().generic_visit(node)
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(node, fld, None)
            if isinstance(b, list) and len(b) > 1:
                setattr(node, fld, self.block(b))
        return node

    def block(self, body):
        out = []
        for n in body:
            p = out[-1] if out else None
            if self.copied(p) and isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not n.value.args and \
                    isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'sort' and \
                    isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == self.target(p).id and \
                    not any(isinstance(x, ast.Name) and x.id == self.target(p).id for k in n.value.keywords for x in ast.walk(k)):
                v = p.value.args[0] if isinstance(p.value, ast.Call) else p.value.elts[0].value if isinstance(p.value, ast.List) else p.value
                p.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name('sorted', ast.Load()), n.value), [v], n.value.keywords),
                                            n.value)
                continue
            out.append(n)
        return out

    @staticmethod
    def target(p):
        return p.target if isinstance(p, ast.AnnAssign) else p.targets[0]

    def copied(self, p):
        if not (isinstance(p, ast.Assign) and len(p.targets) == 1 or isinstance(p, ast.AnnAssign)):
            return False
        v = p.value
        return isinstance(self.target(p), ast.Name) and (isinstance(v, ast.ListComp) or
                                                         isinstance(v, ast.List) and len(v.elts) == 1 and
                                                         isinstance(v.elts[0], ast.Starred) or isinstance(v, ast.Call) and
                                                         isinstance(v.func, ast.Name) and v.func.id == 'list' and
                                                         len(v.args) == 1 and not v.keywords)


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = SortedLists().visit(ast.parse(src, path))
        self.funcs = {}
        self.classes = {}
        self.assigns = {}
        self.imports = {}     # local name -> dotted target
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for nm in ast.walk(t):
                        if isinstance(nm, ast.Name):
                            self.assigns.setdefault(nm.id, []).append((t, n.value))
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.assigns.setdefault(n.target.id, []).append((n.target, n.value))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.assigns.setdefault(n.target.id, []).append((n.target, None))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    base = PKG + ('.' + base if base else '')
                for a in n.names:
                    self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(n.body)
                for h in getattr(n, 'handlers', []):
                    self._scan(h.body)
                self._scan(n.orelse)
            elif isinstance(n, ast.With):
                self._scan(n.body)


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, PKG)
        if not os.path.isdir(self.root):
            raise AnchorMissing(f'package {PKG} not found in {self.repo}')
        self.modules = {}
        for d, dirs, files in os.walk(self.root):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('__init__'):
                        rel = rel[:-len('.__init__')] if '.' in rel else '__init__'
                    with open(p, encoding='utf-8') as fd:
                        src = fd.read()
                    self.modules[rel] = Module(rel, p, src)

    def module(self, name):
        if name not in self.modules:
            raise AnchorMissing(f'module {PKG}.{name} is gone')
        return self.modules[name]

    def func(self, mod, name, public=True):
        m = self.module(mod)
        if '.' in name:
            c, f = name.split('.')
            cn = m.classes.get(c)
            if cn is not None:
                for x in cn.body:
                    if isinstance(x, ast.FunctionDef) and x.name == f:
                        return x
        elif name in m.funcs:
            return m.funcs[name]
        # moved to another module and imported back?
        tgt = m.imports.get(name.split('.')[0])
        if tgt and tgt.startswith(PKG + '.'):
            parts = tgt.split('.')
            mod2 = '.'.join(parts[1:-1])
            if mod2 in self.modules and mod2 != mod:
                rest = name.split('.')[1:]
                return self.func(mod2, '.'.join([parts[-1]] + rest), public)
        if public:
            raise AnchorMissing(f'{mod}.{name} is gone')
        return None

    def func_module(self, node):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if n is node:
                    return m
        return None

    def nfuncs(self):
        return sum(isinstance(n, (ast.FunctionDef, ast.Lambda)) for m in self.modules.values() for n in ast.walk(m.tree))
