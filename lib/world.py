"""Concrete evaluation of value graphs in a small model of the file system (witness search for path and side-file rules).

A World is a dict path -> content: ('json', obj), 'garbage' (readable, not JSON/ELF/map), 'noperm' (OSError on open), 'elf', 'badelf'
(Elf raises Elf_Exception), 'map'.  Functions of the analysed module are evaluated from their own value graphs, never executed."""
import ntpath  # noqa: F401
import os.path
import pathlib
import posixpath

from vg import *

PUREFN = {n: getattr(posixpath, n[8:]) for n in ('os.path.join', 'os.path.dirname', 'os.path.basename', 'os.path.splitext', 'os.path.split',
                                                 'os.path.normpath', 'os.path.isabs', 'os.path.commonprefix', 'os.path.commonpath')}


class Raised(Exception):
    def __init__(self, etype, why=''):
        self.etype, self.why = etype, why


class Cannot(Exception):
    pass


class Obj:
    def __init__(self, kind, **kw):
        self.kind, self.__dict__ = kind, {'kind': kind, **kw}

    def __repr__(self):
        return self.kind


MRO = {'FileNotFoundError': ('OSError',), 'PermissionError': ('OSError',), 'IsADirectoryError': ('OSError',), 'UnicodeDecodeError': ('ValueError',),
       'JSONDecodeError': ('ValueError',), 'Elf_Exception': ('FatalError', 'RuntimeError'), 'MapFileException': ('FatalError', 'RuntimeError'),
       'MemMapException': ('FatalError', 'RuntimeError'), 'KeyError': ('LookupError',), 'IndexError': ('LookupError',),
       'RecursionError': ('RuntimeError',), 'OSError': ('IOError', 'EnvironmentError')}
ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError', 'json.JSONDecodeError': 'JSONDecodeError', 'json.decoder.JSONDecodeError': 'JSONDecodeError'}


def catches(types, etype):
    up, todo = set(), [etype]
    while todo:
        x = todo.pop()
        up.add(x)
        todo += MRO.get(x, ())
    up |= {'Exception', 'BaseException'}
    for t in types:
        t = ALIAS.get(t, t)
        if t in up or str(t).split('.')[-1] in up:
            return True
    return False


class World:
    def __init__(self, P, mod, files, cwd='/cwd', graphs=None, objs=None):
        self.P, self.mod, self.files, self.cwd = P, mod, files, cwd
        self.graphs = graphs if graphs is not None else {}
        self.objs = objs or {}
        self.opened = []
        self.depth = 0

    def norm(self, p):
        p = str(p)
        return posixpath.normpath(posixpath.join(self.cwd, p))

    def graph(self, name):
        if name not in self.graphs:
            m = self.P.module(self.mod)
            stop = tuple(f'{self.mod}.{n}' for n in m.funcs if n != name)
            self.graphs[name] = run(self.P, self.mod, name, stop=stop)
        return self.graphs[name]

    def call(self, name, args, kw=None):
        """Result of a module function on concrete arguments; raises Raised/Cannot."""
        self.depth += 1
        if self.depth > 12:
            raise Cannot('recursion')
        try:
            E, v, a = self.graph(name)
            return Act(self, name, E, v, self.bind(name, args, kw or {})).result()
        finally:
            self.depth -= 1

    def bind(self, name, args, kw):
        node = self.P.func(self.mod, name)
        ps = params(node)
        env = dict(zip(ps, args))
        env.update(kw)
        d = node.args.defaults
        pos = [x.arg for x in node.args.posonlyargs + node.args.args]
        for p, x in zip(pos[len(pos) - len(d):], d):
            if p not in env:
                try:
                    env[p] = ast.literal_eval(x)
                except ValueError:
                    raise Cannot('default')
        return env

    def act(self, name, args, kw=None):
        E, v, a = self.graph(name)
        return Act(self, name, E, v, self.bind(name, args, kw or {}))

    # ------------------------------------------------ library model
    def open(self, p):
        q = self.norm(p)
        self.opened.append(q)
        c = self.files.get(q)
        if c is None:
            raise Raised('FileNotFoundError', q)
        if c == 'noperm':
            raise Raised('PermissionError', q)
        return Obj('file', content=c, path=q)

    def lib(self, name, args, kw):
        if name in PUREFN:
            try:
                return PUREFN[name](*args)
            except TypeError as e:
                raise Raised('TypeError', str(e))
        if name in ('os.path.abspath', 'os.path.realpath'):
            return self.norm(args[0])
        if name in ('os.path.isfile', 'os.path.exists', 'os.access'):
            return self.norm(args[0]) in self.files
        if name in ('os.fspath', 'str') and len(args) == 1:
            return str(args[0])
        if name in ('pathlib.Path', 'pathlib.PurePath', 'Path', 'pathlib.PosixPath'):
            return pathlib.PurePosixPath(*args)
        if name in ('os.getcwd', 'pathlib.Path.cwd', 'Path.cwd'):
            return self.cwd if name == 'os.getcwd' else pathlib.PurePosixPath(self.cwd)
        if name == 'open':
            return self.open(args[0])
        if name in ('json.load', 'json.loads'):
            x = args[0]
            if isinstance(x, Obj) and x.kind in ('file', 'text'):
                if isinstance(x.content, tuple) and x.content[0] == 'json':
                    return x.content[1]
                raise Raised('JSONDecodeError', 'not JSON')
            raise Cannot('json')
        if name == 'elf.Elf':
            f = self.open(args[0])
            if f.content == 'elf':
                return Obj('Elf', path=f.path)
            raise Raised('Elf_Exception', 'not an ELF file')
        if name == 'mapfile.MapFile':
            f = self.open(args[0])
            if isinstance(f.content, tuple) and f.content[0] == 'map':
                return Obj('MapFile', path=f.path, target=f.content[1])
            raise Raised('MapFileException', 'not a map')
        if name in ('dict', 'list', 'tuple', 'bool', 'len', 'int') and len(args) <= 1:
            return getattr(__builtins__, name, None)(*args) if not isinstance(__builtins__, dict) else __builtins__[name](*args)
        raise Cannot(f'call {name}')


class Act:
    """One activation: a value graph with concrete parameters."""

    def __init__(self, W, name, E, v, env):
        self.W, self.name, self.E, self.v, self.env = W, name, E, v, env
        self.memo = {}
        self.exc = {}
        self.evs = E.events(('call', 'raise'))

    def result(self):
        self.effects()
        return self.val(self.v)

    def effects(self):
        """Raise what escapes the activation."""
        for e, ch in self.evs:
            if ch:
                continue
            if e.kind == 'raise':
                if self.cond(e.guard):
                    t = e.val
                    nm = str(t.args[0]).split('.')[-1] if t is not None and t.op == 'call' else 'Exception'
                    raise Raised(nm, 'raise')
            elif self.relevant(e) and self.cond(e.guard):
                self.docall(e)

    def relevant(self, e):
        n = e.key.args[0]
        return isinstance(n, str) and (n in ('open', 'json.load', 'json.loads', 'elf.Elf', 'mapfile.MapFile') or n.split('.')[0] == self.W.mod and
                                       n.split('.')[-1] in self.W.P.module(self.W.mod).funcs)

    def docall(self, e):
        a = e.val.args
        t = T('call', e.key.args[0], a[0], a[1]) if len(a) > 1 and a[1] else T('call', e.key.args[0], a[0])
        return self.val(t)

    def cond(self, b):
        while b.atom is not None:
            try:
                b = b.hi if self.truth(b.atom) else b.lo
            except (Raised, Cannot):
                # the atom is out of its domain here: harmless if the outcome does not depend on it
                x, y = self.cond(b.hi), self.cond(b.lo)
                if x == y:
                    return x
                raise
        return b is BT

    def truth(self, a):
        if a.op == 'exc':
            return self.excs(a)
        if a.op == 'exctype':
            for k, v in self.exc.items():
                if k[0] == a.args[0]:
                    return bool(v) and catches(a.args[1], v)
            raise Cannot('exctype')
        v = self.val(a)
        return bool(v)

    def excs(self, a):
        k = (a.args[0], a.args[1])
        if k in self.exc:
            return bool(self.exc[k])
        self.exc[k] = ''
        memo, self.memo = self.memo, {}
        try:
            for e, ch in self.evs:
                if e.kind != 'call' or not self.relevant(e) or ch:
                    continue
                if not self.inside(a.args[0], e.node):
                    continue
                try:
                    if self.cond(e.guard):
                        self.docall(e)
                except Raised as r:
                    if catches(a.args[1], r.etype):
                        self.exc[k] = r.etype
                        return True
                    raise
        finally:
            self.memo = memo
        return False

    def inside(self, site, node):
        k = ('try', site)
        if k not in self.W.graphs:
            m, line = site.split(':')
            ts = [t for t in ast.walk(self.W.P.module(m).tree) if isinstance(t, ast.Try) and t.lineno == int(line)]
            self.W.graphs[k] = {id(x) for s in ts[0].body for x in ast.walk(s)} if ts else None
        if self.W.graphs[k] is None:
            raise Cannot('try statement not found')
        return id(node) in self.W.graphs[k]

    def val(self, t):
        if t in self.memo:
            return self.memo[t]
        v = self._val(t)
        self.memo[t] = v
        return v

    def _val(self, t):
        op, a = t.op, t.args
        if op == 'const':
            return a[0]
        if op == 'param':
            if a[0] in self.env:
                return self.env[a[0]]
            raise Cannot(f'param {a[0]}')
        if op in ('phi', 'ite'):
            return self.val(a[1]) if self.cond(a[0]) else self.val(a[2])
        if op == 'tuple':
            return tuple(self.val(x) for x in (a[0] if a and isinstance(a[0], tuple) else a))
        if op == 'cat':
            return ''.join(str(self.val(x)) for x in a)
        if op == 'str':
            return str(self.val(a[0]))
        if op == 'isnone':
            return self.val(a[0]) is None
        if op == 'truthy':
            return bool(self.val(a[0]))
        if op in ('eq', 'eqc'):
            return self.val(a[0]) == self.val(a[1])
        if op == 'in':
            return self.val(a[0]) in self.val(a[1])
        if op == 'swith':
            return self.val(a[0]).startswith(self.val(a[1]))
        if op == 'ewith':
            return self.val(a[0]).endswith(self.val(a[1]))
        if op == 'isinst':
            v = self.val(a[0])
            ks = a[1] if isinstance(a[1], tuple) else (a[1],)
            names = [str(x.args[0] if isinstance(x, Term) else x) for x in ks]
            if isinstance(v, Obj):
                return any(n.split('.')[-1] == v.kind for n in names)
            return any(type(v).__name__ == n or n == 'object' or (n == 'int' and isinstance(v, bool)) for n in names)
        if op == 'idx':
            o, k = self.val(a[0]), self.val(a[1])
            if isinstance(o, Obj):
                raise Cannot('index')
            try:
                return o[k]
            except (KeyError, IndexError, TypeError) as e:
                raise Raised(type(e).__name__, str(e))
        if op == 'attr':
            o = self.val(a[0])
            n = a[1].args[0] if isinstance(a[1], Term) else a[1]
            if isinstance(o, Obj):
                if n in o.__dict__:
                    return o.__dict__[n]
                return Obj('attr')
            if isinstance(o, pathlib.PurePath) and n in ('name', 'stem', 'suffix', 'parent'):
                return getattr(o, n)
            raise Cannot(f'attr {n}')
        if op in ('mcall', 'call'):
            if op == 'mcall':
                m, o = a[0], self.val(a[1])
                rest = [self.val(x) for x in a[2]]
                kw = {k: self.val(x) for k, x in a[3]} if len(a) > 3 else {}
                if isinstance(o, Obj) and o.kind == 'file' and m in ('read',):
                    return Obj('text', content=o.content)
                if isinstance(o, pathlib.PurePath):
                    if m == 'open':
                        return self.W.open(o)
                    if m in ('is_file', 'exists'):
                        return self.W.norm(o) in self.W.files
                    if m in ('resolve', 'absolute'):
                        return pathlib.PurePosixPath(self.W.norm(o))
                    if m in ('read_text', 'read_bytes'):
                        return Obj('text', content=self.W.open(o).content)
                    if m in ('with_suffix', 'with_name', 'joinpath', 'as_posix'):
                        return getattr(o, m)(*rest)
                if isinstance(o, (str, dict, tuple, list)) and m in ('get', 'lower', 'upper', 'strip', 'split', 'rsplit', 'partition', 'rpartition',
                                                                      'startswith', 'endswith', 'removesuffix', 'removeprefix', 'find', 'rfind', 'replace',
                                                                      'join', 'keys', 'items', 'values', 'casefold'):
                    try:
                        return getattr(o, m)(*rest, **kw)
                    except (TypeError, AttributeError, ValueError) as e:
                        raise Raised(type(e).__name__, str(e))
                if o is None:
                    raise Raised('AttributeError', m)
                raise Cannot(f'method {m}')
            n = a[0]
            args = [self.val(x) for x in a[1]]
            kw = {k: self.val(x) for k, x in a[2]} if len(a) > 2 else {}
            if n.split('.')[0] == self.W.mod and n.split('.')[-1] in self.W.P.module(self.W.mod).funcs:
                return self.W.call(n.split('.')[-1], args, kw)
            return self.W.lib(n, args, kw)
        if op == 'add' and all(isinstance(self.val(x), str) for x in a):
            return ''.join(self.val(x) for x in a)
        if op == 'div':
            x, y = self.val(a[0]), self.val(a[1])
            if isinstance(x, pathlib.PurePath):
                return x / y
        if op == 'slice':
            x = self.val(a[0])
            lo, hi = (self.val(y) if isinstance(y, Term) else y for y in a[1:3])
            if isinstance(x, (str, tuple, list)):
                return x[lo:hi]
        raise Cannot(f'op {op} {cut(show(t), 80)}')
