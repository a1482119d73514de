"""Abstract interpretation of memory map functions on small maps whose sizes are unknown numbers.

The shape of a map (which entries exist, below which parents, in which order) is fixed per scenario; every size is an unknown
number, so a comparison of linear forms decides a scenario for all sizes at once.  Conditions over sizes fork, and the
results are compared under the constraints of the path.  The scenarios complement the value-graph rules: they refute
changes that leave the vocabulary of those rules."""
import ast

from absint import Cannot, ExcInst, Explorer, Func, Interp, N, Prune, PyExc, nadd
from report import PROVED, REFUTED, UNKNOWN

LEVELS = ('memory_types', 'sections', 'archives', 'object_files', 'symbols')


def n(name):
    return N(0, {('num', name): 1})


def atleast(I, x, lo=0):
    """x >= lo"""
    if isinstance(x, N):
        c, k = I.lin(x)
        I.rows.append(({a: -v for a, v in c.items()}, -k + lo))


def apart(I, x, y):
    """Can x and y differ on this path?"""
    if x is y:
        return False
    num = lambda v: isinstance(v, (int, N)) and not isinstance(v, bool)   # noqa: E731
    if num(x) and num(y):
        d = nadd(x, y, -1)
        if not isinstance(d, N):
            return d != 0
        c, k = I.lin(d)
        return I.feasible([(c, k + 1)]) or I.feasible([({a: -v for a, v in c.items()}, -k + 1)])
    if isinstance(x, (int, N)) != isinstance(y, (int, N)):
        return True
    try:
        return not (x == y)
    except Exception:
        raise Cannot('comparison')


class Bad(Exception):
    pass


def expect(I, got, want, what):
    if apart(I, got, want):
        raise Bad(f'{what} is {got!r}, not {want!r}' + (' when ' + ', '.join(f'{a}={b}' for a, b in I.notes[-4:]) if getattr(I, 'notes', None) else ''))


def table(x, what):
    if not isinstance(x, dict):
        raise Cannot(f'{what} is no dict')
    return x


def fields(I, got, want, what):
    table(got, what)
    for k, v in want.items():
        if k not in got:
            raise Bad(f'{what} has no {k}')
        expect(I, got[k], v, f'{k} of {what}')


def keys(got, want, what):
    table(got, what)
    for k in want:
        if k not in got:
            raise Bad(f'{k!r} is missing in {what}')
    for k in got:
        if k not in want:
            raise Bad(f'{k!r} is an unexpected entry of {what}')


def build(I, spec, side, diffs=False, abbrev=None, path=(), facts=True):
    """Memory map of the documented structure. spec: nested dicts of names; sizes are named after the entries.

    Object files add up to their archive and sections to the usage of their type, as in every map get() returns."""
    ab = abbrev or (lambda lv, x: x)

    def entry(lv, path, sub):
        tag = f'{side}:{"/".join(path)}'
        e = {}
        if lv > 0:
            e['abbrev_name'] = ab(LEVELS[lv], path[-1])
        kids = {}
        if lv < 4:
            for k, s in (sub or {}).items():
                kids[k] = entry(lv + 1, path + (k,), s)
        size = n(tag)
        df = n('diff ' + tag) if diffs else 0
        if lv == 2:
            size = df = 0
            for k in kids.values():
                size, df = nadd(size, k['size']), nadd(df, k['size_diff'])
            if not diffs:
                df = 0
        if facts and isinstance(size, N):
            atleast(I, size)
        e['size'], e['size_diff'] = size, df
        if lv == 0:
            u, ud = 0, 0
            for k in kids.values():
                u, ud = nadd(u, k['size']), nadd(ud, k['size_diff'])
            e['used'], e['used_diff'] = u, ud if diffs else 0
        if lv < 4:
            e[LEVELS[lv + 1]] = kids
        return e
    m = {'version': '1.1', 'target': f'{side} target', 'target_diff': '', 'image_size': n(f'{side}:image'),
         'image_size_diff': n(f'diff {side}:image') if diffs else 0, 'project_path': f'/{side}/app.map', 'project_path_diff': ''}
    m['memory_types'] = {k: entry(0, (k,), s) for k, s in spec.items()}
    return m


def containers(x, out=None):
    out = {} if out is None else out
    if isinstance(x, (dict, list, set)) and id(x) not in out:
        out[id(x)] = x
        for y in (x.values() if isinstance(x, dict) else x):
            containers(y, out)
    return out


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clone(v) for v in x]
    return x


def equal(I, x, y, what):
    if isinstance(x, dict) and isinstance(y, dict):
        keys(x, y, what)
        for k in y:
            equal(I, x[k], y[k], f'{what}[{k!r}]')
    elif isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            raise Bad(f'{what} has {len(x)} entries, not {len(y)}')
        for i, (a, b) in enumerate(zip(x, y)):
            equal(I, a, b, f'{what}[{i}]')
    else:
        expect(I, x, y, what)


def function(P, mod, name):
    m = P.modules.get(mod)
    if m is None or name not in m.funcs:
        return None
    return Func(m.funcs[name], m)


def private(P, mod, name, params, result):
    """A private helper with the contract the scenarios assume, else None: parameters in this order, and a result or changes in place."""
    f = function(P, mod, name)
    if f is None:
        return None
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if len(names) - len(a.defaults) > len(params) or len(names) < len(params) or any(d is None for d in a.kw_defaults):
        return None
    if names[:len(params)] != list(params) and set(names) & set(params) and any(n in params and params.index(n) != i for i, n in enumerate(names)):
        return None
    own, todo = [], list(f.node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        own.append(n)
        todo += ast.iter_child_nodes(n)
    gives = any(isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None) or
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own)
    return f if gives == result else None


QUIET = {f'{q}.{x}': (lambda I, a, k: None) for q in ('esp_pylib.logger.log', 'log') for x in ('debug', 'warn', 'err', 'note', 'print', 'eprint', 'hint')}


def ob(c, P, oid, rule, where, body, hooks=None, limit=400, fuel=120000, inner=False):
    """body(I) interprets and compares; Bad refutes.  inner: the function works on data only the package itself sees."""
    def go():
        res = {}
        ex = Explorer(limit)

        def path(choose):
            I = Interp(P, choose, dict(QUIET, **(hooks or {})), fuel=fuel)
            try:
                body(I)
            except Bad as e:
                if not I.feasible([]):
                    raise Prune()
                res['r'] = str(e)
                raise StopIteration
            except PyExc as e:
                x = e.inst
                t = getattr(x, 'etype', None)
                if t == 'KeyError' and not inner:
                    res['r'] = f'a lookup of {getattr(x, "args", ("?",))!r} fails'
                    raise StopIteration
                res.setdefault('u', f'raises {t or x}')
            except Cannot as e:
                res.setdefault('u', str(e))
            except RecursionError:
                res.setdefault('u', 'recursion')
        done = True
        try:
            done = ex.run(path)
        except StopIteration:
            pass
        c.count('paths', ex.paths)
        if 'r' in res:
            return REFUTED, res['r'], where
        if 'u' in res:
            return UNKNOWN, res['u']
        if not done:
            return UNKNOWN, f'more than {limit} paths'
        return PROVED, f'{ex.paths} paths'
    c.ob(oid, rule, go, where)


def union(order):
    """Shapes of two maps: at every level below common parents some entries are common, some on one side only."""
    def chain(lv, tag):
        if lv > 4:
            return {}
        return {f'{tag}{lv}': chain(lv + 1, tag), f'{tag}{lv}x': {}}

    def rec(lv):
        a, b = {}, {}
        if lv == 5:
            return a, b
        for who in order(lv):
            k = f'{who}{lv}'
            if who[0] == 'b':
                a[k], b[k] = rec(lv + 1)
            elif who[0] == 'c':
                a[k] = chain(lv + 1, who)
            else:
                b[k] = chain(lv + 1, who)
        return a, b
    return rec(0)


ORDERS = {'common first': lambda lv: ('b', 'c', 'r'), 'common last': lambda lv: ('r', 'c', 'b'), 'several': lambda lv: ('r', 'r-', 'b', 'c', 'c-'),
          'disjoint': lambda lv: ('c', 'r'), 'only common': lambda lv: ('b',),
          'two common': lambda lv: ('b', 'r', 'b-') if lv < 3 else ('r', 'b', 'c', 'b-', 'r-')}


class Rec:
    """Object with the given attributes only."""

    def __init__(self, **attrs):
        self.__dict__['attrs'] = attrs

    def abs_attr(self, I, n):
        if n not in self.attrs:
            raise Cannot(f'attribute {n}')
        return self.attrs[n]

    def abs_truth(self, I):
        return True

    def __repr__(self):
        return f'<{self.attrs.get("name", "object")}>'


def must(I, x, what, lo=0):
    """x >= lo on this path"""
    x = nadd(x, -lo)
    if not isinstance(x, N):
        if x < 0:
            raise Bad(what)
        return
    c, k = I.lin(x)
    if I.feasible([(c, k + 1)]):
        raise Bad(what)


def can(I, *xs):
    """Can all xs be positive at once on this path?"""
    rows = []
    for x in xs:
        if not isinstance(x, N):
            if x <= 0:
                return False
            continue
        c, k = I.lin(x)
        rows.append(({a: -v for a, v in c.items()}, -k + 1))
    return I.feasible(rows)


def chain(I, parts, start, what):
    """The parts, (address, length, ...) tuples, in the order in which they follow each other from start."""
    rest, out, at = list(parts), [], start
    while rest:
        for p in rest:
            if not apart(I, p[0], at):
                break
        else:
            raise Bad(f'no part of {what} starts at {at!r}')
        rest.remove(p)
        out.append(p)
        at = nadd(at, p[1])
    return out, at


OPTIONS = {'archives': False, 'archive_details': None, 'archive_dependencies': False, 'dep_symbols': False, 'dep_reverse': False, 'files': False,
           'diff': None, 'show_unchanged': False, 'show_unused': False, 'unify': False, 'filter': None, 'sort': None, 'sort_diff': False,
           'sort_reverse': False, 'abbrev': True, 'format': 'table', 'output_file': None, 'debug': False, 'quiet': False, 'no_color': False,
           'force_terminal': False, 'no_abbrev': False, 'lto': False, 'use_flash_size': False, 'ignore_unmapped': False, 'doc': False,
           'input_file': 'app.map'}


def options(**kw):
    return dict(OPTIONS, **kw)


def several(names, depth=5):
    """Every level holds the same names."""
    return {k: several(names, depth - 1) for k in names} if depth else {}


def mixed():
    """Entries of one name below several parents, parents without children, children of one type only."""
    s = lambda *x: {k: {} for k in x}   # noqa: E731
    return {'T1': {'S1': {'A': {'o': s('f', 'g'), 'p': s('f')}, 'B': {'o': s('f')}}, 'S2': {'A': {'o': s('g')}}, 'S0': {}},
            'T2': {'S1': {'B': {'o': s('f', 'h'), 'q': {}}, 'A': {'p': s('f')}}, 'S3': {'C': {'o': s('f')}}}, 'T0': {}}


def native(f):
    def g(I, args, kw):
        return f(*args, **kw)
    g.abs_call = True
    return g


class TableStub(Rec):
    """rich.table.Table: columns and rows as they are added"""

    def __init__(self, **kw):
        Rec.__init__(self, columns=[], rows=[], title=kw.get('title'), name='table')
        self.attrs['add_column'] = native(self.add_column)
        self.attrs['add_row'] = native(self.add_row)

    def add_column(self, header='', *a, **kw):
        self.attrs['columns'].append(Rec(header=header, name=header))

    def add_row(self, *cells, **kw):
        self.attrs['rows'].append(list(cells))


def namedtuple(I, args, kw):
    names = args[1] if not isinstance(args[1], str) else args[1].replace(',', ' ').split()
    names = list(names)

    def make(*a, **k):
        d = dict(zip(names, a), **k)
        if len(d) != len(names):
            raise Cannot('fields of a named tuple')
        return Rec(name=args[0], **{x: d[x] for x in names}) if 'name' not in names else Rec(**d)
    return native(make)


class Cell:
    """Text of a figure and its difference."""

    def __init__(self, size, diff, shown):
        self.size, self.diff, self.shown = size, diff, shown

    def __repr__(self):
        return f'{self.size!r} {self.diff!r}' if self.shown else f'{self.size!r}'


def cell(I, args, kw):
    a = list(args) + [None] * (3 - len(args))
    for i, k in enumerate(('size', 'size_diff', 'diff')):
        if k in kw:
            a[i] = kw[k]
    return Cell(a[0], a[1], bool(a[2]))


TABLE = {'rich.table.Table': lambda I, a, k: TableStub(**k), 'collections.namedtuple': namedtuple, 'namedtuple': namedtuple,
         'format_table.color_diff': cell, 'format_table.color_size': cell}
