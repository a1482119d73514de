"""C04: reports are a deterministic function of the inputs."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import order
from report import main
from vg import *

RULE = ('taint analysis of nondeterminism: values without a defined order (sets, key-view algebra, directory listings, completion '
        'order) are inferred through variables, dictionary slots, attributes, parameters and results, and no order-sensitive '
        'consumer (loop building ordered data, list conversion, join, first element, sort key with ties, formatting) may take '
        'one; clocks, randomness, process identity, object identity and string hashes may not be read outside debug logging.')

CLOCK = {'time.time', 'time.time_ns', 'time.monotonic', 'time.perf_counter', 'time.localtime', 'time.gmtime', 'time.strftime',
         'time.ctime', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today',
         'os.times', 'time.process_time', 'datetime.now', 'date.today'}
RANDOM = {'uuid.uuid1', 'uuid.uuid4', 'os.urandom', 'os.getpid', 'os.getppid', 'secrets', 'random', 'socket.gethostname',
          'platform.node', 'getpass.getuser', 'os.getlogin', 'tempfile.mktemp', 'threading.get_ident', 'os.getloadavg',
          'numpy.random'}
STAT = {'os.path.getmtime', 'os.path.getctime', 'os.path.getatime'}


def check(c):
    P = Project()
    P.func('main', 'main')
    O = order.Order(P)
    c.counts.update(functions=len(O.fns), expressions=sum(isinstance(n, ast.expr) for n in O.mod_of))

    uses = O.uses()
    for m in P.modules.values():
        def f(m=m):
            mine = [u for u in uses if O.mod_of.get(u[0]) is m]
            for n, v, what in mine:
                if v is True:
                    fn = O.fn_of.get(n)
                    return REFUTED, f'{what} depends on the order of an unordered value: {cut(ast.unparse(n).splitlines()[0], 120)}', \
                        f'{m.path}:{n.lineno} {getattr(fn, "name", "")}'
            unk = [u for u in mine if u[1] is None]
            if unk:
                return UNKNOWN, f'{unk[0][2]} over an unordered value at {m.path}:{unk[0][0].lineno}'
            return PROVED, f'{len(mine)} uses of unordered values, none order-sensitive'
        c.ob(f'{m.name}.order', 'no order-sensitive use of an unordered value', f, m.path)

        def g(m=m):
            unk = None
            n0 = 0
            for n, mm_ in O.mod_of.items():
                if mm_ is not m or not isinstance(n, ast.Call):
                    continue
                n0 += 1
                q = dotted(n.func, m)
                if q is None:
                    continue
                if q in CLOCK or q in RANDOM or q.split('.')[0] in ('random', 'secrets') and '.' in q or q in STAT:
                    r = sink(O, n, m)
                    if r is True:
                        return REFUTED, f'the result depends on {q}', f'{m.path}:{n.lineno} {getattr(O.fn_of.get(n), "name", "")}'
                    unk = q
                elif q in ('id', 'hash') and n.args:
                    p, inkey = n, False
                    while p is not None and not isinstance(p, ast.stmt):
                        if isinstance(p, ast.keyword) and p.arg == 'key' or isinstance(p, ast.FormattedValue):
                            inkey = True
                        p = O.parent.get(p)
                    if inkey:
                        return REFUTED, f'{q}() decides order or content', f'{m.path}:{n.lineno}'
                    unk = q
            # id/hash passed as key function
            for n, mm_ in O.mod_of.items():
                if mm_ is m and isinstance(n, ast.keyword) and n.arg == 'key' and isinstance(n.value, ast.Name) and \
                        n.value.id in ('id', 'hash'):
                    return REFUTED, f'sorted by {n.value.id}()', f'{m.path}:{n.value.lineno}'
            return (UNKNOWN, f'{unk} is read') if unk else (PROVED, f'{n0} calls')
        c.ob(f'{m.name}.sources', 'no clock, randomness, process or object identity reaches the report', g, m.path)


def dotted(f, m):
    if isinstance(f, ast.Name):
        return m.imports.get(f.id, f.id)
    if isinstance(f, ast.Attribute):
        b = dotted(f.value, m)
        return f'{b}.{f.attr}' if b else None
    return None


def sink(O, n, m):
    """True when the value may reach something else than debug logging."""
    p = n
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.Call) and p is not n:
            q = dotted(p.func, m) or ''
            if q.endswith(('.debug', '.eprint', '.warn', '.err')):
                return False
        p = O.parent.get(p)
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        nm = p.targets[0].id
        fn = O.fn_of.get(n)
        for x in ast.walk(fn) if fn is not None else ():
            if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load):
                if sink(O, x, m):
                    return True
        return False
    if isinstance(p, ast.Expr) and p.value is n:
        return False
    return True


if __name__ == '__main__':
    main('C04', RULE, check, floor=20, assumptions=[
        'dictionaries keep insertion order', 'list.sort and sorted are stable'])
