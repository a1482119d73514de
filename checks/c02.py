"""C02: a run that fails never exits with success."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import cli
import flow
import raises
from report import main
from vg import *

RULE = ('exception-escape analysis: for every handler (except, suppress, finally with a jump) the exceptions its try body can '
        'raise are traced to their origins through the call graph; a handler that can complete normally may only take '
        'exceptions of optional side files (JSON descriptions, ELF) or of the consistency check, and must log them; every '
        'exit carries a non-zero status; memorymap.get lets no map or chip-description error escape under another type; '
        'path-sensitive flow: with the required data missing no path returns normally.')

ERR = {'MapFileException', 'MemMapException', 'Elf_Exception', 'FatalError'}


class Plain(flow.Hooks):
    """Flow over one handler body: can it complete?"""
    def __init__(self):
        self.unlogged = False

    def relevant(self, text):
        return False

    def inline(self, q):
        return True

    def default_raises(self, q):
        return False

    def call(self, fl, n, q, recv, args, kw, s, fr):
        if q in ('log.die', 'sys.exit', 'os._exit', 'exit') or q.endswith('log.die'):
            return [('exc', s, 'SystemExit')]
        if q.startswith('log.') or q.endswith('.die') or 'logger.log.' in q or q.startswith('logging.') or q in ('print', '.print'):
            if q.endswith('.die'):
                return [('exc', s, 'SystemExit')]
            return [('ok', s.with_ts('logged'), None)]
        return None


def completes(P, mod, fn, body, types):
    """[typestates] with which the statements can complete without raising."""
    h = Plain()
    fl = flow.Flow(P, h)
    fr = flow.Frame(mod, fn) if fn is not None else flow.Frame(mod, ast.parse('def f(): pass').body[0])
    s = flow.S(ts='silent')
    s.env[('exc', 'current')] = ('e', types[0])
    o = fl.block(body, [s], fr)
    return [x.ts for x in o.normal + o.brk + o.cont] + [x.ts for x, _ in o.ret]


def carried(fn, h):
    """A text made by the handler (from the exception, or naming the problem) and used after it: logged there?"""
    inside = {id(y) for b in h.body for y in ast.walk(b)}
    names = set()
    for b in h.body:
        for y in ast.walk(b):
            if isinstance(y, (ast.Assign, ast.AnnAssign)) and y.value is not None:
                text = any(isinstance(z, ast.JoinedStr) or isinstance(z, ast.Constant) and isinstance(z.value, str) and z.value or
                           h.name and isinstance(z, ast.Name) and z.id == h.name for z in ast.walk(y.value))
                for t in (y.targets if isinstance(y, ast.Assign) else [y.target]):
                    if text and isinstance(t, ast.Name):
                        names.add(t.id)
            if isinstance(y, ast.Return) and h.name and y.value is not None and \
                    any(isinstance(z, ast.Name) and z.id == h.name for z in ast.walk(y.value)):
                return UNKNOWN, 'the handler returns the problem to the caller'
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ('append', 'add') and h.name and \
                    any(isinstance(z, ast.Name) and z.id == h.name for a in y.args for z in ast.walk(a)):
                return UNKNOWN, 'the handler collects the problem'
    if not names:
        return None
    used = False
    for y in ast.walk(fn):
        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in names and id(y) not in inside and y.lineno > h.lineno:
            used = True
    return (UNKNOWN, f'the handler leaves the message {sorted(names)} to later code') if used else None


class Missing(flow.Hooks):
    """Flow with required data pinned to missing."""
    cap = 1500

    def __init__(self, inline, returns=None, rel=lambda t: False):
        self.inl = inline
        self.returns = returns or {}
        self.exits = set()
        self.rel = rel

    def relevant(self, text):
        return self.rel(text)

    def inline(self, q):
        return self.inl(q)

    def default_raises(self, q):
        return False

    def call(self, fl, n, q, recv, args, kw, s, fr):
        if q in self.returns:
            return [('ok', s, self.returns[q])]
        if q in ('log.die', 'sys.exit') or q.endswith('log.die'):
            self.exits.add((fr.mod.path, n.lineno))
            return [('exc', s, 'SystemExit')]
        return None


def check(c):
    P = Project()
    R = raises.Raises(P)
    where = loc(P, P.func('main', 'main'))
    getnode = P.func('memorymap', 'get')
    for fn in list(R.funcs):
        R.of_func(fn)
    val = P.func('mapfile', 'MapFile.validate', public=False)
    vq = R.reach(val) if val is not None else set()

    # ---- handlers
    nh = {}

    def judge(mod, fn, types, caught, body, node, what):
        q = R.funcs[fn][1] if fn in R.funcs else mod.name
        nh[q] = nh.get(q, 0) + 1
        oid = f'handler.{q}.{"+".join(sorted(types))}.{nh[q]}'
        at = f'{mod.path}:{node.lineno} {q}'

        def f():
            ts = completes(P, mod, fn, body, types) if body is not None else ['silent']
            if not ts:
                return PROVED, 'never completes normally'
            serious = [o for o in caught if o.kind != 'exit' or True]
            soft = False
            if mod.name == 'main' and body is not None and any(t in ('Exception', 'BaseException') for t in types):
                return REFUTED, f'{what} {types} turns any failure of a stage into a successful exit', at
            for o in serious:
                bad = None
                if o.kind == 'exit':
                    bad = f'the exit at {o.at()} is swallowed'
                elif o.kind == 'raise':
                    cls = R.fl.mro(o.etype)
                    if not any(x in ERR for x in cls):
                        continue
                    if o.q in vq:
                        soft = True
                        continue
                    if (o.etype == 'Elf_Exception' or o.mod.name == 'elf') and mod.name != 'main':
                        soft = True
                        continue
                    bad = f'{o.etype} raised at {o.at()} is swallowed'
                elif o.kind == 'io.write':
                    bad = f'the failed write at {o.at()} is swallowed'
                elif o.kind.startswith('io.'):
                    if o.mod.name == 'mapfile':
                        bad = f'the failed read of the map at {o.at()} is swallowed'
                    elif o.kind == 'io.yaml' or any(isinstance(x, ast.Call) and 'yaml' in ast.unparse(x.func) for x in
                                                    ast.walk(owner(R, o))):
                        bad = f'the failed read of the chip description at {o.at()} is swallowed'
                    else:
                        soft = True
                        continue
                if bad:
                    if o.sure:
                        return REFUTED, f'{what} {types}: {bad}', at
                    return UNKNOWN, f'{what} {types}: {bad}?'
            if soft and 'silent' in ts and body is not None:
                w = carried(fn if fn is not None else mod.tree, node)
                if w is not None:
                    return w
            if soft and 'silent' in ts:
                # narrowing handlers that only return a fallback may log before
                return REFUTED, f'{what} {types} drops a side file or consistency problem without any log message', at
            return PROVED, 'side file problem, logged' if soft else 'local computation only'
        c.ob(oid, 'handler does not swallow an error that must fail the run', f, at)

    def walk(mod, node, fn):
        for x in ast.iter_child_nodes(node):
            nf = x if isinstance(x, ast.FunctionDef) and x in R.funcs else fn
            if isinstance(x, ast.Try) or type(x).__name__ == 'TryStar':
                body = R.block(x.body, mod, fn)
                taken = set()
                for h in x.handlers:
                    types = R.fl.types(h.type)
                    got = [o for o in body if o.key() not in taken and R.fl.catches(types, o.etype)]
                    taken |= {o.key() for o in got}
                    judge(mod, fn, types, got, h.body, h, 'handler')
                if any(isinstance(y, (ast.Return, ast.Break, ast.Continue)) for b in x.finalbody for y in ast.walk(b)):
                    def leaves():
                        left = [o for o in body if o.key() not in taken and o.sure]
                        bad = [o for o in left if o.kind in ('exit', 'raise')]
                        if bad and any(isinstance(y, ast.Return) for b in x.finalbody for y in ast.walk(b)):
                            return REFUTED, f'return in finally swallows {bad[0].etype} from {bad[0].at()}', f'{mod.path}:{x.lineno}'
                        return UNKNOWN, 'jump in finally'
                    c.ob(f'finally.{mod.name}.{x.lineno}', 'finally does not swallow', leaves)
            if isinstance(x, ast.With):
                for it in x.items:
                    ce = it.context_expr
                    if isinstance(ce, ast.Call) and ast.unparse(ce.func).split('.')[-1] == 'suppress':
                        types = [ast.unparse(t).split('.')[-1] for t in ce.args]
                        got = [o for o in R.block(x.body, mod, fn) if R.fl.catches(types, o.etype)]
                        judge(mod, fn, types, got, None, x, 'suppress')
            walk(mod, x, nf)
    for mod in P.modules.values():
        walk(mod, mod.tree, None)
    c.counts.update(handlers=sum(nh.values()), functions=len(R.funcs))

    # ---- exits
    def status(a, mod):
        """True: never zero, False: can be zero, None: not decided"""
        if isinstance(a, ast.Constant):
            return bool(a.value)
        if isinstance(a, ast.JoinedStr):
            return True if any(isinstance(v, ast.Constant) and v.value for v in a.values) else None
        if isinstance(a, ast.UnaryOp) and isinstance(a.op, (ast.USub, ast.UAdd, ast.Invert)):
            return status(a.operand, mod) if isinstance(a.op, (ast.USub, ast.UAdd)) else None
        if isinstance(a, ast.IfExp):
            r = (status(a.body, mod), status(a.orelse, mod))
            return False if False in r else True if r == (True, True) else None
        if isinstance(a, ast.Compare) or isinstance(a, ast.UnaryOp) and isinstance(a.op, ast.Not):
            # one of the two values is zero; a test of the exception just caught is not decided here
            return None if names_caught(mod, a) else False
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ('int', 'bool') and len(a.args) == 1:
            return status(a.args[0], mod)
        if isinstance(a, ast.Name):
            vals = [y.value for y in ast.walk(mod.tree) if isinstance(y, (ast.Assign, ast.AnnAssign)) and y.value is not None and
                    any(isinstance(t, ast.Name) and t.id == a.id for t in (y.targets if isinstance(y, ast.Assign) else [y.target]))]
            r = [v.value if isinstance(v, ast.Constant) else None for v in vals]
            for f in ast.walk(mod.tree):
                if isinstance(f, ast.FunctionDef) and any(y is a for y in ast.walk(f)):
                    # a parameter: the calls are looked at themselves
                    d = f.args.posonlyargs + f.args.args
                    dflt = dict(zip([y.arg for y in d[::-1]], f.args.defaults[::-1]))
                    dflt.update({y.arg: v for y, v in zip(f.args.kwonlyargs, f.args.kw_defaults)})
                    if isinstance(dflt.get(a.id), ast.Constant):
                        r.append(dflt[a.id].value)
            return True if r and all(r) else None
        return None

    def names_caught(mod, a):
        caught = {y.name for y in ast.walk(mod.tree) if isinstance(y, ast.ExceptHandler) and y.name}
        return any(isinstance(y, ast.Name) and y.id in caught for y in ast.walk(a))

    def exits():
        n = 0
        open_ = []
        for mod in P.modules.values():
            for x in ast.walk(mod.tree):
                if not isinstance(x, ast.Call):
                    continue
                q = R.name(x, mod)
                if q.endswith('log.die') or q == 'log.die':
                    n += 1
                    for k in x.keywords:
                        if k.arg == 'exit_code':
                            r = status(k.value, mod)
                            if r is False:
                                return REFUTED, 'die with exit status 0', f'{mod.path}:{x.lineno}'
                            if r is None:
                                open_.append(f'{mod.path}:{x.lineno}')
                elif q in ('sys.exit', 'os._exit', 'exit', 'SystemExit'):
                    n += 1
                    a = x.args[0] if x.args else ast.Constant(0)
                    if in_handler(mod.tree, x):
                        r = status(a, mod)
                        if r is False:
                            return REFUTED, 'a failure exits with status 0', f'{mod.path}:{x.lineno}'
                        if r is None:
                            open_.append(f'{mod.path}:{x.lineno}')
        if open_:
            return UNKNOWN, f'status not decided at {open_}'
        return PROVED, f'{n} exits'
    c.ob('exits', 'every exit after a failure has a non-zero status', exits, where)

    def die():
        d = P.func('log', 'die', public=False)
        if d is None:
            return UNKNOWN, 'log.die not found'
        h = Missing(lambda q: False)
        got = []

        def call(fl, n, q, recv, args, kw, s, fr):
            got.append((q, n, args, kw))
            return [('exc', s, 'SystemExit')] if q.endswith('die') or q == 'sys.exit' else None
        h.call = call
        fl = flow.Flow(P, h)
        m = P.func_module(d)
        r = fl.invoke(m, d, None, None, [], {}, flow.S())
        calls = [(q, n, a, kw) for q, n, a, kw in got if q.endswith('.die') or q == 'sys.exit']
        w = f'{m.path}:{d.lineno} die'
        if not calls:
            return REFUTED, 'log.die does not end the process', w
        if r:
            return REFUTED, 'log.die can return', w
        q, n, a, kw = calls[0]
        v = kw.get('exit_code') if q.endswith('.die') else (a[0] if a else ('c', 0))
        if q.endswith('.die') and 'exit_code' not in kw:
            return PROVED, 'default exit status of esp_pylib'
        if v is None:
            return UNKNOWN, 'exit status not understood'
        if v[0] == 'c' and not v[1]:
            return REFUTED, 'log.die exits with status 0 by default', w
        return PROVED, f'exit status {v[1]}'
    c.ob('die', 'log.die ends the process with a non-zero status', die)

    # ---- library interface
    def library():
        o = R.of_func(getnode)
        n = 0
        for x in o:
            n += 1
            t = None
            if x.kind == 'raise' and x.etype == 'MapFileException':
                t = f'{x.etype} raised at {x.at()}'
            elif x.kind.startswith('io.') and x.kind != 'io.write' and x.etype == 'OSError' and (
                    x.mod.name == 'mapfile' or any(isinstance(y, ast.Call) and 'yaml' in ast.unparse(y.func)
                                                   for y in ast.walk(owner(R, x)))):
                t = f'OSError of {ast.unparse(x.node)[:40]} at {x.at()}'
            elif x.kind == 'exit':
                t = f'process exit at {x.at()}'
            if t:
                if x.sure:
                    return REFUTED, f'memorymap.get lets {t} escape instead of MemMapException', loc(P, getnode)
                return UNKNOWN, f'{t} may escape'
        return PROVED, f'{n} origins examined'
    c.ob('library', 'memorymap.get reports map and target problems as MemMapException', library, loc(P, getnode))

    # ---- required data
    dn = P.func('deps', 'get_archives_dependencies')

    def missing(node, pins, known, inline, what, returns=None, rel=lambda t: False):
        def f():
            m = P.func_module(node)
            h = Missing(inline, returns, rel)
            fl = flow.Flow(P, h)
            s = flow.S(known=dict(known))
            ps = params(node)
            r = fl.invoke(m, node, None, None, [pins.get(i, ('x', f'arg{i}')) for i in range(len(ps))], {}, s)
            if not r:
                ends = {f'{nd.lineno}' for _, t, nd in fl.raises}
                return PROVED, f'{what}: no path returns (ends at lines {sorted(ends)})'
            sure = [x for x, v in r]
            if not h.exits and not fl.raises:
                return REFUTED, f'{what} but nothing ends the run', loc(P, node)
            h2 = Missing(inline, None, rel)
            fl2 = flow.Flow(P, h2)
            fl2.invoke(m, node, None, None, [('x', f'arg{i}') for i in range(len(ps))], {}, flow.S())
            if not h.exits - set() and fl.raises:
                pass
            return UNKNOWN, f'{what}: a path returns'
        return f
    inl = lambda q: q.split('.')[0] in ('deps', 'local')
    ps = params(dn)
    c.ob('missing.crt', 'a dependency report without cross reference table fails',
         missing(dn, {0: ('x', 'map')}, {'map.cross_reference_table': ('c', None)}, inl,
                 'no cross reference table', rel=lambda t: 'cross_reference' in t), loc(P, dn))
    c.ob('missing.elf', 'a dependency report without ELF file fails',
         missing(dn, {0: ('x', 'map'), 2: ('c', None)}, {'map.cross_reference_table': ('T',)}, inl, 'no ELF file'), loc(P, dn))
    c.ob('missing.target', 'an unknown chip target fails',
         missing(getnode, {3: ('o', 'mapobj')}, {'mapobj.target': ('c', '')},
                 lambda q: False, 'no chip target', returns={'memorymap.get_proj_desc': ('c', None)},
                 rel=lambda t: 'target' in t), loc(P, getnode))

    dot = P.func('format_dot', 'show')
    c.ob('missing.dot', 'a graph of a report that has none is refused',
         missing(dot, {3: ('x', 'args')}, {"args['archive_dependencies']": ('F',)}, lambda q: False,
                 'no dependency report requested', rel=lambda t: 'archive_dependencies' in t), loc(P, dot))

    sn = P.func('memorymap', 'get_symbols_summary', public=False)
    if sn is not None:
        def archive():
            A = cli.A
            pos = params(sn)
            ds = {f'memorymap.{x}' for x in ('rem_summary_unchanged',)}
            M = T('param', 'memmap')
            E, v, a = run(P, 'memorymap', 'get_symbols_summary', positional=[M, A][:len(pos)], stop=ds)
            dies = [e for e, *_ in cli.calls(E, 'log.die')] + [e for e, ch in E.events(('raise',))]
            if not dies:
                return REFUTED, 'an archive that does not exist is not refused', loc(P, sn)
            if all(unsat(e.guard) for e in dies):
                return REFUTED, 'an archive that does not exist is never refused', loc(P, sn)
            g = sums.norm(bor(*[e.guard for e in dies]), BT)
            # with nothing in the map the archive cannot be there
            ats = [x for x in tm.atoms(g)] if hasattr(tm, 'atoms') else None
            return PROVED, f'refused when {cut(show_b(g, 3), 300)}'
        c.ob('missing.archive', 'an unknown archive fails', archive, loc(P, sn))


def owner(R, o):
    for fn, (m, q, cls) in R.funcs.items():
        if q == o.q:
            return fn
    return o.node


def in_handler(tree, node):
    for x in ast.walk(tree):
        if isinstance(x, ast.ExceptHandler) and any(y is node for y in ast.walk(x)):
            return True
    return False


if __name__ == '__main__':
    main('C02', RULE, check, floor=15, assumptions=[
        'uncaught exceptions end the process with a non-zero status', 'esp_pylib log.die prints an error and exits',
        'methods are resolved by name within the package'])
