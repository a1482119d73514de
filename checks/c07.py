"""C07: a comparison treats both projects alike."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import cli
from cli import A, on, opt
from report import main
import state
from vg import *

RULE = ('value-graph and effect analysis of main(): every call of memorymap.get/remove_unused/ignore_flash_size/diff/'
        'unify is collected with the condition over the command line options under which it happens and with the data '
        'flow of its arguments; the two arguments of diff must come from the positional map and the --diff map, every '
        'preparation step must be applied to both under equivalent conditions and before the subtraction, both loads '
        'must get the same options, and unify must act on the result of the subtraction.')


def sides(t, guard):
    """[(condition, 'cur' | 'ref' | 'diff' | None)]"""
    out = []
    for g, x in tm.cases(t, guard):
        s = None
        if x.op == 'call' and x.args[0] == 'memorymap.get':
            fn = x.args[1][0] if x.args[1] else dict(x.args[2] if len(x.args) > 2 else ()).get('input_fn')
            fs = {y for y in subterms(fn) if y is opt('input_file') or y is opt('diff')} if fn is not None else set()
            if fs == {opt('input_file')}:
                s = 'cur'
            elif fs == {opt('diff')}:
                s = 'ref'
        elif x.op == 'call' and x.args[0] == 'memorymap.diff':
            s = 'diff'
        out.append((g, s))
    return out


def check(c):
    P = Project()
    for f in ('get', 'diff', 'unify'):
        P.func('memorymap', f)
    state.check(c, P)
    h = {}

    def start():
        h['E'], h['opts'] = cli.analyse(P)
        c.counts.update(call_events=len(h['E'].events(('call',))), options=len(h['opts']),
                        functions=sorted(h['E'].stats['functions']))
    if not c.group('analyse', 'value graph of main', start):
        return
    E = h['E']
    F = E.cli_facts
    W = lambda e: f'{P.module(e.mod).path}:{e.node.lineno} {e.fn}'
    where = loc(P, P.func('main', 'main'))

    def by_side(name):
        """guard under which `name` is applied to each side, and the events."""
        g = {'cur': BF, 'ref': BF, 'diff': BF}
        evs = []
        unk = False
        for e, n, a, kw in cli.calls(E, 'memorymap.' + name):
            t = cli.argof(P, n, a, kw, 0)
            if t is None:
                unk = True
                continue
            for cg, s in sides(t, e.guard):
                if s is None:
                    unk = True
                else:
                    g[s] = bor(g[s], cg)
                    evs.append((s, e))
        return g, evs, unk

    want = band(on('diff'), bnot(on('archive_dependencies')))
    diffs = cli.calls(E, 'memorymap.diff')
    dg = bor(*[e.guard for e, *_ in diffs]) if diffs else BF
    c.ob('diff.when', 'maps are subtracted exactly when --diff is in effect',
         lambda: vguard(dg, want, BT, F, c.seed, 'subtraction', E) if diffs or not cli.calls(E, '?') else UNKNOWN, where)

    def order():
        for e, n, a, kw in diffs:
            for i, s in ((0, 'cur'), (1, 'ref')):
                t = cli.argof(P, n, a, kw, i)
                if t is None:
                    return UNKNOWN, 'argument not found'
                for g, x in sides(t, e.guard):
                    if x is None:
                        return UNKNOWN, f'origin of argument {i} not understood: {cut(show(t))}'
                    if x != s:
                        return REFUTED, (f'argument {i} of diff() is the map of the '
                                         f'{dict(cur="positional", ref="--diff", diff="already subtracted")[x]} file '
                                         f'when {show_b(g, 2)}'), W(e)
        return PROVED, f'{len(diffs)} call(s) of diff'
    c.ob('diff.order', 'current side is the positional map, reference side the --diff map', order, where)

    for op in ('remove_unused', 'ignore_flash_size'):
        if P.func('memorymap', op, public=False) is None:
            c.add(f'{op}.alike', 'preparation applied to both', UNKNOWN, f'{op} is gone', where)
            continue
        g, evs, unk = by_side(op)

        def alike(op=op, g=g, evs=evs, unk=unk):
            if unk:
                return UNKNOWN, 'target not understood'
            if g['diff'] is not BF:
                e = next(e for s, e in evs if s == 'diff')
                if unsat(band(g['cur'], dg)) and unsat(g['ref']):
                    # applied to the difference instead of to both sides
                    return REFUTED, f'{op} is applied to the difference, not to both maps before subtracting', W(e)
            return vguard(g['ref'], band(g['cur'], want), BT, F, c.seed, f'{op} applied to the reference map', E)
        c.ob(f'{op}.alike', 'preparation applied to the reference map exactly when to the current one', alike, where)

        def before(evs=evs):
            for s, e in evs:
                for d, *_ in diffs:
                    if s in ('cur', 'ref') and e.seq > d.seq and not unsat(band(e.guard, d.guard)):
                        return REFUTED, f'{op} runs after the subtraction', W(e)
            return PROVED, f'{len(evs)} call(s)'
        c.ob(f'{op}.before', 'preparation happens before the subtraction', before, where)

    gets = []
    for e, n, a, kw in cli.calls(E, 'memorymap.get'):
        fn = cli.argof(P, n, a, kw, 0)
        s = None
        if fn is not None:
            ss = {y for y in subterms(fn) if y is opt('input_file') or y is opt('diff')}
            s = {frozenset([opt('input_file')]): 'cur', frozenset([opt('diff')]): 'ref'}.get(frozenset(ss))
        gets.append((s, e, n, a, kw))

    def loads(i, what):
        def f():
            v = {'cur': None, 'ref': None}
            for s in v:
                t = None
                for s2, e, n, a, kw in gets:
                    if s2 == s:
                        x = cli.argof(P, n, a, kw, i)
                        if x is None:
                            return UNKNOWN, 'argument not found'
                        t = x if t is None else tm.phi(e.guard, x, t)
                if t is None:
                    return UNKNOWN, 'load not found'
                v[s] = t
            # both are only used as conditions: compare what they amount to
            for g1, x in tm.cases(v['cur'], want):
                for g2, y in tm.cases(v['ref'], g1):
                    if x is y:
                        continue
                    r = vguard(E.isnone(y), E.isnone(x), g2, F, c.seed, f'{what} unset for the reference map', E)
                    if r[0] == PROVED:
                        r = vguard(E.truth0(y), E.truth0(x), g2, F, c.seed, f'{what} for the reference map', E)
                    if r[0] != PROVED:
                        return r
            return PROVED, f'{what}: {cut(show(v["cur"]), 300)}'
        return f
    c.ob('load.symbols', 'both maps are loaded with the same symbol option', loads(1, 'load_symbols'), where)
    c.ob('load.dwarf', 'both maps are loaded with the same DWARF option', loads(2, 'use_dwarf'), where)

    def own():
        if not gets:
            return UNKNOWN, 'no load found'
        for s, e, n, a, kw in gets:
            if s is None:
                return UNKNOWN, f'load of unknown map: {cut(show(e.val))}'
            other = opt('diff') if s == 'cur' else opt('input_file')
            for i, what in ((3, 'map_file'), (4, 'elf')):
                t = cli.argof(P, n, a, kw, i)
                if t is None:
                    return UNKNOWN, 'argument not found'
                if any(x is other for x in subterms(t)):
                    return REFUTED, f'{what} of the {s} map is loaded from the other project: {cut(show(t), 200)}', W(e)
        return PROVED, f'{len(gets)} loads'
    c.ob('load.own', 'each map is built from its own map and ELF file', own, where)

    g, evs, unk = by_side('unify')
    ug = bor(g['cur'], g['ref'], g['diff'])

    def unify():
        if unk:
            return UNKNOWN, 'target of unify not understood'
        for s, e in evs:
            if s in ('cur', 'ref'):
                w = band(e.guard, want, g[s])
                if not unsat(w):
                    r = vguard(band(g[s], want), BF, BT, F, c.seed, f'unify of the {s} map before the subtraction', E)
                    if r[0] == REFUTED:
                        return r + (W(e),)
                    if r[0] != PROVED:
                        return r
            for d, *_ in diffs:
                if s == 'diff' and e.seq < d.seq:
                    return REFUTED, 'unify precedes the subtraction', W(e)
        return vguard(ug, on('unify'), BT, F, c.seed, 'unify of the final map', E)
    c.ob('unify.after', 'aggregation applied to the final map, after the subtraction', unify, where)

    def shown():
        n = 0
        for fmt in cli.FORMATS:
            for e, q, a, kw in cli.calls(E, f'format_{fmt}.show'):
                t = cli.argof(P, q, a, kw, 0)
                if t is None:
                    return UNKNOWN, 'argument not found'
                for cg, s in sides(t, e.guard):
                    if s is None:
                        return UNKNOWN, f'map shown not understood: {cut(show(t), 200)}'
                    exp = BF if s == 'ref' else want if s == 'diff' else bnot(want)
                    r = vguard(band(cg, bnot(exp)), BF, BT, F, c.seed, f'{q} shows the {s} map', E)
                    if r[0] != PROVED:
                        return r + (W(e),)
                n += 1
        return (PROVED, f'{n} renderers') if n else (UNKNOWN, 'no renderer call found')
    c.ob('shown', 'the report shows the difference when comparing, else the current map', shown, where)

    def neutral(name, cond, val, wcond):
        def f():
            n = 0
            for fmt in cli.FORMATS:
                for e, q, a, kw in cli.calls(E, f'format_{fmt}.show'):
                    at = cli.argof(P, q, a, kw, 3)
                    if at is None or E.canon(at) is not A:
                        return UNKNOWN, 'options object not understood'
                    v = E.load_at(A, const(name), e.seq)
                    r = vguard(E.truth0(v), val, e.guard, F, c.seed, f'option {name} as seen by {q}', E)
                    if r[0] != PROVED:
                        return r + (W(e),)
                    n += 1
            return (PROVED, f'{n} renderers') if n else (UNKNOWN, 'no renderer call found')
        return f
    c.ob('neutral.diff', '--diff is off for dependency reports and otherwise as given', neutral('diff', None, want, None), where)
    c.ob('neutral.abbrev', 'names are abbreviated unless full names were requested (ignored with --unify)',
         neutral('abbrev', None, bor(bnot(on('no_abbrev')), on('unify')), None), where)

    def warned(cond, what):
        def f():
            ws = [e.guard for e, *_ in cli.calls(E, 'log.warn', 'log.err')]
            return vguard(band(cond, bnot(bor(*ws) if ws else BF)), BF, BT, F, c.seed, f'{what} without a warning', E)
        return f
    c.ob('warn.diff', 'ignoring --diff is announced', warned(band(on('archive_dependencies'), on('diff')), '--diff ignored'), where)
    c.ob('warn.abbrev', 'ignoring --no-abbrev is announced', warned(band(on('no_abbrev'), on('unify')), '--no-abbrev ignored'), where)


if __name__ == '__main__':
    main('C07', RULE, check, floor=10, assumptions=[
        'options have the values click delivers for the declared parameters',
        'conditions over exceptions are taken on the path without exceptions'])
