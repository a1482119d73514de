"""C16: every documented option and format is honoured."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import cli
from cli import A, on, opt
from report import main
from vg import *

RULE = ('value-graph and effect analysis of main() and of each renderer: for every accepted value of --format exactly the '
        'renderer of that format is called, for every report option alone exactly the computation of that report is '
        'performed and reaches the output, CSV and table use the same table computation, displayed names are abbreviated '
        'exactly when requested, every declared option is read by reachable code and every option read is declared, and '
        'every option in the documentation is declared.')

RENDER = {'table': 'table', 'text': 'table', 'json2': 'json', 'raw': 'raw', 'csv': 'csv', 'tree': 'tree', 'dot': 'dot'}
REPORT = {'archives': 'memorymap.get_archives_summary', 'archive_details': 'memorymap.get_symbols_summary',
          'files': 'memorymap.get_object_files_summary', 'archive_dependencies': 'deps.get_archives_dependencies'}
SUPPORT = {'table': list(REPORT), 'csv': list(REPORT), 'json': list(REPORT), 'raw': ['archive_dependencies'],
           'tree': ['archive_dependencies'], 'dot': ['archive_dependencies']}
FLAGS = ['archives', 'archive_dependencies', 'dep_symbols', 'dep_reverse', 'files', 'no_abbrev', 'unify', 'show_unused',
         'show_unchanged', 'use_flash_size', 'debug', 'sort_diff', 'sort_reverse', 'quiet', 'no_color', 'force_terminal']
VALUED = ['archive_details', 'diff', 'output_file', 'sort', 'filter', 'format']


def pinner(m, base=None):
    """Facts fixing the truth (True/False) or the value (str) of options."""
    def f(a):
        if a.op in ('truthy', 'isnone') and a.args[0].op == 'idx' and a.args[0].args[0] is A and \
                a.args[0].args[1].op == 'const':
            k = a.args[0].args[1].args[0]
            if k in m:
                t = bool(m[k])
                return t if a.op == 'truthy' else not t
        if a.op in ('eqc', 'eq') and a.args[0].op == 'idx' and a.args[0].args[0] is A and a.args[1].op == 'const' and \
                a.args[0].args[1].op == 'const' and isinstance(m.get(a.args[0].args[1].args[0]), str):
            return m[a.args[0].args[1].args[0]] == a.args[1].args[0]
        return base(a) if base else None
    return f


def render(P, fmt, pins, stop, opts):
    node = P.func('format_' + fmt, 'show')
    names = params(node)
    # options are passed last
    M, MF, EL = T('param', 'memmap'), T('param', 'map_file'), T('param', 'elf')
    f = pinner(pins, lambda a: True if a.op == 'in' and a.args[1] is A else cli.facts_for(opts)(a))
    E, v, a = run(P, 'format_' + fmt, 'show', positional=[M, MF, EL, A][:len(names)], facts=f, stop=stop)
    return E


def outputs(E):
    """[(event, [terms])] that reach the report."""
    out = []
    for e, ch in E.events(('call',)):
        n = e.key.args[0]
        if n in ('.add_row', '.add_column', '.add', 'log.print', '.append'):
            ts = list(e.val.args[0])
            out.append((e, n, ts if n == 'log.print' else ts[1:]))
    return out


def expand(E, ts, depth=0):
    """Terms with the contents of fresh lists added."""
    out = []
    for t in ts:
        out.append(t)
        if depth < 6:
            for x in subterms(t):
                if x.op == 'new':
                    ins = E.contents(x)
                    if ins is None:
                        out.append(T('opaque', 'contents'))
                    for it in ins or ():
                        e = it[0]
                        out += expand(E, [y for y in (e.val, e.key) if isinstance(y, Term)], depth + 1)
    return out


def flat(t):
    if t.op in ('cat',):
        for x in t.args:
            yield from flat(x)
    elif t.op in ('str', 'fmt', 'star'):
        yield from flat(t.args[0])
    elif t.op == 'call' and t.args[0] in ('str', 'rich.markup.escape'):
        for x in t.args[1]:
            yield from flat(x)
    elif t.op == 'tuple':
        for x in t.args[0]:
            yield from flat(x)
    elif t.op == 'phi':
        yield from flat(t.args[1])
        yield from flat(t.args[2])
    else:
        yield t


def check(c):
    P = Project()
    opts = cli.options(P)
    mnode = P.func('main', 'main')
    where = loc(P, mnode)
    c.counts.update(options=len(opts))

    # ---- options declared
    for o in FLAGS + VALUED:
        def f(o=o):
            x = opts.get(o)
            if x is None:
                return REFUTED, f'no option delivers the parameter "{o}" any more'
            if o in FLAGS and not x.flag:
                return REFUTED, f'option {x.names} is no longer a flag', f'{P.module("main").path}:{x.node.lineno}'
            if o in VALUED and x.flag:
                return REFUTED, f'option {x.names} no longer takes a value', f'{P.module("main").path}:{x.node.lineno}'
            if o == 'filter' and not x.multiple:
                return REFUTED, f'option {x.names} can be given only once', f'{P.module("main").path}:{x.node.lineno}'
            return PROVED, str(x.names)
        c.ob(f'option.{o}', 'documented option is accepted with the documented arity', f, where)

    def docs():
        p = os.path.join(P.root, 'docs', 'readme.md')
        if not os.path.exists(p):
            return UNKNOWN, 'no documentation file'
        doc = set(re.findall(r'\*\*(--[A-Za-z][\w-]*)\*\*', open(p, encoding='utf-8').read()))
        have = {n for o in opts.values() for x in o.names if x.startswith('-') for n in x.split('/')} | {'--help'}
        miss = sorted(doc - have)
        if miss:
            return REFUTED, f'documented options {miss} are not accepted', where
        return PROVED, f'{len(doc)} documented option names'
    c.ob('docs.options', 'every option in the documentation is accepted', docs, where)

    # ---- format dispatch
    fm = opts.get('format')
    choices = fm.choices if fm is not None else None
    stop = {f'memorymap.{x}' for x in cli.OPS} | {f'format_{x}.show' for x in cli.FORMATS}

    def have_choices():
        if choices is None:
            return UNKNOWN, 'accepted formats not understood'
        miss = [x for x in RENDER if x not in choices]
        if miss:
            return REFUTED, f'format {miss} is no longer accepted', where
        d = cli.lit(fm.default) if fm.default is not None else None
        if d is not None and d not in choices:
            return REFUTED, f'default format {d} is not accepted', where
        return PROVED, str(choices)
    c.ob('format.choices', 'all documented formats are accepted', have_choices, where)
    mains = {}
    for ch in (choices or ()):
        def f(ch=ch):
            E, _ = cli.analyse(P, stop=stop, pin=pinner({'format': ch}))
            mains[ch] = E
            if ch not in RENDER:
                if not any(cli.calls(E, f'format_{x}.show') for x in cli.FORMATS):
                    return UNKNOWN, 'new format'
                return PROVED, 'new format'
            for x in cli.FORMATS:
                evs = cli.calls(E, f'format_{x}.show')
                g = bor(*[e.guard for e, *_ in evs]) if evs else BF
                want = BT if RENDER[ch] == x else BF
                if g is want:
                    continue
                if not evs and cli.calls(E, '?'):
                    return UNKNOWN, 'indirect call'
                r = vguard(g, want, BT, E.cli_facts, c.seed, f'format {ch} rendered by {x}', E)
                if r[0] != PROVED:
                    return r
            return PROVED, f'{ch} -> format_{RENDER[ch]}.show'
        c.ob(f'format.{ch}', 'format is rendered by its renderer and no other', f, where)

    # ---- arguments handed to the renderers
    def handed():
        n = 0
        for ch, E in mains.items():
            for x in cli.FORMATS:
                for e, q, a, kw in cli.calls(E, f'format_{x}.show'):
                    mf, el = cli.argof(P, q, a, kw, 1), cli.argof(P, q, a, kw, 2)
                    for t, cn, what in ((mf, 'mapfile.MapFile', 'parsed map'), (el, 'memorymap.get_elf', 'ELF file')):
                        if t is None:
                            return UNKNOWN, 'argument not found'
                        for g, y in tm.cases(t, e.guard):
                            if y.op == 'const' and y.args[0] is None:
                                return REFUTED, f'{q} gets no {what}', f'{P.module(e.mod).path}:{e.node.lineno}'
                            if y.op == 'call' and opt('diff') in set(subterms(y)):
                                return REFUTED, f'{q} gets the {what} of the reference project', \
                                    f'{P.module(e.mod).path}:{e.node.lineno}'
                    n += 1
        return (PROVED, f'{n} calls') if n else (UNKNOWN, 'no renderer call found')
    c.ob('handed', 'renderers get the parsed map and ELF file of the analysed project', handed, where)

    def passed(name, want):
        def f():
            n = 0
            for ch, E in mains.items():
                for x in cli.FORMATS:
                    for e, q, a, kw in cli.calls(E, f'format_{x}.show'):
                        at = cli.argof(P, q, a, kw, 3)
                        if at is None or E.canon(at) is not A:
                            return UNKNOWN, 'options object not understood'
                        v = E.load_at(A, const(name), e.seq)
                        w = f'{P.module(e.mod).path}:{e.node.lineno} {e.fn}'
                        if want is None:
                            n += 1
                            if v is opt(name):
                                continue
                            r = verdict(v, opt(name), e.guard, E.cli_facts, c.seed, what=f'{name} as seen by {q}', E=E)
                        else:
                            r = vguard(E.truth0(v), want, e.guard, E.cli_facts, c.seed, f'option {name} as seen by {q}', E)
                            n += 1
                        if r[0] != PROVED:
                            return r + (w,)
            return (PROVED, f'{n} renderer calls') if n else (UNKNOWN, 'no renderer call found')
        return f
    c.ob('passed.abbrev', 'renderers abbreviate names unless full names were requested (ignored with --unify)',
         passed('abbrev', bor(bnot(on('no_abbrev')), on('unify'))), where)
    for name in list(REPORT) + ['dep_symbols', 'dep_reverse', 'show_unchanged', 'show_unused', 'sort', 'sort_diff',
                                'sort_reverse', 'filter', 'unify']:
        if name in opts:
            c.ob(f'passed.{name}', 'the option reaches the renderers as given', passed(name, None), where)

    # ---- reports per renderer
    rstop = set(REPORT.values())
    gone = [q for q in rstop if P.func(*q.split('.'), public=False) is None]
    tfuncs = {f'format_table.{n}' for n in P.module('format_table').funcs if n.startswith('get_') and n.endswith('_table')} \
        if 'format_table' in P.modules else set()
    for fmt in cli.FORMATS:
        fwhere = loc(P, P.func('format_' + fmt, 'show'))
        for rep in list(REPORT) + [None]:
            pins = {k: k == rep for k in REPORT}
            oid = f'{fmt}.{rep or "summary"}'

            def f(fmt=fmt, rep=rep, pins=pins):
                if gone:
                    return UNKNOWN, f'{gone} not found'
                E = render(P, fmt, pins, rstop, opts)
                sel = rep if rep in SUPPORT[fmt] else None
                want = REPORT[sel] if sel else None
                for q in rstop:
                    evs = cli.calls(E, q)
                    g = bor(*[e.guard for e, *_ in evs]) if evs else BF
                    w = BT if q == want else BF
                    if g is w:
                        continue
                    if cli.calls(E, '?'):
                        return UNKNOWN, 'indirect call'
                    r = vguard(g, w, BT, E.user_facts, c.seed, f'{q} computed with only {rep or "no report option"} given', E)
                    if r[0] != PROVED:
                        return r
                dies = [e for e, *_ in cli.calls(E, 'log.die')]
                pr = cli.calls(E, 'log.print')
                if fmt == 'dot' and not want:
                    if any(e.guard is BT for e in dies):
                        return PROVED, 'refused with an error'
                    if not dies:
                        return REFUTED, 'the unsupported report is not refused'
                    return UNKNOWN, 'refusal not understood'
                if not pr:
                    return REFUTED, 'nothing is printed', fwhere
                if want:
                    for e, *_ in pr:
                        ts = expand(E, [y for _, _, l in outputs(E) for y in l])
                        if any(y.op == 'call' and y.args[0] == want for t in ts for y in subterms(t)):
                            return PROVED, f'{want} reaches the output'
                        if any(tm.is_opaque(t) for t in ts):
                            return UNKNOWN, 'output not understood'
                        return REFUTED, f'the result of {want} never reaches the output', fwhere
                return PROVED, 'summary'
            c.ob(oid, 'a report option alone selects exactly its report', f, fwhere)

    # ---- csv and table use the same tables
    for rep in list(REPORT) + [None]:
        def f(rep=rep):
            if not tfuncs:
                return UNKNOWN, 'no table functions'
            pins = {k: k == rep for k in REPORT}
            res = {}
            for fmt in ('table', 'csv'):
                E = render(P, fmt, pins, tfuncs, opts)
                if cli.calls(E, '?'):
                    return UNKNOWN, 'indirect call'
                res[fmt] = {(n, tuple(a), tuple(sorted(kw.items()))) for e, n, a, kw in cli.calls(E, *tfuncs)
                            if not unsat(e.guard)}
            if res['table'] == res['csv']:
                return (PROVED, str(sorted(x[0] for x in res['csv']))) if res['csv'] else (UNKNOWN, 'no table found')
            nt, nc = {x[0] for x in res['table']}, {x[0] for x in res['csv']}
            if nt != nc and nt and nc:
                return REFUTED, f'table shows {sorted(nt)} but CSV {sorted(nc)}', loc(P, P.func('format_csv', 'show'))
            if nt == nc:
                return REFUTED, 'table and CSV are computed from different arguments', loc(P, P.func('format_csv', 'show'))
            return UNKNOWN, 'tables not found'
        c.ob(f'csv.same.{rep or "summary"}', 'CSV renders the table the table format renders', f)

    # ---- abbreviated names
    LV = ('sections', 'archives', 'object_files')

    def fullname(E, t):
        """key of a section/archive/object file (or row) loop?"""
        if t.op != 'key':
            return False
        L = t.args[0]
        ln = E.loops.get(L)
        if ln is None or ln.dom is None:
            return False
        d = ln.dom
        while d.op in ('perm', 'aslist', 'items', 'keys'):
            d = d.args[0]
        if d.op == 'idx' and d.args[1].op == 'const':
            return d.args[1].args[0] in LV
        return d.op == 'call' and d.args[0] in rstop

    for fmt in ('table', 'tree', 'json', 'dot'):
        reps = {'table': list(REPORT) + [None], 'tree': ['archive_dependencies', None], 'json': [None],
                'dot': ['archive_dependencies']}[fmt]
        for rep in reps:
            for ab in (True, False):
                def f(fmt=fmt, rep=rep, ab=ab):
                    pins = {k: k == rep for k in REPORT}
                    pins.update(diff=False, unify=False, filter=False, abbrev=ab)
                    E = render(P, fmt, pins, rstop, opts)
                    n = 0
                    for e, nm, ts in outputs(E):
                        if unsat(e.guard):
                            continue
                        if fmt == 'json' or fmt == 'dot':
                            ts = expand(E, ts)
                        else:
                            ts = expand(E, [t for t in ts if t.op in ('star', 'new')]) + [t for t in ts if t.op not in ('star', 'new')]
                        ls = [y for t in ts for y in flat(t)]
                        full = [y for y in ls if fullname(E, y)]
                        abb = [y for y in ls if y.op == 'idx' and y.args[1].op == 'const' and y.args[1].args[0] == 'abbrev_name']
                        w = f'{P.module(e.mod).path}:{e.node.lineno} {e.fn}'
                        if not ab and abb:
                            return REFUTED, f'shows {show(abb[0])} although full names were requested', w
                        if ab and full and fmt != 'dot':
                            return REFUTED, f'shows the full name {show(full[0])} although names are to be abbreviated', w
                        if ab and fmt == 'dot' and full and not abb and nm == 'log.print':
                            return REFUTED, 'labels are never abbreviated', w
                        n += len(full) + len(abb)
                    return (PROVED, f'{n} names') if n else (UNKNOWN, 'no names found')
                c.ob(f'abbrev.{fmt}.{rep or "summary"}.{"on" if ab else "off"}',
                     'displayed names are abbreviated unless full names were requested', f,
                     loc(P, P.func('format_' + fmt, 'show')))

    # ---- options consulted
    def consulted():
        reads, puts = {}, set()
        done = 0

        def take(E):
            for o, k, g, n, fr in E.reads:
                if o is A and not unsat(g):
                    reads.setdefault(k, (fr.mod, n) if fr else None)
            for e, ch in E.events(('put',)):
                if e.obj is A and e.key.op == 'const':
                    puts.add(e.key.args[0])
        for E in mains.values():
            take(E)
        fx = lambda a: True if a.op == 'in' and a.args[1] is A else None
        for fmt in cli.FORMATS:
            take(render(P, fmt, {}, rstop | tfuncs, opts))
        for q in sorted(tfuncs | rstop):
            mod, fn = q.split('.')
            node = P.func(mod, fn, public=False)
            if node is None:
                continue
            E, v, a = run(P, mod, fn, args={params(node)[-1]: A}, facts=fx, stop=(rstop | tfuncs) - {q})
            take(E)
            done += 1
        for k, w in reads.items():
            if k not in opts and k not in puts and w and w[1] is not None:
                return REFUTED, f'option "{k}" is read but neither declared nor set', f'{w[0].path}:{w[1].lineno}'
            if k in opts and not opts[k].exposed:
                return REFUTED, f'option "{k}" is read but not delivered', f'{w[0].path}:{w[1].lineno}' if w and w[1] else None
        miss = [k for k, o in opts.items() if o.exposed and k not in reads]
        if miss:
            # any other textual access? then undecided
            src = ' '.join(m.src for m in P.modules.values())
            hard = [k for k in miss if not re.search(r'[\'"]%s[\'"]\s*[\],)]' % re.escape(k), re.sub(r'@click\.(option|argument)\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)', '', src))]
            if hard:
                o = opts[hard[0]]
                return REFUTED, f'options {hard} are accepted but never consulted', f'{P.module("main").path}:{o.node.lineno}'
            return UNKNOWN, f'use of {miss} not found'
        return PROVED, f'{len(reads)} options read, {len(opts)} declared'
    c.ob('consulted', 'every declared option is read, every option read is declared', consulted, where)

    # ---- console options
    def console(name, kwname, want):
        def f():
            E = mains.get('table')
            if E is None:
                return UNKNOWN, 'main not analysed'
            evs = [(e, kw) for e, ch in E.events(('call',)) for kw in [dict(e.val.args[1])]
                   if e.key.args[0].endswith(name)]
            if not evs:
                return UNKNOWN, f'{name} not called directly'
            for e, kw in evs:
                t = kw.get(kwname)
                if t is None:
                    return REFUTED, f'{kwname} is not passed on', f'{P.module(e.mod).path}:{e.node.lineno}'
                r = vguard(E.truth0(t), want, e.guard, E.cli_facts, c.seed, f'{kwname}', E)
                if r[0] != PROVED:
                    return r
            return PROVED, kwname
        return f
    c.ob('console.no_color', '--no-color reaches the console', console('set_console_options', 'no_color', on('no_color')), where)
    c.ob('console.quiet', '--quiet reaches the console', console('set_console_options', 'quiet', on('quiet')), where)
    c.ob('console.force', '--force-terminal reaches the console unless an output file is written',
         console('set_console_options', 'force_terminal', band(on('force_terminal'), bnot(on('output_file')))), where)

    def verbosity():
        E = mains.get('table')
        evs = [e for e, ch in E.events(('call',)) if e.key.args[0].endswith('set_verbosity')] if E else []
        if not evs:
            return UNKNOWN, 'set_verbosity not called directly'
        e = evs[-1]
        if not e.val.args[0]:
            return UNKNOWN, 'argument'
        for g, x in tm.cases(e.val.args[0][0], e.guard):
            nm = str(x.args[0]).split('.')[-1] if x.op == 'ext' else None
            want = {'SILENT': on('quiet'), 'VERBOSE': band(on('debug'), bnot(on('quiet'))),
                    'NORMAL': band(bnot(on('quiet')), bnot(on('debug')))}.get(nm)
            if want is None:
                return UNKNOWN, f'verbosity {show(x)}'
            r = vguard(band(g, bnot(want)), BF, BT, E.cli_facts, c.seed, f'verbosity {nm}', E)
            if r[0] != PROVED:
                return r
        return PROVED, 'verbosity follows --quiet and --debug'
    c.ob('console.verbosity', '--quiet and --debug select the verbosity', verbosity, where)

    # ---- symbols are loaded when the report needs them
    def symbols():
        E = mains.get('table')
        if E is None or 'raw' not in mains:
            return UNKNOWN, 'main not analysed'
        for ch, want, what in (('table', on('archive_details'), 'the symbol report'), ('raw', BT, 'the raw format')):
            for e, n, a, kw in cli.calls(mains[ch], 'memorymap.get'):
                t = cli.argof(P, n, a, kw, 1)
                if t is None:
                    return UNKNOWN, 'argument not found'
                r = vguard(band(e.guard, want, bnot(mains[ch].truth0(t))), BF, BT, mains[ch].cli_facts, c.seed,
                           f'symbols not loaded for {what}', mains[ch])
                if r[0] != PROVED:
                    return r
        return PROVED, 'symbols loaded for archive details and raw'
    # ---- DWARF attribution reaches the analysis for the reports it matters for
    def dwarf():
        E = mains.get('table')
        if E is None or 'raw' not in mains:
            return UNKNOWN, 'main not analysed'
        n = 0
        for ch, want, what in (('table', bor(on('archive_details'), on('archives'), on('files')), 'the detailed reports'),
                               ('raw', BT, 'the raw format')):
            M = mains[ch]
            for e, q, a, kw in cli.calls(M, 'memorymap.get'):
                t = cli.argof(P, q, a, kw, 2)
                if t is None:
                    return UNKNOWN, 'argument not found'
                D = cli.opt('use_dwarf')
                for cond, bad, msg in ((band(on('use_dwarf'), want), bnot(M.truth0(t)), f'--lto is lost for {what}'),
                                       (bnot(on('use_dwarf')), M.truth0(t), f'DWARF attribution without --lto for {what}'),
                                       (band(bnot(on('use_dwarf')), bnot(M.isnone(D))), M.isnone(t), f'--no-lto is lost for {what}'),
                                       (M.isnone(D), bnot(M.isnone(t)), f'detection of LTO is lost for {what}')):
                    r = vguard(band(e.guard, cond, bad), BF, BT, M.cli_facts, c.seed, msg, M)
                    if r[0] != PROVED:
                        return r
                n += 1
        return (PROVED, f'{n} loads') if n else (UNKNOWN, 'no load found')
    c.ob('dwarf', '--lto, --no-lto and neither of them reach the analysis', dwarf, where)

    c.ob('symbols', 'symbols are loaded whenever the report shows them', symbols, where)


if __name__ == '__main__':
    main('C16', RULE, check, floor=50, assumptions=[
        'click delivers exactly the declared parameters', 'rich renders the rows and columns it is given'])
