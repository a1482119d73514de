"""C22: machine-readable output is exactly one faithful document."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from project import PKG
from raises import Raises
from report import main
from vg import *

RULE = ('effect analysis of every write to the report stream (names resolved through imports and the log wrappers): outside the '
        'formatters nothing reachable from the command writes there; and value-graph analysis of the formatters: in every '
        'option combination one print of exactly the serialised document, with markup, emoji and wrapping off (JSON, raw), one '
        'print per table row with every cell quoted (CSV), one print of a graph opened and closed once (DOT).')

LOG = 'esp_pylib.logger.log'
ERRSTREAM = {'err', 'warn', 'die'}
SILENT = {'set_verbosity', 'set_console_options', 'set_info_stream', 'get_verbosity', 'debug', 'set_logger'}
STDOUT = {'sys.stdout.write', 'sys.stdout.writelines', 'sys.stdout.buffer.write', 'sys.__stdout__.write', 'rich.print', 'rich.inspect',
          'rich.print_json', 'pprint.pprint', 'pprint.pp', 'rich.pretty.pprint', 'sys.stdout.flush_write'}
ECHO = {'click.echo', 'rich_click.echo', 'click.secho', 'rich_click.secho'}


def imports(m):
    out = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ''
            if n.level:
                base = PKG + ('.' + base if base else '')
            for a in n.names:
                out[a.asname or a.name] = base + '.' + a.name
    return out


class Writes:
    """Streams written directly by the calls of one module."""

    def __init__(self, m):
        self.m = m
        self.imp = imports(m)
        self.alias = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    isinstance(n.value, (ast.Name, ast.Attribute, ast.Call)):
                self.alias.setdefault(n.targets[0].id, n.value)

    def dotted(self, n, depth=0):
        if isinstance(n, ast.Name):
            if n.id in self.imp:
                return self.imp[n.id]
            if n.id in self.alias and depth < 4:
                v = self.alias[n.id]
                return self.dotted(v.func, depth + 1) + '()' if isinstance(v, ast.Call) and self.dotted(v.func, depth + 1) else \
                    self.dotted(v, depth + 1) if not isinstance(v, ast.Call) else None
            if n.id in self.m.funcs:
                return f'{PKG}.{self.m.name}.{n.id}'
            return n.id
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value, depth)
            return f'{b}.{n.attr}' if b else None
        if isinstance(n, ast.Call):
            b = self.dotted(n.func, depth)
            return f'{b}()' if b else None
        return None

    def file(self, call):
        """'err', 'out', 'none' (a given stream that is neither) or None (no stream argument)."""
        for k in call.keywords:
            if k.arg == 'file':
                q = self.dotted(k.value)
                if q in ('sys.stderr', 'sys.__stderr__'):
                    return 'err'
                if q in ('sys.stdout', 'sys.__stdout__'):
                    return 'out'
                if isinstance(k.value, ast.Constant) and k.value.value is None:
                    return None
                return 'other'
        return None

    def stream(self, call, wrappers):
        """'out', 'err', 'other', 'silent' or None (the call writes nothing itself)."""
        q = self.dotted(call.func)
        if q is None:
            return None
        base = PKG + '.log.'
        if q.startswith(base) and q[len(base):] in wrappers:
            w = wrappers[q[len(base):]]
            f = self.file(call)
            return {'err': 'err', 'other': 'other'}.get(f, w) if w == 'out' else w
        if q.startswith(LOG + '.') or q in ('esp_pylib.logger.EspLog().print',):
            n = q[len(LOG) + 1:]
            if n in ERRSTREAM:
                return 'err'
            if n in SILENT:
                return 'silent'
            return {'err': 'err', 'other': 'other'}.get(self.file(call), 'out')
        if q == 'print' or q == 'builtins.print':
            return {'err': 'err', 'other': 'other'}.get(self.file(call), 'out')
        if q in STDOUT:
            return 'out'
        if q in ECHO:
            e = [k.value for k in call.keywords if k.arg == 'err']
            return 'err' if e and isinstance(e[0], ast.Constant) and e[0].value else {'err': 'err', 'other': 'other'}.get(self.file(call), 'out')
        if q.startswith('rich.console.Console().'):
            return 'console'
        return None


def wrappers(P):
    m = P.module('log')
    W = Writes(m)
    out, sites = {}, {}
    for n, node in m.funcs.items():
        st = [(W.stream(x, {}), x) for x in ast.walk(node) if isinstance(x, ast.Call)]
        st = [s for s in st if s[0] is not None]
        out[n] = st[0][0] if len({s[0] for s in st}) == 1 else ('out' if any(s[0] == 'out' for s in st) else 'other') if st else 'silent'
        sites[n] = st
    return out, sites, m


def enclosing(m, node):
    """Innermost functions around node, outermost first."""
    chain = []

    def go(x, fs):
        if x is node:
            chain.extend(fs)
            return True
        f2 = fs + [x] if isinstance(x, ast.FunctionDef) else fs
        return any(go(y, f2) for y in ast.iter_child_nodes(x))
    go(m.tree, [])
    return chain


def conditioned(fn, node):
    """Do conditions around node mention the output format?"""
    def go(x, conds):
        if x is node:
            return conds
        for f, v in ast.iter_fields(x):
            for y in (v if isinstance(v, list) else [v]):
                if isinstance(y, ast.AST):
                    c2 = conds + [x.test] if isinstance(x, (ast.If, ast.IfExp, ast.While)) and f != 'test' else conds
                    r = go(y, c2)
                    if r is not None:
                        return r
        return None
    return any("'format'" in ast.unparse(t) or '"format"' in ast.unparse(t) for t in go(fn, []) or ())


def streams(c, P):
    wr, sites, lm = wrappers(P)

    for n, want in (('err', 'err'), ('warn', 'err'), ('die', 'err'), ('eprint', 'err'), ('print', 'out')):
        def ob(n=n, want=want):
            if n not in lm.funcs:
                return UNKNOWN, f'log.{n} not found'
            s = wr[n]
            if s == want:
                return PROVED, f'log.{n} writes to the {"error" if want == "err" else "report"} stream'
            if s in ('out', 'err') and want == 'err' or s == 'err':
                return REFUTED, f'log.{n} writes to the {"report" if s == "out" else "error"} stream'
            if s == 'silent' and want == 'out':
                return REFUTED, 'log.print writes nothing'
            return UNKNOWN, f'log.{n}: stream not understood'
        c.ob(f'log.{n}', f'log.{n} writes to the {"error" if want == "err" else "report"} stream', ob,
             f'{lm.path}:{lm.funcs[n].lineno} {n}' if n in lm.funcs else None)

    def forwards():
        node = lm.funcs.get('print')
        cs = [x for s, x in sites.get('print', ()) if s == 'out']
        if len(cs) != 1:
            return (REFUTED, f'log.print writes {len(cs)} times') if len(cs) > 1 and len(
                [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]) == len(cs) else \
                (UNKNOWN, 'log.print not understood')
        x = cs[0]
        va, kw = node.args.vararg, node.args.kwarg
        if va is None or kw is None or len(node.body) != 1 + (ast.get_docstring(node) is not None):
            return UNKNOWN, 'log.print not understood'
        a = [ast.unparse(y) for y in x.args]
        k = {y.arg: ast.unparse(y.value) for y in x.keywords}
        if a == [f'*{va.arg}'] and k == {None: kw.arg}:
            return PROVED, 'arguments are passed on unchanged'
        if None not in k:
            return REFUTED, 'log.print drops its keyword arguments (markup=False, soft_wrap=True)'
        return UNKNOWN, f'log.print calls {ast.unparse(x)}'
    c.ob('log.print.forwards', 'log.print hands text and options on unchanged', forwards,
         f'{lm.path}:{lm.funcs["print"].lineno} print' if 'print' in lm.funcs else None)

    R = Raises(P)
    ent = P.func('main', 'main')
    R.reach(ent)
    seen, todo = set(), [ent]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        todo += R.edges.get(f, ())
        m, q, cls = R.funcs.get(f, (None, '', None))
        if m is None or m.name.startswith('format_'):
            continue
        # nested functions and everything referenced by name
        todo += [x for x in ast.walk(f) if isinstance(x, ast.FunctionDef) and x is not f]
    shows = {P.func('format_' + f, 'show') for f in ('json', 'raw')}
    skip = {'log'}
    n = 0
    for m in P.modules.values():
        if m.name in skip or m.name.startswith('format_'):
            continue
        W = Writes(m)
        calls = [x for x in ast.walk(m.tree) if isinstance(x, ast.Call)]

        def ob(m=m, W=W, calls=calls):
            bad = unk = None
            k = 0
            for x in calls:
                s = W.stream(x, wr)
                if s is None:
                    continue
                k += 1
                if s in ('err', 'silent'):
                    continue
                fs = enclosing(m, x)
                if fs and not any(f in seen for f in fs):
                    continue
                if not fs and m.name == '__main__':
                    continue
                where = f'{m.path}:{x.lineno} {fs[-1].name if fs else m.name}'
                if s == 'out' and (not fs or not conditioned(fs[-1], x)):
                    if fs and any(isinstance(y, ast.If) and any(z is x for z in ast.walk(y)) and
                                  ast.unparse(y.test) in ('False', '0') for y in ast.walk(fs[-1])):
                        continue
                    bad = bad or (REFUTED, f'{ast.unparse(x)[:120]} writes to the report stream while a JSON report is produced', where)
                else:
                    unk = unk or (UNKNOWN, f'{ast.unparse(x)[:120]}: stream not understood', where)
            return bad or unk or (PROVED, f'{k} output calls, none to the report stream')
        c.ob(f'quiet.{m.name}', f'{m.name} writes nothing to the report stream', ob, m.path)
        n += len(calls)
    c.count('calls examined for output', n)

    def console():
        m = P.module('main')
        W = Writes(m)
        cs = [x for x in ast.walk(m.tree) if isinstance(x, ast.Call) and W.dotted(x.func) == LOG + '.set_console_options']
        if not cs:
            return UNKNOWN, 'console options not found'
        for x in cs:
            for k in x.keywords:
                t = k.value.value if isinstance(k.value, ast.Constant) else None
                if k.arg in ('emoji', 'stderr', 'record', 'safe_box_only') and k.arg in ('emoji', 'stderr') and t:
                    return REFUTED, f'{k.arg}={t}: ' + ('names like :x: are replaced in the document' if k.arg == 'emoji' else
                                                        'the report goes to the error stream'), f'{m.path}:{x.lineno}'
                if k.arg is None:
                    return UNKNOWN, 'console options not understood'
        return PROVED, f'{len(cs)} console configuration(s)'
    c.ob('console', 'the console neither replaces names nor redirects the report', console, P.module('main').path)


SUMMARIES = {'memorymap.get_archives_summary', 'memorymap.get_object_files_summary', 'memorymap.get_symbols_summary',
             'memorymap.get_summary_sorted', 'memorymap.get_summary_filtered', 'memorymap.get_summary_trimmed', 'memorymap.sort',
             'memorymap.trim', 'deps.get_archives_dependencies'}
TABLES = {'format_table.get_summary_table', 'format_table.get_object_files_table', 'format_table.get_archives_table',
          'format_table.get_symbols_table', 'format_table.get_archives_dependencies_table'}
OUT = ('log.print', 'print', 'sys.stdout.write', 'rich.print', 'esp_pylib.logger.log.print', 'log.note', 'log.hint')


def shown(P, mod):
    node = P.func(mod, 'show')
    stop = {s for s in SUMMARIES | TABLES}
    E, v, a = scenario(P, mod, 'show', stop=stop)
    ps = [(e, ch, list(e.val.args[0]), dict(e.val.args[1])) for e, ch in E.events(('call',)) if e.key.args[0] in OUT]
    die = [e.guard for e, ch in E.events(('call',)) if e.key.args[0] in ('log.die', 'sys.exit')] + \
          [e.guard for e, ch in E.events(('raise',))]
    return E, node, a, ps, die


def once(ps, die, E, kind='document'):
    gs = [p[0].guard for p in ps]
    for i in range(len(gs)):
        for j in range(i):
            g = band(gs[i], gs[j])
            if not unsat(g):
                w = interp.differ(g, BF, BT, None, seed=1, E=E)
                if w is not None:
                    return REFUTED, f'lines {ps[j][0].node.lineno} and {ps[i][0].node.lineno} both print a {kind}; witness: {cut(w, 300)}'
                return UNKNOWN, f'lines {ps[j][0].node.lineno} and {ps[i][0].node.lineno} may both print'
    a = bor(*gs) if gs else BF
    d = bor(*die) if die else BF
    r = vguard(bor(a, d), BT, what=f'a {kind} is printed', E=E)
    if r[0] == PROVED:
        r = (PROVED, f'{len(gs)} prints, exactly one in every option combination')
    return r


def val(kw, k):
    t = kw.get(k)
    return t.args[0] if t is not None and t.op == 'const' else None if t is None else Ellipsis


def json_text(t):
    """(dumps call, problem)"""
    if t.op == 'str' or t.op == 'cat' and len(t.args) == 1:
        return json_text(t.args[0])
    if t.op == 'call' and t.args[0] == 'json.dumps':
        return t, None
    inner = [x for x in subterms(t) if x.op == 'call' and x.args[0] == 'json.dumps']
    if t.op in ('mcall', 'cat') and len(inner) == 1:
        if t.op == 'mcall' and t.args[0] in ('replace', 'strip', 'rstrip', 'lstrip', 'upper', 'lower', 'title', 'swapcase', 'expandtabs',
                                             'splitlines', 'removesuffix', 'removeprefix', 'encode', 'translate', 'format', 'ljust'):
            d, why = json_text(t.args[1])
            if d is None:
                return None, why
            if t.args[0] in ('strip', 'rstrip', 'lstrip') and not t.args[2]:
                return d, None
            if t.args[0] == 'ljust':
                return d, None
            args = [a.args[0] if a.op == 'const' else None for a in t.args[2]]
            if None in args or t.args[0] in ('translate', 'splitlines', 'encode', 'format'):
                return None, None
            doc = '{"a[b] c: \\"d\\"": 1, "libX_e-f.a": [{"B.c++": "x/y\\\\z"}]}\n'.strip()
            try:
                if getattr(doc, t.args[0])(*args) != doc or t.args[0] == 'replace' and any(ch not in ' \n\r\t' for ch in str(args[0])):
                    return None, f'the document text is changed by .{t.args[0]}({", ".join(map(repr, args))})'
            except Exception:
                return None, None
            return d, None
        if t.op == 'cat':
            for x in t.args:
                if x.op == 'const' and str(x.args[0]).strip():
                    return None, f'{cut(x.args[0], 60)!r} is printed along with the document'
            return inner[0], None
    return None, None


def document(P, e, ch, args, kw):
    where = f'{e.mod.path if hasattr(e.mod, "path") else e.mod}:{e.node.lineno}'
    if ch:
        return REFUTED, f'line {e.node.lineno} prints inside a loop: one document per entry', where
    if 'file' in kw and kw['file'] is not const(None):
        f = show(kw['file'])
        return (REFUTED if 'stderr' in f else UNKNOWN), f'the document is written to {f}', where
    if len(args) != 1:
        if len(args) > 1 and all(a.op == 'const' or json_text(a)[0] is not None for a in args):
            return REFUTED, f'line {e.node.lineno} prints more than the document: {cut([show(a) for a in args], 200)}', where
        return UNKNOWN, f'line {e.node.lineno} prints {len(args)} values', where
    d, why = json_text(args[0])
    if d is None:
        if why:
            return REFUTED, f'line {e.node.lineno}: {why}', where
        t = args[0]
        if t.op == 'const' or t.op in ('param', 'new') or t.op == 'call' and t.args[0] in SUMMARIES | {'str', 'repr'} or \
                t.op == 'str' and t.args[0].op in ('param', 'new', 'call'):
            return REFUTED, f'line {e.node.lineno} prints {cut(show(t), 120)}, which is not a JSON document', where
        return UNKNOWN, f'line {e.node.lineno}: text not understood: {cut(show(t), 200)}', where
    mk, sw, em = val(kw, 'markup'), val(kw, 'soft_wrap'), val(kw, 'emoji')
    plain = e.key.args[0] in ('print', 'sys.stdout.write')
    if plain:
        return UNKNOWN, f'line {e.node.lineno} bypasses the log', where
    if mk is Ellipsis or sw is Ellipsis or em is Ellipsis:
        return UNKNOWN, f'line {e.node.lineno}: print options not understood', where
    if mk is None or mk:
        return REFUTED, f'line {e.node.lineno}: markup is not turned off, so a name like foo[abi:cxx11] loses its bracketed part', where
    if em:
        return REFUTED, f'line {e.node.lineno}: emoji codes like :ok: in names are replaced', where
    if not sw:
        if val(kw, 'no_wrap') and val(kw, 'crop') is False:
            pass
        elif val(kw, 'no_wrap') or val(kw, 'crop') is not None or val(kw, 'overflow') is not None:
            return UNKNOWN, f'line {e.node.lineno}: print options not understood', where
        else:
            return REFUTED, f'line {e.node.lineno}: a line longer than the console is wrapped, inside a name where necessary', where
    if val(kw, 'justify') in ('center', 'right', 'full') or val(kw, 'end') not in (None, '', '\n', '\n\n'):
        return (UNKNOWN if val(kw, 'end') in (None, Ellipsis) or not str(val(kw, 'end')).strip() else REFUTED), \
            f'line {e.node.lineno}: end={val(kw, "end")!r}', where
    dk = dict(d.args[2]) if len(d.args) > 2 else {}
    if val(dk, 'ensure_ascii') is False:
        return REFUTED, (f'line {e.node.lineno}: with ensure_ascii=False a name with characters outside the locale\'s encoding is written '
                         'to the output file with \\x escapes, which is not JSON'), where
    if val(dk, 'skipkeys'):
        return REFUTED, f'line {e.node.lineno}: skipkeys drops entries', where
    sp = dk.get('separators')
    if sp is not None:
        s = [x.args[0] for x in sp.args[0] if x.op == 'const'] if sp.args and isinstance(sp.args[0], (tuple, list)) else \
            list(sp.args[0]) if sp.op == 'const' and isinstance(sp.args[0], (tuple, list)) else None
        if s is not None and (len(s) != 2 or s[0].strip() != ',' or s[1].strip() != ':'):
            return REFUTED, f'line {e.node.lineno}: separators {s} do not make a JSON document', where
    if any(val(dk, k) is not None for k in ('cls', 'default', 'ensure_ascii') if k in dk and val(dk, k) is not True):
        return UNKNOWN, f'line {e.node.lineno}: serialisation options not understood', where
    return PROVED, f'line {e.node.lineno} prints exactly json.dumps({cut(show(d.args[1][0]), 120)}), verbatim', where


def jsons(c, P):
    for mod in ('format_json', 'format_raw'):
        h = {}

        def start():
            h['r'] = shown(P, mod)
        if not c.group(mod, f'value graph of {mod}.show', start):
            continue
        E, node, a, ps, die = h['r']
        where = loc(P, node)
        c.count('value-graph events', len(E.events(('call',))))
        c.ob(f'{mod}.once', 'exactly one document is printed whatever the options', lambda: once(ps, die, E), where)
        if not ps:
            continue
        for i, (e, ch, args, kw) in enumerate(ps):
            c.ob(f'{mod}.print{i}', f'print under {cut(show_b(e.guard, 2), 160)} writes the serialised document verbatim',
                 lambda: document(P, e, ch, args, kw), where)

        def faithful():
            # the dumped object: the report (or, for raw, the memory map) itself
            for e, ch, args, kw in ps:
                d, why = json_text(args[0]) if len(args) == 1 else (None, None)
                if d is None:
                    return UNKNOWN, 'document not understood'
                x = d.args[1][0]
                while x.op == 'call' and x.args[0] in ('dict', 'memorymap.get_summary_sorted') and x.args[1]:
                    x = x.args[1][0]
                if x.op == 'param' or x.op == 'call' and x.args[0] in SUMMARIES or x.op == 'new' and mod == 'format_json':
                    continue
                if mod == 'format_raw' and x.op == 'idx':
                    return REFUTED, f'line {e.node.lineno} dumps only {cut(show(x), 80)}'
                return UNKNOWN, f'line {e.node.lineno} dumps {cut(show(x), 120)}'
            ev = [e for e, ch in E.events(('put', 'popitem')) if mod == 'format_raw' and e.obj is not None and
                  any(z.op == 'param' for z in subterms(e.obj))]
            if ev:
                return UNKNOWN, f'line {ev[0].node.lineno} changes the document before it is printed'
            return PROVED, f'{len(ps)} documents dumped as built'
        c.ob(f'{mod}.whole', 'the report is serialised as it was built', faithful, where)


def quoted(t):
    """(verdict, why) of a cell text."""
    for g, x in tm.cases(t, BT):
        if unsat(g):
            continue
        if x.op == 'const':
            s = str(x.args[0])
            if not (len(s) >= 2 and s[0] == s[-1] == '"'):
                return REFUTED, f'cell text {s!r} is not quoted'
            continue
        if x.op == 'cat':
            a, b = x.args[0], x.args[-1]
            if a.op == 'const' and b.op == 'const':
                if not (str(a.args[0]).startswith('"') and str(b.args[0]).endswith('"')):
                    return REFUTED, f'cell text {cut(show(x), 100)} is not quoted'
                continue
            if a.op != 'const' and a.op == 'str' or b.op != 'const' and b.op == 'str':
                return REFUTED, f'cell text {cut(show(x), 100)} is not quoted'
            return UNKNOWN, f'cell text {cut(show(x), 100)}'
        if x.op == 'str' or x.op == 'mcall' and x.args[0] in ('strip', 'rstrip', 'lstrip') or x.op == 'elem' or \
                x.op == 'attr' and x.args[1] == 'header':
            return REFUTED, f'cell text {cut(show(x), 100)} is not quoted'
        if x.op == 'call' and x.args[0] == 'json.dumps':
            continue
        return UNKNOWN, f'cell text {cut(show(x), 100)}'
    return PROVED, 'quoted'


def always(e, ch, g):
    """A cell text is arbitrary, so a condition on it may fail."""
    if implies(g, e.guard):
        return None
    for a in tm.batoms(e.guard):
        if any(x.op in ('elem', 'pick', 'new', 'pos') for x in subterms(a)):
            cs = [x.args[0] for x in a.args if isinstance(x, Term) and x.op == 'const' and isinstance(x.args[0], str)]
            if a.op in ('eq', 'eqc') and any(len(v) > 1 and v[0] == v[-1] == '"' for v in cs):
                return REFUTED, f'line {e.node.lineno} is reached only when {cut(show_b(e.guard, 3), 200)}'
    return UNKNOWN, f'line {e.node.lineno} is reached only when {cut(show_b(e.guard, 3), 200)}'


def csv(c, P):
    mod = 'format_csv'
    h = {}

    def start():
        h['r'] = shown(P, mod)
    if not c.group(mod, f'value graph of {mod}.show', start):
        return
    E, node, a, ps, die = h['r']
    where = loc(P, node)
    tabs = {}
    for e, ch in E.events(('call',)):
        if e.key.args[0] in TABLES:
            tabs.setdefault(e.key.args[0], []).append(e)

    def lines():
        if not ps:
            return REFUTED, 'nothing is printed'
        gs = {}
        for e, ch, args, kw in ps:
            gs.setdefault((e.guard, len(ch)), []).append((e, ch, args, kw))
        for (g, n), l in gs.items():
            if n > 1:
                return UNKNOWN, 'nested output loops'
        # one table per option combination
        ts = [e for l in tabs.values() for e in l]
        r = once([(e,) for e in ts], die, E, 'table')
        if r[0] != PROVED:
            return r
        return PROVED, f'{len(ts)} tables, {len(ps)} print statements'
    c.ob(f'{mod}.once', 'exactly one table is printed whatever the options', lines, where)

    def rowcount(n, T0):
        """range length n must be len(rows)+1"""
        p = tm.aff_parts(n)
        if p is None:
            return None
        return p

    by = {}
    for e, ch, args, kw in ps:
        by.setdefault(e.guard, []).append((e, ch, args, kw))
    for i, (g, l) in enumerate(by.items()):
        tab = [e for x in tabs.values() for e in x if implies(g, e.guard)]
        tag = f'{mod}.table{i}'
        name = tab[0].key.args[0].split('.')[-1] if len(tab) == 1 else '?'

        def rows():
            """Every row, header included, is printed exactly once."""
            if len(tab) != 1:
                return UNKNOWN, 'table not found'
            looped = [x for x in l if x[1]]
            single = [x for x in l if not x[1]]
            if not looped:
                return UNKNOWN, 'rows not found'
            if len(looped) != 1:
                return UNKNOWN, f'{len(looped)} output loops'
            e, ch, args, kw = looped[0]
            ln = ch[-1]
            d = ln.dom
            r = always(e, ch, tab[0].guard)
            if r is not None:
                return r
            if ln.cond is not None and ln.cond is not BT:
                return UNKNOWN, 'rows are skipped'
            if d is not None and d.op == 'range' and len(d.args) == 1:
                p = tm.aff_parts(d.args[0])
                rest = [(show(t), k) for t, k in p[1]] if p else None
                if p is None or len(rest) != 1 or rest[0][1] != 1:
                    return UNKNOWN, f'number of rows {show(d)}'
                if rest[0][0].endswith('.rows)') or rest[0][0].endswith('row_count'):
                    have = p[0] + len(single)
                    if have != 1:
                        return REFUTED, f'{show(d.args[0])} lines plus {len(single)} are printed for len(rows) rows and the header'
                    return PROVED, f'one line per row and one for the header ({show(d)})'
            return UNKNOWN, f'rows come from {cut(show(d), 100) if d is not None else "?"}'
        c.ob(f'{tag}.rows', f'{name}: one line per row, and one for the header', rows, where)

        def line():
            for e, ch, args, kw in l:
                w = f'line {e.node.lineno}'
                if len(args) != 1:
                    return (REFUTED if len(args) > 1 else UNKNOWN), f'{w} prints {len(args)} values'
                sw = val(kw, 'soft_wrap')
                if sw is Ellipsis:
                    return UNKNOWN, f'{w}: print options not understood'
                if not sw and not val(kw, 'no_wrap'):
                    return REFUTED, f'{w}: a row longer than the console is broken into several lines'
                if val(kw, 'end') not in (None, '\n'):
                    return REFUTED if val(kw, 'end') is not Ellipsis else UNKNOWN, f'{w}: end={val(kw, "end")!r}'
                t = args[0]
                if t.op == 'mcall' and t.args[0] == 'join' and t.args[1].op == 'const':
                    if t.args[1].args[0].strip() != ',':
                        return REFUTED, f'{w}: cells are joined by {t.args[1].args[0]!r}'
                    continue
                return UNKNOWN, f'{w}: text not understood: {cut(show(t), 100)}'
            return PROVED, 'cells joined by commas on one line'
        c.ob(f'{tag}.line', f'{name}: a row is one line of comma separated cells', line, where)

        def cells():
            roots = set()
            for e, ch, args, kw in l:
                for x in subterms(args[0]):
                    if x.op == 'new':
                        roots.add(x)
            puts = []
            for e, ch in E.events(('put', 'append')):
                if e.obj is None or not implies(e.guard, g) and not implies(g, e.guard):
                    continue
                if e.kind == 'append' and e.val is const(''):
                    continue
                v = e.val
                if v.op in ('mul', 'aff', 'new') or any(x.op == 'new' for x in subterms(v)):
                    continue
                puts.append((e, ch))
            if not puts:
                return UNKNOWN, 'cells not found'
            hd = ct = 0
            for e, ch in puts:
                q = quoted(e.val)
                if q[0] != PROVED:
                    return q[0], f'line {e.node.lineno}: {q[1]}'
                if not implies(g, e.guard):
                    return UNKNOWN, f'line {e.node.lineno}: cell set conditionally ({cut(show_b(e.guard, 2), 100)})'
                s = show(e.val)
                if '.header' in s:
                    hd += 1
                elif ch and ch[-1].dom is not None and 'cells' in show(ch[-1].dom):
                    ct += 1
                for ln in ch:
                    if ln.cond is not None and ln.cond is not BT:
                        return UNKNOWN, f'line {e.node.lineno}: cells are skipped'
                    ds = show(ln.dom) if ln.dom is not None else ''
                    if ln.dom is not None and ln.dom.op == 'slice':
                        return REFUTED, f'line {e.node.lineno}: only {ds} is quoted'
            if not hd or not ct:
                return UNKNOWN, 'header or cells not found'
            return PROVED, f'{len(puts)} cell texts, all quoted'
        c.ob(f'{tag}.cells', f'{name}: every cell is quoted', cells, where)

        def places():
            """header cells go to line 0, cell y of a column to line y + 1, both in the column's own place"""
            rowof, colof = {}, {}
            for e, ch in E.events(('put',)):
                if e.obj is None or not implies(g, e.guard) or e.obj.op not in ('pick', 'idx'):
                    continue
                y = e.obj.args[-1]
                hdr = '.header' in show(e.val)
                p = tm.aff_parts(y) if y.op != 'const' else (y.args[0], ())
                if p is None:
                    return UNKNOWN, f'line {e.node.lineno}: row {show(y)}'
                kx = e.key
                if kx.op != 'pos' or kx.args[0] is not ch[0].L:
                    q = tm.aff_parts(kx)
                    if q and len(q[1]) == 1 and q[1][0][0].op == 'pos' and q[0] != 0:
                        return REFUTED, f'line {e.node.lineno}: column {show(kx)}'
                    return UNKNOWN, f'line {e.node.lineno}: column {show(kx)}'
                if hdr:
                    if y is not const(0):
                        return (REFUTED if y.op == 'const' else UNKNOWN), f'line {e.node.lineno}: header goes to line {show(y)}'
                else:
                    t = [z for z, k in p[1]]
                    if len(t) != 1 or t[0].op != 'pos' or len(ch) < 2 or t[0].args[0] is not ch[-1].L or p[1][0][1] != 1:
                        return UNKNOWN, f'line {e.node.lineno}: row {show(y)}'
                    if p[0] != 1:
                        return REFUTED, f'line {e.node.lineno}: cell y of a column goes to line y + {p[0]}, not y + 1'
                rowof[hdr] = 1
            return (PROVED, 'every cell in its own place') if len(rowof) == 2 else (UNKNOWN, 'cells not found')
        c.ob(f'{tag}.places', f'{name}: every cell is printed in its own row and column', places, where)


TAG = re.compile(r'((\\*)\[([a-z#/@][^[]*?)])', re.VERBOSE)


def dot(c, P):
    mod = 'format_dot'
    h = {}

    def start():
        h['r'] = shown(P, mod)
    if not c.group(mod, f'value graph of {mod}.show', start):
        return
    E, node, a, ps, die = h['r']
    where = loc(P, node)
    c.ob(f'{mod}.once', 'exactly one graph is printed, or the run is refused', lambda: once(ps, die, E, 'graph'), where)

    def graph():
        for e, ch, args, kw in ps:
            w = f'line {e.node.lineno}'
            if ch:
                return REFUTED, f'{w} prints inside a loop'
            if len(args) != 1 or not (args[0].op == 'mcall' and args[0].args[0] == 'join' and args[0].args[1].op == 'const'):
                return UNKNOWN, f'{w}: text not understood'
            sep = args[0].args[1].args[0]
            L = args[0].args[2][0]
            ev = [(x, xc) for x, xc in E.events(('append', 'put', 'copyfrom', 'popitem', 'sort')) if x.obj is L]
            if any(x.kind != 'append' for x, xc in ev) or L.op != 'new':
                return UNKNOWN, f'{w}: lines not understood'
            if not ev:
                return UNKNOWN, f'{w}: no lines'
            if not re.search(r'[\n;]', sep):
                return REFUTED if sep.strip(' ') == '' and False else UNKNOWN, f'{w}: statements joined by {sep!r}'
            first, last = ev[0], ev[-1]
            for (x, xc), what, pat in ((first, 'first', r'\s*(strict\s+)?(di)?graph(\s+("[^"]*"|\w+))?\s*\{\s*$'), (last, 'last', r'\s*\}\s*$')):
                if x.val.op != 'const':
                    return (REFUTED if x.val.op == 'cat' and what == 'last' and not xc else UNKNOWN), f'{what} line is {cut(show(x.val), 80)}'
                if not re.match(pat, str(x.val.args[0])):
                    return REFUTED, f'the {what} line is {x.val.args[0]!r}', f'{where}'
                if xc:
                    return REFUTED, f'the {what} line {x.val.args[0]!r} is written in a loop (line {x.node.lineno})'
                r = vguard(x.guard, BT, e.guard, what=f'the {what} line is written', E=E)
                if r[0] != PROVED:
                    # the graph without any node: only the unconditional lines so far
                    n = const(sum(1 for z, zc in ev[:-1] if not zc and implies(e.guard, z.guard)))
                    g0 = tm.replace(x.guard, {z: n for a in tm.batoms(x.guard) for z in subterms(a) if z.op in ('lenat', 'len') and z.args[0] is L})
                    if what == 'last' and g0 is not x.guard and unsat(g0):
                        return REFUTED, f'the last line is not written when the graph has no nodes ({cut(show_b(x.guard, 2), 150)})'
                    return r
            opens = closes = 0
            for x, xc in ev[1:-1]:
                if x.val.op == 'const' and x.val.args[0] in ('{', '}'):
                    return UNKNOWN, f'line {x.node.lineno}: nested graph'
            return PROVED, f'{len(ev)} statement forms between {first[0].val.args[0]!r} and {last[0].val.args[0]!r}'
        return UNKNOWN, 'print not found'
    c.ob(f'{mod}.graph', 'the text is one graph, opened first and closed last', graph, where)

    def statements():
        n = 0
        for e, ch, args, kw in ps:
            mk = val(kw, 'markup')
            if mk is Ellipsis:
                return UNKNOWN, 'print options not understood'
            mk = mk is None or bool(mk)
            L = args[0].args[2][0] if len(args) == 1 and args[0].op == 'mcall' and args[0].args[0] == 'join' else None
            for x, xc in E.events(('append',)):
                if L is None or x.obj is not L:
                    continue
                for g, v in tm.cases(x.val, x.guard):
                    if unsat(g):
                        continue
                    r = statement(v, mk)
                    if r is not None:
                        return r[0], f'line {x.node.lineno}: {r[1]}'
                    n += 1
        return (PROVED, f'{n} statement forms with quoted names, closed quotes and brackets') if n else (UNKNOWN, 'no statements found')
    c.ob(f'{mod}.statements', 'names are quoted, quotes and attribute lists closed, brackets survive printing', statements, where)


def flat(v):
    if v.op == 'cat':
        return [z for x in v.args for z in flat(x)]
    if v.op == 'str' and v.args[0].op in ('cat', 'const'):
        return flat(v.args[0])
    return [v]


def statement(v, mk):
    s = ''
    for x in flat(v):
        if x.op == 'const':
            s += str(x.args[0])
            continue
        y = x.args[0] if x.op == 'str' else x
        cs = [z for g, z in tm.cases(y, BT)]
        if all(z.op == 'const' for z in cs):
            s += str(cs[0].args[0])
            continue
        num = show(y).endswith("['size']") or y.op == 'aff'
        if s.replace('\\"', '').count('"') % 2 == 0 and not num:
            if all(z.op in ('key', 'idx', 'elem') or z.op == 'mcall' and z.args[0] == 'join' for z in cs):
                return REFUTED, f'{cut(show(y), 80)} is not quoted'
            return UNKNOWN, f'{cut(show(y), 80)} is not quoted'
        s += '7' if num else 'n'
    if s.count('"') % 2:
        return REFUTED, f'quotes do not match in {s!r}'
    t = s
    if mk:
        if any(len(m.group(2)) % 2 == 0 for m in TAG.finditer(s)):
            return REFUTED, f'the attributes of {s!r} are taken as console markup and lost'
        t = s.replace('\\[', '[')
    elif '\\[' in s:
        return REFUTED, f'a backslash is printed before the attributes in {s!r}'
    u = re.sub(r'"[^"]*"', 'q', t)
    if u.count('[') != u.count(']') or u.count('{') != u.count('}') and u.strip() not in ('}',) and not u.rstrip().endswith('{'):
        return REFUTED, f'brackets do not match in {t!r}'
    return None


def check(c):
    P = Project()
    streams(c, P)
    jsons(c, P)
    csv(c, P)
    dot(c, P)


if __name__ == '__main__':
    main('C22', RULE, check, ['esp_pylib: log.print writes to the configured report stream with rich markup enabled by default; err, warn '
                              'and die write to the error stream; messages of --debug go to the report stream by documentation'], 20)
