"""C01: the output file is all-or-nothing."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import cli
import flow
from cli import A, on, opt
from report import main
from vg import *

RULE = ('path-sensitive typestate over main() including exceptional edges: on every path, also through handlers and finally '
        'blocks, a file system write is reached only after a renderer returned normally and no stage failed; value graph: '
        'with an output file the console writes into a memory buffer with terminal codes off before anything is rendered, '
        'and exactly the content of that buffer goes to exactly the requested file.')

WRITE = {'.write_text', '.write_bytes', '.mkdir', '.touch', '.unlink', '.rename', '.replace_file', '.rmdir', '.symlink_to',
         '.truncate', 'os.mkdir', 'os.makedirs', 'os.remove', 'os.unlink', 'os.replace', 'os.rename', 'os.truncate', 'os.open',
         'os.rmdir', 'shutil.copy', 'shutil.copyfile', 'shutil.move', 'shutil.rmtree', 'tempfile.mkstemp',
         'tempfile.NamedTemporaryFile', 'tempfile.mkdtemp', 'shutil.copy2'}


def mode_of(node, skip):
    """Constant open mode, 'r' when absent, None when not a constant."""
    m = None
    if len(node.args) > skip:
        m = node.args[skip]
    for k in node.keywords:
        if k.arg == 'mode':
            m = k.value
    if m is None:
        return 'r'
    return m.value if isinstance(m, ast.Constant) and isinstance(m.value, str) else None


def is_write(node, q):
    if q in WRITE:
        return True
    if q in ('open', 'io.open', 'codecs.open', '.open'):
        m = mode_of(node, 1 if q != '.open' else 0)
        return None if m is None else any(x in m for x in 'wax+')
    return False


class H(flow.Hooks):
    def __init__(self, P, choices):
        self.P = P
        self.choices = choices
        self.bad = []
        self.unknown = []
        self.writes = set()
        self.stages = set()

    def relevant(self, text):
        return 'output_file' in text or 'format' in text and 'force' not in text or text.startswith('self:')

    def domain(self, text):
        return self.choices if text.endswith("['format']") else None

    def inline(self, q):
        return q.split('.')[0] in ('main', 'local')

    def default_raises(self, q):
        return False

    def call(self, fl, n, q, recv, args, kw, s, fr):
        w = is_write(n, q)
        if w:
            self.writes.add((q, n.lineno))
            rendered, failed = s.ts
            if failed or not rendered:
                self.bad.append((n, q, s, fr))
            return [('ok', s, ('o', 'file')), ('exc', s, 'OSError'), ('exc', s, '*')]
        mod = q.split('.')[0]
        if mod in self.P.modules and mod not in ('main', 'log'):
            self.stages.add(q)
            ok = s
            if mod.startswith('format_'):
                ok = s.with_ts((True, s.ts[1]), f'{n.lineno}:{q}')
            bad = s.with_ts((s.ts[0], True), f'{n.lineno}:{q} failed')
            return [('ok', ok, ('o', f'{q}@{n.lineno}')), ('exc', bad, '*'), ('exc', bad, 'SystemExit'),
                    ('exc', bad, 'MemMapException'), ('exc', bad, 'MapFileException'), ('exc', bad, 'KeyboardInterrupt')]
        if q in ('log.die', 'sys.exit'):
            return [('exc', s, 'SystemExit')]
        last = q.split('.')[-1]
        if q == '?' or q.startswith('.') and any(last in mo.funcs for nm, mo in self.P.modules.items() if nm not in ('main', 'log')):
            # indirect call: a renderer picked from a table, if anything
            ok = s.with_ts((None, s.ts[1]), f'{n.lineno}:indirect')
            bad = s.with_ts((s.ts[0], True), f'{n.lineno}:indirect call failed')
            return [('ok', ok, None), ('exc', bad, '*')]
        return None


def check(c):
    P = Project()
    node = P.func('main', 'main')
    m = P.func_module(node)
    opts = cli.options(P)
    ch = opts['format'].choices if 'format' in opts else None
    where = loc(P, node)

    st = {}

    def typestate():
        h = H(P, ch)
        fl = flow.Flow(P, h)
        s = flow.S(ts=(False, False))
        fl.invoke(m, node, None, None, [], {'**': ('x', 'args')}, s)
        st['h'] = h
        c.counts.update(abstract_states=fl.nstates, call_sites=len(fl.calls), writes=len(h.writes))
        soft = [b for b in h.bad if b[2].ts[0] is None and not b[2].ts[1]]
        hard = [b for b in h.bad if b not in soft]
        if hard:
            n, q, s, fr = hard[0]
            why = 'after ' + s.trace[-1] if s.ts[1] else 'before the report is rendered'
            return REFUTED, f'{q} reached {why}: path {" -> ".join(s.trace) or "start"}', \
                f'{fr.mod.path}:{n.lineno} {getattr(fr.node, "name", "")}'
        if soft:
            return UNKNOWN, 'renderer called indirectly'
        if not h.writes:
            return UNKNOWN, 'no write found'
        if not any(x.startswith('format_') for x in h.stages):
            return UNKNOWN, 'no renderer call found'
        return PROVED, f'{len(h.writes)} write calls, {len(h.stages)} stages, {fl.nstates} abstract states'
    c.ob('after', 'nothing is written before the report is complete or after a failure', typestate, where)

    def nowhere():
        # renderers and analysis stages never write themselves
        n = 0
        for mod in P.modules.values():
            if mod.name == 'main':
                continue
            for x in ast.walk(mod.tree):
                if isinstance(x, ast.Call):
                    q = None
                    if isinstance(x.func, ast.Attribute):
                        b = x.func.value
                        full = ast.unparse(x.func)
                        q = full if full in WRITE else '.' + x.func.attr
                        if q == '.open' and isinstance(b, ast.Name) and b.id in ('os', 'io', 'codecs'):
                            q = full
                        if q == '.replace_file':
                            continue
                    elif isinstance(x.func, ast.Name):
                        q = x.func.id
                    n += 1
                    if q in ('.rename', '.touch', '.truncate') and False:
                        continue
                    w = is_write(x, q)
                    if w:
                        return REFUTED, f'{ast.unparse(x)[:100]} writes outside the final write', f'{mod.path}:{x.lineno}'
                    if w is None:
                        return UNKNOWN, f'open mode at {mod.path}:{x.lineno}'
        return PROVED, f'{n} calls outside main'
    c.ob('only', 'no other module writes files', nowhere, where)

    E, _ = cli.analyse(P)
    F = E.cli_facts
    OF = on('output_file')

    def W(e):
        return f'{P.module(e.mod).path}:{e.node.lineno} {e.fn}'

    cons = [(e, dict(e.val.args[1])) for e, _ in E.events(('call',)) if e.key.args[0].endswith('set_console_options')]
    rend = [e for e, n, a, kw in cli.calls(E, *[f'format_{x}.show' for x in cli.FORMATS])]
    buf = {}

    def is_buffer(x):
        cn = E.newinfo.get(x.args[0]) if x.op == 'new' else x.args[0] if x.op in ('call', 'inst') else None
        cn = str(cn)
        if cn.endswith('StringIO') or cn.endswith('BytesIO'):
            return True
        last = cn.split('.')[-1]
        for mod in P.modules.values():
            if last in mod.classes:
                return any(ast.unparse(b).endswith('StringIO') for b in mod.classes[last].bases)
        return False

    def console():
        if not cons:
            return UNKNOWN, 'console is not configured directly'
        for e, kw in cons:
            f = kw.get('file')
            if f is None:
                return REFUTED, 'the console is not pointed at the output buffer', W(e)
            for g, x in tm.cases(f, e.guard):
                if x.op == 'const' and x.args[0] is None:
                    if not unsat(band(g, OF)):
                        r = vguard(band(g, OF), BF, BT, F, c.seed, 'no buffer although an output file is requested', E)
                        if r[0] != PROVED:
                            return r + (W(e),)
                elif is_buffer(x):
                    buf[x] = e
                    r = vguard(band(g, bnot(OF)), BF, BT, F, c.seed, 'report goes to a buffer although no output file is requested', E)
                    if r[0] != PROVED:
                        return r + (W(e),)
                elif x.op == 'call' and str(x.args[0]) in ('open', 'io.open'):
                    return REFUTED, 'the report is streamed into a file while it is rendered', W(e)
                else:
                    return UNKNOWN, f'console file {cut(show(x))}'
        return PROVED, f'{len(cons)} console configurations'
    c.ob('buffer', 'with an output file the report is rendered into memory, otherwise to the console', console, where)

    def before():
        if not cons or not rend:
            return UNKNOWN, 'console or renderer call not found'
        for r in rend:
            ok = [e for e, kw in cons if e.seq < r.seq]
            if not ok:
                return REFUTED, 'the renderer runs before the console is configured', W(r)
            q = vguard(bor(*[e.guard for e in ok]), BT, r.guard, F, c.seed, 'console configured before rendering', E)
            if q[0] != PROVED:
                return q + (W(r),)
        return PROVED, f'{len(rend)} renderer calls'
    c.ob('first', 'the console is configured before anything is rendered', before, where)

    def colors():
        if not cons:
            return UNKNOWN, 'console is not configured directly'
        for e, kw in cons:
            t = kw.get('force_terminal')
            if t is None:
                continue
            r = vguard(band(e.guard, OF, E.truth0(t)), BF, BT, F, c.seed, 'terminal codes forced into the output file', E)
            if r[0] != PROVED:
                return r + (W(e),)
        return PROVED, 'no forced terminal codes'
    c.ob('plain', 'terminal control codes are never forced into the output file', colors, where)

    # ---- what is written, and where
    WR = ('.write_text', '.write_bytes', '.write')

    def writes():
        return [(e, list(e.val.args[0])) for e, _ in E.events(('call',)) if e.key.args[0] in WR]

    def path_root(t):
        seen = 0
        while seen < 10:
            seen += 1
            if t.op == 'call' and str(t.args[0]).split('.')[-1] in ('Path', 'open', 'str', 'fspath', 'PurePath') and t.args[1]:
                t = t.args[1][0]
            elif t.op == 'mcall' and t.args[0] in ('open', 'resolve', 'absolute', 'expanduser', '__enter__'):
                t = t.args[1]
            elif t.op in ('enter', 'with', 'ctx'):
                t = t.args[0]
            elif t.op == 'phi' and path_root(t.args[1]) is path_root(t.args[2]):
                t = path_root(t.args[1])
            else:
                break
        return t

    def opened(t):
        """Modes of the calls of open a file object comes from."""
        for y in subterms(t):
            if y.op == 'call' and str(y.args[0]).split('.')[-1] == 'open':
                a, k, i = y.args[1], y.args[2] if len(y.args) > 2 else (), 1
            elif y.op == 'mcall' and y.args[0] == 'open':
                a, k, i = y.args[2], y.args[3] if len(y.args) > 3 else (), 0
            else:
                continue
            m = dict(k).get('mode') if k else None
            if m is None and isinstance(a, tuple) and len(a) > i:
                m = a[i]
            if m is not None and m.op == 'const' and isinstance(m.args[0], str):
                yield m.args[0]

    def content():
        ws = writes()
        if not ws:
            return UNKNOWN, 'write not understood'
        n = 0
        for e, a in ws:
            if a[0] not in buf:
                for md in opened(a[0]):
                    if 'a' in md or 'r' in md:
                        return REFUTED, f'the file is opened with mode {md!r}, so earlier content stays in it', W(e)
            data = a[1] if len(a) > 1 else dict(e.val.args[1]).get('data')
            if data is None:
                return UNKNOWN, 'written data not found'
            if a[0] in buf:
                continue
            for g, x in tm.cases(data, band(e.guard, OF)):
                r = x
                if r.op == 'mcall' and r.args[0] == 'encode':
                    r = r.args[1]
                if r.op == 'mcall' and r.args[0] in ('getvalue',):
                    if r.args[1] in buf:
                        n += 1
                        continue
                    return UNKNOWN, f'written buffer {cut(show(r.args[1]))}'
                b = [y for y in subterms(r) if y.op == 'mcall' and y.args[0] == 'getvalue']
                if b and r.op in ('mcall', 'slice', 'cat', 'idx'):
                    return REFUTED, f'not the rendered report but {cut(show(r))} is written', W(e)
                if r.op == 'const' and isinstance(r.args[0], str):
                    return REFUTED, f'the constant {r.args[0]!r:.40} is written instead of the report', W(e)
                return UNKNOWN, f'written data {cut(show(r))}'
        return (PROVED, f'{n} writes of the buffer content') if n else (UNKNOWN, 'no write of the buffer')
    c.ob('content', 'exactly the rendered report is written', content, where)

    def target():
        ws = [(e, a) for e, a in writes() if a[0] not in buf]
        if not ws:
            return UNKNOWN, 'write not understood'
        for e, a in ws:
            t = path_root(a[0])
            for g, x in tm.cases(t, band(e.guard, OF)):
                x = path_root(x)
                if x is opt('output_file'):
                    continue
                if x.op == 'idx' and x.args[0] is A:
                    return REFUTED, f'the report is written to {show(x)}', W(e)
                return UNKNOWN, f'file {cut(show(x))}'
        return PROVED, f'{len(ws)} writes'
    c.ob('target', 'the report is written to the requested file', target, where)

    def happens():
        ws = [e for e, a in writes() if a[0] not in buf]
        if not ws:
            if not (st.get('h') and st['h'].writes):
                return REFUTED, 'the output file is never written'
            return UNKNOWN, 'write not understood'
        return vguard(bor(*[e.guard for e in ws]), OF, BT, F, c.seed, 'report written to a file', E)
    c.ob('happens', 'the output file is written exactly when requested', happens, where)


if __name__ == '__main__':
    main('C01', RULE, check, floor=5, assumptions=[
        'the console of esp_pylib writes to the file it is given', 'Path.write_text itself is not atomic (out of scope)'])
