#!/usr/bin/env python3
"""C17: the map parser loses nothing and rejects what it cannot read."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))

from absint import AbsStr, Cannot, Explorer, Func, Bound, Inst, Interp, N, Op, Prune, PyExc, mk, nadd   # noqa: E402
from mapdoc import BLANKS, Doc, File, re_hooks                                                       # noqa: E402
from project import Project, AnchorMissing                                                              # noqa: E402
from report import PROVED, REFUTED, UNKNOWN, main                                                       # noqa: E402

RULE = ('Abstract interpretation of MapFile.__init__ in product with a specification automaton. The link map is an unknown sequence of '
        'abstract lines (names, paths and numbers are symbols; each line is one of the shapes GNU ld writes, or a malformed variant). '
        'States (live variables, object attributes, specification state, linear facts) are compared up to renaming and each is expanded '
        'once with every line shape; at every state the file may also end. The parsed result of each path must equal the one of the '
        'specification for all values the facts on that path admit, and every malformed recognised line must end in MapFileException '
        'naming the file and that line.')

REG_HEAD = ['Memory Configuration', '', 'Name             Origin             Length             Attributes']
LS = ['Linker script and memory map', '']
TARGET = ['                0x0000000000000001                IDF_TARGET_ESP32S3 = 0x0']
CRT = ['Cross Reference Table', '', 'Symbol                                            File']


class Fresh:
    def __init__(self):
        self.n = {}

    def __call__(self, kind):
        self.n[kind] = self.n.get(kind, 0) + 1
        return f'{kind}{self.n[kind]}'


class Base:
    """Reference automaton: options() are the lines that may follow; state() what it remembers."""
    want_error = None          # line numbers (1-based) one of which must be named

    def __init__(self, bounds):
        self.f = Fresh()
        self.bounds = bounds

    def num(self, kind):
        n = N(0, {('num', self.f(kind)): 1})
        return mk(['0x', Op(('num', repr(n)), BLANKS, num=n)]), n

    def word(self, kind, pre='', excl=''):
        return mk([pre, Op((kind, self.f(kind)), BLANKS + excl + '*')])

    def bad(self):
        return mk(['z', Op(('bad', self.f('bad')), BLANKS)])

    def path(self, kind):
        """(text, archive, object file)"""
        w = lambda k: Op((k, self.f(k)), BLANKS + '()')   # noqa: E731
        if kind == 'archive':
            a, o = w('lib'), w('obj')
            return mk([a, '(', o, ')']), mk([a]), mk([o])
        if kind == 'object':
            o = w('obj')
            return mk([o]), '(exe)', mk([o])
        if kind == 'space':
            a, b, o = w('dir'), w('lib'), w('obj')
            return mk([a, ' ', b, '(', o, ')']), mk([a, ' ', b]), mk([o])
        if kind == 'space object':
            a, o = w('dir'), w('obj')
            return mk([a, ' ', o]), '(exe)', mk([a, ' ', o])
        if kind == 'paren':
            a, b, c, o = w('dir'), w('dir'), w('lib'), w('obj')
            return mk([a, ' (', b, ')/', c, '(', o, ')']), mk([a, ' (', b, ')/', c]), mk([o])
        if kind == 'paren object':
            a, b, o = w('dir'), w('dir'), w('obj')
            return mk([a, '(', b, ')/', o]), '(exe)', mk([a, '(', b, ')/', o])
        raise AssertionError(kind)

    def error(self, I, new, at, also=()):
        self.want_error = {at} | set(also)
        return new, True


class Sections(Base):
    """Output and input sections of the link map."""

    def __init__(self, bounds):
        Base.__init__(self, bounds)
        self.outs = []
        self.cur = None
        self.pend = None
        self.wait = None        # 'out': address line of the output section, 'in': of the input section
        self.dirty = set()      # output sections about which nothing is claimed
        self.extra = 0
        self.noise = 0
        self.named = None

    def state(self):
        return [self.outs, self.cur, self.pend, self.wait, sorted(self.dirty), self.noise if self.bounds['noise'] else 0, self.extra]

    def place(self, I, p):
        """Ordinary layout: non-empty sections inside the output section, one behind the other."""
        if not self.bounds['ordered'] or self.cur is None:
            return
        o = self.cur
        before = o['input_sections'][-1] if o['input_sections'] else None
        lo = nadd(before['address'], 1) if before else o['address']
        for d in (nadd(lo, p['address'], -1), nadd(1, p['size'], -1), nadd(nadd(p['address'], p['size']), nadd(o['address'], o['size']), -1)):
            I.rows.append(I.lin(d if isinstance(d, N) else N(d)))
        if not I.feasible([]):
            raise Prune()

    def finish_in(self, I):
        p, o = self.pend, self.cur
        self.pend = None
        if p is None:
            return
        ins = o['input_sections']
        if not ins:
            inside = not I.compare('<', p['address'], o['address']) and I.compare('<', p['address'], nadd(o['address'], o['size']))
            if not inside:
                self.dirty.add(len(self.outs))
            ins.append(p)
            return
        if I.compare('<', p['address'], o['address']) or not I.compare('<', p['address'], nadd(o['address'], o['size'])):
            p['size'] = 0
        if I.eq(ins[-1]['address'], p['address']):
            ins[-1]['size'] = 0
        if I.eq(p['size'], 0):
            for s in reversed(ins):
                if not I.eq(s['size'], 0):
                    s['fill'] = nadd(s['fill'], p['fill'])
                    break
            p['fill'] = 0
        ins.append(p)

    def finish_out(self, I):
        self.finish_in(I)
        self.outs.append(self.cur)
        self.cur = None

    def options(self, I, n):
        """n: number of lines so far; the next one is number n + 1."""
        b = self.bounds
        at = n + 1
        out = []

        def opt(label, fn):
            out.append((label, fn))
        nin = sum(len(o['input_sections']) for o in self.outs) + (len(self.cur['input_sections']) if self.cur else 0) + (self.pend is not None)
        nout = len(self.outs) + (self.cur is not None)
        pad = ' ' * 16

        def plain(line):
            def f():
                self.noise += 1
                return [line], False
            return f

        def sym():
            self.noise += 1
            a, _ = self.num('v')
            return [mk([pad, a, ' ' * 16, self.word('sym')])], False

        def assign():
            self.noise += 1
            a, _ = self.num('v')
            return [mk([pad, a, ' ' * 16, self.word('sym'), ' = .'])], False
        if self.cur is None:
            def one():
                nm = self.word('out', '.')
                (a, av), (s, sv) = self.num('a'), self.num('s')
                self.cur = {'name': nm, 'address': av, 'size': sv, 'input_sections': []}
                return [mk([nm, '   ', a, '   ', s])], False

            def two():
                nm = self.word('out', '.')
                self.cur = {'name': nm, 'address': 0, 'size': 0, 'input_sections': []}
                self.wait = 'out'
                self.named = at
                return [nm], False

            def bad(make):
                def f():
                    nm = self.word('out', '.')
                    (a, _), (s, _) = self.num('a'), self.num('s')
                    return self.error(I, [mk(make(nm, a, s))], at)
                return f
            if nout < b['out']:
                opt('output section', one)
                if b['two']:
                    opt('output section name', two)
            if b['bad']:
                opt('output section with two fields', bad(lambda m, a, s: [m, '  ', a]))
                opt('output section with four fields', bad(lambda m, a, s: [m, '  ', a, '  ', s, ' x']))
                opt('output section with bad address', bad(lambda m, a, s: [m, '  ', self.bad(), '  ', s]))
                opt('output section with bad size', bad(lambda m, a, s: [m, '  ', a, '  ', self.bad()]))
            if self.noise < b['noise']:
                opt('blank', plain(''))
                opt('pattern', plain(' *(.text .text.*)'))
                opt('load', plain(mk(['LOAD ', self.word('load')])))
                opt('symbol', sym)
        elif self.wait == 'out':
            def addr():
                (a, av), (s, sv) = self.num('a'), self.num('s')
                self.cur['address'], self.cur['size'] = av, sv
                self.wait = None
                return [mk([pad, a, '   ', s])], False

            def none(line):
                def f():
                    self.wait = None
                    self.dirty.add(len(self.outs))
                    if not line:
                        self.finish_out(I)
                    return [line], False
                return f
            opt('address of the output section', addr)
            opt('pattern', none(' *(.text .text.*)'))
            opt('blank', none(''))
            return out
        elif self.wait == 'in':
            def cont(kind):
                def f():
                    (a, av), (s, sv) = self.num('a'), self.num('s')
                    t, ar, ob = self.path(kind)
                    self.pend.update(address=av, size=sv, archive=ar, object_file=ob)
                    self.place(I, self.pend)
                    self.wait = None
                    return [mk([pad, a, '   ', s, ' ', t])], False
                return f

            def bad(make, *also):
                def f():
                    (a, _), (s, _) = self.num('a'), self.num('s')
                    t, _, _ = self.path('archive')
                    return self.error(I, [mk(make(a, s, t))], at, also)
                return f
            for k in b['paths']:
                opt(f'rest of the input section ({k})', cont(k))
            if not b['bad']:
                return out
            opt('rest with two fields', bad(lambda a, s, t: [pad, a, '  ', s]))
            opt('rest with bad address', bad(lambda a, s, t: [pad, self.bad(), '  ', s, ' ', t]))
            opt('rest with bad size', bad(lambda a, s, t: [pad, a, '  ', self.bad(), ' ', t]))
            opt('blank instead of the rest', bad(lambda a, s, t: [''], at - 1))
            opt('another input section instead of the rest', bad(lambda a, s, t: [' ', self.word('in', '.'), '  ', a, '  ', s, ' ', t], at - 1))
            opt('end instead of the rest', lambda: self.error(I, [], at, (at - 1,)))
            return out
        else:
            def new(kind, common=False):
                def f():
                    self.finish_in(I)
                    nm = 'COMMON' if common else self.word('in', '.')
                    (a, av), (s, sv) = self.num('a'), self.num('s')
                    t, ar, ob = self.path(kind)
                    self.pend = {'name': nm, 'address': av, 'size': sv, 'archive': ar, 'object_file': ob, 'fill': 0}
                    self.place(I, self.pend)
                    return [mk([' ', nm, '   ', a, '   ', s, ' ', t])], False
                return f

            def name():
                self.finish_in(I)
                nm = self.word('in', '.')
                self.pend = {'name': nm, 'address': None, 'size': None, 'archive': '', 'object_file': '', 'fill': 0}
                self.wait = 'in'
                return [mk([' ', nm])], False

            def bad(make):
                def f():
                    (a, _), (s, _) = self.num('a'), self.num('s')
                    t, _, _ = self.path('archive')
                    return self.error(I, [mk(make(self.word('in', '.'), a, s, t))], at)
                return f

            def fill(same):
                def f():
                    self.extra += 1
                    z, zv = self.num('f')
                    a, av = self.num('a')
                    if self.pend is not None:
                        if same != I.eq(self.pend['address'], av):
                            raise Prune()
                        if same:
                            self.pend['size'] = 0
                        self.pend['fill'] = nadd(self.pend['fill'], zv)
                    elif same:
                        raise Prune()
                    return [mk([' *fill*  ', a, '   ', z, ' '])], False
                return f

            def badfill(make):
                def f():
                    (a, _), (z, _) = self.num('a'), self.num('f')
                    return self.error(I, [mk(make(a, z))], at)
                return f

            def data(kw):
                def f():
                    self.extra += 1
                    (a, _), (z, zv) = self.num('a'), self.num('f')
                    v, _ = self.num('v')
                    if self.pend is not None:
                        self.pend['fill'] = nadd(self.pend['fill'], zv)
                    return [mk([pad, a, '   ', z, ' ', kw, ' ', v])], False
                return f

            def baddata():
                a, _ = self.num('a')
                v, _ = self.num('v')
                return self.error(I, [mk([pad, a, '   ', self.bad(), ' BYTE ', v])], at)

            def blank():
                self.finish_out(I)
                return [''], False

            def relax():
                self.noise += 1
                z, _ = self.num('z')
                return [mk([pad, '              ', z, ' (size before relaxing)'])], False
            if nin < b['in']:
                for k in b['paths']:
                    opt(f'input section ({k})', new(k))
                if b['common']:
                    opt('COMMON', new('archive', True))
                if b['two']:
                    opt('input section name', name)
            if b['bad']:
                opt('input section with two fields', bad(lambda m, a, s, t: [' ', m, '  ', a]))
                opt('input section with three fields', bad(lambda m, a, s, t: [' ', m, '  ', a, '  ', s]))
                opt('input section with bad address', bad(lambda m, a, s, t: [' ', m, '  ', self.bad(), '  ', s, ' ', t]))
                opt('input section with bad size', bad(lambda m, a, s, t: [' ', m, '  ', a, '  ', self.bad(), ' ', t]))
            if self.extra < b['extra']:
                opt('fill', fill(False))
                if self.pend is not None:
                    opt('fill at the same address', fill(True))
                    for kw in b['data']:
                        opt(kw, data(kw))
            if self.pend is not None and b['bad']:
                opt('fill with two fields', badfill(lambda a, z: [' *fill*  ', a]))
                opt('fill with four fields', badfill(lambda a, z: [' *fill*  ', a, '  ', z, ' 00']))
                opt('fill with bad address', badfill(lambda a, z: [' *fill*  ', self.bad(), '  ', z]))
                opt('fill with bad size', badfill(lambda a, z: [' *fill*  ', a, '  ', self.bad()]))
                opt('data with bad size', baddata)
            if self.noise < b['noise']:
                opt('pattern', plain(' *(.text .text.*)'))
                opt('symbol', sym)
                opt('assignment', assign)
                opt('relaxed size', relax)
            opt('blank', blank)

        def eof():
            if self.cur is not None:
                self.finish_out(I)
            return [], True

        def crt():
            if self.cur is not None:
                self.finish_out(I)
            return CRT, True
        opt('end of file', eof)
        if b['two']:
            opt('cross reference table', crt)
        return out

    def compare(self, I, m):
        got = I.attr(m, 'sections')
        if not isinstance(got, list):
            raise Cannot('sections')
        want = self.outs
        if len(got) != len(want):
            return f'{len(got)} output sections instead of {len(want)}'
        for i, (g, w) in enumerate(zip(got, want)):
            d = differs(I, g, w, ('name',) + (() if i in self.dirty and w['address'] == 0 else ('address', 'size')))
            if d:
                return f'output section {i + 1}: {d}'
            gi, wi = I.index(g, 'input_sections'), w['input_sections']
            if not isinstance(gi, list):
                raise Cannot('input_sections')
            if len(gi) != len(wi):
                return f'output section {i + 1} has {len(gi)} input sections instead of {len(wi)}'
            for j, (x, y) in enumerate(zip(gi, wi)):
                d = differs(I, x, y, ('name', 'address', 'archive', 'object_file') + (() if i in self.dirty else ('size', 'fill')))
                if d:
                    return f'input section {j + 1} of output section {i + 1}: {d}'
        return None


class Regions(Base):
    def __init__(self, bounds):
        Base.__init__(self, bounds)
        self.regs = []
        self.noise = 0

    def state(self):
        return [self.regs, self.noise]

    def options(self, I, n):
        at = n + 1
        out = []

        def reg(attrs, default=False):
            def f():
                nm = '*default*' if default else self.word('reg')
                (o, ov), (z, zv) = self.num('o'), self.num('l')
                t = self.word('attr') if attrs else ''
                self.regs.append({'name': nm, 'origin': ov, 'length': zv, 'attrs': t})
                return [mk([nm, '  ', o, ' ', z, ' ' if attrs else '', t])], False
            return f

        def bad(make):
            def f():
                (o, _), (z, _) = self.num('o'), self.num('l')
                return self.error(I, [mk(make(self.word('reg'), o, z))] + [''] + LS, at)
            return f

        def blank():
            self.noise += 1
            return [''], False

        def end():
            return [''] + LS + TARGET + [''] + CRT, True
        if len(self.regs) < self.bounds['regions']:
            out += [('region', reg(True)), ('region without attributes', reg(False)), ('default region', reg(False, True))]
        out += [('region with one field', bad(lambda m, o, z: [m])), ('region with two fields', bad(lambda m, o, z: [m, ' ', o])),
                ('region with five fields', bad(lambda m, o, z: [m, ' ', o, ' ', z, ' xr w'])),
                ('region with bad origin', bad(lambda m, o, z: [m, ' ', self.bad(), ' ', z, ' xr'])),
                ('region with bad length', bad(lambda m, o, z: [m, ' ', o, ' ', self.bad()])), ('end', end)]
        if self.noise < 1:
            out.append(('blank', blank))
        return out

    def compare(self, I, m):
        got = I.attr(m, 'memory_regions')
        if not isinstance(got, list):
            raise Cannot('memory_regions')
        if len(got) != len(self.regs):
            return f'{len(got)} memory regions instead of {len(self.regs)}'
        for i, (g, w) in enumerate(zip(got, self.regs)):
            d = differs(I, g, w, ('name', 'origin', 'length', 'attrs'))
            if d:
                return f'memory region {i + 1}: {d}'
        return None


class Refs(Base):
    def __init__(self, bounds):
        Base.__init__(self, bounds)
        self.syms = []

    def state(self):
        return [[list(x) for x in self.syms]]

    def options(self, I, n):
        at = n + 1
        out = []
        total = sum(len(x[1]) for x in self.syms)

        def define(kind):
            def f():
                s = self.word('sym')
                t, a, o = self.path(kind)
                self.syms.append([s, [(a, o)]])
                return [mk([s, ' ' * 20, t])], False
            return f

        def ref(kind):
            def f():
                t, a, o = self.path(kind)
                if self.syms:
                    self.syms[-1][1].append((a, o))
                return [mk([' ' * 50, t])], False
            return f

        def bad():
            return self.error(I, [self.word('sym')], at)
        if total < self.bounds['refs']:
            for k in self.bounds['paths']:
                out.append((f'definition ({k})', define(k)))
                if self.syms:
                    out.append((f'reference ({k})', ref(k)))
        out += [('definition without file', bad), ('end', lambda: ([], True)), ('blank at the end', lambda: ([''], True))]
        return out

    def compare(self, I, m):
        got = I.attr(m, 'cross_reference_table')
        if not self.syms:
            return None if not I.truth(got) else f'{got!r} for an empty table'
        if got is None:
            return f'no table for {len(self.syms)} symbols'
        if not isinstance(got, dict):
            raise Cannot('cross_reference_table')
        for i, (s, fs) in enumerate(self.syms):
            if any(I.memo.get(('eq',) + tuple(sorted((repr(s), repr(t))))) for t, _ in self.syms):
                continue
            if s not in got:
                return f'symbol {s!r} is missing'
            g = got[s]
            if not isinstance(g, list):
                raise Cannot('cross_reference_table')
            if [tuple(x) for x in g] != fs:
                return f'symbol {s!r} has files {g!r} instead of {fs!r}'
        return None


class Truncated(Base):
    """The file ends before the headings the parser needs."""

    def __init__(self, bounds):
        Base.__init__(self, bounds)
        self.want_error = 'file'

    def state(self):
        return []

    def options(self, I, n):
        return [('end', lambda: ([], True)), ('something else', lambda: ([self.word('text')], True))]


def differs(I, g, w, keys):
    for k in keys:
        x, y = I.index(g, k), w[k]
        if isinstance(y, (str, AbsStr)):
            if x != y:
                return f'{k} is {x!r} instead of {y!r}'
            continue
        if x is None or isinstance(x, (str, AbsStr)):
            return f'{k} is {x!r} instead of {y!r}'
        d = nadd(x, y, -1)
        if not isinstance(d, N):
            if d != 0:
                return f'{k} is {x!r} instead of {y!r}'
            continue
        c, k0 = I.lin(d)
        neg = {a: -v for a, v in c.items()}
        if I.feasible([(c, k0 + 1)]) or I.feasible([(neg, -k0 + 1)]):
            return f'{k} is {x!r} instead of {y!r}'
    return None


def names_line(I, exc, lines):
    """The message of the error names the file and one of these lines."""
    v = exc.inst
    args = v.attrs.get('__args__') if isinstance(v, Inst) else v.args
    if not args:
        return 'an error without message'
    t = args[0]
    parts = t.parts if isinstance(t, AbsStr) else (t,)
    if not any(isinstance(p, Op) and p.id == 'fn' for p in parts):
        return f'the message {t!r} does not name the file'
    s = ''.join(p if isinstance(p, str) else 'q' for p in parts)
    if lines == 'file':
        return None
    nums = {int(x) for x in re.findall(r'(?<![\w])(\d+)(?!\w)', s)}
    if not nums & lines:
        return f'the message {t!r} does not name line {min(lines)}'
    return None


def place(node):
    return f'esp_idf_size/mapfile.py:{node.lineno}'


def explore(P, cls, spec, head, limit):
    """Returns (verdict, detail, where), number of paths, number of states."""
    seen = set()
    ex = Explorer(limit)
    found = []
    cannot = []
    init = [x for x in cls.body if getattr(x, 'name', '') == '__init__']
    m = P.modules['mapfile']

    def body(choose):
        sp = spec()
        doc = Doc(head, sp, seen)
        doc.fresh = lambda: ex.fresh()
        hooks = re_hooks()
        hooks['open'] = lambda I, a, k: File(doc)
        hooks['io.open'] = hooks['open']
        I = Interp(P, choose, hooks, 60000)
        inst = Inst(I.classval(cls, m))
        try:
            err = None
            try:
                I.call(Bound(Func(init[0], m, None, inst.cls), inst), [AbsStr((Op('fn'),))], {})
            except PyExc as e:
                err = e
            if err is not None:
                names = I.mro(err.inst)
                if sp.want_error is None:
                    w = place(err.node) if err.node is not None else None
                    msg = ''
                    a = err.inst.attrs.get('__args__') if isinstance(err.inst, Inst) else err.inst.args
                    if a:
                        msg = f' ({a[0]!r})'
                    found.append((f'{names[0]}{msg} for a well-formed map', doc.show()[len(head):], w))
                    return
                if 'MapFileException' not in names:
                    found.append((f'{names[0]} instead of a report of the malformed line', doc.show()[len(head):],
                                  place(err.node) if err.node is not None else None))
                    return
                d = names_line(I, err, sp.want_error)
                if d:
                    found.append((d, doc.show()[len(head):], place(err.node) if err.node is not None else None))
                return
            if not doc.done and sp.want_error is None:
                # the parser stopped reading before the end of the part it should read
                found.append(('the parser stops reading the map early', doc.show()[len(head):], None))
                return
            if sp.want_error is not None:
                found.append((f'the malformed line {min(sp.want_error)} is accepted' if sp.want_error != 'file' else 'a truncated map is accepted', doc.show()[len(head):], None))
                return
            d = sp.compare(I, inst)
            if d:
                found.append((d, doc.show()[len(head):], None))
        except Cannot as e:
            cannot.append((str(e), doc.show()[len(head):]))
            if len(cannot) > 50:
                raise StopIteration
        if len(found) > 3:
            raise StopIteration
    try:
        done = ex.run(body)
    except StopIteration:
        done = False
    if found:
        d, lines, w = min(found, key=lambda x: len(x[1]))
        return (REFUTED, f'{d}; lines: ' + ' | '.join(lines)[:600], w or 'mapfile.MapFile'), ex.paths, len(seen)
    if cannot:
        return (UNKNOWN, f'{cannot[0][0]}; lines: ' + ' | '.join(cannot[0][1])[:200]), ex.paths, len(seen)
    if not done:
        return (UNKNOWN, f'more than {limit} paths'), ex.paths, len(seen)
    return (PROVED, f'{ex.paths} paths, {len(seen)} states'), ex.paths, len(seen)


def check(c):
    P = Project()
    m = P.modules.get('mapfile')
    if m is None or 'MapFile' not in m.classes:
        raise AnchorMissing('mapfile.MapFile')
    cls = m.classes['MapFile']
    thorough = c.tier == 'thorough'
    ALL = ['archive', 'object', 'space', 'space object', 'paren', 'paren object']
    DATA = ['BYTE', 'SHORT', 'LONG', 'QUAD', 'SQUAD']
    base = {'out': 1, 'in': 2, 'noise': 0, 'extra': 0, 'paths': ['archive'], 'data': DATA[:1], 'common': False, 'bad': True, 'ordered': False, 'two': True, 'regions': 3,
            'refs': 3}

    def cfg(**k):
        return dict(base, **k)
    head = REG_HEAD + ['*default*        0x0000000000000000 0xffffffffffffffff', ''] + LS + TARGET + ['']
    runs = [
        ('regions', 'memory regions', lambda: Regions(cfg(regions=4 if thorough else 3)), REG_HEAD),
        ('truncated.0', 'empty map', lambda: Truncated(base), []),
        ('truncated.1', 'memory configuration without table', lambda: Truncated(base), REG_HEAD[:2]),
        ('truncated.2', 'map without link map', lambda: Truncated(base), REG_HEAD + ['*default*        0x0 0xffff', '']),
        ('sections', 'output and input sections', lambda: Sections(cfg(out=2, ordered=True, bad=False, common=True)), head),
        ('malformed', 'malformed lines', lambda: Sections(cfg(ordered=True)), head),
        ('other', 'lines that are no sections', lambda: Sections(cfg(**{'in': 1}, out=2, ordered=True, noise=1, bad=False)), head),
        ('padding', 'padding and explicit data', lambda: Sections(cfg(extra=2, bad=False, ordered=True)), head),
        ('credit', 'padding behind sections that count as zero',
         lambda: Sections(cfg(**{'in': 3}, extra=1, bad=False, two=False, data=[])), head),
        ('shadow', 'three sections, superseded and outside',
         lambda: Sections(cfg(**{'in': 4 if thorough else 3}, bad=False, two=False)), head),
        ('paths', 'archive and object file',
         lambda: Sections(cfg(**{'in': 1}, paths=ALL, common=True, data=DATA, extra=1, bad=False, ordered=True)), head),
        ('next', 'nothing leaks from one output section into the next',
         lambda: Sections(cfg(out=3 if thorough else 2, extra=1, bad=False, two=False, ordered=True)), head),
        ('symbols', 'cross reference table of several symbols', lambda: Refs(cfg(refs=6 if thorough else 5)), head + CRT),
        ('references', 'cross reference table', lambda: Refs(cfg(paths=ALL[:4], refs=3 if thorough else 2)), head + CRT),
    ]
    for oid, desc, spec, hd in runs:
        def go(spec=spec, hd=hd):
            r, n, s = explore(P, cls, spec, hd, 200000 if thorough else 30000)
            c.count('paths', n)
            c.count('states', s)
            return r
        c.ob('C17.' + oid, desc, go, budget=600 if thorough else 120)


if __name__ == '__main__':
    main('C17', RULE, check, ['line shapes are those GNU ld writes; Python str and int semantics'], 6, 800)
