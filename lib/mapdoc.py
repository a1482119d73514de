"""Lazily grown abstract link maps for absint, and canonical abstract states."""
import re

from absint import (AbsStr, Bits, Bound, Cannot, ClassVal, ExcInst, Ext, Func, Inst, LineNo, Meth, ModVal, N, Op, Partial, Pos, Prune,
                    PyExc, live_at_loop, mk)

BLANKS = ' \t\n\r\x0b\x0c'


class Lines:
    """The lines of the file from a start position on."""
    abs_lineno = True

    def __init__(self, doc, start=0, nl=False, it=None):
        self.doc, self.start, self.nl = doc, start, nl

    def at(self, I, i):
        x = self.doc.get(I, i)
        if x is None:
            return None
        return mk([x, '\n']) if self.nl else x

    def abs_iter(self, I):
        return LineIter(self, I)

    def abs_slice(self, I, lo, hi, st):
        if hi is not None or st not in (None, 1) or not (lo is None or isinstance(lo, int)) or (lo or 0) < 0:
            raise Cannot('slice of the lines')
        return Lines(self.doc, self.start + (lo or 0), self.nl)

    def abs_index(self, I, k):
        if not isinstance(k, int) or k < 0:
            raise Cannot('index of the lines')
        x = self.at(I, self.start + k)
        if x is None:
            raise PyExc(ExcInst('IndexError', ()))
        return x

    def abs_len(self, I):
        raise Cannot('number of lines')

    def abs_truth(self, I):
        return self.at(I, self.start) is not None

    def abs_method(self, I, n, a, k):
        raise Cannot('method of the lines')


class LineIter:
    abs_lineno = True

    def __init__(self, ls, I):
        self.ls, self.I, self.i = ls, I, ls.start

    def __iter__(self):
        return self

    def __next__(self):
        x = self.ls.at(self.I, self.i)
        if x is None:
            raise StopIteration
        self.i += 1
        return x


class Text:
    def __init__(self, doc):
        self.doc = doc

    def abs_method(self, I, n, a, k):
        if n == 'splitlines' and not a and not k:
            return Lines(self.doc)
        if n == 'split' and a and a[0] == '\n':
            return Lines(self.doc)
        raise Cannot(f'{n} of the text')


class File:
    def __init__(self, doc):
        self.doc = doc

    def abs_iter(self, I):
        return LineIter(Lines(self.doc, 0, True), I)

    def abs_method(self, I, n, a, k):
        if n == 'read' and not a:
            return Text(self.doc)
        if n == 'readlines' and not a:
            return Lines(self.doc, 0, True)
        if n == 'close':
            return None
        raise Cannot(f'{n} of the file')


class Doc:
    """head (given lines), then lines chosen by the specification automaton, then tail."""

    def __init__(self, head, spec, seen, limit=40):
        self.lines = list(head)
        self.labels = ['' for _ in head]
        self.spec = spec
        self.seen = seen
        self.done = False
        self.limit = limit

    def get(self, I, i):
        if i < len(self.lines):
            return self.lines[i]
        if i > len(self.lines):
            return self.get(I, i - 1) and self.get(I, i) if not self.done else None
        if self.done:
            return None
        self.grow(I)
        return self.get(I, i)

    def grow(self, I):
        if self.fresh():
            k = canon(I, self.spec)
            if k in self.seen:
                raise Prune('seen')
            self.seen.add(k)
        opts = self.spec.options(I, len(self.lines))
        j = I.choose(len(opts), 'line')
        label, make = opts[j]
        new, end = make()
        self.lines += new
        self.labels += [label] + [''] * (len(new) - 1) if new else []
        if end:
            self.done = True
        elif len(self.lines) > self.limit:
            raise Prune('length')

    def show(self):
        return [repr(x) if not isinstance(x, str) else x for x in self.lines]


# ------------------------------------------------------------------ canonical states
class Canon:
    def __init__(self):
        self.atoms = {}
        self.ops = {}
        self.objs = {}

    def a(self, x):
        return self.atoms.setdefault(x, f'n{len(self.atoms)}')

    def o(self, p):
        if p.num is not None:
            return ('#', self.v(p.num))
        return self.ops.setdefault(p.id, f't{len(self.ops)}')

    def v(self, x):
        if isinstance(x, LineNo):
            return 'line'
        if x is None or isinstance(x, (bool, int, str, float, bytes)):
            return (type(x).__name__, x)
        if isinstance(x, N):
            return ('N', x.c, tuple((self.a(a), k) for a, k in sorted(x.t, key=lambda y: (self.atoms.get(y[0], 'z'), repr(y[0])))))
        if isinstance(x, Bits):
            return ('B', repr(x))
        if isinstance(x, AbsStr):
            return ('S',) + tuple(p if isinstance(p, str) else self.o(p) for p in x.parts)
        if isinstance(x, (dict, list, set, Inst)):
            if id(x) in self.objs:
                return ('ref', self.objs[id(x)])
            self.objs[id(x)] = len(self.objs)
            if isinstance(x, dict):
                return ('d',) + tuple((self.v(k), self.v(y)) for k, y in x.items())
            if isinstance(x, list):
                return ('l',) + tuple(self.v(y) for y in x)
            if isinstance(x, set):
                return ('s',) + tuple(sorted(map(repr, (self.v(y) for y in x))))
            return ('i', x.cls.name) + tuple((k, self.v(y)) for k, y in sorted(x.attrs.items()))
        if isinstance(x, tuple):
            return ('t',) + tuple(self.v(y) for y in x)
        if isinstance(x, (Lines, LineIter, Text, File)):
            return 'lines'
        if isinstance(x, (Func, ClassVal)):
            return ('f', getattr(x.node, 'name', 'lambda'))
        if isinstance(x, (Ext, ModVal)):
            return 'ext'
        if isinstance(x, Bound):
            return ('b', self.v(x.f), self.v(x.self_))
        if isinstance(x, Pos):
            return ('p', self.v(x.s), x.i, x.o)
        if isinstance(x, Partial):
            return ('pa', self.v(x.f), self.v(x.args))
        return ('?', type(x).__name__)


_live = {}


def canon(I, spec):
    C = Canon()
    out = [C.v(spec.state())]
    for fr in I.stack:
        loops = getattr(fr, 'loops', None)
        names = None
        if loops:
            k = (fr.fn, loops[-1])
            if k not in _live:
                _live[k] = live_at_loop(fr.fn, loops[-1])
            names = _live[k]
        out.append((id(fr.fn), id(loops[-1]) if loops else None,
                    tuple((n, C.v(v)) for n, v in sorted(fr.env.items()) if names is None or n in names)))
    # facts connected with what is still visible
    live = set(C.atoms)
    while True:
        more = {a for c, _ in I.rows + I.neqs if any(x in live for x in c) for a in c} - live
        if not more:
            break
        for a in sorted(more, key=repr):
            C.a(a)
        live |= more
    facts = [sorted({(tuple(sorted((C.atoms[a], k) for a, k in c.items())), k) for c, k in rows if any(x in live for x in c)}, key=repr)
             for rows in (I.rows, I.neqs)]
    memo = sorted((repr((k[0], C.ops[k[1]], k[2:])), v) for k, v in I.memo.items() if len(k) > 1 and k[1] in C.ops)
    eqs = sorted((repr(k), v) for k, v in I.memo.items() if k[0] == 'eq')
    return hash(repr((out, facts, memo, eqs)))


# ------------------------------------------------------------------ regular expressions over abstract texts
class Regex:
    """Matches a text whose unknown pieces are replaced by representative words."""

    def __init__(self, rx):
        self.rx = rx

    def abs_method(self, I, n, a, k):
        if n in ('search', 'match', 'fullmatch') and len(a) == 1:
            return run(getattr(self.rx, n), a[0])
        if n == 'split' and a:
            raise Cannot('re.split')
        raise Cannot(f're {n}')


def run(f, s):
    if isinstance(s, str):
        m = f(s)
        return Match(m, list(s)) if m else None
    chars, text = [], ''
    for p in s.parts:
        if isinstance(p, str):
            chars += list(p)
            text += p
        else:
            w = f'{7 + len(text):x}ab' if p.num is not None else 'qv' + 'z' * (len(chars) % 5)
            chars += [(p, i, len(w)) for i in range(len(w))]
            text += w
    m = f(text)
    return Match(m, chars) if m else None


class Match:
    def __init__(self, m, chars):
        self.m, self.chars = m, chars

    def piece(self, g):
        lo, hi = self.m.span(g)
        if lo < 0:
            return None
        out = []
        i = lo
        while i < hi:
            c = self.chars[i]
            if isinstance(c, str):
                out.append(c)
                i += 1
            else:
                if c[1] or i + c[2] > hi:
                    raise Cannot('match inside unknown text')
                out.append(c[0])
                i += c[2]
        return mk(out)

    def abs_method(self, I, n, a, k):
        if n == 'group':
            if len(a) > 1:
                return tuple(self.piece(x) for x in a)
            return self.piece(a[0] if a else 0)
        if n == 'groups':
            return tuple(self.piece(i + 1) for i in range(self.m.re.groups))
        if n == 'groupdict':
            return {x: self.piece(x) for x in self.m.re.groupindex}
        raise Cannot(f'match {n}')

    def abs_index(self, I, k):
        return self.piece(k)

    def abs_truth(self, I):
        return True


def re_hooks():
    def flags(kw, a, n):
        return a[n] if len(a) > n else kw.get('flags', 0)

    def pat(p):
        if isinstance(p, Regex):
            return p.rx
        if not isinstance(p, str):
            raise Cannot('pattern')
        return re.compile(p)
    h = {'re.compile': lambda I, a, kw: Regex(re.compile(a[0], *[x for x in a[1:] if isinstance(x, int)]))}
    for n in ('search', 'match', 'fullmatch'):
        h['re.' + n] = lambda I, a, kw, n=n: run(getattr(pat(a[0]), n), a[1])
    return h
