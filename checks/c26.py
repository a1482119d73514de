#!/usr/bin/env python3
"""C26: analysing any finite input terminates."""
import ast
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))

from absint import Cannot, Explorer, Func, Inst, Interp, N, Prune, PyExc                             # noqa: E402
from binimg import BinFile, hooks                                                                     # noqa: E402
from loops import Loop, Watch                                                                         # noqa: E402
from project import Project, AnchorMissing                                                            # noqa: E402
from report import PROVED, REFUTED, UNKNOWN, main                                                     # noqa: E402


def load(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(HERE, n + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


c18 = load('c18')
c19 = load('c19')
from elfspec import EHDR, ENDIAN, PHDR, SHDR, SYM, ident, put                                         # noqa: E402
from dwarfspec import Dwarf, F, Leb, Raw, uleb                                                        # noqa: E402

RULE = ('Abstract interpretation of every function with a loop that is no walk over a collection, on arbitrary values, with a loop-state recurrence '
        'analysis: a loop head must never be reachable with all values a further iteration reads equal to those of an earlier iteration (decided with '
        'linear arithmetic over the unknown numbers; then the loop never ends), and some number or length must change strictly monotonically on every '
        'iteration of every path.')


def n(name):
    return N(0, {('num', name): 1})


def fact(I, x):
    """x >= 0"""
    c, k = I.lin(x)
    I.rows.append(({a: -v for a, v in c.items()}, -k))


class Ctx:
    def __init__(self, c, P):
        self.c, self.P = c, P
        self.total = {}

    def run(self, body, bound=8, limit=4000, hk=None, file=None):
        P = self.P
        w = Watch(bound)
        ex = Explorer(limit)
        out = {}

        def go(choose):
            w.start()
            h = dict(hk or {})
            fl = None
            if file is not None:
                fl = file()
                h.update(hooks(fl))
            h['while'] = w
            h.setdefault('print', lambda I, a, k: None)
            I = Interp(P, choose, h, fuel=300000)
            I.file = fl
            try:
                body(I)
            except PyExc:
                pass                      # an error ends the analysis
            except (c18.Bad, c18.Dunno):
                pass
            except Loop as e:
                fn = getattr(e.fr.fn, 'name', '?')
                out['loop'] = (REFUTED, f'{e.fr.mod.name}.{fn}: the loop in line {e.node.lineno} does not end: {e}' +
                               (' when ' + ', '.join(f'{a}={b}' for a, b in I.notes[-8:]) if I.notes else ''), f'{e.fr.mod.name}.{fn}')
                raise StopIteration
            except Cannot as e:
                out.setdefault('cannot', str(e))
        done = True
        try:
            done = ex.run(go)
        except StopIteration:
            pass
        for k, st in w.seen.items():
            t = self.total.setdefault(k, [st[0], 0, 0, 0, None])
            for i in (1, 2, 3):
                t[i] += st[i]
            if st[4] is not None:
                t[4] = st[4] if t[4] is None else t[4] & st[4]
        self.c.count('paths', ex.paths)
        self.c.count('iterations', sum(st[2] for st in w.seen.values()))
        if 'loop' in out:
            return out['loop']
        if 'cannot' in out:
            return UNKNOWN, out['cannot']
        if w.blind:
            return UNKNOWN, 'a loop reads an iterator'
        if not done:
            return UNKNOWN, f'more than {limit} paths'
        if not w.seen:
            return PROVED, 'no such loop is executed'
        return PROVED, f'{ex.paths} paths, {len(w.seen)} loops'


def mmfun(P, name):
    m = P.modules.get('memorymap')
    if m is None:
        raise AnchorMissing('memorymap')
    if name not in m.funcs:
        return None
    return Func(m.funcs[name], m)


QUIET = {'esp_pylib.logger.log': None}


def logless():
    out = {}
    for f in ('debug', 'warn', 'err', 'print', 'eprint', 'note', 'hint', 'info', 'stage'):
        out[f'esp_pylib.logger.log.{f}'] = lambda I, a, k: None
    return out


def regions(x, nreg, second):
    def body(I):
        f = mmfun(I.P, '_split_memory_regions')
        if f is None:
            raise Cannot('no _split_memory_regions')
        types = {}
        for i, s in enumerate(second):
            ln = n(f'type{i}.length')
            fact(I, ln if False else N(-1, {('num', f'type{i}.length'): 1}))
            sec = 0
            if s:
                sec = n(f'type{i}.secondary')
                fact(I, N(-1, {('num', f'type{i}.secondary'): 1}))
            types[f'T{i}'] = {'primary_address': n(f'type{i}.primary'), 'secondary_address': sec, 'length': ln}
        regs = [{'name': f'r{i}', 'origin': n(f'region{i}.origin'), 'length': n(f'region{i}.length'), 'attrs': 'rw'} for i in range(nreg)]
        I.call(f, [regs, types], {})
    return body


def sections(x, isecs, nreg, syms=0):
    def body(I):
        f = mmfun(I.P, '_split_map_sections')
        if f is None:
            raise Cannot('no _split_map_sections')
        a, z = n('section.address'), n('section.size')
        fact(I, N(-1, {('num', 'section.size'): 1}))
        regs = []
        for i in range(nreg):
            regs.append({'name': f'r{i}', 'origin': n(f'region{i}.origin'), 'length': n(f'region{i}.length'), 'attrs': 'rw', 'type': {'name': f'T{i}'}})
        ins = [{'name': f'.text.{i}', 'address': n(f'input{i}.address'), 'size': n(f'input{i}.size'), 'fill': n(f'input{i}.fill'), 'archive': 'a', 'object_file': 'o',
                'symbols': [{'name': f's{k}', 'address': n(f'symbol{k}.address'), 'size': n(f'symbol{k}.size')} for k in range(syms)]} for i in range(isecs)]
        I.call(f, [[{'name': '.text', 'address': a, 'size': z, 'input_sections': ins}], regs], {})
    return body


class Obj:
    def __init__(self, **k):
        self.d = k

    def abs_attr(self, I, name):
        if name not in self.d:
            raise Cannot(f'no attribute {name}')
        return self.d[name]

    def abs_snap(self):
        return ()

    def abs_truth(self, I):
        return True


def symbols(nsym, nsec):
    def body(I):
        f = mmfun(I.P, '_add_symbols_to_sections')
        if f is None:
            raise Cannot('no _add_symbols_to_sections')
        syms = [Obj(st_value=n(f'symbol{k}.value'), st_size=n(f'symbol{k}.size'), type=2, name=f's{k}') for k in range(nsym)]
        secs = [{'name': f'.text.{i}', 'address': n(f'input{i}.address'), 'size': n(f'input{i}.size'), 'fill': 0, 'archive': 'a', 'object_file': 'o'} for i in range(nsec)]
        I.call(f, [Obj(symbols=syms), [{'name': '.text', 'address': 0, 'size': 0, 'input_sections': secs}]], {})
    return body


def elfmake(I):
    m = I.P.modules['elf']
    return I.call(I.classval(m.classes['Elf'], m), ['file.elf'], {})


def elf_headers(cls, data):
    g = c18.Image('file')
    ident(g, cls, data)
    put(g, EHDR[cls], 0, ENDIAN[data], e_phnum=2, e_shnum=2)
    return g


def elf_symbols(cls, data):
    return c18.section_image(cls, data, [{'sh_type': 0}, {'sh_type': 2, 'sh_link': 2}, {'sh_type': 3}], 2)


def elf_units(cls, data, version):
    """One unit of unknown length, followed by unknown data."""
    d = Dwarf(cls, data)
    if version is None:
        d.emit('.debug_info', Raw(64))
        return d.finish()
    d.emit('.debug_info', Raw(4), d.num(version, 2))
    if version == 5:
        d.emit('.debug_info', bytes([1, 4 * cls]), Raw(4))
    else:
        d.emit('.debug_info', Raw(4), bytes([4 * cls]))
    d.emit('.debug_info', Raw(40))
    return d.finish()


def elf_tail(cls, data, cut):
    """Debug sections that end in the middle."""
    d = Dwarf(cls, data)
    full = uleb(1) + uleb(0x11) + b'\1' + uleb(0x3e) + uleb(F['data1']) + b'\0\0' + uleb(2) + uleb(0x34) + b'\0' + b'\0\0' + b'\0'
    d.emit('.debug_abbrev', full[:cut] if cut is not None else full)
    d.unit(4, False, 4 * cls, 0, body=lambda d: d.emit('.debug_info', b'\1\7\2\2'))
    return d.finish()


def elf_leb(cls, data, form):
    """Numbers of unknown length."""
    x = c19.Ctx(cls, data, 5, False)
    d = c19.build(x, [(0x3e, F[form]), (0x49, F['data1'])], [Raw(24)])
    return d.img


def check(c):
    P = Project()
    m = P.modules.get('elf')
    if m is None or 'Elf' not in m.classes:
        raise AnchorMissing('elf.Elf')
    X = Ctx(c, P)
    full = c.tier == 'thorough'
    hk = logless()

    def ob(oid, desc, body, **k):
        c.ob('C26.' + oid, desc, lambda: X.run(body, **k), budget=200)
    for s in ((0,), (1,), (0, 0), (1, 0)) + (((1, 1),) if full else ()):
        k = ''.join(map(str, s))
        ob(f'regions.1.{k}', f'one region, {len(s)} memory types ({sum(s)} with a second window)', regions(X, 1, s), hk=hk, limit=20000 if full else 6000)
    ob('regions.2', 'two regions, one memory type', regions(X, 2, (0,)), hk=hk, limit=20000 if full else 8000)
    for a, b, z in ((0, 1, 0), (0, 2, 0), (1, 1, 0), (1, 1, 1)) + (((1, 2, 0), (0, 3, 0)) if full else ()):
        ob(f'sections.{a}.{b}.{z}', f'a section with {a} input sections, {z} symbols and {b} regions', sections(X, a, b, z), hk=hk, limit=20000 if full else 6000)
    for a, b in ((1, 1), (1, 2), (2, 2)) + (((2, 3),) if full else ()):
        ob(f'symbols.{a}.{b}', f'{a} symbols and {b} input sections', symbols(a, b), hk=hk, limit=20000 if full else 6000)
    for cls in (1, 2):
        for data in (1, 2):
            k = f'{32 * cls}{ENDIAN[data][0]}'
            g = elf_headers(cls, data)
            ob(f'headers.{k}', 'header tables with entries of any size', lambda I: elfmake(I), file=lambda g=g: BinFile(g), bound=4)
            g = elf_symbols(cls, data)

            def syms(I):
                I.x_len(I.attr(elfmake(I), 'symbols'))
            ob(f'symtab.{k}', 'symbol table of any size', syms, file=lambda g=g: BinFile(g), bound=4)
            for v in (4, 5, None):
                g = elf_units(cls, data, v)

                def cus(I):
                    I.x_len(I.attr(elfmake(I), 'CUs'))
                ob(f'units.{k}.v{v}', 'units of any length', cus, file=lambda g=g: BinFile(g), bound=1, limit=2000)
            if data == 2 and not full:
                continue
            for cut in [None] + list(range(0, 17, 1 if full else 3)):
                g = elf_tail(cls, data, cut)

                def dies(I):
                    for cu in list(I.iter(I.attr(elfmake(I), 'CUs'))):
                        I.call(I.attr(cu, 'get_DIEs'), [], {})
                ob(f'tail.{k}.{"all" if cut is None else cut}', 'debug information that ends in the middle', dies, file=lambda g=g: BinFile(g), bound=40)
            for form in ('udata', 'sdata', 'block', 'string', 'ref_udata'):
                g = elf_leb(cls, data, form)

                def leb(I):
                    for cu in list(I.iter(I.attr(elfmake(I), 'CUs'))):
                        I.call(I.attr(cu, 'get_DIEs'), [], {})
                ob(f'leb.{k}.{form}', f'DW_FORM_{form} of any length', leb, file=lambda g=g: BinFile(g), bound=12)
            x = c19.Ctx(cls, data, 5, False)
            for i, parts in enumerate(([uleb(1 + x.asize), b'\3', Raw(x.asize)], [uleb(3), Raw(3)], [uleb(2 * x.asize + 2), b'\3', Raw(x.asize), b'\3', Raw(x.asize)], [uleb(0)])):
                d = c19.build(x, [(0x02, F['exprloc']), (0x49, F['data1'])], parts + [Raw(1)])

                def ev(I, d=d):
                    cu = I.index(I.attr(elfmake(I), 'CUs'), 1)
                    die = I.call(I.attr(cu, 'get_DIEs'), [], {})[d.units[1][1]]
                    I.call(I.attr(cu, 'get_attr_eval'), [die['attrs'][0x02]], {})
                ob(f'location.{k}.{i}', 'evaluating a location', ev, file=lambda d=d: BinFile(d.img), bound=12)

    # every loop of the package that is no walk over a collection
    for mod in P.modules.values():
        funcs = [(f'{mod.name}.{k}', f) for k, f in mod.funcs.items()]
        for cn, cl in mod.classes.items():
            funcs += [(f'{mod.name}.{cn}.{f.name}', f) for f in ast.walk(cl) if isinstance(f, ast.FunctionDef)]
        done = set()
        for q, f in funcs:
            for i, w in enumerate([x for x in ast.walk(f) if isinstance(x, ast.While)]):
                if id(w) in done:
                    continue
                done.add(id(w))

                def one(w=w):
                    st = X.total.get(id(w))
                    if st is None:
                        return UNKNOWN, 'not executed by any scenario'
                    mono = sorted(f'{a} {"grows" if b else "shrinks"}' for a, b in st[4]) if st[4] else []
                    if st[4] is not None and not mono and st[3]:
                        return UNKNOWN, 'no number changes monotonically and the bound was reached'
                    return PROVED, f'{st[1]} runs, {st[2]} iterations, {st[3]} stopped at the bound; on every iteration: ' + (', '.join(mono) or 'at most one iteration, or a queue of shrinking items')
                c.ob(f'C26.loop.{q}.{i}', f'loop in {q}', one)
    c.count('loops', len(X.total))


if __name__ == '__main__':
    main('C26', RULE, check, ['collections iterated by for are finite and not extended while walked; library calls terminate'], 10, 800)
