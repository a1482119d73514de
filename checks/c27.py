"""C27: project side files are used only when they belong to the map."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from report import main
import state
import world
from vg import *
from world import Cannot, Obj, Raised, World

RULE = ('value graphs of memorymap.get, get_proj_desc, get_elf and their loaders: the path of every side file, the condition under which a '
        'description is accepted, the exceptions of the loaders and the precedence of target, LTO setting and supplied objects are compared '
        'with the specified formulas for every input; where the formulas differ, the graphs are evaluated in a finite model of the file '
        'system (every combination of side file states) and a combination with a wrong outcome is reported.')

FN = T('param', 'fn')


def call(n, *a):
    return T('call', n, tuple(a))


def idx(o, k):
    return T('idx', o, const(k))


DIR = lambda p: call('os.path.dirname', p)
STEM = lambda p: idx(call('os.path.splitext', call('os.path.basename', p)), 0)
GETS = lambda o, k, d: T('mcall', 'get', o, (const(k), d), ())


def equal(v, w, what):
    """Structural equality of two guarded values; never refutes."""
    if v is w:
        return PROVED, f'{what} is {cut(show(w), 200)}'
    for g, x in tm.cases(v):
        for g2, y in tm.cases(w, g):
            if x is y or unsat(band(g, g2)) or tm.unsat(band(g2, tm.axioms(g2))):
                continue
            if not unsat(g2):
                return UNKNOWN, f'{what}: {cut(show(x), 150)} not recognised as {cut(show(y), 150)}'
    return PROVED, f'{what} is {cut(show(w), 200)}'


def formulas(c, P):
    """Structural part: equality with the specified formulas for all inputs."""
    def proj():
        E, v, _ = run(P, 'memorymap', 'get_proj_desc', positional=[FN], stop=('memorymap._load_json_file',))
        d = call('memorymap._load_json_file', call('os.path.join', DIR(FN), const('project_description.json')))
        none = tm.batom(T('isnone', d))
        other = bnot(tm.batom(E.eq(STEM(FN), STEM(GETS(d, 'app_elf', const('')))))) if not isinstance(E.eq(STEM(FN), STEM(FN)), B) else \
            bnot(E.eq(STEM(FN), STEM(GETS(d, 'app_elf', const('')))))
        return equal(v, tm.phi(none, const(None), tm.phi(other, const(None), d)), 'description')
    c.ob('formula.proj_desc', 'the description next to the map is returned exactly when it names the executable of the map', lambda: soft(proj),
         loc(P, P.func('memorymap', 'get_proj_desc')))

    def elf():
        D = T('param', 'proj_desc')
        for given, d in ((True, D), (False, call('memorymap.get_proj_desc', FN))):
            facts = lambda t: (given if t.op == 'truthy' else False if t.op == 'isnone' and given else None) if t.args and t.args[0] is D else None
            E, v, _ = run(P, 'memorymap', 'get_elf', positional=[FN, D], stop=('memorymap._load_elf_file', 'memorymap.get_proj_desc'), facts=facts)
            p = call('os.path.join', DIR(FN), idx(d, 'app_elf'))
            w = tm.phi(E.truth0(call('os.path.isfile', p)), call('memorymap._load_elf_file', p), const(None))
            if not given:
                w = tm.phi(batom(T('isnone', d)), const(None), w)
            r = equal(v, w, 'ELF file')
            if r[0] != PROVED:
                return r
        return PROVED, 'ELF file next to the map'
    c.ob('formula.elf', 'the ELF file is the executable of the description, next to the map', lambda: soft(elf), loc(P, P.func('memorymap', 'get_elf')))


def soft(f):
    try:
        return f()
    except AnchorMissing as e:
        return UNKNOWN, str(e)


# ------------------------------------------------------------------ worlds
BUILD = '/proj/build'
MAPS = {'/proj/build/app.map': 'app.map', '/proj/build/my.app.map': 'relative with dots'}


def jsons(stem):
    """States of project_description.json: (label, content, accepted)."""
    yield 'missing', None, False
    yield 'unreadable', 'noperm', False
    yield 'not JSON', 'garbage', False
    yield 'a JSON list', ('json', ['app_elf']), False
    yield 'without app_elf', ('json', {'target': 'esp32c3', 'build_dir': '/elsewhere'}), False
    yield 'empty', ('json', {}), False
    for e, ok in ((f'{stem}.elf', True), ('bootloader.elf', False), (f'{stem}2.elf', False), (f'x{stem}.elf', False), (f'sub/{stem}.elf', True),
                  (f'{stem.upper()}.elf', False)):
        yield f'for {e}', ('json', {'app_elf': e, 'target': 'esp32c3', 'build_dir': '/elsewhere', 'build_components': []}), ok
    yield 'for the map, without target', ('json', {'app_elf': f'{stem}.elf', 'build_dir': '/elsewhere'}), True
    yield 'for the map, with an empty target', ('json', {'app_elf': f'{stem}.elf', 'target': '', 'build_dir': '/elsewhere'}), True


def worlds():
    """(label, files, map path, facts)"""
    for mp, d, stem in (('/proj/build/app.map', BUILD, 'app'), ('/proj/build/my.app.map', BUILD, 'my.app'), ('app.map', '/cwd', 'app'), ('sub/app.map', '/cwd/sub', 'app'),
                        ('/proj/build/app', BUILD, 'app')):
        for lab, content, ok in jsons(stem):
            for elfstate in (None, 'elf', 'garbage', 'noperm'):
                for sdk in SDK:
                    if elfstate != 'elf' and sdk is not SDK[0] or sdk is not SDK[0] and not mp.endswith('/app.map'):
                        continue
                    files = {posix(d, stem + '.map'): ('map', 'esp32s3'), posix('/cwd', mp): ('map', 'esp32s3')}
                    app = content[1].get('app_elf') if isinstance(content, tuple) and isinstance(content[1], dict) else None
                    for e in {app, f'{stem}.elf', 'bootloader.elf'} - {None}:
                        # decoys where the project was built and in the working directory
                        files[posix('/elsewhere', e)] = 'elf'
                        if d != '/cwd':
                            files.setdefault(posix('/cwd', e), 'elf')
                        if elfstate:
                            files[posix(d, e)] = elfstate
                    decoy = ('json', {'app_elf': f'{stem}.elf', 'target': 'esp32h2', 'build_dir': '/elsewhere'})
                    for p in {'/cwd', '/proj', '/elsewhere', '/'} - {d}:
                        files[posix(p, 'project_description.json')] = decoy
                        files[posix(p, 'config/sdkconfig.json')] = ('json', {'COMPILER_LTO_LINKTIME': False})
                    if content is not None:
                        files[posix(d, 'project_description.json')] = content
                    if sdk[1] is not None:
                        files[posix(d, 'config/sdkconfig.json')] = sdk[1]
                    yield (f'{mp}: description {lab}, ELF {elfstate or "missing"}, sdkconfig {sdk[0]}', files, mp,
                           dict(desc=content[1] if ok else None, elf=posix(d, app) if ok and elfstate == 'elf' and app else None, lto=sdk[2], dir=d,
                                target=(content[1].get('target') if ok else None) or 'esp32s3'))


def args_of(a, w, n, e):
    kw = e.val.args[1] if len(e.val.args) > 1 else ()
    env = w.bind(n, list(e.val.args[0]), dict(kw))
    return [a.val(env[p]) if isinstance(env.get(p), Term) else env.get(p) for p in params(w.P.func('memorymap', n))]


SDK = [('missing', None, False), ('with LTO', ('json', {'COMPILER_LTO_LINKTIME': True}), True), ('without LTO', ('json', {'COMPILER_LTO_LINKTIME': False}), False),
       ('without the setting', ('json', {'X': 1}), False), ('not JSON', 'garbage', False), ('a list', ('json', []), False), ('unreadable', 'noperm', False)]


def posix(*a):
    import posixpath
    return posixpath.normpath(posixpath.join(*a))


def explore(c, P):
    graphs = {}
    cnt = {'worlds': 0, 'runs': 0, 'unknown': 0}
    bad = {}
    unk = {}

    def note(d, k, msg):
        d.setdefault(k, msg)

    def run1(W, name, args, kw, then, keys, lab):
        cnt['runs'] += 1
        try:
            then(W, W.act(name, args, kw))
        except Cannot as e:
            cnt['unknown'] += 1
            for k in keys:
                note(unk, k, f'{name}: {e}')
        except AnchorMissing as e:
            for k in keys:
                note(unk, k, str(e))

    for lab, files, mp, want in worlds():
        cnt['worlds'] += 1
        W = lambda: World(P, 'memorymap', files, graphs=graphs)

        def proj(w, a):
            try:
                r = a.result()
            except Raised as e:
                return note(bad, 'desc.abort', f'get_proj_desc raises {e.etype} ({e.why}) with {lab}')
            if (r or None) != want['desc']:
                note(bad, 'desc.match' if (r is None) != (want['desc'] is None) else 'desc.where', f'get_proj_desc gives {r!r} with {lab}')
        run1(W(), 'get_proj_desc', [mp], {}, proj, ('desc.match', 'desc.where', 'desc.abort'), lab)

        def elf(w, a):
            try:
                r = a.result()
            except Raised as e:
                return note(bad, 'elf.abort', f'get_elf raises {e.etype} ({e.why}) with {lab}')
            got = r.path if isinstance(r, Obj) else r
            if got != want['elf']:
                note(bad, 'elf.where', f'get_elf loads {got!r}, not {want["elf"]!r}, with {lab}')
        run1(W(), 'get_elf', [mp], {}, elf, ('elf.where', 'elf.abort'), lab)

        for kw in ({}, {'use_dwarf': True}, {'use_dwarf': False}, {'map_file': Obj('MapFile', target='esp32p4', given=1)}, {'elf': Obj('Elf', path='given')},
                   {'map_file': Obj('MapFile', target='', given=1)}):
            def get(w, a, kw=kw):
                seen = {}
                try:
                    for e, ch in a.evs:
                        if ch:
                            continue
                        if e.kind == 'raise':
                            if a.cond(e.guard):
                                raise Raised(str(e.val.args[0]), 'raise')
                            continue
                        n = e.key.args[0]
                        if not isinstance(n, str) or not a.cond(e.guard):
                            continue
                        n = n.split('.')[-1]
                        if n in ('get_elf', 'get_proj_desc', '_load_json_file', '_load_elf_file', 'MapFile', 'Elf', 'open', 'load'):
                            v = a.docall(e)
                            seen.setdefault(n, []).append(v)
                        elif n in ('_get_memory_types', '_get_elf_sections_headers', '_expand_input_sections'):
                            seen[n] = args_of(a, w, n, e)
                except Raised as e:
                    mf = kw.get('map_file')
                    if not (mf and not mf.target and want['target'] == 'esp32s3' and 'MemMapException' in e.etype):
                        note(bad, 'get.abort', f'get raises {e.etype} ({e.why}) with {lab}, {kw}')
                    return
                given = kw.get('map_file')
                mt = seen.get('_get_memory_types')
                exp = (want['desc'] or {}).get('target') or (given.target if given else 'esp32s3')
                if mt is None:
                    note(unk, 'get.target', 'step not found')
                elif mt[0] != exp:
                    note(bad, 'get.target', f'target {mt[0]!r}, not {exp!r}, with {lab}, {kw}')
                if given and any(isinstance(o, Obj) for o in seen.get('MapFile', ())):
                    note(bad, 'get.map', f'the map is parsed again although a parsed map was supplied, {lab}')
                x = seen.get('_get_elf_sections_headers')
                exp = 'given' if 'elf' in kw else want['elf']
                if x is None:
                    note(unk, 'get.elf', 'step not found')
                else:
                    got = x[0].path if isinstance(x[0], Obj) else x[0]
                    if got != exp:
                        note(bad, 'get.elf', f'ELF {got!r}, not {exp!r}, with {lab}, {kw}')
                if 'elf' in kw and any(isinstance(o, Obj) for k in ('Elf', 'get_elf', '_load_elf_file') for o in seen.get(k, ())):
                    note(bad, 'get.elf', f'another ELF file is loaded although one was supplied, {lab}')
                exp = kw.get('use_dwarf', want['lto'])
                got = '_expand_input_sections' in seen
                if got != exp:
                    note(bad, 'get.lto', f'DWARF attribution is {"on" if got else "off"} with {lab}, {kw}')
                elif got:
                    e = seen['_expand_input_sections']
                    d = e[1] if len(e) > 1 else None
                    if (d or None) != want['desc']:
                        note(bad, 'get.desc', f'DWARF attribution uses the description {d!r} with {lab}')
            if kw and not (mp == '/proj/build/app.map'):
                continue
            run1(W(), 'get', [mp], kw, get, ('get.target', 'get.map', 'get.elf', 'get.lto', 'get.abort', 'get.desc'), lab)
    c.counts.update(cnt)
    return bad, unk


OBS = (('desc.where', 'the project description is the one next to the map', 'get_proj_desc'),
       ('desc.match', 'a description is accepted exactly when it names the executable of the map', 'get_proj_desc'),
       ('desc.abort', 'no state of the description aborts the analysis', 'get_proj_desc'),
       ('elf.where', 'the ELF file is the one named by the matching description, next to the map', 'get_elf'),
       ('elf.abort', 'a missing, unreadable or malformed ELF file does not abort the analysis', 'get_elf'),
       ('get.target', 'the target of a matching description precedes the one of the map', 'get'),
       ('get.map', 'a supplied parsed map is used', 'get'),
       ('get.elf', 'a supplied ELF object is used, else the one of the project', 'get'),
       ('get.lto', 'DWARF attribution follows the option, else the LTO setting next to the map', 'get'),
       ('get.desc', 'DWARF attribution gets the matching description', 'get'),
       ('get.abort', 'no state of the side files aborts the analysis', 'get'))


def check(c):
    P = Project()
    for n in ('get', 'get_proj_desc', 'get_elf'):
        P.func('memorymap', n)
    state.check(c, P)
    formulas(c, P)
    h = {}

    def start():
        h['r'] = explore(c, P)
    if c.group('model', 'evaluation in the file system model', start):
        bad, unk = h['r']
        for k, d, fn in OBS:
            def f(k=k):
                if k in bad:
                    return REFUTED, bad[k]
                if k in unk:
                    return UNKNOWN, unk[k]
                return PROVED, f'{c.counts["worlds"]} states of the side files'
            c.ob('model.' + k, d, f, loc(P, P.func('memorymap', fn)))


if __name__ == '__main__':
    main('C27', RULE, check, ['os.path, pathlib and json behave as documented'], 8)
