"""C03: analysis is read-only and never executes its inputs."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import cli
from cli import A, opt
from project import PKG
from report import main
from vg import *

RULE = ('effect analysis of every reference in the package: names are resolved through imports (any scope, aliases, getattr with '
        'constant names); no reference to code evaluation, unsafe deserialisation, process creation, networking or file '
        'system modification may occur, except writes in the command line front end whose target is derived from the '
        'requested output file.')

EXEC = {'eval', 'exec', '__import__', 'compile', 'builtins.eval', 'builtins.exec', 'builtins.compile', 'importlib.import_module',
        'importlib.__import__', 'runpy.run_path', 'runpy.run_module', 'execfile', 'code.interact', 'types.FunctionType',
        'types.CodeType', 'timeit.timeit', 'cProfile.run', 'pdb.set_trace', 'breakpoint'}
UNSAFE = {'pickle.load', 'pickle.loads', 'pickle.Unpickler', 'marshal.load', 'marshal.loads', 'shelve.open', 'dill.loads',
          'yaml.unsafe_load', 'yaml.full_load', 'yaml.load_all', 'yaml.unsafe_load_all', 'yaml.full_load_all', 'cPickle.loads',
          'jsonpickle.decode', 'numpy.load', 'logging.config.fileConfig', 'logging.config.dictConfig'}
PROC = {'os.system', 'os.popen', 'os.fork', 'os.forkpty', 'os.kill', 'os.startfile', 'pty.spawn', 'webbrowser.open', 'os.posix_spawn',
        'os.posix_spawnp', 'signal.raise_signal', 'os.killpg', 'os.abort'}
PROCMOD = {'subprocess', 'multiprocessing', 'pexpect', 'sh', 'concurrent.futures.ProcessPoolExecutor', 'asyncio.create_subprocess_exec',
           'asyncio.create_subprocess_shell'}
NETMOD = {'socket', 'urllib.request', 'urllib3', 'http.client', 'http.server', 'requests', 'ftplib', 'smtplib', 'telnetlib', 'httpx',
          'aiohttp', 'xmlrpc', 'socketserver', 'paramiko'}
FSMOD = {'shutil', 'tempfile'}
FSREAD = {'shutil.which', 'shutil.get_terminal_size', 'shutil.disk_usage', 'tempfile.gettempdir'}
FS = {'os.remove', 'os.unlink', 'os.rename', 'os.renames', 'os.replace', 'os.mkdir', 'os.makedirs', 'os.rmdir', 'os.removedirs',
      'os.symlink', 'os.link', 'os.truncate', 'os.ftruncate', 'os.chmod', 'os.chown', 'os.utime', 'os.mknod', 'os.mkfifo', 'os.write',
      'os.chroot', 'os.setxattr', 'os.removexattr', 'sqlite3.connect', 'logging.FileHandler', 'dbm.open', 'os.fchmod', 'os.lchown',
      'os.creat', 'os.pwrite', 'os.copy_file_range', 'os.sendfile', 'os.symlink', 'logging.handlers.RotatingFileHandler',
      'pathlib.Path.write_text', 'pathlib.Path.unlink', 'pathlib.Path.mkdir', 'pathlib.Path.touch', 'pathlib.Path.write_bytes'}
METH = {'write_text', 'write_bytes', 'unlink', 'mkdir', 'touch', 'rmdir', 'symlink_to', 'hardlink_to', 'chmod', 'lchmod', 'rename',
        'link_to'}
OPEN = {'open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'os.fdopen', 'io.FileIO', 'builtins.open',
        'zipfile.ZipFile', 'tarfile.open', 'os.open'}


class Refs:
    def __init__(self, m):
        self.m = m
        self.imp = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imp[a.asname] = a.name
                    else:
                        self.imp[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    base = PKG + ('.' + base if base else '')
                for a in n.names:
                    self.imp[a.asname or a.name] = base + '.' + a.name
        self.defs = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
                    {x.name for x in ast.walk(m.tree) if isinstance(x, (ast.FunctionDef, ast.ClassDef))} | \
                    {x.arg for x in ast.walk(m.tree) if isinstance(x, ast.arg)}
        # simple aliases: x = os.system
        self.alias = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    isinstance(n.value, (ast.Name, ast.Attribute)):
                self.alias[n.targets[0].id] = n.value

    def dotted(self, n, depth=0):
        if isinstance(n, ast.Name):
            if n.id in self.imp:
                return self.imp[n.id]
            if n.id in self.defs:
                if n.id in self.alias and depth < 4:
                    return self.dotted(self.alias[n.id], depth + 1)
                return None
            return n.id
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value, depth)
            return f'{b}.{n.attr}' if b else None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) >= 2 and \
                isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
            b = self.dotted(n.args[0], depth)
            return f'{b}.{n.args[1].value}' if b else None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == '__import__' and n.args and \
                isinstance(n.args[0], ast.Constant):
            return n.args[0].value
        return None


def inmod(q, mods):
    return any(q == m or q.startswith(m + '.') for m in mods)


def mode(n, pos):
    v = None
    if len(n.args) > pos:
        v = n.args[pos]
    for k in n.keywords:
        if k.arg in ('mode', 'flags'):
            v = k.value
    if v is None:
        return 'r'
    if isinstance(v, ast.Constant) and isinstance(v.value, str):
        return v.value
    if isinstance(v, ast.IfExp) and isinstance(v.body, ast.Constant) and isinstance(v.orelse, ast.Constant):
        return str(v.body.value) + str(v.orelse.value)
    return None


def fn_of(m, node):
    best = None
    for x in ast.walk(m.tree):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and any(y is node for y in ast.walk(x)):
            best = x
    return getattr(best, 'name', None) or m.name


def check(c):
    P = Project()
    P.func('main', 'main')
    P.func('memorymap', 'get')
    writes = []       # (module, call node, description)
    total = [0]

    for m in P.modules.values():
        R = Refs(m)
        bad = {'exec': [], 'unsafe': [], 'proc': [], 'net': [], 'fs': []}
        unk = []
        callfuncs = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                callfuncs[id(n.func)] = n
        anno = set()
        for n in ast.walk(m.tree):
            for f in ('annotation', 'returns'):
                a = getattr(n, f, None)
                if a is not None:
                    anno |= {id(x) for x in ast.walk(a)}
        for n in ast.walk(m.tree):
            if id(n) in anno:
                continue
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Call) and \
                    isinstance(n.func, ast.Name) and n.func.id == 'getattr':
                q = R.dotted(n)
                total[0] += 1
                call = callfuncs.get(id(n))
                if q is not None:
                    if q in EXEC:
                        bad['exec'].append((n, q))
                    elif q in UNSAFE:
                        bad['unsafe'].append((n, q))
                    elif q in ('yaml.load', 'yaml.load_all') and call is not None:
                        ld = [ast.unparse(k.value) for k in call.keywords if k.arg == 'Loader'] + \
                             [ast.unparse(a) for a in call.args[1:2]]
                        if not ld or not all(x.split('.')[-1] in ('SafeLoader', 'CSafeLoader', 'BaseLoader') for x in ld):
                            bad['unsafe'].append((n, f'{q} with loader {ld or "unspecified"}'))
                    elif q in PROC or inmod(q, PROCMOD) or re.match(r'os\.(exec|spawn)[a-z]+$', q):
                        if call is not None or q in PROC:
                            bad['proc'].append((n, q))
                    elif inmod(q, NETMOD):
                        if call is not None:
                            bad['net'].append((n, q))
                    elif q in FS or (inmod(q, FSMOD) and q not in FSREAD and call is not None):
                        if call is not None:
                            writes.append((m, call, q))
                        else:
                            bad['fs'].append((n, q))
                    elif q in OPEN and call is not None:
                        if q == 'os.open':
                            md = ast.unparse(call)
                            if re.search(r'O_(WRONLY|RDWR|CREAT|APPEND|TRUNC)', md):
                                writes.append((m, call, q))
                        else:
                            md = mode(call, 1)
                            if md is None:
                                unk.append((n, f'open mode {ast.unparse(call)[:60]}'))
                            elif any(x in md for x in 'wax+'):
                                writes.append((m, call, q))
                if isinstance(n, ast.Attribute) and call is not None and (q is None or '.' not in q or q.split('.')[0] not in
                                                                          ('os', 'shutil')):
                    if n.attr in METH and q not in FS:
                        writes.append((m, call, '.' + n.attr))
                    elif n.attr == 'open' and (q is None):
                        md = mode(call, 0)
                        if md is None:
                            unk.append((n, f'open mode {ast.unparse(call)[:60]}'))
                        elif any(x in md for x in 'wax+') and len(md) <= 3:
                            writes.append((m, call, '.open'))
                    elif n.attr == 'replace' and len(call.args) == 1 and not call.keywords:
                        writes.append((m, call, '.replace'))

        for k, what in (('exec', 'code is evaluated'), ('unsafe', 'unsafe deserialisation'), ('proc', 'a process is started'),
                        ('net', 'a network connection is opened'), ('fs', 'the file system is modified')):
            def f(k=k, what=what):
                if bad[k]:
                    n, q = bad[k][0]
                    return REFUTED, f'{what}: {q}', f'{m.path}:{n.lineno} {fn_of(m, n)}'
                return PROVED, 'no reference'
            c.ob(f'{m.name}.{k}', f'never: {what}', f, m.path)
        if unk:
            c.add(f'{m.name}.mode', 'files are opened for reading', UNKNOWN, unk[0][1])
    c.counts.update(references=total[0], modules=len(P.modules), writes=len(writes))

    # ---- writes
    roots = {}

    def path_root(t):
        for _ in range(12):
            if t.op == 'call' and str(t.args[0]).split('.')[-1] in ('Path', 'open', 'str', 'fspath', 'PurePath', 'dirname',
                                                                    'abspath', 'realpath') and t.args[1]:
                t = t.args[1][0]
            elif t.op == 'mcall' and t.args[0] in ('open', 'resolve', 'absolute', 'expanduser', '__enter__', 'with_suffix'):
                t = t.args[1]
            elif t.op in ('enter', 'with', 'ctx'):
                t = t.args[0]
            elif t.op == 'idx' and t.args[0] is A:
                break
            elif t.op in ('attr', 'idx') and t.args[0].op != 'param':
                t = t.args[0]
            else:
                break
        return t

    def wr():
        E, opts = cli.analyse(P)
        seen = {}
        for e, ch in E.events(('call',)):
            if e.node is not None:
                seen.setdefault(id(e.node), []).append(e)
        byline = {}
        for e, ch in E.events(('call',)):
            byline.setdefault((e.mod, getattr(e.node, 'lineno', 0)), []).append(e)
        n = 0
        for m, call, q in writes:
            at = f'{m.path}:{call.lineno} {fn_of(m, call)}'
            if m.name != 'main':
                return REFUTED, f'{q} modifies the file system during analysis', at
            evs = seen.get(id(call)) or [e for e in byline.get((m.name, call.lineno), [])
                                         if e.key.args[0].split('.')[-1] == q.split('.')[-1]]
            if not evs:
                # not an event of its own (open): look at the argument
                if q in OPEN and call.args:
                    n += 1
                    continue
                return UNKNOWN, f'{q} at {at} not reached by the analysis'
            for e in evs:
                a = list(e.val.args[0])
                if not a:
                    return UNKNOWN, f'target of {q}'
                for g, t in tm.cases(a[0], e.guard):
                    r = path_root(t)
                    if r is opt('output_file'):
                        n += 1
                    elif r.op == 'idx' and r.args[0] is A or r.op == 'const':
                        return REFUTED, f'{q} modifies {show(r)}, not the output file', at
                    else:
                        return UNKNOWN, f'{q} target {cut(show(r))}'
        return (PROVED, f'{n} writes, all to the requested output file') if n else (UNKNOWN, 'no write found')
    c.ob('writes', 'only the requested output file is written', wr)

    # opens in main for writing must target the output file as well
    def opens():
        for m, call, q in writes:
            if q in OPEN and m.name == 'main':
                E, _ = cli.analyse(P)
                for e, ch in E.events(('call',)):
                    for t in list(e.val.args[0]):
                        for x in subterms(t):
                            if x.op == 'call' and x.args[0] in OPEN and x.args[1]:
                                r = path_root(x.args[1][0])
                                if r.op == 'idx' and r.args[0] is A and r is not opt('output_file'):
                                    return REFUTED, f'{show(r)} is opened for writing', f'{m.path}:{call.lineno}'
        return PROVED, None
    c.ob('opens', 'only the requested output file is opened for writing', opens)


if __name__ == '__main__':
    main('C03', RULE, check, floor=40, assumptions=[
        'standard library and installed dependencies have the documented effects', 'yaml.safe_load and json evaluate no code'])
