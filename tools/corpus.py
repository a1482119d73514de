#!/usr/bin/env python3
"""Runs the checks against a corpus of small source edits (scratch copies only).

Entries live in tools/corpus/*.txt:
  === <id> bug <props> | === <id> keep
  --- <file>            (relative to esp_idf_size/)
  <old text>
  >>>
  <new text>
A 'bug' must be caught by at least one listed property's check; on a 'keep' edit
every check must stay quiet (exit 0).
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def parse():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'corpus', '*.txt'))):
        cur = None
        mode = None
        for line in open(f):
            if line.startswith('=== '):
                w = line.split()
                cur = {'id': w[1], 'kind': w[2], 'props': w[3:], 'edits': []}
                out.append(cur)
                mode = None
            elif line.startswith('--- '):
                cur['edits'].append([line.split()[1], '', ''])
                mode = 1
            elif line.rstrip('\n') == '>>>':
                mode = 2
            elif mode:
                cur['edits'][-1][mode] += line
    return out


def make(entry, d):
    for x in ('esp_idf_size', 'test'):
        shutil.copytree(os.path.join(REPO, x), os.path.join(d, x), ignore=shutil.ignore_patterns('__pycache__'))
    for x in os.listdir(REPO):
        p = os.path.join(REPO, x)
        if os.path.isfile(p):
            shutil.copy(p, d)
    for f, old, new in entry['edits']:
        p = os.path.join(d, 'esp_idf_size', f)
        s = open(p).read()
        old = old.rstrip('\n') if not old.endswith('\n\n') else old
        new = new.rstrip('\n') if not new.endswith('\n\n') else new
        if s.count(old) < 1:
            raise SystemExit(f'{entry["id"]}: text not found in {f}:\n{old}')
        s = s.replace(old, new, 1)
        open(p, 'w').write(s)
    if subprocess.run([sys.executable, '-m', 'compileall', '-q', os.path.join(d, 'esp_idf_size')],
                      stdout=subprocess.DEVNULL).returncode:
        raise SystemExit(f'{entry["id"]}: does not compile')


def one(entry, checks):
    d = tempfile.mkdtemp(prefix='corp_')
    res = {}
    try:
        make(entry, d)
        for pid in checks:
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE_DIR=os.path.join(d, 'ev'))
            p = subprocess.run([sys.executable, os.path.join(HERE, 'checks', pid.lower() + '.py')], env=env,
                               capture_output=True, text=True)
            und = [x for x in p.stdout.splitlines() if x.startswith('  undecided')]
            ref = [x for x in p.stdout.splitlines() if x.startswith('  REFUTED')]
            res[pid] = (p.returncode, ref, und, p.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith('-')]
    v = '-v' in sys.argv
    full = '-a' in sys.argv
    allc = sorted(os.path.basename(x)[:-3].upper() for x in glob.glob(os.path.join(HERE, 'checks', 'c[0-9]*.py')))
    ents = parse()
    if sel:
        ents = [e for e in ents if any(e['id'] == s or e['id'].startswith(s) or s in e['props'] for s in sel)]
    if '-k' in sys.argv:
        ents = [e for e in ents if e['kind'] == 'keep']
    if '-b' in sys.argv:
        ents = [e for e in ents if e['kind'] == 'bug']
    for a in sys.argv[1:]:
        if a.startswith('-x'):
            ents = [e for e in ents if not e['id'].startswith(a[2:])]
    jobs = []
    for e in ents:
        cs = allc if (full or e['kind'] == 'keep') else [p for p in e['props'] if p in allc]
        pl = [s for s in sel if s in allc]
        if pl and not full:
            cs = [x for x in cs if x in pl]
        if e['kind'] == 'bug' or len(cs) > 3:
            fs = {x[0] for x in e['edits']}
            skip = set() if 'elf.py' in fs else {'C18', 'C19'}
            if not fs & {'mapfile.py', 'log.py'}:
                skip.add('C17')
            cs = [x for x in cs if x not in skip or x in e['props']]
        jobs.append((e, cs))
    ok = miss = fa = 0
    with ThreadPoolExecutor(8) as ex:
        for (e, cs), r in zip(jobs, ex.map(lambda j: one(*j), jobs)):
            hit = [p for p, x in r.items() if x[0] == 1]
            err = [p for p, x in r.items() if x[0] not in (0, 1)]
            if e['kind'] == 'bug':
                good = any(p in hit for p in e['props'])
                tag = 'caught' if good else 'MISSED'
                extra = [p for p in hit if p not in e['props']]
            else:
                good = not hit and not err
                tag = 'quiet' if good else 'FALSE-ALARM'
                extra = hit
            ok += good
            miss += e['kind'] == 'bug' and not good
            fa += e['kind'] == 'keep' and not good
            print(f'{tag:12s}{e["id"]:28s} hit={hit} err={err} extra={extra}'
                  f' undecided={ {p: len(x[2]) for p, x in r.items() if x[2]} }')
            if v or not good:
                for p, x in r.items():
                    for y in (x[1] + x[2])[:2]:
                        print('     ', p, y[:220])
                    if x[0] not in (0, 1):
                        print('     ', p, 'stderr', x[3])
    print(f'{ok} as expected, {miss} missed, {fa} false alarms')


if __name__ == '__main__':
    main()
