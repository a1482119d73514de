#!/usr/bin/env python3
"""mkseed.py <id> <property> <corpus entry id> <demo.py source file>: builds /verif/seeded/<id> and verifies it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import corpus

HERE = corpus.HERE


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def build(sid, prop, entry, demo, needs, breaks):
    d = os.path.join(HERE, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        sh(f'cp -a /repo/. {w}/')
        sh('git checkout -q -- .', cwd=w)
        for f, old, new in entry['edits']:
            p = os.path.join(w, 'esp_idf_size', f)
            s = open(p).read()
            old = old.rstrip('\n') if not old.endswith('\n\n') else old
            new = new.rstrip('\n') if not new.endswith('\n\n') else new
            assert old in s, (sid, f, old)
            open(p, 'w').write(s.replace(old, new, 1))
        diff = sh('git diff', cwd=w).stdout
        assert diff
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(demo)
        shutil.copy(os.path.join(HERE, 'tools', 'proj.py'), os.path.join(d, 'proj.py'))
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n# exit 0: behaviour as promised; nonzero: property broken\n'
                    'D="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\n'
                    'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n'
                    'S="$(mktemp -d)" || exit 3\n'
                    'PYTHONPATH="$PWD:$D" SCRATCH="$S" timeout 250 "$PY" "$D/demo.py"; rc=$?\n'
                    'rm -rf "$S"\nexit $rc\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh(f'bash {d}/demo.sh', cwd='/repo')
        b = sh(f'bash {d}/demo.sh', cwd=w)
        ok = a.returncode == 0 and b.returncode != 0
        print(sid, 'ok' if ok else 'NOT OK', a.returncode, b.returncode, (a.stdout + a.stderr)[-300:] if a.returncode else '',
              (b.stdout + b.stderr)[-200:])
        return ok
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    """seeds are described in tools/seeds/<id>.py: PROPERTY, ENTRY, NEEDS, BREAKS, DEMO."""
    ents = {e['id']: e for e in corpus.parse()}
    sel = sys.argv[1:]
    sd = os.path.join(HERE, 'tools', 'seeds')
    for f in sorted(os.listdir(sd)):
        if not f.endswith('.py') or (sel and f[:-3] not in sel):
            continue
        ns = {}
        exec(open(os.path.join(sd, f)).read(), ns)
        build(f[:-3], ns['PROPERTY'], ents[ns['ENTRY']], ns['DEMO'], ns['NEEDS'], ns['BREAKS'])


if __name__ == '__main__':
    main()
