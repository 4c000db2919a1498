#!/usr/bin/env python3
"""Make and validate planted bugs (authoring aid; no check uses it).

seed.py make DEFS.py      DEFS defines BUGS = [dict(id, prop, file, edits=
                          [(old, new)...] or files={f: edits}, demo, needs,
                          breaks)]; writes seeded/<id>/ and validates
seed.py check ID...       run the property's check on the changed tree
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'


def copy():
    d = tempfile.mkdtemp(prefix='scr', dir='/tmp')
    r = os.path.join(d, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    return d, r


def env(r):
    e = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', TZ='UTC', LANG='C.UTF-8', LC_ALL='C.UTF-8')
    return e


def make(b):
    d = os.path.join(SEED, b['id'])
    os.makedirs(d, exist_ok=True)
    tmp, r = copy()
    try:
        files = b.get('files') or {b['file']: b['edits']}
        for f, edits in files.items():
            p = os.path.join(r, f)
            s = open(p, encoding='utf-8').read()
            for old, new in edits:
                if s.count(old) != 1:
                    return b['id'], 'edit matches %d times: %r' % (
                        s.count(old), old)
                s = s.replace(old, new)
            open(p, 'w', encoding='utf-8').write(s)
        diff = subprocess.check_output(['git', '-C', r, 'diff'], text=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        subprocess.check_call(['git', '-C', r, 'checkout', '-q', '.'])
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# Run with cwd /repo.\n'
            'export PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({'property': b['prop'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        return b['id'], validate(d, r)
    finally:
        shutil.rmtree(tmp)


def validate(d, r):
    e = env(r)

    def demo():
        x = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, env=e,
                           capture_output=True, text=True)
        return x
    a = demo()
    if a.returncode:
        return 'demo fails on the unchanged tree: ' + a.stdout[-600:] + \
            a.stderr[-900:]
    x = subprocess.run(['git', '-C', r, 'apply',
                        os.path.join(d, 'patch.diff')], capture_output=True,
                       text=True)
    if x.returncode:
        return 'patch: ' + x.stderr
    a = demo()
    if a.returncode == 0:
        return 'demo passes on the changed tree'
    t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                        '--no-cov', '--timeout=300', '-x'], cwd=r, env=e,
                       capture_output=True, text=True)
    if t.returncode:
        return 'tests fail: ' + t.stdout[-700:]
    return 'ok: ' + (a.stdout + a.stderr).strip().split('\n')[-1][:150]


def check(i, prop=None):
    d = os.path.join(SEED, i)
    prop = prop or json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp, r = copy()
    try:
        subprocess.check_call(['git', '-C', r, 'apply',
                               os.path.join(d, 'patch.diff')])
        e = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=tmp)
        x = subprocess.run(['python3', os.path.join(HERE, 'check.py'), prop],
                           env=e, capture_output=True, text=True, cwd=HERE)
        return i, prop, x.returncode, (x.stdout + x.stderr)[-900:]
    finally:
        shutil.rmtree(tmp)


def main():
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        if sys.argv[1] == 'make':
            bugs = runpy.run_path(sys.argv[2])['BUGS']
            for i, r in ex.map(make, bugs):
                print('%-28s %s' % (i, r))
        elif sys.argv[1] == 'check':
            ids = sys.argv[2:] or sorted(os.listdir(SEED))
            for i, p, rc, out in ex.map(check, ids):
                print('%-28s %s rc=%d %s' % (
                    i, p, rc, '' if rc == 1 else out[-300:]))
                if rc == 1:
                    print('      ' + out.strip().split('\n')[0][:260])


main()
