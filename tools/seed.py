#!/usr/bin/env python3
"""Make planted bugs from tools/seeds_src/*.py (development only; no check reads seeded/).

Each source file assigns SEEDS = {id: dict(property=, needs=, what=, edits=[(file, old, new)], demo=python text)}.
usage: seed.py [ID ...]     verify in a scratch copy and write seeded/ID
"""
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'Python/research/scripts/'
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 BROWSER=true
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD/Python/research/scripts:$PWD/Python/research/scripts/demo"
export REPO_SCRIPTS="$PWD/Python/research/scripts"
cd "$work" || exit 2
/opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def main():
    src = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds_src', '*.py'))):
        ns = {"__file__": f}
        exec(compile(open(f).read(), f, 'exec'), ns)
        src.update(ns['SEEDS'])
    ids = sys.argv[1:] or [i for i in src if not os.path.exists(os.path.join(HERE, 'seeded', i, 'patch.diff'))]
    for i in ids:
        s = src[i]
        w = f'/tmp/seedw_{i}'
        shutil.rmtree(w, ignore_errors=True)
        sh(f'git clone -q /repo {w}', '/')
        ok = True
        d = os.path.join(HERE, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        r = sh(f'bash {d}/demo.sh', w, timeout=300)
        if r.returncode != 0:
            print(i, 'demo fails on base', r.stderr[-400:])
            ok = False
        for f, old, new in s['edits']:
            p = os.path.join(w, S, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(i, f'edit in {f} matches {t.count(old)} times')
                ok = False
            open(p, 'w').write(t.replace(old, new))
        r = sh(f'bash {d}/demo.sh', w, timeout=300)
        if r.returncode == 0:
            print(i, 'demo passes with the change')
            ok = False
        elif 'AssertionError' not in r.stderr and not s.get('anyerror'):
            print(i, 'demo fails oddly', r.stderr[-300:])
        r = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 BROWSER=true /opt/venv/bin/python -m pytest -q -p no:cacheprovider scripts/test 2>&1 | tail -3',
               os.path.join(w, 'Python/research'))
        if '153 passed' not in r.stdout:
            print(i, 'tests:', r.stdout[-300:])
            ok = False
        r = sh('git diff', w)
        open(os.path.join(d, 'patch.diff'), 'w').write(r.stdout)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if not ok:
            shutil.rmtree(d)
        else:
            c = sh(f'VERIF_REPO={w} VERIF_EVIDENCE=/tmp/ev_{i} python3 {HERE}/check.py --property {s["property"]}', '/')
            print(i, s['property'], 'CAUGHT' if c.returncode == 1 and 'VIOLATION' in c.stdout else
                  f'missed rc={c.returncode}', c.stdout.strip().splitlines()[0][:150] if c.stdout else c.stderr[-200:])
            shutil.rmtree(f'/tmp/ev_{i}', ignore_errors=True)
        shutil.rmtree(w, ignore_errors=True)


main()
