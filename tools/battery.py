#!/usr/bin/env python3
"""Development harness: applies small edits to a scratch copy of /repo and runs checks on it.

A battery file defines CASES: (id, kind, properties, file, [(old, new), ...]) with kind 'bug' (some listed property must
report) or 'ok' (none may report). Nothing here is used by the registered checks."""
import concurrent.futures as cf
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'Python/research/scripts/'


def run_case(case):
    cid, kind, props, file, edits = case
    d = tempfile.mkdtemp(prefix='bat_')
    try:
        shutil.copytree('/repo/' + BASE, os.path.join(d, BASE), ignore=shutil.ignore_patterns('*.html', '__pycache__'))
        p = os.path.join(d, BASE, file)
        s = open(p).read()
        for old, new in edits:
            if s.count(old) < 1:
                return cid, kind, 'NOMATCH', old[:60]
            s = s.replace(old, new, 1)
        try:
            compile(s, p, 'exec')
        except SyntaxError as e:
            return cid, kind, 'SYNTAX', str(e)
        open(p, 'w').write(s)
        out = []
        if len(props.split()) > 6:
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--all', '--only', props],
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, 'ev')),
                               capture_output=True, text=True)
            for x in r.stdout.splitlines():
                if x.startswith(('VIOLATION', 'ANALYSIS')):
                    pr = x.split('property=')[1].split()[0]
                    v = os.path.join(d, 'ev', pr + '.violation.txt')
                    note = open(v).read()[:700] if os.path.exists(v) else ''
                    out.append((pr, 1, [x, note]))
                elif x.startswith('OK'):
                    pr = x.split('property=')[1].split()[0]
                    u = int(x.split('undecided=')[1].split()[0])
                    out.append((pr, 0, [x]))
            return cid, kind, out, ''
        for pr in props.split():
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--property', pr],
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, 'ev')),
                               capture_output=True, text=True)
            lines = [x for x in r.stdout.splitlines() if x.startswith(('VIOLATION', 'ANALYSIS', '  '))]
            und = [x for x in r.stdout.splitlines() if x.startswith('OK')]
            out.append((pr, r.returncode, (lines or und or [r.stderr[-200:]])))
        return cid, kind, out, ''
    finally:
        shutil.rmtree(d)


def main():
    files = sys.argv[1].split(',')
    only = set(sys.argv[2:])
    cases = []
    for f in files:
        spec = importlib.util.spec_from_file_location('b', os.path.join(HERE, 'tools', 'battery', f + '.py'))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        cases += m.CASES
    cases = [c for c in cases if not only or c[0] in only]
    miss = 0
    with cf.ThreadPoolExecutor(int(os.environ.get('BAT_JOBS', '4'))) as ex:
        for cid, kind, out, note in ex.map(run_case, cases):
            if isinstance(out, str):
                print(cid, out, note)
                miss += 1
                continue
            codes = [c for _, c, _ in out]
            good = (1 in codes) if kind == 'bug' else all(c == 0 for c in codes)
            miss += not good
            print(cid, kind, 'ok' if good else '*** WRONG', [(p, c) for p, c, _ in out] if len(out) < 7 else [p for p, c, _ in out if c])
            if not good or only:
                for p, c, l in out:
                    if good == (kind == 'ok') and c == 0 and len(out) > 6:
                        continue
                    if kind == 'ok' and c == 0 and len(out) > 6:
                        continue
                    print('      ', p, c, *[x[:200] for x in l[:4]], sep='\n        ')
    print('cases', len(cases), 'wrong', miss)


main()
