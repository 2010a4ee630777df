#!/usr/bin/env python3
"""Development harness: single-edit mutants of /repo's source, kept when the tests still pass, then shown to the checks.

usage: mutate.py gen SUBDIR OUT.jsonl      write the mutants of SUBDIR (relnet or demo) that survive the tests
       mutate.py run IN.jsonl OUT.jsonl    which checks report each of them
Nothing here is used by the registered checks."""
import ast
import concurrent.futures as cf
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'Python/research/scripts/'
JOBS = int(os.environ.get('MUT_JOBS', '6'))
SKIP = {'test', '__init__.py'}
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt],
       ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.BitOr: [ast.BitAnd],
       ast.BitAnd: [ast.BitOr], ast.Mod: [ast.FloorDiv]}
CALLS = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'sorted': 'list', 'union': 'intersection',
         'intersection': 'union', 'issubset': 'issuperset', 'difference': 'union', 'isdisjoint': 'issubset',
         'keys': 'values', 'add': 'discard', 'sum': 'len', 'update': 'difference_update'}
WRAP = {'frozenset', 'set', 'list', 'dict', 'copy', 'deepCopy', 'sorted', 'tuple'}


def mutants(tree):
    """(description, line, source) triples"""
    nodes = [n for f in ast.walk(tree) if isinstance(f, ast.FunctionDef) for n in ast.walk(f)]
    seen = set()
    for n in nodes:
        if id(n) in seen:
            continue
        seen.add(id(n))
        yield from edits(tree, n)


def swap(tree, n, field, val, idx=None):
    old = getattr(n, field)
    if idx is None:
        setattr(n, field, val)
        s = ast.unparse(tree)
        setattr(n, field, old)
    else:
        o = old[idx]
        old[idx:idx + 1] = val if isinstance(val, list) else [val]
        s = ast.unparse(tree)
        old[idx:idx + (len(val) if isinstance(val, list) else 1)] = [o]
    return s


def children(n):
    for f, v in ast.iter_fields(n):
        if isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, ast.AST):
                    yield f, i, x
        elif isinstance(v, ast.AST):
            yield f, None, v


def edits(tree, n):
    u = lambda x: ast.unparse(x).split('\n')[0][:70]       # noqa: E731
    if isinstance(n, ast.Compare):
        for i, op in enumerate(n.ops):
            for alt in CMP.get(type(op), ()):
                yield f'{u(n)} :: {type(alt()).__name__}', n.lineno, swap(tree, n, 'ops', alt(), i)
    if isinstance(n, ast.BoolOp):
        yield f'{u(n)} :: and/or', n.lineno, swap(tree, n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())
        for i in range(len(n.values)):
            if len(n.values) > 1:
                yield f'{u(n)} :: drop {u(n.values[i])}', n.lineno, swap(tree, n, 'values', [], i) if len(n.values) > 2 \
                    else swap(tree, n, 'values', [ast.Constant(isinstance(n.op, ast.And))], i)
    if isinstance(n, ast.BinOp):
        for alt in BIN.get(type(n.op), ()):
            yield f'{u(n)} :: {alt.__name__}', n.lineno, swap(tree, n, 'op', alt())
    if isinstance(n, ast.AugAssign):
        for alt in BIN.get(type(n.op), ()):
            yield f'{u(n)} :: {alt.__name__}', n.lineno, swap(tree, n, 'op', alt())
    if isinstance(n, (ast.If, ast.IfExp, ast.While)):
        yield f'if {u(n.test)} :: negated', n.lineno, swap(tree, n, 'test', ast.UnaryOp(ast.Not(), n.test))
        if isinstance(n, ast.If):
            yield f'if {u(n.test)} :: always', n.lineno, swap(tree, n, 'test', ast.Constant(True))
            yield f'if {u(n.test)} :: never', n.lineno, swap(tree, n, 'test', ast.Constant(False))
    if isinstance(n, ast.comprehension) and n.ifs:
        for i in range(len(n.ifs)):
            yield f'filter {u(n.ifs[i])} :: dropped', n.ifs[i].lineno, swap(tree, n, 'ifs', [], i)
            yield f'filter {u(n.ifs[i])} :: negated', n.ifs[i].lineno, swap(tree, n, 'ifs', ast.UnaryOp(ast.Not(), n.ifs[i]), i)
    if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not ...:
        v = n.value
        alts = [not v] if isinstance(v, bool) else [v + 1] + ([v - 1] if v == 1 else [])
        for a in alts:
            n.value = a
            s = ast.unparse(tree)
            n.value = v
            yield f'{v} :: {a}', n.lineno, s
    for f, i, x in children(n):
        if isinstance(x, ast.stmt) and f in ('body', 'orelse', 'finalbody') and not isinstance(x, (ast.FunctionDef, ast.Return)):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            yield f'{u(x)} :: deleted', x.lineno, swap(tree, n, f, ast.Pass(), i)
        if isinstance(x, ast.Return) and x.value is not None and f in ('body', 'orelse') and isinstance(x.value, ast.Call):
            pass
        if isinstance(x, ast.Call):
            fn = x.func
            nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
            if nm in CALLS:
                if isinstance(fn, ast.Name):
                    yield f'{u(x)} :: {CALLS[nm]}', x.lineno, swap(tree, fn, 'id', CALLS[nm])
                else:
                    yield f'{u(x)} :: {CALLS[nm]}', x.lineno, swap(tree, fn, 'attr', CALLS[nm])
            if nm in WRAP and isinstance(fn, ast.Name) and len(x.args) == 1 and not x.keywords:
                yield f'{u(x)} :: unwrapped', x.lineno, swap(tree, n, f, x.args[0], i)
            if nm in WRAP and isinstance(fn, ast.Attribute) and not x.args:
                yield f'{u(x)} :: unwrapped', x.lineno, swap(tree, n, f, fn.value, i)
            if len(x.args) == 2 and not any(isinstance(a, ast.Starred) for a in x.args):
                yield f'{u(x)} :: args swapped', x.lineno, swap(tree, x, 'args', [x.args[1], x.args[0]])
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice):
            yield f'{u(x)} :: unsliced', x.lineno, swap(tree, n, f, x.value, i)
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        for a, b in (('nodes', 'edges'), ('edges', 'nodes'), ('source_variable', 'target_variable'), ('a', 'b'),
                     ('variable', 'value'), ('value', 'variable'), ('start', 'configuration'), ('LEFT', 'RIGHT')):
            if n.attr == a:
                yield f'{u(n)} :: .{b}', n.lineno, swap(tree, n, 'attr', b)


def copy_tree():
    d = tempfile.mkdtemp(prefix='mut_')
    shutil.copytree('/repo/Python/research/scripts', os.path.join(d, BASE), ignore=shutil.ignore_patterns('*.html', '__pycache__'))
    return d


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', BROWSER='true')


def survives(d):
    # every test here passes on the unchanged tree
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=20',
                            '--deselect', 'scripts/test/relnet/test_graph_components.py::TestDirectedRelation::test_repr', 'scripts/test'],
                           cwd=os.path.join(d, 'Python/research'), env=ENV, capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def gen_worker(job):
    file, desc, line, src = job
    d = copy_tree()
    try:
        with open(os.path.join(d, BASE, file), 'w') as f:
            f.write(src)
        return survives(d)
    finally:
        shutil.rmtree(d)


def gen(sub, out):
    jobs = []
    for fn in sorted(os.listdir('/repo/' + BASE + sub)):
        if fn.endswith('.py') and fn not in SKIP:
            file = sub + '/' + fn
            text = open('/repo/' + BASE + file).read()
            tree = ast.parse(text)
            base = ast.unparse(tree)
            for desc, line, src in mutants(tree):
                if src != base:
                    try:
                        compile(src, fn, 'exec')
                    except SyntaxError:
                        continue
                    jobs.append((file, desc, line, src))
    print(len(jobs), 'mutants', flush=True)
    n = 0
    with cf.ProcessPoolExecutor(JOBS) as ex, open(out, 'w') as f:
        res = ex.map(gen_worker, jobs, chunksize=4) if sub == 'relnet' else [True] * len(jobs)
        for j, ok in zip(jobs, res):
            if ok:
                n += 1
                f.write(json.dumps(dict(file=j[0], desc=j[1], line=j[2], src=j[3])) + '\n')
                f.flush()
    print(n, 'survive')


DRIVER = r'''
import sys, os, json
sys.path.insert(0, %r); sys.setrecursionlimit(20000)
import check
from sa.rules import RULES
claims = json.loads(os.environ['MUT_CLAIMS']); rules = json.loads(os.environ['MUT_RULES'])
hits, und = [], []
props = {c.name: (c.scope, c.props) for c in check.all_claims()}
for n in claims:
    r = check.run_claim(props[n][0], n, 'quick')
    if r['verdict'] == 'differs': hits.append((props[n][1][0], n))
    elif r['verdict'] != 'equal': und.append(n + ':' + r['verdict'] + ':' + r.get('reason', '')[:60])
    if hits and not os.environ.get('MUT_ALL'): break
if not hits:
    for p, n in rules:
        for fn in RULES[p]:
            if fn.__name__ != n: continue
            try: rr = fn(check.prog_for(fn))
            except Exception as e:
                und.append(n + ':' + repr(e)[:80]); continue
            if rr.findings: hits.append((p, n + ':' + rr.findings[0].construct))
        if hits: break
print('RESULT' + json.dumps([hits, und]))
'''


def func_at(file, line):
    tree = ast.parse(open('/repo/' + BASE + file).read())
    best = None
    for c in ast.walk(tree):
        if isinstance(c, ast.FunctionDef) and c.lineno <= line <= c.end_lineno:
            best = c.name if best is None else best + '.' + c.name
    return best


def run_worker(job):
    m, claims, rules = job
    d = copy_tree()
    try:
        with open(os.path.join(d, BASE, m['file']), 'w') as f:
            f.write(m['src'])
        env = dict(os.environ, VERIF_REPO=d, VERIF_CLAIM_TIMEOUT=os.environ.get('VERIF_CLAIM_TIMEOUT', '25'),
                   MUT_CLAIMS=json.dumps(claims), MUT_RULES=json.dumps(rules))
        r = subprocess.run([sys.executable, '-c', DRIVER % HERE], env=env, capture_output=True, text=True)
        for x in r.stdout.splitlines():
            if x.startswith('RESULT'):
                return json.loads(x[6:])
        return [[('?', r.stderr[-300:])], []]
    finally:
        shutil.rmtree(d)


def run(inp, out):
    ms = [json.loads(x) for x in open(inp)]
    if os.environ.get('MUT_STEP'):
        ms = ms[int(os.environ.get('MUT_FROM', '0'))::int(os.environ['MUT_STEP'])]
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    import check
    from sa.rules import RULES
    fp = '/tmp/claimfuncs.json'
    if not os.path.exists(fp):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            cl = check.all_claims()
            rs = list(ex.map(lambda c: check.run_claim(c.scope, c.name, 'quick'), cl))
        json.dump({c.name: [c.scope, r['verdict'], r.get('funcs', []), r.get('wall', 0)] for c, r in zip(cl, rs)}, open(fp, 'w'))
    cfs = json.load(open(fp))
    jobs = []
    skip = set((os.environ.get('MUT_SKIP') or '').split())
    for m in ms:
        scope = m['file'].split('/')[0]
        fn = (func_at(m['file'], m['line']) or '').split('.')[0]
        mod = m['file'].split('/')[1][:-3]
        cs = [n for n, (s, v, fs, w) in sorted(cfs.items(), key=lambda kv: kv[1][3]) if s == scope and v == 'equal' and
              any(f.split('.')[0] == mod and f.split('.')[-1] == fn or mod in f and f.endswith('.' + fn) for f in fs)]
        rules = [(p, f.__name__) for p, fs in RULES.items() for f in fs if f.scope == scope and f.__name__ not in skip]
        jobs.append((m, cs, rules))
    missed = 0
    with cf.ThreadPoolExecutor(JOBS) as ex, open(out, 'w') as f:
        for (m, cs, _), (hits, und) in zip(jobs, ex.map(run_worker, jobs)):
            missed += not hits
            f.write(json.dumps(dict(file=m['file'], line=m['line'], desc=m['desc'], fn=func_at(m['file'], m['line']), hits=hits,
                                    und=und, claims=len(cs))) + '\n')
            f.flush()
    print(len(jobs), 'mutants', missed, 'missed')


if __name__ == '__main__':
    {'gen': gen, 'run': run}[sys.argv[1]](*sys.argv[2:])
