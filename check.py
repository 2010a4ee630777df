#!/usr/bin/env python3
"""Static checks for the properties in properties.jsonl.

usage: check.py --property C11 [--tier quick|thorough]     decide one property
       check.py --all                                      decide every property (development)
       check.py --selftest                                 rule self tests (setup)

Nothing of /repo is imported or run: every verdict comes from its parsed source.
exit 0 property holds on everything decided, 1 violation, 2 an anchor of the analysis vanished
"""
import argparse
import concurrent.futures as cf
import glob
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.model import Program, AnalysisBroken, REPO, RELNET, DEMO          # noqa: E402
from sa import compare                                      # noqa: E402

EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
CLAIM_TIMEOUT = {'quick': int(os.environ.get('VERIF_CLAIM_TIMEOUT', '150')), 'thorough': 700}
KNOWN = os.path.join(HERE, 'known_findings.txt')


SCOPES = {'relnet': ((RELNET,), 'specs/*.py'), 'demo': ((DEMO,), 'specs/demo/*.py')}


def spec_program(scope='relnet'):
    dirs, pat = SCOPES[scope]
    return Program(dirs, extra=sorted(glob.glob(os.path.join(HERE, pat))))


def all_claims():
    out = []
    for scope in SCOPES:
        prog = spec_program(scope)
        for c in compare.load_claims(prog):
            c.scope, c.prog = scope, prog
            out.append(c)
    return out


def _claim_worker(scope, name, conn):
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)

    def run():
        try:
            prog = spec_program(scope)
            claim = next(c for c in compare.load_claims(prog) if c.name == name)
            r = compare.check_claim(prog, claim)
            if r.verdict == 'equal' and claim.opts.get('fails') != 'ignore':
                f = compare.check_failures(prog, claim)
                if f.verdict == 'differs':
                    r = f
                r.wall += f.wall
            conn.send(dict(verdict=r.verdict, reason=r.reason, funcs=sorted(r.funcs), where=list(r.where),
                           wall=round(r.wall, 2), terms=r.terms,
                           detail=[(w, compare.show(a, 1500) if a is not None else '-',
                                    compare.show(b, 1500) if b is not None else '-') for w, a, b in r.detail]))
        except AnalysisBroken as e:
            conn.send(dict(verdict='broken', reason=str(e)))
        except BaseException as e:     # a crash of the analysis is not a verdict
            conn.send(dict(verdict='unknown', reason='analysis error: ' + repr(e)[:300],
                           trace=traceback.format_exc()[-1500:]))
    t = threading.Thread(target=run)
    t.start()
    t.join()
    conn.close()


_done = {}


def run_claim(scope, name, tier):
    if (scope, name) not in _done:
        _done[scope, name] = _run_claim(scope, name, tier)
    return _done[scope, name]


def _run_claim(scope, name, tier):
    a, b = mp.Pipe(False)
    p = mp.Process(target=_claim_worker, args=(scope, name, b))
    t0 = time.time()
    p.start()
    b.close()
    r = None
    if a.poll(CLAIM_TIMEOUT[tier]):
        try:
            r = a.recv()
        except EOFError:
            r = dict(verdict='unknown', reason='analysis process ended without a verdict')
    else:
        r = dict(verdict='unknown', reason='time limit')
    if p.is_alive():
        p.terminate()
    p.join()
    r.setdefault('wall', round(time.time() - t0, 2))
    return r


def load_properties():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        return [json.loads(x) for x in f if x.strip()]


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding:'):
                d = dict(x.split('=', 1) for x in line.split(' ', 3)[1:3])
                out.append((d['property'], d['key'], line.split(' ', 3)[3]))
    return out


def target_where(prog, target):
    f = prog.func(None, target)
    return f.where if f else target


def check(prop, tier, claims, jobs=8):
    from sa.rules import RULES
    t0 = time.time()
    findings, undecided, broken = [], [], []
    mine = [c for c in claims if prop in c.props]
    stats = dict(claims=len(mine), claims_equal=0, claims_undecided=0, terms_built=0, functions=set(), rules={})
    samples = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for c, r in zip(mine, ex.map(lambda c: run_claim(c.scope, c.name, tier), mine)):
            stats['functions'].update(r.get('funcs', ()))
            stats['terms_built'] += r.get('terms', 0)
            if r['verdict'] == 'equal':
                stats['claims_equal'] += 1
                samples.append(f'{c.name} [{c.target}]: {c.text} -- equal normal forms')
            elif r['verdict'] == 'differs':
                findings.append(dict(key=f'claim:{c.name}', where=target_where(c.prog, c.target), rule=c.text,
                                     construct=c.target, message='value graph of the code differs from the specified '
                                     'one in: ' + r['reason'], detail=r['detail'], through=r['where']))
            elif r['verdict'] == 'broken':
                broken.append(f'{c.name}: {r["reason"]}')
            else:
                stats['claims_undecided'] += 1
                undecided.append(f'{c.name} [{c.target}]: {r["reason"]}')
    for rule in RULES.get(prop, ()):
        try:
            rr = rule(prog_for(rule))
        except AnalysisBroken as e:
            broken.append(f'{rule.__name__}: {e}')
            continue
        except RecursionError:
            undecided.append(f'{rule.__name__}: recursion depth')
            continue
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            undecided.append(f'{rule.__name__}: analysis error {e!r}')
            continue
        stats['rules'][rr.name] = dict(rule=rr.text, instances=rr.instances, undecided=len(rr.undecided),
                                       **rr.counts)
        samples += [f'{rr.name}: {s}' for s in rr.samples[:4]]
        undecided += [f'{rr.name}: {u}' for u in rr.undecided]
        findings += [dict(key=f'{rr.name}:{f.construct}', where=f.where, rule=rr.text, construct=f.construct,
                          message=f.message, detail=[], through=f.through) for f in rr.findings]
    stats['functions'] = sorted(stats['functions'])
    return findings, undecided, broken, stats, samples, time.time() - t0


_progs = {}


def prog_for(rule):
    scope = getattr(rule, 'scope', 'relnet')
    if scope not in _progs:
        from sa import scopes
        _progs[scope] = scopes.load(scope)
    return _progs[scope]


def report(prop, tier, findings, undecided, broken, stats, samples, wall):
    os.makedirs(EVID, exist_ok=True)
    known = [(k, t) for p, k, t in load_known() if p == prop]
    keys = {k for k, _ in known}
    new = [f for f in findings if f['key'] not in keys]
    for k, t in known:
        if any(f['key'] == k for f in findings):
            print(f'KNOWN-FINDING: property={prop} {t}')
    n_inst = sum(r['instances'] for r in stats['rules'].values())
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(
                  explanation='Static analysis of the current source of /repo; nothing is executed. '
                  f"{stats['claims_equal']} of {stats['claims']} value-graph claims have identical normal forms for "
                  f"code and specification ({stats['claims_undecided']} undecided and not reported); "
                  f"{n_inst} construct instances were examined by {len(stats['rules'])} dataflow/typestate rules.",
                  claims=stats['claims'], claims_equal=stats['claims_equal'],
                  claims_undecided=stats['claims_undecided'], value_graph_terms=stats['terms_built'],
                  functions_inlined=stats['functions'], rules=stats['rules'], undecided=undecided,
                  samples=samples[:40]),
              assumptions=ASSUMPTIONS, wall_s=round(wall, 2), violations=len(new))
    with open(os.path.join(EVID, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if broken:
        for b in broken:
            print(f'ANALYSIS-BROKEN property={prop} {b}')
    if new:
        path = os.path.join(EVID, f'{prop}.violation.txt')
        with open(path, 'w') as f:
            for x in new:
                f.write(f"{x['where']}: {x['construct']}\n  rule: {x['rule']}\n  {x['message']}\n")
                for w, a, b in x['detail']:
                    f.write(f'  {w}\n    code: {a}\n    spec: {b}\n')
                for w in x['through']:
                    f.write(f'  through {w}\n')
        for x in new[:12]:
            print(f"{x['where']}: {x['construct']}: {x['rule']}: {x['message']}"[:600])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if broken:
        return 2
    print(f"OK property={prop} claims={stats['claims_equal']}/{stats['claims']} rule_instances={n_inst} "
          f"undecided={len(undecided)} wall={wall:.1f}s")
    return 0


ASSUMPTIONS = [
    'annotated parameters hold values of their annotated types; user values are hashable with lawful equality',
    'exact arithmetic: float rounding is not modelled', 'names and messages are not observed',
    'classes are not monkey-patched and private attributes are not written from outside the package',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--only', help='with --all: the properties to decide')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    if a.selftest:
        from sa import selftest
        return selftest.main()
    try:
        claims = all_claims()
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN {e}')
        return 2
    props = [a.property] if a.property else [p['id'] for p in load_properties()]
    if a.only:
        props = a.only.split()
    rc = 0
    for p in props:
        rc = max(rc, report(p, tier, *check(p, tier, claims)))
    return rc


if __name__ == '__main__':
    sys.exit(main())
