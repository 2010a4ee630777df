"""Claims: pairs (code, spec) of driver functions lowered to value graphs and compared by identity of normal form.

verdicts:  equal      both value graphs have the same normal form on every non-rejecting input
           differs    the normal forms differ, and both lie in the decided fragment
           unknown    the code side uses something the closed forms do not cover (recorded, never reported)
"""
import ast
import ctypes
import os
import threading
import time

from . import terms as tm
from . import cc
from .model import Program, Func, AnalysisBroken, REPO
from .lower import Lower, Unsupported, elements
from .terms import ite3, or_, and_, not_, implies


class Claim:
    def __init__(self, cls, module):
        self.name = cls.name
        self.doc = (ast.get_docstring(cls) or '').strip()
        self.props = [p.strip() for p in self.doc.split(':', 1)[0].split(',')]
        self.text = self.doc.split(':', 1)[1].strip() if ':' in self.doc else ''
        self.opts = {}
        self.fn = {}
        self.module = module
        for s in cls.body:
            if isinstance(s, ast.FunctionDef):
                self.fn[s.name] = Func(s, module, None)
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                self.opts[s.targets[0].id] = ast.literal_eval(s.value)
        if 'code' not in self.fn or 'spec' not in self.fn:
            raise AnalysisBroken(f'claim {self.name} lacks code/spec')

    @property
    def target(self):
        return self.opts.get('target', self.name)


def load_claims(prog):
    out = []
    for m in prog.modules.values():
        if m.name.startswith('spec_'):
            for s in m.tree.body:
                if isinstance(s, ast.ClassDef) and any(isinstance(x, ast.FunctionDef) and x.name == 'spec'
                                                       for x in s.body):
                    out.append(Claim(s, m))
    return out


class Result:
    def __init__(self, claim):
        self.claim = claim
        self.verdict = None
        self.reason = ''
        self.detail = []
        self.funcs = set()
        self.where = []
        self.wall = 0.0
        self.terms = 0
        self.seen = []


def _params(func, prog):
    a = func.node.args
    return [(p.arg, prog.ty(p.annotation)) for p in a.posonlyargs + a.args]


def check_claim(prog, claim):
    """a claim may list alternative wordings of its spec (spec, spec_2, ..): one matching wording settles it"""
    names = ['spec'] + sorted(n for n in claim.fn if n.startswith('spec_'))
    out = None
    for n in names:
        r = _check_wording(prog, claim, claim.fn[n])
        if r.verdict == 'equal':
            return r
        if out is None or (out.verdict == 'differs' and r.verdict == 'unknown'):
            out = r
    return out


def check_failures(prog, claim):
    """second pass: operations that fail (missing key, division by zero, unbound name, ..) count as refusals, and the
    code may refuse nothing that the spec answers"""
    out = None
    for n in ['spec'] + sorted(n for n in claim.fn if n.startswith('spec_')):
        r = _check_wording(prog, claim, claim.fn[n], True)
        if r.verdict == 'equal':
            return r
        if out is None or (out.verdict == 'differs' and r.verdict == 'unknown'):
            out = r
    return out


def _check_wording(prog, claim, spec, crashes=False):
    r = _check_once(prog, claim, spec, crashes, ())
    if r.verdict != 'unknown' or claim.opts.get('small') is False:
        return r
    return _small(prog, claim, spec, crashes, r)


SIZES = (((2, 2),) * 4, ((2, 2),) + ((1, 1),) * 3, ((1, 2),) * 4, ((1, 1),) * 4)   # (mappings, sets) per nesting level


class _limit:
    """give up on a comparison after some seconds"""
    def __init__(self, seconds):
        self.timer = threading.Timer(seconds, self.stop)
        self.timer.daemon = True
        self.thread, self.on, self.lock = threading.get_ident(), True, threading.Lock()

    def __enter__(self):
        self.timer.start()

    def stop(self):
        with self.lock:
            if self.on:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.thread), ctypes.py_object(tm.Budget))

    def __exit__(self, *_):
        with self.lock:
            self.on = False
        self.timer.cancel()


def _small(prog, claim, spec, crashes, r):
    """an undecided comparison is repeated on inputs whose containers hold two (or one) elements: a difference there is
    a difference; agreement there leaves the claim undecided"""
    t0 = time.time()
    for sizes in SIZES:
        small, s = [], r
        for n in sizes:
            more = [k for k in _closed(s) if k not in {k2 for k2, _ in small}]
            if not more:
                break
            small = small + [(k, n) for k in more]
            try:
                with _limit(10):
                    s = _check_once(prog, claim, spec, crashes, small)
            except tm.Budget:
                break
            s.wall = r.wall + time.time() - t0
            if s.verdict == 'differs':
                left = [x for _, a, b in s.detail for x in (a, b) if x is not None]
                if tm.containers(left):
                    s.seen = left          # quantifiers left: look closer before believing it
                    continue
                s.reason += f' (on small containers)'
                return s
            if s.verdict == 'equal':
                r.reason += f'; agrees on small containers'
                r.wall = s.wall
                return r
            if time.time() - t0 > 40:
                return r
    return r


def _closed(r):
    """the unknown containers of an undecided comparison, outermost first"""
    return [tm.encode(d) for d in tm.containers(r.seen, 0) or tm.containers(r.seen) or tm.containers(r.seen, 2)][:12]


def _specialise(small):
    ok = tm.TRUE
    for e, n in small:
        d = tm.decode(e)
        if d.op == 'list' or d in tm.SMALL:
            continue
        lit, c = tm.small(d, n[0] if d.ty[0] == 'dict' else n[1] + (d.ty[0] == 'list'))
        if lit is not None:
            tm.SMALL[d] = lit
            ok = and_(ok, c)
    return ok


def _check_once(prog, claim, spec, crashes, small):
    r = Result(claim)
    t0 = time.time()
    tm.reset()
    L = Lower(prog)
    L.abstracted = claim.opts.get('abstract', {})
    L.erased = L.erased - set(claim.opts.get('observe', ()))
    L.plain = claim.opts.get('plain', ())
    L.trust_asserts = claim.opts.get('trust_asserts', False)
    L.longest = claim.opts.get('longest', 12)
    tm.ATOMIC_SETS[0] = claim.opts.get('atomic_sets', False)
    tm.FIELDWISE[0] = tuple(claim.opts.get('fieldwise', ()))
    L.stand_ins = claim.opts.get('stand_in', {})
    L.effects_of = claim.opts.get('effects', {})
    L.crashes = crashes
    try:
        ps = _params(spec, prog)
        n = len(_params(claim.fn['code'], prog))
        if n != len(ps):
            raise AnalysisBroken(f'claim {claim.name}: parameter lists differ')
        if small:
            distinct = _specialise(small)
        for n, ty in ps:
            if ty != tm.ANY:
                tm.NONNULL.add(tm.sym('p:' + n, ty))
        try:
            sp = L.summarize(spec, args=ps)
        except Unsupported as e:
            if not small:
                raise
            r.verdict, r.reason = 'unknown', f'outside the closed fragment: {e}'
            return r
        r.seen = [t for t in (sp.ret, sp.raises, *sp.effects.values()) if t is not None]
        pre = tm.TRUE
        if 'pre' in claim.fn:
            q = L.summarize(claim.fn['pre'], args=ps)
            pre = and_(not_(q.raises), tm.truthy(q.ret))
        if small:
            pre = and_(pre, distinct)
        L.inlined = set()
        L.once = claim.opts.get('once', ())
        L.unroll_depth = max(claim.opts.get('unroll', 0), 2 if small else 0)
        L.cut = claim.opts.get('cut', False)
        want, L.abstract_used = L.abstract_used, set()
        try:
            co = L.summarize(claim.fn['code'], args=ps)
        except Unsupported as e:
            r.verdict, r.reason = 'unknown', f'outside the closed fragment: {e}'
            return r
        r.funcs = {f'{f.module.name}.{f.qual}' for f in L.inlined if not f.module.name.startswith('spec_')}
        r.where = sorted({f.where for f in L.inlined if not f.module.name.startswith('spec_')})
        r.seen = [t for t in (co.ret, co.raises, *co.effects.values()) if t is not None] + r.seen
        _compare(r, claim, co, sp, pre, 'failures' if crashes else claim.opts.get('rejects', 'exact'))
        if r.verdict == 'differs' and want - L.abstract_used:
            r.verdict, r.reason = 'unknown', 'the code no longer goes through ' + ', '.join(sorted(want - L.abstract_used))
            r.seen = []
    except tm.Budget:
        r.verdict, r.reason = 'unknown', 'term budget'
    except RecursionError:
        r.verdict, r.reason = 'unknown', 'recursion depth'
    finally:
        r.wall = time.time() - t0
        r.terms = tm._count[0]
    return r


def _bad(t):
    return bool(t.flags)


def _compare(r, claim, co, sp, pre, mode):
    obs = []          # (what, code term, spec term)
    rc, rs = co.raises, sp.raises
    ok = and_(pre, not_(or_(rc, rs)))
    if mode == 'exact':
        if rc is not rs:
            obs.append(('rejection condition', ite3(pre, rc, tm.FALSE), ite3(pre, rs, tm.FALSE)))
    elif mode == 'atleast':
        x = and_(pre, rs, not_(rc))
        if x is not tm.FALSE:
            obs.append(('input accepted that must be rejected', x, tm.FALSE))
    elif mode == 'atmost':
        x = and_(pre, rc, not_(rs))
        if x is not tm.FALSE:
            obs.append(('input rejected that must be accepted', x, tm.FALSE))
    if mode == 'failures':
        x = and_(pre, rc, not_(rs))
        if x is not tm.FALSE:
            obs.append(('input rejected that must be answered', x, tm.FALSE))
    elif co.ret is not sp.ret:
        obs.append(('result', ite3(ok, co.ret, tm.UNDEF), ite3(ok, sp.ret, tm.UNDEF)))
    names = set(co.effects) | set(sp.effects) if mode != 'failures' and not claim.opts.get('leaves') else ()
    for n in sorted(names):
        a, b = co.effects.get(n), sp.effects.get(n)
        if a is b:
            continue
        if a is None or b is None:
            obs.append((f'effect on {n}', a, b))
            continue
        obs.append((f'effect on {n}', ite3(ok, a, tm.UNDEF), ite3(ok, b, tm.UNDEF)))
    bad = False
    for what, a, b in obs:
        if a is not None and b is not None:
            a, b = under_facts(ok if 'reject' not in what else pre, a, b)
        if a is b:
            continue
        if a is None or b is None:
            if (a is not None and _bad(a)) or (b is not None and _bad(b)):
                bad = True
            r.detail.append((what, a, b))
            continue
        d = difference(and_(ok if 'reject' not in what else pre), a, b)
        if d is None:
            continue
        if d == 'budget' or _bad(a) or _bad(b) or ('reject' not in what and _bad(ok)):
            bad = True
        r.detail.append((what, a, b))
    if not r.detail:
        r.verdict = 'equal'
    elif bad:
        r.verdict = 'unknown'
        r.reason = 'loop or operation without closed form in: ' + ', '.join(d[0] for d in r.detail)
    else:
        r.verdict = 'differs'
        r.reason = ', '.join(d[0] for d in r.detail)


def under_facts(ok, a, b):
    """make both sides agree on points excluded by the universally quantified facts of `ok`"""
    if a is b:
        return a, b
    try:
        cubes = list(tm.primes(ok))
    except tm.Budget:
        return a, b
    if not cubes or len(cubes) > 6:
        return a, b
    da, db = tm.UNDEF, tm.UNDEF
    for cube in cubes:
        facts = [at for at, v in cube if not v and at.op == 'exists']
        xa, xb = a, b
        for at, v in cube:
            xa, xb = tm.cofactor(xa, at, v), tm.cofactor(xb, at, v)
        if xa is xb:
            continue
        if facts:
            xa, xb = tm.with_facts(xa, facts), tm.with_facts(xb, facts)
            if xa is xb:
                continue
        return xa, xb
    return tm.TRUE, tm.TRUE


def _exists_feasible(cube):
    """a true `exists` needs a point that the false ones do not exclude"""
    last, v = cube[-1]
    if last.op != 'exists':
        return True
    negs = [at for at, v in cube if at.op == 'exists' and not v]
    if not negs:
        return True
    poss = [last] if v else [at for at, v in cube if at.op == 'exists' and v]
    for p in poss:
        z, (body,) = tm.open_(p)
        x = tm.with_guard(z, body, negs)
        if x is tm.FALSE:
            return False
        if not _sat(x, tuple(cube), [300]):
            return False
    return True


def _sat(x, cube, budget):
    """some path of x is consistent with the equalities of the cube"""
    if x is tm.FALSE or x is tm.UNDEF:
        return False
    budget[0] -= 1
    if x.op != 'ite' or budget[0] < 0:
        return True
    a = x.args[0]
    for v in (True, False):
        y = tm.cofactor(x, a, v)
        if y is tm.FALSE:
            continue
        c2 = cube + ((a, v),)
        if cc.feasible(c2) and _sat(y, c2, budget):
            return True
    return False


def _unsettled(at, cube):
    """a choice from a listed set, made in the atom: the condition its content hangs on, or the choice rewritten"""
    for t in tm.subterms(at):
        if t.op == 'anyelem' and t.args[0].op == 'set' and not any(x.op == 'bv' for x in t.syms):
            z, (body,) = tm.open_(t.args[0])
            xs = elements(z, body)
            if xs is None:
                continue
            keep = []
            for x, c in xs:
                for e, v in cube:
                    c = tm.cofactor(c, e, v)
                if c.op == 'ite':
                    return c.args[0]
                if c is tm.TRUE:
                    keep.append(x)
            u = tm.anyelem(tm.setlit(keep, t.args[0].ty))
            if u is not t:
                return {t: u}
    return None


def difference(ok, a, b):
    """None when no feasible combination of atoms separates a from b; otherwise a separating cube"""
    budget = [4000]

    def go(ok, a, b, cube):
        if ok is tm.FALSE or a is b:
            return None
        budget[0] -= 1
        if budget[0] < 0:
            return 'budget'
        tops = [t.args[0] for t in (ok, a, b) if t.op == 'ite']
        if not tops:
            if ok is tm.UNDEF or a is b:
                return None
            return leaf(a, b, cube)
        at = min(tops, key=lambda t: t.ck)
        while tm.SMALL:
            x = _unsettled(at, cube)
            if x is None:
                break
            if isinstance(x, dict):
                return go(*(tm.rebuild(t, x) for t in (ok, a, b)), cube)
            at = x
        for v in (True, False):
            c2 = cube + ((at, v),)
            if not cc.feasible(c2) or not _exists_feasible(c2):
                continue
            ok2, a2, b2 = tm.cofactor(ok, at, v), tm.cofactor(a, at, v), tm.cofactor(b, at, v)
            if at.op == 'eq' and v and a2 is not b2 and ok2 is not tm.FALSE:
                x, y = at.args
                if x.op == 'const' or y.op == 'sym' and x.op != 'sym' or \
                        (x.op == 'sym') == (y.op == 'sym') and x.ck < y.ck and y.op != 'const':
                    x, y = y, x
                if x not in y.syms and not any(t is x for t in (y,)) and x.syms:
                    ok2, a2, b2 = (tm.rebuild(t, {x: y}) for t in (ok2, a2, b2))
            if at.op == 'eq0' and v and a2 is not b2 and ok2 is not tm.FALSE:
                for z in sorted((z for z in at.syms if z.op == 'sym'), key=lambda z: z.ck):
                    y = tm.solve(z, at)
                    if y is not None:
                        ok2, a2, b2 = (tm.rebuild(t, {z: y}) for t in (ok2, a2, b2))
                        break
            if at.op == 'exists' and not v and a2 is not b2 and ok2 is not tm.FALSE:
                ok2, a2, b2 = (tm.with_facts(t, [at]) for t in (ok2, a2, b2))
            x = go(ok2, a2, b2, c2)
            if x is not None:
                return x
        return None

    def leaf(a, b, cube):
        if a is tm.UNDEF or b is tm.UNDEF:
            return cube
        if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
            return parts(zip(a.args, b.args), cube)
        if a.op == 'list' and b.op == 'list' and len(a.args) == len(b.args):
            return parts(zip(a.args, b.args), cube)
        if a.op == 'new' and b.op == 'new' and a.args[0] == b.args[0] and a.args[1] == b.args[1]:
            return parts(zip(a.args[2], b.args[2]), cube)
        if tm.is_setty(a) and tm.is_setty(b) and (a.op == 'set' or b.op == 'set'):
            z = tm.fresh('d', tm._join_elem(a, b))
            return go(tm.TRUE, tm.member(z, a), tm.member(z, b), cube)
        if a.ty[0] == 'dict' and b.ty[0] == 'dict' and (a.op == 'dict' or b.op == 'dict'):
            z = tm.fresh('d', a.ty[1] if a.ty[1] != tm.ANY else b.ty[1])
            ma, mb = tm.member(z, a), tm.member(z, b)
            r = go(tm.TRUE, ma, mb, cube)
            if r is not None:
                return r
            return go(and_(ma, mb), tm.sel(a, z), tm.sel(b, z), cube)
        if a.op == b.op and a.op in ('last', 'first', 'sum', 'prod', 'bag', 'bagflat'):
            # pointwise equal guards and bodies
            z, (g, v) = tm.open_(a)
            if not isinstance(z, tm.T):
                return cube
            h, w = tm.open_(b, z)[1]
            r = go(tm.TRUE, g, h, cube)
            if r is not None:
                return r
            return go(and_(g, h), v, w, cube)
        return cube

    def parts(pairs, cube):
        for x, y in pairs:
            r = go(tm.TRUE, x, y, cube)
            if r is not None:
                return r
        return None
    return go(ok, a, b, ())


def show(t, n=400):
    s = str(t)
    return s if len(s) <= n else s[:n] + ' ...'
