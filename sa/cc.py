"""Congruence closure over the equality literals of a cube: decides whether the cube contradicts itself."""
from fractions import Fraction
from . import terms as tm
from .terms import T, mk


def _linear(cube):
    """no numbers satisfy the comparisons of the cube (products count as unknowns of their own)"""
    cons = []                      # (coefficients, constant, strict): sum + constant > 0 or >= 0
    for a, v in cube:
        if a.op not in ('gt0', 'eq0') or (a.op == 'eq0' and not v):
            continue
        p = tm._poly(a.args[0])
        c0 = p.get((), Fraction(0))
        co = {m: c for m, c in p.items() if m != ()}
        if not co:
            continue
        whole = tm._all_int(p)
        if a.op == 'eq0':
            cons.append((co, c0, False))
            cons.append(({m: -c for m, c in co.items()}, -c0, False))
        elif v:
            cons.append((co, c0 - 1, False) if whole else (co, c0, True))
        else:
            cons.append(({m: -c for m, c in co.items()}, -c0, False))
    if len(cons) < 2 or len(cons) > 16:
        return False
    for _ in range(8):
        for co, c0, strict in cons:
            if not co and (c0 < 0 or strict and c0 == 0):
                return True
        cons = [x for x in cons if x[0]]
        if not cons:
            return False
        count = {}
        for co, _, _ in cons:
            for m in co:
                count[m] = count.get(m, 0) + 1
        m = min(count, key=lambda m: (count[m], tuple((f.ck, e) for f, e in m)))
        low = [x for x in cons if x[0].get(m, 0) > 0]
        up = [x for x in cons if x[0].get(m, 0) < 0]
        new = [x for x in cons if m not in x[0]]
        if len(low) * len(up) > 40:
            return False
        for a, ac, as_ in low:
            for b, bc, bs in up:
                k, l = -b[m], a[m]
                co = {}
                for q in set(a) | set(b):
                    if q != m:
                        c = k * a.get(q, 0) + l * b.get(q, 0)
                        if c:
                            co[q] = c
                new.append((co, k * ac + l * bc, as_ or bs))
        cons = new
    return False


def feasible(cube):
    if any(a.op == 'gt0' for a, _ in cube) and _linear(cube):
        return False
    return _feasible(cube)


def _feasible(cube):
    eqs = [(a, v) for a, v in cube if a.op == 'eq']
    if not any(v for _, v in eqs):
        return True
    parent = {}

    def find(t):
        parent.setdefault(t, t)
        while parent[t] is not t:
            parent[t] = parent[parent[t]]
            t = parent[t]
        return t

    terms = {}

    def sub(t):
        if t in terms:
            return
        kids = [x for x in t.args if isinstance(x, T)]
        for a in t.args:
            if isinstance(a, tuple):
                kids += [x for x in a if isinstance(x, T)]
        terms[t] = kids
        for k in kids:
            sub(k)
    for a, v in cube:
        sub(a)

    def union(a, b):
        a, b = find(a), find(b)
        if a is b:
            return False
        # constants stay representatives
        if a.op == 'const':
            a, b = b, a
        if a.op == 'const' and b.op == 'const':
            return None
        parent[a] = b
        return True
    for a, v in eqs:
        if v and union(*a.args) is None:
            return False
    for _ in range(6):
        changed = False
        sig = {}
        for t in terms:
            if not t.args or t.op in ('sym', 'const', 'bv') or t.op in tm.BINDERS:
                continue
            k = (t.op,) + tuple(find(x) if isinstance(x, T) else
                                tuple(find(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x
                                for x in t.args)
            if t.op == 'eq':
                k = (k[0],) + tuple(sorted(k[1:], key=lambda x: x.ck))
            o = sig.get(k)
            if o is None:
                sig[k] = t
            elif find(o) is not find(t):
                r = union(o, t)
                if r is None:
                    return False
                changed = changed or r
        if not changed:
            break
    lit = {}
    for a, v in cube:
        if a.op == 'eq':
            same = find(a.args[0]) is find(a.args[1])
            if same and not v:
                return False
            continue
        r = find(a)
        if lit.setdefault(r, v) != v:
            return False
    # distinct literals
    sides = {}
    for a, v in eqs:
        if v:
            for x in a.args:
                if x.op in ('set', 'new', 'tuple'):
                    xs = sides.setdefault(find(x), [])
                    if x not in xs:
                        xs.append(x)
    for xs in sides.values():
        for i, x in enumerate(xs):
            for y in xs[:i]:
                same = tm.eq(x, y)
                for a, v in cube:
                    if same.op != 'ite':
                        break
                    same = tm.cofactor(same, a, v)
                if same is tm.FALSE:
                    return False
    return True
