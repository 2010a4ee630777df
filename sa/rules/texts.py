"""Texts that print the same content the same way: no text may expose the iteration order of a set or mapping."""
import ast

from .. import terms as tm
from ..lower import Lower, Unsupported
from .base import RuleResult, rule

NAMED = {'__repr__', '__str__', 'text_view', 'print_samples', 'describe'}


def unordered(t):
    """a term denoting elements in the iteration order of a set or mapping"""
    if t.op in ('listof', 'anyelem'):
        return t.args[0]
    if t.op in ('bag', 'bagflat'):
        z, (g, e) = tm.open_(t)
        for a in tm.atoms_of(g):
            if a.op == 'in' and a.args[0] is z:
                s = a.args[1]
                return None if s.op == 'dom' else s
        return t
    if t.op == 'slice':
        return unordered(t.args[0])
    if t.op == 'index':
        return t.args[0]
    return None


def leaks(t, absent=(), seen=None, out=None, text=True):
    """set-order dependent sub-terms of a text, outside `sorted`"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    key = (t, tuple(absent))
    if key in seen:
        return out
    seen.add(key)
    if t.op == 'ite':
        a, hi, lo = t.args
        leaks(a, absent, seen, out)
        leaks(hi, absent, seen, out)
        leaks(lo, tuple(absent) + (a,), seen, out)
        return out
    if t.op == 'sorted':
        for u in t.args:
            if isinstance(u, tm.T):
                inner(u, absent, seen, out)
        return out
    s = unordered(t)
    if s is not None and not single(s, absent):
        out.append((t, s))
        return out
    if t.op == 'fmt':
        for u in t.args:
            if isinstance(u, tm.T) and (tm.is_setty(u) or u.op == 'dict' or u.ty[0] == 'dict'):
                out.append((t, u))
    if t.op in ('set', 'dict', 'exists', 'sum', 'prod', 'first', 'last', 'bag', 'bagflat'):
        inner(t, absent, seen, out)
        return out
    for u in t.args:
        if isinstance(u, tm.T):
            leaks(u, absent, seen, out)
        elif isinstance(u, tuple):
            for w in u:
                if isinstance(w, tm.T):
                    leaks(w, absent, seen, out)
    return out


def inner(t, absent, seen, out):
    """what is below an order-free position: the collection itself may be unordered, its elements may not"""
    if t.op in ('bag', 'bagflat', 'set', 'dict', 'exists', 'sum', 'prod', 'first', 'last'):
        z, parts = tm.open_(t)
        for p in parts:
            leaks(p, absent, seen, out)
    elif t.op == 'listof':
        leaks(t.args[0], absent, seen, out)
    elif t.op == 'ite':
        inner(t.args[1], absent, seen, out)
        inner(t.args[2], absent, seen, out)
    else:
        leaks(t, absent, seen, out)


def single(s, absent):
    """the nodes of a sample without edges are at most one (samples are connected)"""
    if s.op != 'field' or s.args[1] != 'nodes':
        return False
    for a in absent:
        if a.op == 'exists':
            z, (b,) = tm.open_(a)
            for x in tm.atoms_of(b):
                if x.op == 'in' and x.args[1].op == 'field' and x.args[1].args[1] == 'edges' \
                        and x.args[1].args[0] is s.args[0]:
                    return True
        if a.op == 'truthy' and a.args[0].op == 'field' and a.args[0].args[1] == 'edges':
            return True
    return False


def texts(prog):
    for m in prog.modules.values():
        for c in m.classes.values():
            for n, f in c.methods.items():
                r = f.node.returns
                if n in NAMED or (r is not None and ast.unparse(r) == 'str'):
                    yield c, n, f


@rule('C19')
def printed_texts(prog):
    rr = RuleResult('printed-texts', 'what is printed about a finished object depends on its content, never on the order '
                    'in which a set or a mapping happens to be iterated')
    for c, n, f in texts(prog):
        rr.instances += 1
        tm.reset()
        L = Lower(prog)
        L.erased = L.erased - {'string_id'}
        s = tm.sym('self', ('cls', c.name))
        tm.NONNULL.add(s)
        try:
            r = L.summarize(f, args=[])
        except (Unsupported, tm.Budget) as e:
            rr.undecided.append(f'{c.name}.{n}: {e}')
            continue
        bad = leaks(r.ret)
        if not bad:
            rr.samples.append(f'{c.name}.{n}: order-free')
        elif r.ret.flags:
            rr.undecided.append(f'{c.name}.{n}: text without closed form')
        else:
            t, u = bad[0]
            rr.hit(f.where, f'{c.name}.{n}', f'the text exposes the iteration order of {tm.pp(u)[:160]} '
                   f'(through {t.op})')
    return rr
