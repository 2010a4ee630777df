"""Equal objects hash alike: every part a hash is computed from is equal whenever the objects are."""
from .. import terms as tm
from ..lower import Lower, Unsupported
from ..terms import and_, not_, eq, rebuild, cofactor, exists
from .base import RuleResult, rule
from .texts import unordered, leaks


class Agreement:
    def __init__(self, a, b, same):
        self.a, self.b, self.same = a, b, same
        self.memo, self.fields = {}, {}

    def implied(self, fact):
        return and_(self.same, not_(fact)) is tm.FALSE

    def other(self, t, k=None):
        return rebuild(t, {self.a: self.b})

    def exchange(self, t):
        """the part only reads fields that are equal for equal objects"""
        m = {}
        for u in fields(t, self.a, set()):
            if u not in self.fields:
                self.fields[u] = self.implied(eq(u, self.other(u)))
            if not self.fields[u]:
                return False
            m[self.other(u)] = u
        return bool(m) and rebuild(self.other(t), m) is t and not exposes(t)

    def check(self, t, under_sort=False):
        """None when the part agrees for equal objects, else the offending part"""
        if self.a not in t.syms:
            return None
        k = (t, under_sort)
        if k not in self.memo:
            self.memo[k] = self._check(t, under_sort)
        return self.memo[k]

    def _check(self, t, under_sort):
        if unordered(t) is None and self.exchange(t):
            return None
        if t.op not in ('bag', 'bagflat', 'sorted', 'listof', 'hash', 'poly', 'ite') and \
                self.implied(eq(t, self.other(t))):
            return None
        if t is self.a:
            return tm.UNDEF             # the whole object goes into something not expanded here
        if t.op == 'id':
            return t
        if t.op == 'listof' and under_sort:
            return self.check(t.args[0])
        if unordered(t) is not None and not under_sort:
            return t
        if t.op in ('bag', 'sum', 'prod'):
            z, (g, e) = tm.open_(t)
            h = self.other(g)
            if self.implied(not_(exists(z, and_(g, not_(h))))) and self.implied(not_(exists(z, and_(h, not_(g))))):
                return self._elem(z, (g, h), e)
            return t
        if t.op == 'sorted':
            return self.check(t.args[0], True)
        if t.op in ('set', 'dict', 'exists', 'first', 'last', 'sym', 'bv', 'field', 'sel', 'proj', 'at'):
            return t
        return self._parts(t.args)

    def _parts(self, xs):
        for u in xs:
            if isinstance(u, tm.T):
                r = self.check(u)
            elif isinstance(u, tuple):
                r = self._parts(u)
            else:
                r = None
            if r is not None:
                return r
        return None

    def _elem(self, z, g, e):
        """the element of a listing: its parts agree for every z in the listing"""
        if self.a not in e.syms:
            return None
        o = self.other(e)
        if any(self.implied(not_(exists(z, and_(x, not_(eq(e, o)))))) for x in g):
            return None
        if e.op in ('tuple', 'hash', 'fmt', 'poly'):
            for u in subterms(e.args):
                r = self._elem(z, g, u)
                if r is not None:
                    return r
            return None
        return e


def fields(t, a, seen):
    if t in seen or a not in t.syms:
        return
    seen.add(t)
    if t.op == 'field' and t.args[0] is a:
        yield t
    for u in subterms(t.args):
        yield from fields(u, a, seen)


def exposes(t):
    return bool(leaks(t))


def subterms(xs):
    for u in xs:
        if isinstance(u, tm.T):
            yield u
        elif isinstance(u, tuple):
            yield from subterms(u)


def hashing(prog, only=None):
    rr = RuleResult('hash-agreement', 'whatever a hash is computed from is equal whenever the objects are, and no hash depends '
                    'on the iteration order of a set or mapping')
    for m in prog.modules.values():
        for c in m.classes.values():
            h, q = prog.find_method(c.name, '__hash__'), prog.find_method(c.name, '__eq__')
            if '__hash__' not in c.methods or q is None:
                continue
            rr.instances += 1
            tm.reset()
            L = Lower(prog)
            L.erased = L.erased - {'hash', '_hash', 'name', '_name', 'string_id'}
            ty = ('cls', c.name)
            a, b = tm.sym('self', ty), tm.sym('p:b', ty)
            tm.NONNULL.update((a, b))
            try:
                he = L.summarize(h, args=[])
                ee = L.summarize(q, args=[('b', ty)])
                same = tm.truthy(ee.ret)
                for x in list(tm.atoms_of(same)):
                    if x.op == 'isinst':
                        same = cofactor(same, x, True)
                # equal parts are interchangeable: hash of b's part is hash of a's
                g = Agreement(a, b, and_(same, not_(ee.raises)))
                bad = g.check(he.ret)
            except (Unsupported, tm.Budget) as e:
                rr.undecided.append(f'{c.name}: {e}')
                continue
            if bad is None:
                rr.samples.append(f'{c.name}: hash agrees with equality')
            elif bad is tm.UNDEF or he.ret.flags or ee.ret.flags:
                rr.undecided.append(f'{c.name}: hash or equality without closed form')
            else:
                rr.hit(h.where, f'{c.name}.__hash__', f'objects that __eq__ calls equal may hash differently: the hash uses '
                       f'{tm.pp(bad)[:200]}')
    return rr


@rule('C03')
def relnet_hashing(prog):
    return hashing(prog)


@rule('C30', scope='demo')
def demo_hashing(prog):
    return hashing(prog)
