"""Hash-consed value graph with algebraic normal forms.

Every value computed by a function of the analysed program is represented by an interned term.
Conditionals are ordered decision diagrams over boolean atoms, sets are characteristic predicates,
dictionaries are pointwise (membership, value) pairs, numbers are polynomials, and loops have been
turned into quantifiers / sums / choices by the lowering (see lower.py).  Two program fragments
that compute the same thing in a differently written way therefore share the same term.

Nothing of the analysed program is executed: terms only come from its syntax tree.
"""
import time
import hashlib
import itertools
import sys
from fractions import Fraction

sys.setrecursionlimit(20000)

ANY = ('any',)
BOOL = ('bool',)
NUM = ('num',)
STR = ('str',)
NONE_T = ('none',)
MIX = ('mix',)          # elements of unrelated classes


class Budget(Exception):
    pass


class T:
    __slots__ = ('op', 'args', 'ty', 'ck', 'syms', 'bh', 'flags', 'size', '__weakref__')

    def __repr__(self):
        return pp(self)


_tab = {}
_count = [0]
LIMIT = [400000]
DEADLINE = [float('inf')]


def _flat(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _flat(a)


def _argkey(a):
    if isinstance(a, T):
        return a.ck[1]
    if isinstance(a, tuple):
        return b'(' + b','.join(_argkey(x) for x in a) + b')'
    return repr(a).encode()


BINDERS = {'set', 'dict', 'exists', 'sum', 'prod', 'first', 'last', 'bag', 'bagflat', 'loop', 'while', 'fix', 'maxm',
           'lam'}


def mk(op, *args, ty=ANY, flags=frozenset()):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        if t.ty == ANY and ty != ANY:
            t.ty = ty
        return SMALL.get(t, t) if SMALL else t
    _count[0] += 1
    if _count[0] > LIMIT[0]:
        raise Budget('term budget exceeded')
    if not _count[0] & 255 and time.time() > DEADLINE[0]:
        raise Budget('time budget exceeded')
    t = T()
    t.op = op
    t.args = args
    t.ty = ty
    subs = list(_flat(args))
    size = 1 + sum(s.size for s in subs)
    t.size = size
    dg = hashlib.md5(op.encode() + b'|' + b';'.join(_argkey(a) for a in args)).digest()
    t.ck = (min(size, 10 ** 9), dg)
    syms = set()
    bh = 0
    fl = set(flags)
    for s in subs:
        syms |= s.syms
        if s.bh > bh:
            bh = s.bh
        fl |= s.flags
    if op in ('sym', 'bv'):
        syms.add(t)
    if op in BINDERS:
        ks = args[0] if isinstance(args[0], tuple) else (args[0],)
        syms = {s for s in syms if not (s.op == 'bv' and s.args[0] in ks)}
        bh = max((bh,) + tuple(ks))
    if op in ('loop', 'while', 'fix', 'opaque', 'rec'):
        fl.add('opaque' if op == 'opaque' else 'generic')
    t.syms = frozenset(syms)
    t.bh = bh
    t.flags = frozenset(fl)
    _tab[key] = t
    return t


SMALL = {}              # container terms given a fixed small content for one comparison


def reset():
    _tab.clear()
    SMALL.clear()
    PARTS.clear()
    _count[0] = 0
    _ite_memo.clear()
    _prime_memo.clear()
    _cover_memo.clear()
    _rb_memo.clear()
    _opened.clear()
    NONNULL.clear()
    ATOMIC_SETS[0] = False
    FIELDWISE[0] = ()
    CARD_OF.clear()
    _fresh[0] = 0
    _init_consts()


_fresh = [0]


def sym(name, ty=ANY):
    return mk('sym', name, ty=ty)


def fresh(hint='z', ty=ANY):
    _fresh[0] += 1
    return mk('sym', f'{hint}#{_fresh[0]}', ty=ty)


def opaque(why, *args, ty=ANY):
    """an expression the analysis does not interpret"""
    return mk('opaque', why, *args, ty=ty)


def _init_consts():
    global TRUE, FALSE, UNDEF, NONE, ZERO, ONE
    TRUE = mk('const', 'bool', True, ty=BOOL)
    FALSE = mk('const', 'bool', False, ty=BOOL)
    UNDEF = mk('undef')
    NONE = mk('const', 'none', None, ty=NONE_T)
    ZERO = mk('const', 'num', Fraction(0), ty=NUM)
    ONE = mk('const', 'num', Fraction(1), ty=NUM)


_ite_memo = {}
_prime_memo = {}
CARD_OF = {}
_init_consts()


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return mk('const', 'num', Fraction(v), ty=NUM)
    if isinstance(v, float):
        try:
            return mk('const', 'num', Fraction(v), ty=NUM)
        except (ValueError, OverflowError):
            return mk('const', 'str', repr(v), ty=NUM)
    if isinstance(v, Fraction):
        return mk('const', 'num', v, ty=NUM)
    if isinstance(v, str):
        return mk('const', 'str', v, ty=STR)
    return mk('const', type(v).__name__, repr(v))


# ------------------------------------------------------------------------------------------
# decision diagrams

def B(atom):
    """boolean value of an atom"""
    if atom.op == 'ite' or atom is TRUE or atom is FALSE or atom is UNDEF:
        return atom
    return mk('ite', atom, TRUE, FALSE, ty=BOOL)


def top(t):
    return t.args[0] if t.op == 'ite' else None


def cof(t, atom, val):
    """cofactor w.r.t. the top-most atom only"""
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def cofactor(t, atom, val):
    """cofactor w.r.t. any atom of the diagram"""
    memo = {}

    def go(t):
        if t.op != 'ite':
            return t
        r = memo.get(t)
        if r is not None:
            return r
        a, h, l = t.args
        if a is atom:
            r = h if val else l
        elif a.ck > atom.ck:
            r = t
        else:
            r = node(a, go(h), go(l))
        memo[t] = r
        return r
    return go(t)


def _merge_ty(a, b):
    if a == b:
        return a
    if a == ANY or a == NONE_T:
        return b
    if b == ANY or b == NONE_T:
        return a
    return a


def node(a, h, l):
    if h is l:
        return h
    # "x if x else <empty>" over containers is x itself
    if l.op in ('set', 'dict') and a.op == 'exists' and is_empty(l):
        k = a.args[0]
        if h.op not in ('set', 'dict', 'ite'):
            hk = h if is_setty(h) else mk('keys', h)
            if a.args[1].op == 'ite':
                ia, ih, il = a.args[1].args
                if ia.op == 'in' and ia.args[0].op == 'bv' and ia.args[0].args[0] == k and \
                        (ia.args[1] is h or ia.args[1] is hk) and ih is TRUE and il is FALSE:
                    return h
    if a.op == 'isnone' and h.op == 'const' and h is NONE and l is a.args[0]:
        return l
    return mk('ite', a, h, l, ty=_merge_ty(h.ty, l.ty))


def ite3(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if c is UNDEF:
        return UNDEF
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.op != 'ite':
        c = B(c)
    tops = [t.args[0] for t in (c, a, b) if t.op == 'ite']
    at = min(tops, key=lambda x: x.ck)
    h = ite3(cof(c, at, 1), cof(a, at, 1), cof(b, at, 1))
    l = ite3(cof(c, at, 0), cof(a, at, 0), cof(b, at, 0))
    if h.op == 'ite' and h.args[0].ck <= at.ck or l.op == 'ite' and l.args[0].ck <= at.ck:
        # cannot happen with ordered inputs
        r = node(at, h, l)
    else:
        r = node(at, h, l)
    _ite_memo[key] = r
    return r


def and_(*xs):
    r = TRUE
    for x in xs:
        r = ite3(r, x, FALSE)
    return r


def or_(*xs):
    r = FALSE
    for x in xs:
        r = ite3(r, TRUE, x)
    return r


def not_(x):
    return ite3(x, FALSE, TRUE)


def xor_(a, b):
    return ite3(a, not_(b), b)


def implies(a, b):
    return ite3(a, b, TRUE)


def lift(fn, *args):
    """apply fn to leaves, pushing the decision diagrams to the outside"""
    tops = [t.args[0] for t in args if isinstance(t, T) and t.op == 'ite']
    if not tops:
        return fn(*args)
    at = min(tops, key=lambda x: x.ck)
    h = lift(fn, *[cof(t, at, 1) if isinstance(t, T) else t for t in args])
    l = lift(fn, *[cof(t, at, 0) if isinstance(t, T) else t for t in args])
    return ite3(B(at), h, l)


def atoms_of(t):
    out = []
    seen = set()

    def go(t):
        if t.op != 'ite' or t in seen:
            return
        seen.add(t)
        if t.args[0] not in out:
            out.append(t.args[0])
        go(t.args[1])
        go(t.args[2])
    go(t)
    return out


def leaves_of(t):
    out = []
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'ite':
            go(t.args[1])
            go(t.args[2])
        else:
            out.append(t)
    go(t)
    return out


def paths(t):
    """(cube, leaf) list; cube = tuple of (atom, bool)"""
    out = []

    def go(t, cube):
        if len(out) > 4000:
            raise Budget('paths')
        if t.op == 'ite':
            go(t.args[1], cube + ((t.args[0], True),))
            go(t.args[2], cube + ((t.args[0], False),))
        else:
            out.append((cube, t))
    go(t, ())
    return out


def cube_bdd(cube):
    return and_(*[B(a) if v else not_(B(a)) for a, v in cube])


def collapse(t):
    """drop don't-care leaves"""
    memo = {}

    def go(t):
        if t.op != 'ite':
            return t
        r = memo.get(t)
        if r is None:
            h, l = go(t.args[1]), go(t.args[2])
            if h is UNDEF:
                r = l
            elif l is UNDEF:
                r = h
            else:
                r = node(t.args[0], h, l)
            memo[t] = r
        return r
    return go(t)


def primes(f):
    """Blake canonical form: all prime implicants of the boolean diagram f"""
    if f is FALSE or f is UNDEF:
        return []
    if f is TRUE:
        return [frozenset()]
    r = _prime_memo.get(f)
    if r is not None:
        return r
    a, f1, f0 = f.args
    both = and_(f0, f1)
    pb = primes(both)
    out = list(pb)
    for p in primes(f0):
        if not _cube_implies(p, f1):
            out.append(p | {(a, False)})
    for p in primes(f1):
        if not _cube_implies(p, f0):
            out.append(p | {(a, True)})
    if len(out) > 600:
        raise Budget('primes')
    _prime_memo[f] = out
    return out


_cover_memo = {}


def cover(f):
    """the essential prime implicants when they cover f, otherwise all of them (canonical either way)"""
    ps = primes(f)
    if len(ps) <= 2 or len(ps) > 24:
        return ps
    r = _cover_memo.get(f)
    if r is not None:
        return r
    bd = [cube_bdd(p) for p in ps]
    pre = [FALSE]
    for b in bd:
        pre.append(or_(pre[-1], b))
    suf = FALSE
    ess = []
    for i in range(len(ps) - 1, -1, -1):
        others = or_(pre[i], suf)
        if not _cube_implies(ps[i], others):
            ess.append(i)
        suf = or_(suf, bd[i])
    ess.reverse()
    if len(ess) < len(ps) and or_(*[bd[i] for i in ess]) is f:
        r = [ps[i] for i in ess]
    else:
        r = ps
    _cover_memo[f] = r
    return r


def _cube_implies(p, f):
    d = dict(p)

    def go(f):
        if f.op != 'ite':
            return f is TRUE
        a = f.args[0]
        if a in d:
            return go(f.args[1] if d[a] else f.args[2])
        return go(f.args[1]) and go(f.args[2])
    return go(f)


def indep_atom(z, *ts):
    """an atom at the surface of one of ts that does not mention z (None if there is none)"""
    best = None
    for t in ts:
        for a in atoms_of(t):
            if z not in a.syms and (best is None or a.ck < best.ck):
                best = a
    return best


# ------------------------------------------------------------------------------------------
# types

def is_setty(t):
    return t.ty[0] in ('set',) or t.op in ('set', 'keys')


def elem_ty(ty):
    if ty[0] in ('set', 'list'):
        return ty[1]
    if ty[0] == 'dict':
        return ty[1]
    return ANY


# ------------------------------------------------------------------------------------------
# binders

def close(z, *bodies):
    """abstract the symbol z: returns (k, bodies')"""
    k = 1 + max([b.bh for b in bodies] + [0])
    b_ = mk('bv', k)
    while any(b_ in b.syms for b in bodies):          # the variable of a binder being closed around this one
        k += 1
        b_ = mk('bv', k)
    r = tuple(rebuild(b, {z: b_}) for b in bodies)
    for _ in range(4):
        h = max([b.bh for b in r] + [0])
        if h < k:
            break
        k2 = h + 1
        while any(mk('bv', k2) in b.syms for b in r):
            k2 += 1
        r = tuple(rebuild(b, {b_: mk('bv', k2)}) for b in r)
        k, b_ = k2, mk('bv', k2)
    return k, r


def subterms(t):
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        for a in _flat(t.args):
            yield from go(a)
        yield t
    return list(go(t))


def open_(t, z=None, hint='z'):
    """instantiate the single bound variable of binder t"""
    k = t.args[0]
    bvt = mk('bv', k)
    if z is None:
        z = fresh(hint, bvty(t, k))
    return z, tuple(rebuild(b, {bvt: z}) for b in t.args[1:])


def bvty(t, k):
    """type of the bound variable of a binder, recovered from its domain"""
    if t.op == 'set' and t.ty[0] == 'set' and t.ty[1] != ANY:
        return t.ty[1]
    if t.op == 'dict' and t.ty[0] == 'dict' and t.ty[1] != ANY:
        return t.ty[1]
    if t.op in ('loop', 'while', 'fix', 'lam'):
        return t.args[1][t.args[0].index(k)]
    b_ = mk('bv', k)
    for a in atoms_of(t.args[1]):
        if a.op == 'in' and a.args[0] is b_:
            if a.args[1].op == 'dom':
                return NUM
            ty = elem_ty(a.args[1].ty)
            if ty != ANY:
                return ty
        if a.op == 'eq' and b_ in a.args:
            o = a.args[1] if a.args[0] is b_ else a.args[0]
            if o.ty != ANY:
                return o.ty
    return ANY


_rb_memo = {}
_opened = {}


def rebuild(t, m):
    """simultaneous replacement of terms, re-normalising on the way up"""
    if not m:
        return t
    keys = set(m)
    ksy = set()
    for x in keys:
        ksy |= x.syms if x.syms else {None}
    memo = {}
    nosym = None in ksy

    def goarg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goarg(x) for x in a)
        return a

    def go(t):
        if t in m:
            return m[t]
        if not nosym and not (t.syms & ksy):
            return t
        if t.op in ('sym', 'bv', 'const', 'undef'):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in BINDERS:
            rel = m if nosym else {x: v for x, v in m.items() if x.syms <= t.syms}
            key = (t, frozenset(rel.items()))
            r = _rb_memo.get(key)
            if r is None:
                ks = t.args[0] if isinstance(t.args[0], tuple) else (t.args[0],)
                zs = _opened.get(t)
                if zs is None:
                    zs = _opened[t] = [fresh('o', bvty(t, k)) for k in ks]
                if any(z in v.syms for v in rel.values() for z in zs):       # in use around here: no capture
                    zs = [fresh('o', bvty(t, k)) for k in ks]
                inner = {mk('bv', k): z for k, z in zip(ks, zs)}
                inner.update(rel)
                rest = tuple(_rb(a, inner) for a in t.args[1:])
                r = _rb_memo[key] = remake_binder(t, zs, rest)
        elif t.op == 'ite':
            c = go(t.args[0])
            r = go(t.args[1]) if c is TRUE else go(t.args[2]) if c is FALSE else \
                remake(t, (c, go(t.args[1]), go(t.args[2])))
        else:
            args = tuple(goarg(a) for a in t.args)
            r = remake(t, args)
        memo[t] = r
        return r

    def _rb(a, inner):
        if isinstance(a, T):
            return rebuild(a, inner)
        if isinstance(a, tuple):
            return tuple(_rb(x, inner) for x in a)
        return a
    return go(t)


def subst(t, m):
    return rebuild(t, m)


def remake(t, args):
    op = t.op
    if op == 'ite':
        return ite3(args[0] if args[0].op in ('ite', 'const', 'undef') and args[0].ty == BOOL or args[0] is UNDEF
                    else truth_atom(args[0]), args[1], args[2])
    f = REMAKE.get(op)
    if f is not None:
        return f(t, *args)
    return lift_mk(op, args, t.ty)


def truth_atom(a):
    if a.op == 'ite':
        return a
    if a is TRUE or a is FALSE or a is UNDEF:
        return a
    return B(a)


def lift_mk(op, args, ty):
    ts = []

    def coll(a):
        if isinstance(a, T):
            ts.append(a)
        elif isinstance(a, tuple):
            for x in a:
                coll(x)
    for a in args:
        coll(a)

    def put(new):
        it = iter(new)

        def p(a):
            if isinstance(a, T):
                return next(it)
            if isinstance(a, tuple):
                return tuple(p(x) for x in a)
            return a
        return tuple(p(a) for a in args)
    return lift(lambda *xs: mk(op, *put(xs), ty=ty), *ts)


def remake_binder(t, zs, rest):
    op = t.op
    if op == 'set':
        return mkset(zs[0], rest[0], ty=t.ty)
    if op == 'dict':
        return mkdict(zs[0], rest[0], rest[1], ty=t.ty)
    if op == 'exists':
        return exists(zs[0], rest[0])
    if op == 'sum':
        return msum(zs[0], rest[0], rest[1])
    if op in ('first', 'last'):
        return choose(op, zs[0], rest[0], rest[1])
    if op in ('bag', 'bagflat'):
        return mkbag(zs[0], rest[0], rest[1], flat=(op == 'bagflat'))
    if op == 'prod':
        return mprod(zs[0], rest[0], rest[1])
    return generic_binder(op, zs, rest, t.ty)


def point_guard(z, facts):
    g = TRUE
    for f in facts:
        k = f.args[0]
        ft = bvty(f, k)
        pts = [z]
        if z.ty[0] == 'tuple' and ft[0] != 'tuple':
            pts = [proj(z, i) for i in range(len(z.ty) - 1)] if len(z.ty) <= 5 else []
        for x in pts:
            if ft != ANY and x.ty != ANY and ft != x.ty:
                continue
            g = and_(g, not_(rebuild(f.args[1], {mk('bv', k): x})))
    return g


def with_guard(z, body, facts):
    return and_(body, point_guard(z, facts))


def with_facts(t, facts):
    """re-normalise t with every bound variable restricted to the points allowed by the facts
    (each fact is an `exists` atom known to be false)"""
    memo = {}

    def guard(z):
        return point_guard(z, facts)

    def goarg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goarg(x) for x in a)
        return a

    def go(t):
        if t.op in ('sym', 'bv', 'const', 'undef'):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ('set', 'dict', 'exists', 'sum', 'first', 'last', 'prod'):
            z, rest = open_(t)
            g = guard(z)
            rest = [go(x) for x in rest]
            rest[0] = and_(g, rest[0])
            if len(rest) > 1:
                rest[1] = ite3(rest[0], rest[1], UNDEF) if t.op == 'dict' else rest[1]
            r = remake_binder(t, [z], rest)
        elif t.op in BINDERS:
            r = t
        else:
            r = remake(t, tuple(goarg(a) for a in t.args))
        memo[t] = r
        return r
    return go(t)


def generic_binder(op, zs, rest, ty=ANY):
    """multi-variable binder; rest[0] is the tuple of variable types"""
    subs = list(_flat(rest))
    k0 = max([s.bh for s in subs] + [0])
    ks = tuple(k0 + 1 + i for i in range(len(zs)))
    m = {z: mk('bv', k) for z, k in zip(zs, ks)}

    def go(a):
        if isinstance(a, T):
            return rebuild(a, m)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a
    return mk(op, ks, *[go(a) for a in rest], ty=ty)


# ------------------------------------------------------------------------------------------
# equality and simple atoms

def eq(a, b):
    if a is b:
        return TRUE
    return lift(_eq, a, b)


def _is_num(t):
    return t.ty == NUM or t.op in ('poly', 'sum') or (t.op == 'const' and t.args[0] == 'num')


DISTINCT_OPS = {'new', 'tuple', 'set', 'dict', 'list', 'bag'}


def _eq(a, b):
    if a is b:
        return TRUE
    if a is UNDEF or b is UNDEF:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        if a.args[0] in ('num', 'str', 'bool', 'none') and b.args[0] in ('num', 'str', 'bool', 'none'):
            if a.args[0] == 'bool' and b.args[0] == 'num':
                return const(int(a.args[1]) == b.args[1])
            if b.args[0] == 'bool' and a.args[0] == 'num':
                return const(int(b.args[1]) == a.args[1])
            return const(a.args[1] == b.args[1] and a.args[0] == b.args[0])
        return FALSE if a.args[0] == b.args[0] else B(mk('eq', *sorted((a, b), key=lambda x: x.ck)))
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        return isnone(o)
    if a.op == 'const' and b.op in ('set', 'dict', 'list') or b.op == 'const' and a.op in ('set', 'dict', 'list'):
        return FALSE
    if a.op == 'tuple' and b.ty[0] == 'tuple' and len(b.ty) - 1 == len(a.args):
        return and_(*[eq(x, proj(b, i)) for i, x in enumerate(a.args)])
    if b.op == 'tuple' and a.ty[0] == 'tuple' and len(a.ty) - 1 == len(b.args):
        return and_(*[eq(proj(a, i), x) for i, x in enumerate(b.args)])
    if (is_setty(a) or is_setty(b)) and a.op not in ('const',) and b.op != 'const':
        if a.op in ('set', 'keys') or b.op in ('set', 'keys') or (is_setty(a) and is_setty(b)):
            if (a.op == 'set' or b.op == 'set' or
                    is_setty(a) and is_setty(b) and not (_varroot(a) or _varroot(b))) and not (_isvar(a) and not _occurs(a, b)) and \
                    not (_isvar(b) and not _occurs(b, a)):
                if ATOMIC_SETS[0] and a.op == 'set' and b.op == 'set' and not is_empty(a) and not is_empty(b):
                    return B(mk('eq', *sorted((a, b), key=lambda x: x.ck), ty=BOOL))
                z = fresh('e', _join_elem(a, b))
                return not_(exists(z, xor_(member(z, a), member(z, b))))
    if a.ty[0] == 'dict' and b.ty[0] == 'dict' and not (_isvar(a) or _isvar(b)) and \
            (a.op == 'dict' or b.op == 'dict' or not (_varroot(a) or _varroot(b))):
        z = fresh('e', a.ty[1] if a.ty[1] != ANY else b.ty[1])
        ka, kb = member(z, a), member(z, b)
        return not_(exists(z, or_(xor_(ka, kb), and_(ka, kb, not_(eq(sel(a, z), sel(b, z)))))))
    if a.op == 'new' and b.op == 'new' and a.args[0] == b.args[0] and a.args[0] in FIELDWISE[0] and \
            a.args[1] == b.args[1]:
        return and_(*[eq(x, y) for x, y in zip(a.args[2], b.args[2])])
    if a.ty[0] == 'cls' and b.ty[0] == 'cls' and CLASS_DISJOINT[0] is not None and CLASS_DISJOINT[0](a.ty[1], b.ty[1]):
        return FALSE
    if _is_num(a) and _is_num(b):
        return eq0(sub(a, b))
    if a.op == 'const' and a.args[0] == 'bool':
        a, b = b, a
    if b is TRUE and a.ty == BOOL:
        return truthy(a)
    if b is FALSE and a.ty == BOOL:
        return not_(truthy(a))
    return B(mk('eq', *sorted((a, b), key=lambda x: x.ck), ty=BOOL))


CLASS_DISJOINT = [None]
ATOMIC_SETS = [False]
FIELDWISE = [()]         # classes whose objects are equal exactly when their fields are


def solve(z, a):
    """t such that the atom a holds exactly when z == t (None when it has no such form)"""
    if a.op == 'eq':
        x, y = a.args
        if x is z and z not in y.syms:
            return y
        if y is z and z not in x.syms:
            return x
        return None
    if a.op == 'eq0' and z in a.syms:
        p = _poly(a.args[0])
        c = p.get(((z, 1),))
        if c is None:
            return None
        rest = {m: k for m, k in p.items() if m != ((z, 1),)}
        if any(z in f.syms for m in rest for f, _ in m):
            return None
        return mul(const(-1 / c), _unpoly(rest))
    return None


def solve_part(z, a):
    """(target, t): like solve, the target being z or a component of the tuple z"""
    t = solve(z, a)
    if t is not None:
        return z, t
    if z.ty[0] != 'tuple' or z not in a.syms:
        return None
    if a.op == 'eq':
        for x, y in (a.args, a.args[::-1]):
            if x.op == 'proj' and x.args[0] is z and not _occurs(x, y):
                return x, y
    elif a.op == 'eq0':
        p = _poly(a.args[0])
        for m, c in sorted(p.items(), key=lambda kv: [f.ck for f, _ in kv[0]]):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'proj' and m[0][0].args[0] is z:
                x = m[0][0]
                rest = {m2: k for m2, k in p.items() if m2 != m}
                t = mul(const(-1 / c), _unpoly(rest))
                if not _occurs(x, t):
                    return x, t
    return None


def _occurs(x, t):
    if t is x:
        return True
    if not (x.syms <= t.syms):
        return False
    return any(_occurs(x, y) for a in t.args for y in (a if isinstance(a, tuple) else (a,)) if isinstance(y, T))


def _varroot(t):
    """the term is reached from a bound variable"""
    while True:
        if _isvar(t):
            return True
        if t.op in ('field', 'proj', 'sel', 'at', 'keys', 'anyelem', 'listof') and t.args and isinstance(t.args[0], T):
            if t.op in ('sel', 'at') and any(_isvar(x) for x in t.args[1:] if isinstance(x, T)):
                return True
            t = t.args[0]
            continue
        return False


def _isvar(t):
    """a bound variable (or one being bound), as opposed to an input of the function"""
    while t.op == 'proj':
        t = t.args[0]
    return t.op == 'bv' or t.op == 'sym' and '#' in t.args[0]


def ident(a, b):
    """object identity"""
    if a is b:
        return TRUE

    def f(a, b):
        if a is b:
            return TRUE
        if a is NONE or b is NONE:
            return isnone(b if a is NONE else a)
        if a.op == 'const' and b.op == 'const':
            return _eq(a, b)
        return B(mk('is', *sorted((a, b), key=lambda x: x.ck), ty=BOOL))
    return lift(f, a, b)


NONNULL = set()


def isnone(t):
    def f(t):
        if t is NONE:
            return TRUE
        if t.op in DISTINCT_OPS or t.op == 'const' or t.op in ('poly', 'sum'):
            return FALSE
        if t in NONNULL:
            return FALSE
        if t.op == 'sel' and t.ty[0] in ('cls', 'set', 'dict', 'list', 'tuple') and t.args[0].op in ('field', 'sym'):
            return FALSE      # a declared Dict[K, C] that is not Optional
        if t.op == 'pcall' and t.ty[0] in ('cls', 'set'):
            return FALSE      # a provider method declared to return an object
        return B(mk('isnone', t, ty=BOOL))
    return lift(f, t)


def isinst(t, cls):
    def f(t):
        return B(mk('isinst', t, cls, ty=BOOL))
    return lift(f, t)


def truthy(t):
    def f(t):
        if t.op == 'const':
            return const(bool(t.args[1]))
        if t is UNDEF:
            return FALSE
        if t.ty == BOOL:
            return B(t)
        if is_setty(t):
            z = fresh('t', elem_ty(t.ty))
            return exists(z, member(z, t))
        if t.ty[0] == 'dict' or t.op == 'dict':
            z = fresh('t', elem_ty(t.ty))
            return exists(z, member(z, t))
        if t.op == 'tuple':
            return const(bool(t.args))
        if t.op == 'list':
            return const(bool(t.args))
        if t.op == 'app':
            return TRUE
        if t.op in ('bag',):
            z, (g, e) = open_(t)
            return exists(z, g)
        if t.op == 'cat':
            return or_(*[truthy(x) for x in t.args])
        if t.op == 'listof':
            return truthy(t.args[0])
        if t.ty[0] == 'list':
            z = fresh('i', NUM)
            return exists(z, B(mk('in', z, mk('dom', t), ty=BOOL)))
        if _is_num(t):
            return not_(eq0(t))
        if t.op == 'new':
            return TRUE
        return B(mk('truthy', t, ty=BOOL))
    return lift(f, t)


# ------------------------------------------------------------------------------------------
# sets

def is_empty(t):
    return t.op in ('set', 'dict') and t.args[1] is FALSE


def empty_set(ty=('set', ANY)):
    return mk('set', 1, FALSE, ty=ty)


def pointwise(t, z):
    """below a positive atom z == x use x for z"""
    if t.op != 'ite':
        return t
    for _ in range(4):
        ats = [a for a in atoms_of(t) if a.op in ('eq', 'eq0') and z in a.syms]
        done = True
        for a in sorted(ats, key=lambda a: a.ck):
            st = solve_part(z, a)
            if st is None:
                continue
            h = cofactor(t, a, True)
            if not _occurs(st[0], h):
                continue
            t2 = ite3(B(a), rebuild(h, {st[0]: st[1]}), cofactor(t, a, False))
            if t2 is not t:
                done = False
                t = t2
        if done:
            break
    return t


def mkset(z, body, ty=None):
    """{ z | body(z) }"""
    if ty is None:
        ty = ('set', z.ty)
    if FIELDWISE[0]:
        body = _apart(z, body)
    return _mkset(z, body, ty, (), False)


def _apart(z, body):
    """nothing equals two different things"""
    by = {}
    for a in atoms_of(body):
        if a.op == 'eq' and z in a.syms:
            x, y = a.args
            if z in y.syms:
                x, y = y, x
            if z not in y.syms:
                by.setdefault(x, []).append((y, a))
    for xs in by.values():
        if len(xs) > 8:
            continue
        for i, (y, a) in enumerate(xs):
            for w, b in xs:
                if b is not a and eq(y, w) is FALSE:
                    yes = cofactor(cofactor(body, a, True), b, False)
                    body = ite3(B(a), yes, cofactor(body, a, False))
    return body


def _ctx(t, ctx):
    for a, v in ctx:
        t = cofactor(t, a, v)
    return t


PAIRS = {'endpoints'}       # fields holding exactly two elements (asserted by the constructors)


def _ends(t, out, seen):
    """occurrences of the first / second element of a two-element field, in some listing of it"""
    if t in seen:
        return
    seen.add(t)
    s = n = None
    if t.op == 'anyelem':
        s, n = t.args[0], 0
    elif t.op == 'at' and t.args[1].op == 'const' and t.args[1].args[0] == 'num':
        l, n = t.args[0], t.args[1].args[1]
        if l.op == 'listof' or l.op == 'sorted' and l.args[0].op == 'listof':
            s = l.args[0] if l.op == 'listof' else l.args[0].args[0]
            s = s if l.op == 'listof' else ('sorted', s)
    elif t.op == 'field' and t.args[1] in ('a', 'b') and t.args[0].ty == ('cls', 'RelationEdge') and FIELD_HOOK[0]:
        s, n = ('ab', FIELD_HOOK[0](t.args[0], 'endpoints')), 0 if t.args[1] == 'a' else 1
    base = s[1] if isinstance(s, tuple) else s
    if base is not None and base.op == 'field' and base.args[1] in PAIRS and n in (0, 1, -1):
        out.setdefault(s, {}).setdefault(1 if n else 0, []).append(t)
    for u in t.args:
        if isinstance(u, T):
            _ends(u, out, seen)
        elif isinstance(u, tuple):
            for w in u:
                if isinstance(w, T):
                    _ends(w, out, seen)


def _pair_image(z, body):
    """{f(first of S), f(second of S)} is {f(x) | x in S} for a two-element S"""
    if body.op != 'ite' or body.args[1] is not TRUE or body.args[0].op != 'eq':
        return None
    rest = body.args[2]
    if rest.op != 'ite' or rest.args[1] is not TRUE or rest.args[2] is not FALSE or rest.args[0].op != 'eq':
        return None
    ts = []
    for a in (body.args[0], rest.args[0]):
        if z not in a.args:
            return None
        ts.append(a.args[1] if a.args[0] is z else a.args[0])
        if z in ts[-1].syms:
            return None
    r = _both_ends(ts)
    if r is None:
        return None
    v, base, x = r
    return exists(v, and_(member(v, base), eq(z, x)))


def _both_ends(ts):
    """(v, S, f(v)) when ts is f of the two elements of S"""
    ends = {}
    for t in ts:
        _ends(t, ends, set())
    for s, occ in ends.items():
        if len(occ) != 2:
            continue
        base = s[1] if isinstance(s, tuple) else s
        v = fresh('e', elem_ty(base.ty))
        ab = {0: {t: v for t in occ[0]}, 1: {t: v for t in occ[1]}}
        for i in (0, 1):
            x, y = rebuild(ts[0], ab[i]), rebuild(ts[1], ab[1 - i])
            if x is y and x is not ts[0]:
                return v, base, x
    return None


def pair_listing(l):
    """the listing [f(x) for x in S] for a list of f of both elements of S, in some order"""
    r = _both_ends(l.args)
    if r is None:
        return None
    v, base, x = r
    return mkbag(v, member(v, base), x)


def _mkset(z, body, ty, ctx, done):
    a = indep_atom(z, body)
    if a is not None:
        return ite3(B(a), _mkset(z, cofactor(body, a, True), ty, ctx + ((a, True),), done),
                    _mkset(z, cofactor(body, a, False), ty, ctx + ((a, False),), done))
    if not done:
        b2 = pointwise(body, z)
        if b2 is not body:
            return _mkset(z, _ctx(b2, ctx), ty, ctx, True)
    s = _pair_image(z, body)
    if s is not None:
        return _mkset(z, s, ty, ctx, done)
    # eta: { z | z in S } is S
    if body.op == 'ite' and body.args[1] is TRUE and body.args[2] is FALSE:
        at = body.args[0]
        if at.op == 'in' and at.args[0] is z and z not in at.args[1].syms:
            return at.args[1]
    k, (b,) = close(z, body)
    return mk('set', k, b, ty=ty)


def member(x, s):
    def f(x, s):
        if s.op == 'set':
            _, (b,) = _inst(s, x)
            return b
        if s.op == 'dict':
            k = s.args[0]
            return rebuild(s.args[1], {mk('bv', k): x})
        if s.op in ('list', 'tuple'):
            return or_(*[eq(x, y) for y in s.args])
        if s.op == 'listof':
            return member(x, s.args[0])
        if s.op == 'bag':
            z, (g, e) = open_(s)
            return exists(z, and_(g, eq(x, e)))
        if s.op == 'bagflat':
            z, (g, e) = open_(s)
            return exists(z, and_(g, member(x, e)))
        if s.op in ('cat', 'app'):
            return or_(*[member(x, y) if i == 0 or s.op == 'cat' else eq(x, y) for i, y in enumerate(s.args)])
        if s.op == 'keys':
            if s.args[0].op == 'dict':
                return member(x, s.args[0])
            return B(mk('in', x, s, ty=BOOL))
        if s is UNDEF or s is NONE:
            return FALSE
        if s.ty[0] == 'dict':
            return B(mk('in', x, mk('keys', s, ty=('set', s.ty[1])), ty=BOOL))
        if x.ty[0] == 'cls' and s.ty[0] == 'set' and len(s.ty) > 1 and s.ty[1][0] == 'cls' and \
                CLASS_DISJOINT[0] is not None and CLASS_DISJOINT[0](x.ty[1], s.ty[1][1]):
            return FALSE
        if s.ty[0] == 'list':
            z = fresh('i', NUM)
            return exists(z, and_(B(mk('in', z, mk('dom', s), ty=BOOL)), eq(x, at(s, z))))
        return B(mk('in', x, s, ty=BOOL))
    return lift(f, x, s)


def _inst(s, x):
    bvt = mk('bv', s.args[0])
    return None, tuple(rebuild(b, {bvt: x}) for b in s.args[1:])


def _join_elem(a, b):
    x = elem_ty(a.ty) if is_setty(a) else ANY
    y = elem_ty(b.ty) if is_setty(b) else ANY
    if x == y:
        return x
    if MIX in (x, y):
        return MIX
    if x[0] == 'cls' and y[0] == 'cls':
        return MIX
    return x if y == ANY else y if x == ANY else MIX


def _set2(fn, grow=False):
    def op(a, b):
        def f(a, b):
            if grow:
                ty = ('set', _join_elem(a, b))
            else:
                ty = a.ty if is_setty(a) and a.ty != ('set', ANY) else (b.ty if is_setty(b) else ('set', ANY))
                if ty[0] != 'set':
                    ty = ('set', elem_ty(ty))
            z = fresh('s', elem_ty(ty))
            return mkset(z, fn(member(z, a), member(z, b)), ty)
        return lift(f, a, b)
    return op


union = _set2(lambda a, b: or_(a, b), True)
inter = _set2(lambda a, b: and_(a, b))
diff = _set2(lambda a, b: and_(a, not_(b)))
symdiff = _set2(xor_, True)


def subset(a, b):
    def f(a, b):
        z = fresh('q', elem_ty(a.ty) if is_setty(a) else elem_ty(b.ty))
        return not_(exists(z, and_(member(z, a), not_(member(z, b)))))
    return lift(f, a, b)


def disjoint(a, b):
    def f(a, b):
        z = fresh('q', _join_elem(a, b))
        return not_(exists(z, and_(member(z, a), member(z, b))))
    return lift(f, a, b)


def set_eq(a, b):
    def f(a, b):
        if a is b:
            return TRUE
        z = fresh('q', _join_elem(a, b))
        return not_(exists(z, xor_(member(z, a), member(z, b))))
    return lift(f, a, b)


def setlit(items, ty=('set', ANY)):
    ety = items[0].ty if items else elem_ty(ty)
    z = fresh('l', ety)
    return mkset(z, or_(*[eq(z, i) for i in items]), ('set', ety))


def encode(t):
    """a description of a term that outlives the term table"""
    if isinstance(t, T):
        return ('T', t.op, tuple(encode(a) for a in t.args), t.ty)
    if isinstance(t, tuple):
        return ('()', tuple(encode(a) for a in t))
    return t


def decode(e):
    if isinstance(e, tuple) and e and e[0] == 'T':
        return mk(e[1], *[decode(a) for a in e[2]], ty=e[3])
    if isinstance(e, tuple) and e and e[0] == '()':
        return tuple(decode(a) for a in e[1])
    return e


PARTS = set()          # the elements made up for small containers


def small(d, n):
    """a literal container of n unknown elements in place of the unknown container d, with its distinctness condition"""
    nm = pp(d)
    if d.ty[0] == 'list':
        xs = [sym(f'{nm}.{i}', elem_ty(d.ty)) for i in range(n)]
        NONNULL.update(x for x in xs if x.ty != ANY)
        PARTS.update(xs)
        return mk('list', *xs, ty=d.ty), TRUE
    if d.ty[0] == 'dict':
        xs = [sym(f'{nm}.{i}', d.ty[1]) for i in range(n)]
        vs = [sym(f'{nm}:{i}', d.ty[2]) for i in range(n)]
        NONNULL.update(x for x in xs + vs if x.ty != ANY)
        r = empty_dict(d.ty)
        for x, v in zip(xs, vs):
            r = dstore(r, x, v)
    elif d.ty[0] == 'set':
        xs = [sym(f'{nm}.{i}', elem_ty(d.ty)) for i in range(n)]
        NONNULL.update(x for x in xs if x.ty != ANY)
        r = setlit(xs, d.ty)
    else:
        return None, TRUE
    PARTS.update(xs)
    if d.ty[0] == 'dict':
        PARTS.update(vs)
    return r, and_(*[not_(eq(x, y)) for i, x in enumerate(xs) for y in xs[:i]])


def containers(ts, kind=1):
    """unknown containers without bound variables that the terms range over: 0 inside unclosed loops, 1 under any binder,
    2 anywhere"""
    out, seen = {}, set()

    def go(t):
        if t in seen or kind == 0 and not t.flags:
            return
        seen.add(t)
        if t.op == 'in' and (kind == 2 or any(x.op == 'bv' for x in t.args[0].syms)):
            d = t.args[1]
            while d.op in ('keys', 'dom', 'listof') and d.op in ('keys', 'dom'):
                d = d.args[0]
            if d.op in ('sym', 'field', 'sel', 'proj') and d.ty[0] in ('set', 'dict', 'list') and \
                    not any(x.op == 'bv' or x.args[0].startswith(('mu#', '@')) for x in d.syms):
                out[d] = True
        for a in _flat(t.args):
            go(a)
    for t in ts:
        go(t)
    return list(out)


def exists(z, body):
    """ exists z. body(z) """
    if body is FALSE or body is UNDEF:
        return FALSE
    if body is TRUE:
        return TRUE
    if z not in body.syms:
        return body
    if z.ty == BOOL:
        return or_(rebuild(body, {z: TRUE}), rebuild(body, {z: FALSE}))
    if z.ty[0] == 'tuple' and 2 <= len(z.ty) <= 5:
        zs = [fresh('c', t) for t in z.ty[1:]]
        b = rebuild(body, {z: tup(*zs)})
        for x in reversed(zs):
            b = exists(x, b)
        return b
    if SMALL:
        ts = _candidates(z, body)
        if ts is not None:
            return or_(*[rebuild(body, {z: t}) for t in ts])
    r = FALSE
    for p in cover(body):
        r = or_(r, _exists_cube(z, p))
    return r


def _candidates(z, body):
    """the terms z must be one of for body to hold, when its equalities bound it"""
    ts, rest = [], body
    for a in atoms_of(body):
        if a.op in ('eq', 'eq0') and z in a.syms:
            t = solve(z, a)
            if t is not None:
                ts.append(t)
                rest = and_(rest, not_(B(a)))
                if rest is FALSE:
                    return ts
    return None


def _determines(b, z, depth=0):
    """every cube of b fixes z, directly or through a nested existential"""
    def one(a, v):
        if not v or z not in a.syms:
            return False
        if a.op in ('eq', 'eq0'):
            return solve(z, a) is not None
        if a.op == 'exists' and depth < 3:
            return _determines(open_(a)[1][0], z, depth + 1)
        return False
    ps = cover(b)
    return bool(ps) and all(any(one(a, v) for a, v in p) for p in ps)


def functional(z, body):
    """(condition, value) when body determines z uniquely, else None"""
    pts = []
    for p in cover(body):
        r = _points(z, p)
        if r is None:
            return None
        pts += r
    if not pts or len(pts) > 12:
        return None
    pts = [(c, t) for c, t in pts if c is not FALSE]
    for i, (c1, v1) in enumerate(pts):
        for c2, v2 in pts[:i]:
            if v1 is not v2 and and_(c1, c2, not_(eq(v1, v2))) is not FALSE:
                return None
    cond, val = FALSE, UNDEF
    for c, v in pts:
        cond = or_(cond, c)
        val = ite3(c, v, val)
    return cond, val


def untuple(z, body):
    """(x, body', element): iterate one component x of the tuple z, the others being functions of it
    (x is None when all are fixed); None when that is not possible"""
    if z.ty[0] != 'tuple' or not 2 <= len(z.ty) <= 5:
        return None
    xs = [fresh('k', t) for t in z.ty[1:]]
    b = rebuild(body, {z: tup(*xs)})
    el = list(xs)
    free = list(xs)
    for x in reversed(xs):
        f = functional(x, b) if x in b.syms else None
        if f is None:
            continue
        b = f[0]
        el = [collapse(rebuild(e, {x: f[1]})) for e in el]
        free.remove(x)
    if len(free) > 1 or not free and False:
        return None
    return (free[0] if free else None), b, tup(*el)


def _any_position(z, inner):
    """some position of a sorted listing: some element of what was sorted"""
    for a, v in inner:
        if v and a.op == 'in' and a.args[0] is z and a.args[1].op == 'dom' and a.args[1].args[0].op == 'sorted':
            l = a.args[1].args[0]
            src = l.args[0]
            if src.op == 'listof':
                x = fresh('x', elem_ty(src.args[0].ty))
                g, e = member(x, src.args[0]), x
            elif src.op == 'bag':
                x, (g, e) = open_(src)
            else:
                continue
            elem = mk('at', l, z, ty=elem_ty(l.ty))
            b = TRUE
            for a2, v2 in inner:
                if a2 is a:
                    continue
                r = truth_atom(rebuild(a2, {elem: e}))
                if z in r.syms:
                    return None
                b = and_(b, r if v2 else not_(r))
            return x, g, b
    return None


def _exists_cube(z, cube):
    outer = TRUE
    inner = []
    for a, v in cube:
        if z in a.syms:
            inner.append((a, v))
        else:
            outer = and_(outer, B(a) if v else not_(B(a)))
    if z.ty == ANY or z.ty == MIX:
        for a, v in inner:
            if v and a.op == 'in' and a.args[0] is z and a.args[1].ty[0] == 'set' and a.args[1].ty[1][0] == 'cls' \
                    and z not in a.args[1].syms:
                z2 = fresh('t', a.args[1].ty[1])
                b2 = rebuild(cube_bdd(inner), {z: z2})
                return and_(outer, exists(z2, b2))
    # one-point rule
    for a, v in sorted(inner, key=lambda p: p[0].ck):
        if v and a.op in ('eq', 'eq0'):
            t = solve(z, a)
            if t is not None:
                rest = TRUE
                for a2, v2 in inner:
                    if a2 is not a:
                        r2 = rebuild(a2, {z: t})
                        r2 = truth_atom(r2)
                        rest = and_(rest, r2 if v2 else not_(r2))
                return and_(outer, rest)
            # z compared through a tuple:  z == (..)  handled above; (..z..) == sym
    if not inner:
        return outer
    r = _any_position(z, inner)
    if r is not None:
        x, g, b = r
        return and_(outer, exists(x, and_(g, b)))
    # equals are replaced by equals in the other conditions
    for a, v in sorted(inner, key=lambda p: p[0].ck):
        if not v or a.op != 'eq':
            continue
        x, y = a.args
        if (z in x.syms) == (z in y.syms):
            if (len(x.ck), x.ck) < (len(y.ck), y.ck):
                x, y = y, x
        elif z in y.syms:
            x, y = y, x
        # x is replaced by y
        if x.op in ('const', 'sym', 'bv') or _occurs(x, y):
            continue
        if not any(a2 is not a and x.syms <= a2.syms and _occurs(x, a2) for a2, _ in inner):
            continue
        rest = B(a)
        for a2, v2 in inner:
            if a2 is not a:
                r2 = truth_atom(rebuild(a2, {x: y}))
                rest = and_(rest, r2 if v2 else not_(r2))
        return and_(outer, exists(z, rest))
    # scope exchange: a nested existential that determines z is moved outwards
    for a, v in sorted(inner, key=lambda p: p[0].ck):
        if v and a.op == 'exists':
            xs, b = open_(a)
            x = xs[0] if isinstance(xs, (list, tuple)) else xs
            b = b[0] if isinstance(b, (list, tuple)) else b
            if _determines(b, z):
                rest = b
                for a2, v2 in inner:
                    if a2 is not a:
                        rest = and_(rest, B(a2) if v2 else not_(B(a2)))
                return and_(outer, exists(x, exists(z, rest)))
    r = _reorder(z, inner)
    if r is not None:
        return and_(outer, r)
    return and_(outer, _exists_raw(z, cube_bdd(inner)))


def _exists_raw(z, body):
    if z not in body.syms:
        return body
    # after re-normalisation the body may have lost its cube shape, e.g. because atoms folded
    k, (b,) = close(z, body)
    if b.op == 'ite':
        return B(mk('exists', k, b, ty=BOOL))
    return b


def _flat_exists(cube):
    vs, lits, todo = [], [], list(cube)
    while todo:
        a, v = todo.pop()
        if v and a.op == 'exists' and len(vs) < 4:
            y, (b,) = open_(a)
            ps = cover(b)
            if len(ps) == 1 and isinstance(y, T):
                vs.append(y)
                todo += ps[0]
                continue
        lits.append((a, v))
    return vs, lits


def _reorder(z, cube):
    """exists x exists y == exists y exists x: a chain of existentials is nested in an order that depends on what the
    variables are subject to, not on how the chain was written"""
    vs, lits = _flat_exists(cube)
    if not vs:
        return None
    vs = [z] + vs
    sig = {}
    for x in vs:
        m = {y: sym('??', y.ty) for y in vs if y is not x}
        m[x] = sym('?*', x.ty)
        sig[x] = sorted((v, rebuild(a, m).ck) for a, v in lits if x in a.syms)
    order = sorted(vs, key=lambda x: sig[x])
    body = cube_bdd(lits)
    for x in reversed(order):
        mine, rest = [], TRUE
        ps = cover(body)
        if len(ps) != 1:
            return None
        for a, v in ps[0]:
            if x in a.syms:
                mine.append((a, v))
            else:
                rest = and_(rest, B(a) if v else not_(B(a)))
        body = and_(rest, _exists_raw(x, cube_bdd(mine)))
    return body


# ------------------------------------------------------------------------------------------
# dictionaries

def keys(d):
    def f(d):
        if d.op == 'dict':
            k = d.args[0]
            z, (m, v) = open_(d)
            return mkset(z, m, ('set', d.ty[1] if d.ty[0] == 'dict' else ANY))
        if d is UNDEF:
            return empty_set()
        return mk('keys', d, ty=('set', d.ty[1] if d.ty[0] == 'dict' else ANY))
    return lift(f, d)


def empty_dict(ty=('dict', ANY, ANY)):
    return mk('dict', 1, FALSE, UNDEF, ty=ty)


def mkdict(z, mem, val, ty=None):
    if ty is None:
        ty = ('dict', z.ty, val.ty)
    return _mkdict(z, mem, ite3(mem, val, UNDEF), ty, (), False)


def _mkdict(z, mem, val, ty, ctx, done):
    a = indep_atom(z, mem, val)
    if a is not None:
        return ite3(B(a), _mkdict(z, cofactor(mem, a, True), cofactor(val, a, True), ty, ctx + ((a, True),), done),
                    _mkdict(z, cofactor(mem, a, False), cofactor(val, a, False), ty, ctx + ((a, False),), done))
    if not done:
        m2, v2 = pointwise(mem, z), pointwise(val, z)
        if m2 is not mem or v2 is not val:
            m2, v2 = _ctx(m2, ctx), _ctx(v2, ctx)
            return _mkdict(z, m2, ite3(m2, v2, UNDEF), ty, ctx, True)
    if mem.op == 'ite' and mem.args[1] is TRUE and mem.args[2] is FALSE:
        at_ = mem.args[0]
        if at_.op == 'in' and at_.args[0] is z and at_.args[1].op == 'keys':
            d = at_.args[1].args[0]
            if z not in d.syms and val is ite3(mem, sel(d, z), UNDEF):
                return d
    k, (m, v) = close(z, mem, val)
    return mk('dict', k, m, v, ty=ty)


def val_ty(ty):
    return ty[2] if ty[0] == 'dict' else ANY


def sel(d, x):
    def f(d, x):
        if d.op == 'dict':
            return collapse(rebuild(d.args[2], {mk('bv', d.args[0]): x}))
        if d is UNDEF:
            return UNDEF
        return mk('sel', d, x, ty=val_ty(d.ty))
    return lift(f, d, x)


def sel_raw(d, x):
    """value with UNDEF outside the key set"""
    return ite3(member(x, d), sel(d, x), UNDEF)


def dstore(d, k, v):
    def f(d, k):
        ty = d.ty
        if ty[0] != 'dict':
            ty = ('dict', k.ty, v.ty)
        elif ty[2] == ANY or ty[1] == ANY:
            ty = ('dict', ty[1] if ty[1] != ANY else k.ty, ty[2] if ty[2] != ANY else v.ty)
        z = fresh('k', ty[1])
        e = eq(z, k)
        return mkdict(z, or_(member(z, d), e), ite3(e, v, sel_raw(d, z)), ty)
    return lift(f, d, k)


def ddel(d, k):
    def f(d, k):
        z = fresh('k', elem_ty(d.ty))
        return mkdict(z, and_(member(z, d), not_(eq(z, k))), sel_raw(d, z), d.ty)
    return lift(f, d, k)


def dmerge(a, b):
    def f(a, b):
        ty = a.ty if a.ty[0] == 'dict' and a.ty[1] != ANY else b.ty
        z = fresh('k', elem_ty(ty))
        mb = member(z, b)
        return mkdict(z, or_(member(z, a), mb), ite3(mb, sel_raw(b, z), sel_raw(a, z)), ty)
    return lift(f, a, b)


def dget(d, k, dflt):
    return ite3(member(k, d), sel(d, k), dflt)


# ------------------------------------------------------------------------------------------
# tuples, lists, records

def tup(*xs):
    if len(xs) >= 2 and xs[0].op == 'proj':
        w = xs[0].args[0]
        if w.ty[0] == 'tuple' and len(w.ty) - 1 == len(xs) and \
                all(x.op == 'proj' and x.args[0] is w and x.args[1] == i for i, x in enumerate(xs)):
            return w
    return lift(lambda *ys: mk('tuple', *ys, ty=('tuple',) + tuple(y.ty for y in ys)), *xs)


def proj(t, i):
    def f(t):
        if t.op in ('tuple', 'list'):
            if -len(t.args) <= i < len(t.args):
                return t.args[i]
            return UNDEF
        if t.op == 'tupd':
            return t.args[2] if t.args[1] == i else proj(t.args[0], i)
        if t is UNDEF:
            return UNDEF
        ty = ANY
        if t.ty[0] == 'tuple' and 0 <= i < len(t.ty) - 1:
            ty = t.ty[1 + i]
        elif t.ty[0] == 'list':
            return at(t, const(i))
        return mk('proj', t, i, ty=ty)
    return lift(f, t)


def at(l, i):
    """list element"""
    def f(l, i):
        if i.op == 'const' and l.op in ('list', 'tuple'):
            n = int(i.args[1])
            if -len(l.args) <= n < len(l.args):
                return l.args[n]
            return UNDEF
        if l.op == 'listof' and i is ZERO:
            return anyelem(l.args[0])
        if l.op == 'tuple':
            return mk('at', l, i)
        if l.op == 'lstore':
            b, j, v = l.args
            if i is j:
                return v
            if i.op != 'const' or j.op != 'const':
                return ite3(eq(i, j), v, at(b, i))
            if (i.args[1] < 0) == (j.args[1] < 0):
                return at(b, i)
        if l.op == 'bag' and i is ZERO:
            z, (g, e) = open_(l)
            return choose('first', z, g, e)
        if l.op == 'bag' and i.op == 'const' and i.args[0] == 'num' and i.args[1] > 0:
            z, (g, e) = open_(l)
            if g.op == 'ite' and g.args[1] is TRUE and g.args[2] is FALSE and g.args[0].op == 'in' and \
                    g.args[0].args[0] is z and g.args[0].args[1].op != 'dom' and z not in g.args[0].args[1].syms:
                return rebuild(e, {z: at(listof(g.args[0].args[1]), i)})
        return mk('at', l, i, ty=elem_ty(l.ty))
    return lift(f, l, i)


def anyelem(s):
    """the first element of an (unordered) collection"""
    def f(s):
        if s.op == 'dict' or s.ty[0] == 'dict':
            return anyelem(keys(s))
        if s.op == 'listof':
            return anyelem(s.args[0])
        if s.op in ('bag',):
            z, (g, e) = open_(s)
            return choose('first', z, g, e)
        if s.op in ('list', 'tuple') and s.args:
            return s.args[0]
        if s.ty[0] == 'list':
            return at(s, ZERO)
        if s.op == 'set':
            z, (b,) = open_(s)
            ps = primes(b)
            if len(ps) == 1 and len(ps[0]) == 1:
                (a, v), = ps[0]
                if v and a.op == 'eq':
                    x, y = a.args
                    t = y if x is z and z not in y.syms else (x if y is z and z not in x.syms else None)
                    if t is not None:
                        return t
        return mk('anyelem', s, ty=elem_ty(s.ty))
    return lift(f, s)


def listof(s):
    """a list with the elements of a set, in iteration order"""
    def f(s):
        if s.op in ('list', 'listof', 'bag', 'bagflat', 'cat', 'app') or s.ty[0] == 'list':
            return s
        if s.op == 'tuple':
            return mk('list', *s.args, ty=('list', s.args[0].ty if s.args else ANY))
        if s.ty[0] == 'dict' or s.op == 'dict':
            s = keys(s)
        return mk('listof', s, ty=('list', elem_ty(s.ty)))
    return lift(f, s)


def mkbag(z, guard, elem, flat=False):
    """list [elem(z) for z with guard(z)] whose order is the iteration order of the domain"""
    a = indep_atom(z, guard)
    if a is not None:
        return ite3(B(a), mkbag(z, cofactor(guard, a, True), elem, flat),
                    mkbag(z, cofactor(guard, a, False), elem, flat))
    a = indep_atom(z, elem)
    if a is not None:
        return ite3(B(a), mkbag(z, guard, cofactor(elem, a, True), flat),
                    mkbag(z, guard, cofactor(elem, a, False), flat))
    if guard is FALSE:
        return mk('list', ty=('list', ANY))
    if not flat and elem is z:
        s = mkset(z, guard)
        if s.op != 'dom':
            return listof(s)
    if not flat and elem.op == 'at' and elem.args[1] is z:
        l = elem.args[0]
        dom = B(mk('in', z, mk('dom', l), ty=BOOL))
        if guard is dom:
            return l
        # everything but v: a list without v is left as it is
        for a in atoms_of(guard):
            if a.op == 'eq' and elem in a.args and cofactor(guard, a, True) is FALSE and \
                    cofactor(guard, a, False) is dom:
                v = a.args[1] if a.args[0] is elem else a.args[0]
                if z not in v.syms:
                    has = member(v, l)
                    if has is not TRUE:
                        return ite3(has, _bag(z, guard, elem, flat), l)
    return _bag(z, guard, elem, flat)


def _bag(z, guard, elem, flat):
    k, (g, e) = close(z, guard, elem)
    ety = elem.ty if not flat else elem_ty(elem.ty)
    return mk('bagflat' if flat else 'bag', k, g, e, ty=('list', ety))


def lremove(l, v):
    """list.remove, for lists that hold every element at most once"""
    z = fresh('i', NUM)
    return lift(lambda l, v: mkbag(z, and_(_inlist(z, l), not_(eq(at(l, z), v))), at(l, z)), l, v)


def upto(n):
    """range(n); the positions of a list when n is its length"""
    if n.op == 'len':
        z = fresh('i', NUM)
        return mkbag(z, _inlist(z, n.args[0]), z)
    if n.op == 'sum' and n.args[2] is ONE:
        z, (g, e) = open_(n)
        if g.op == 'ite' and g.args[1] is TRUE and g.args[2] is FALSE:
            a = g.args[0]
            if a.op == 'in' and a.args[0] is z and a.args[1].op == 'dom' and z not in a.args[1].syms:
                return mkbag(z, g, z)
    z = fresh('i', NUM)
    return mkbag(z, _inlist(z, mk('range', n, ty=('list', NUM))), z)


def _inlist(z, l):
    return B(mk('in', z, mk('dom', l), ty=BOOL))


def extreme(nm, a, b):
    d = sub(a, b)
    if d is const(0):
        return a
    if _poly(d) and (_lead_sign(_poly(d)) or 1) < 0:
        a, b = b, a
        d = sub(a, b)
    c = gt0(d)
    return ite3(c, a, b) if nm == 'max' else ite3(c, b, a)


def lstore(b, i, v):
    if b.op == 'list' and i.op == 'const':
        n = int(i.args[1])
        if -len(b.args) <= n < len(b.args):
            xs = list(b.args)
            xs[n] = v
            return lift(lambda *ys: mk('list', *ys, ty=b.ty), *xs)
    if b.op == 'lstore' and b.args[1] is i:
        b = b.args[0]
    if v.op == 'at' and v.args[0] is b and v.args[1] is i:
        return b
    return lift(lambda v: mk('lstore', b, i, v, ty=b.ty), v)


def append(l, x):
    def f(l, x):
        if l.op == 'list':
            return mk('list', *(l.args + (x,)), ty=('list', x.ty))
        return mk('app', l, x, ty=l.ty if l.ty != ('list', ANY) else ('list', x.ty))
    return lift(f, l, x)


def concat(a, b):
    def f(a, b):
        if a.op == 'list' and not a.args:
            return b
        if b.op == 'list' and not b.args:
            return a
        if a.op == 'list' and b.op == 'list':
            return mk('list', *(a.args + b.args), ty=a.ty)
        if b.op == 'list':
            r = a
            for x in b.args:
                r = append(r, x)
            return r
        xs = (a.args if a.op == 'cat' else (a,)) + (b.args if b.op == 'cat' else (b,))
        return mk('cat', *xs, ty=a.ty if a.ty != ('list', ANY) else b.ty)
    return lift(f, a, b)


def _fold_cat(xs):
    r = xs[0]
    for x in xs[1:]:
        r = concat(r, x)
    return r


def new(cls, fields):
    """immutable record"""
    names = tuple(sorted(fields))
    vals = [fields[n] for n in names]
    return lift(lambda *xs: mk('new', cls, names, tuple(xs), ty=('cls', cls)), *vals)


def tupd(b, i, v, ty=ANY):
    def f(b, v):
        if b.op == 'tuple':
            xs = list(b.args)
            xs[i] = v
            return mk('tuple', *xs, ty=('tuple',) + tuple(x.ty for x in xs))
        if b.op == 'tupd' and b.args[1] == i:
            b = b.args[0]
        if v is proj(b, i):
            return b
        return mk('tupd', b, i, v, ty=ty)
    return lift(f, b, v)


def upd(b, ns, vs, ty=ANY):
    def f(b, *vs):
        if b.op == 'new':
            d = dict(zip(b.args[1], b.args[2]))
            d.update(zip(ns, vs))
            return new(b.args[0], d)
        return mk('upd', b, ns, tuple(vs), ty=ty)
    return lift(f, b, *vs)


def newfield(t, f):
    names, vals = t.args[1], t.args[2]
    if f in names:
        return vals[names.index(f)]
    return None


def choose(kind, z, guard, val):
    """value val(z) of the first/last z with guard(z)"""
    if val.op != 'ite' and z not in val.syms:
        return val
    a = indep_atom(z, guard, val)
    if a is not None:
        return ite3(B(a), choose(kind, z, cofactor(guard, a, True), cofactor(val, a, True)),
                    choose(kind, z, cofactor(guard, a, False), cofactor(val, a, False)))
    val = collapse(ite3(guard, val, UNDEF))
    if val.op != 'ite' and z not in val.syms:
        return val
    e = untuple(z, guard)
    if e is not None:
        x, g, el = e
        if x is None:
            return rebuild(val, {z: el})
        return choose(kind, x, g, rebuild(val, {z: el}))
    ps = cover(guard)
    if ps:
        for at_, v in sorted(frozenset.intersection(*ps), key=lambda p: p[0].ck):
            if v and at_.op in ('eq', 'eq0'):
                t = solve(z, at_)
                if t is not None:
                    return rebuild(val, {z: t})
        if len(ps) == 1 and len(ps[0]) == 1:
            (at_, v), = ps[0]
            if v and at_.op == 'in' and at_.args[0] is z and z not in at_.args[1].syms and kind == 'first' \
                    and at_.args[1].op != 'dom':
                return rebuild(val, {z: anyelem(at_.args[1])})
    if not ps:
        return UNDEF
    pts = []
    for p in ps:
        r = _points(z, p)
        if r is None:
            pts = None
            break
        pts += r
    if pts and len(pts) <= 12:
        pts = [(c, rebuild(val, {z: t})) for c, t in pts if c is not FALSE]
        if all(c1 is not None and (v1 is v2 or and_(c1, c2) is FALSE
                                   or and_(c1, c2, not_(eq(v1, v2))) is FALSE)
               for i, (c1, v1) in enumerate(pts) for c2, v2 in pts[:i]):
            r = UNDEF
            for c, v in pts:
                r = ite3(c, v, r)
            return r
        k, (g, v) = close(z, guard, val)
        r = mk(kind, k, g, v, ty=val.ty)
        for i, (c, v) in enumerate(pts):
            only = c
            for j, (c2, v2) in enumerate(pts):
                if j != i:
                    only = and_(only, or_(not_(c2), eq(v, v2)))
            r = ite3(only, v, r)
        return r
    k, (g, v) = close(z, guard, val)
    return mk(kind, k, g, v, ty=val.ty)


def _points(z, cube, depth=0):
    """[(condition, point)] when the cube determines z (possibly through a nested existential), else None"""
    for a, v in sorted(cube, key=lambda p: p[0].ck):
        if v and a.op in ('eq', 'eq0'):
            t = solve(z, a)
            if t is not None:
                rest = TRUE
                for a2, v2 in cube:
                    if a2 is not a:
                        r2 = truth_atom(rebuild(a2, {z: t}))
                        rest = and_(rest, r2 if v2 else not_(r2))
                return [(rest, t)]
    if depth > 2:
        return None
    for a, v in sorted(cube, key=lambda p: p[0].ck):
        if v and a.op == 'exists' and z in a.syms:
            x, (b,) = open_(a)
            rest = b
            for a2, v2 in cube:
                if a2 is not a:
                    rest = and_(rest, B(a2) if v2 else not_(B(a2)))
            out = []
            for p in cover(rest):
                r = _points(z, p, depth + 1)
                if r is None:
                    return None
                for c, t in r:
                    for p2 in cover(c):
                        if x not in t.syms and not any(x in a3.syms for a3, _ in p2):
                            out.append((cube_bdd(p2), t))
                            continue
                        r2 = _points(x, p2, depth + 1)
                        if r2 is None:
                            return None
                        for c2, t2 in r2:
                            out.append((c2, rebuild(t, {x: t2})))
            return out
    return None


# ------------------------------------------------------------------------------------------
# numbers: polynomials  sum coef * prod factor^exp

def _poly(t):
    """dict monomial -> coef ; monomial = tuple of (term, exp)"""
    if t.op == 'const':
        if t.args[0] == 'num':
            return {(): t.args[1]} if t.args[1] else {}
        if t.args[0] == 'bool':
            return {(): Fraction(int(t.args[1]))} if t.args[1] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _unpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((f.ck, e) for f, e in mc[0])))
    return mk('poly', items, ty=NUM)


def _mulmono(a, b):
    d = {}
    for f, e in a + b:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(((f, e) for f, e in d.items() if e), key=lambda p: p[0].ck))


def add(a, b):
    def f(a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        d = _poly(a)
        for m, c in _poly(b).items():
            d[m] = d.get(m, 0) + c
        return _unpoly(_cancel(d))
    return lift(f, a, b)


def _cancel(d):
    """a / (a + b) + b / (a + b) is one (where it is defined at all, which division decides)"""
    for s in {f for m in d for f, e in m if e == -1 and f.op == 'poly'}:
        p = _poly(s)
        q = {tuple(x for x in m if x != (s, -1)): c for m, c in d.items() if c and (s, -1) in m}
        if len(q) < len(p):
            continue
        k0 = next(iter(p))
        if k0 in q and len(q) == len(p):
            k = q[k0] / p[k0]
            if all(q.get(m) == k * c for m, c in p.items()):
                d = {m: c for m, c in d.items() if (s, -1) not in m}
                d[()] = d.get((), 0) + k
    return d


def mul(a, b):
    def f(a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        d = {}
        for m1, c1 in _poly(a).items():
            for m2, c2 in _poly(b).items():
                m = _mulmono(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return _unpoly(d)
    return lift(f, a, b)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def arith(n, x, y):
    """an operation other than + - * /: worked out on whole constants, a name of its operands otherwise"""
    def f(x, y):
        if n in ('FloorDiv', 'Mod', 'Pow') and x.op == y.op == 'const' and x.args[0] == y.args[0] == 'num':
            a, b = x.args[1], y.args[1]
            if a == int(a) and b == int(b):
                if n != 'Pow':
                    if b == 0:
                        return UNDEF
                    return const(int(a) // int(b) if n == 'FloorDiv' else int(a) % int(b))
                if 0 <= b <= 128:
                    return const(int(a) ** int(b))
        return mk('binop', n, x, y, ty=NUM if n in ('FloorDiv', 'Mod', 'Pow') else ANY)
    return lift(f, x, y)


def absolute(a):
    def f(a):
        if a is UNDEF:
            return UNDEF
        if a.op == 'const' and a.args[0] == 'num':
            return const(abs(a.args[1]))
        return mk('abs', min(a, neg(a), key=lambda t: t.ck), ty=NUM)
    return lift(f, a)


def inv(a):
    def f(a):
        if a is UNDEF:
            return UNDEF
        if a.op == 'const' and a.args[0] == 'num' and a.args[1]:
            return const(1 / a.args[1])
        p = _poly(a)
        if len(p) == 1:
            (m, c), = p.items()
            if c:
                return _unpoly({tuple((f_, -e) for f_, e in m): 1 / c})
        return _unpoly({((a, -1),): Fraction(1)})
    return lift(f, a)


def div(a, b):
    return mul(a, inv(b))


def remake_poly(t, items):
    r = ZERO
    for m, c in items:
        x = const(c)
        for f, e in m:
            g = f
            if e < 0:
                g = inv(f)
            for _ in range(abs(e)):
                x = mul(x, g)
        r = add(r, x)
    return r


def _lead_sign(p):
    items = sorted(((m, c) for m, c in p.items() if m != ()), key=lambda mc: tuple((f.ck, e) for f, e in mc[0]))
    return items[0][1] if items else None


def eq0(t):
    def f(t):
        if t is UNDEF:
            return FALSE
        p = _poly(t)
        if not p:
            return TRUE
        if set(p) == {()}:
            return FALSE
        if t in CARD_OF:
            return not_(truthy(CARD_OF[t]))
        s = _lead_sign(p)
        p = {m: c / s for m, c in p.items()}
        t2 = _unpoly(p)
        # count == 0  <=>  nothing satisfies the guard
        if () not in p and len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum' and m[0][0].args[2] is ONE:
                z, (g, _) = open_(m[0][0])
                return not_(exists(z, g))
        r = _injective(p)
        if r is not None:
            return r
        return B(mk('eq0', t2, ty=BOOL))
    return lift(f, t)


def _injective(p):
    """|S| == |{f(x) : x in S}| holds exactly when f takes no value twice on S"""
    if len(p) != 2 or () in p:
        return None
    (m1, c1), (m2, c2) = p.items()
    if c1 != -c2 or any(len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'sum' or m[0][0].args[2] is not ONE
                        for m in (m1, m2)):
        return None
    for a, b in ((m1, m2), (m2, m1)):
        w, (gw, _) = open_(b[0][0])
        z, (gz, _) = open_(a[0][0])
        ps = cover(gw)
        if len(ps) != 1:
            continue
        vs, lits = _flat_exists(ps[0])
        for i, (at_, v) in enumerate(lits):
            t = solve(w, at_) if v and at_.op in ('eq', 'eq0') else None
            if t is None or any(w in x.syms for j, (x, _) in enumerate(lits) if j != i):
                continue
            ys = [y for y in vs if y in t.syms]
            if len(ys) != 1 or z.ty not in (ANY, MIX, ys[0].ty):
                continue
            rest = cube_bdd(lits[:i] + lits[i + 1:])
            for x in vs:
                if x is not ys[0]:
                    rest = exists(x, rest)
            if rebuild(rest, {ys[0]: z}) is not gz:
                continue
            z1, z2 = ys[0], fresh('j', ys[0].ty)
            gz = rebuild(gz, {z: z1})
            same = eq(t, rebuild(t, {z1: z2}))
            return not_(exists(z1, exists(z2, and_(gz, rebuild(gz, {z1: z2}), same, not_(eq(z1, z2))))))
    return None


def _all_int(p):
    for m, c in p.items():
        if c.denominator != 1:
            return False
        for f, e in m:
            if e < 0 or not is_int(f):
                return False
    return True


def is_int(t):
    if t.op == 'const':
        return t.args[0] == 'num' and t.args[1].denominator == 1
    if t.op == 'sum':
        return is_int(t.args[2])
    if t.op == 'poly':
        return _all_int(dict(t.args[0]))
    if t.op in ('len', 'dom'):
        return True
    if t.op == 'prod':
        return is_int(t.args[2])
    return t.ty == NUM and not (t.op == 'sel' and False)


def gt0(t):
    """t > 0"""
    def f(t):
        if t is UNDEF:
            return FALSE
        p = _poly(t)
        if not p:
            return FALSE
        if set(p) == {()}:
            return const(p[()] > 0)
        if t in CARD_OF:
            return truthy(CARD_OF[t])
        c0 = p.get((), Fraction(0))
        rest = {m: c for m, c in p.items() if m != ()}
        nonneg = all(c > 0 and all(_nonneg(f_) for f_, _ in m) for m, c in rest.items())
        if nonneg and c0 > 0:
            return TRUE
        nonpos = all(c < 0 and all(_nonneg(f_) for f_, _ in m) for m, c in rest.items())
        if nonpos and c0 <= 0:
            return FALSE
        s = _lead_sign(p)
        if _all_int(p):
            if s < 0:
                q = {m: -c for m, c in p.items()}
                q[()] = q.get((), Fraction(0)) + 1
                return not_(_gt0atom(_unpoly(q)))
        return _gt0atom(t)
    return lift(f, t)


def _gt0atom(t):
    p = _poly(t)
    if t in CARD_OF:
        return truthy(CARD_OF[t])
    if () not in p and len(p) == 1:
        (m, c), = p.items()
        if c > 0 and len(m) == 1 and m[0][0].op == 'sum' and m[0][0].args[2] is ONE:
            z, (g, _) = open_(m[0][0])
            return exists(z, g)
    if () in p and len(p) == 1:
        return const(p[()] > 0)
    return B(mk('gt0', t, ty=BOOL))


def _nonneg(f):
    return f.op == 'sum' and f.args[2] is ONE or f.op == 'len'


def ge0(t):
    """t >= 0"""
    def f(t):
        if _all_int(_poly(t)):
            return gt0(add(t, ONE))
        return not_(gt0(neg(t)))
    return lift(f, t)


def indicator(g):
    """boolean diagram -> multilinear polynomial over positive atom conjunctions"""
    memo = {}

    def go(g):
        if g is FALSE or g is UNDEF:
            return {}
        if g is TRUE:
            return {frozenset(): 1}
        r = memo.get(g)
        if r is not None:
            return r
        a, h, l = g.args
        ph, pl = go(h), go(l)
        r = dict(pl)
        for c, k in ph.items():
            r[c | {a}] = r.get(c | {a}, 0) + k
        for c, k in pl.items():
            r[c | {a}] = r.get(c | {a}, 0) - k
        r = {c: k for c, k in r.items() if k}
        if len(r) > 2000:
            raise Budget('indicator')
        memo[g] = r
        return r
    return go(g)


def msum(z, guard, val):
    """ sum over z with guard(z) of val(z) """
    if guard is FALSE:
        return ZERO
    if z.ty == BOOL:
        return add(*[ite3(g, v, ZERO) for g, v in ((rebuild(guard, {z: b}), rebuild(val, {z: b}))
                                                   for b in (TRUE, FALSE))])
    if z.ty[0] == 'tuple' and BOOL in z.ty[1:]:
        r = ZERO
        i = z.ty.index(BOOL) - 1
        rest = [t for j, t in enumerate(z.ty[1:]) if j != i]
        if rest:
            y = fresh('y', rest[0] if len(rest) == 1 else ('tuple',) + tuple(rest))
            xs = [y] if len(rest) == 1 else [proj(y, j) for j in range(len(rest))]
            for b in (TRUE, FALSE):
                el = tup(*(xs[:i] + [b] + xs[i:]))
                r = add(r, msum(y, rebuild(guard, {z: el}), rebuild(val, {z: el})))
            return r
    e = untuple(z, guard)
    if e is not None:
        x, g, el = e
        if x is None:
            return ite3(g, rebuild(val, {z: el}), ZERO)
        return msum(x, g, rebuild(val, {z: el}))
    a = indep_atom(z, guard, val)
    if a is not None:
        return ite3(B(a), msum(z, cofactor(guard, a, True), cofactor(val, a, True)),
                    msum(z, cofactor(guard, a, False), cofactor(val, a, False)))
    acc = {}          # monomial in z -> {conj: poly-term coefficient}
    for cube, leaf in paths(val):
        if leaf is UNDEF or leaf is ZERO:
            continue
        g = and_(guard, cube_bdd(cube))
        if g is FALSE:
            continue
        ind = indicator(g)
        for m, c in _poly(leaf).items():
            mz = tuple(p for p in m if z in p[0].syms)
            mo = tuple(p for p in m if z not in p[0].syms)
            d = acc.setdefault(mz, {})
            outer = _unpoly({mo: c})
            for conj, k in ind.items():
                d[conj] = add(d.get(conj, ZERO), mul(const(k), outer))
    res = ZERO
    for mz, d in sorted(acc.items(), key=lambda kv: tuple((f.ck, e) for f, e in kv[0])):
        for conj, coef in sorted(d.items(), key=lambda kv: sorted(a.ck for a in kv[0])):
            if coef is ZERO:
                continue
            res = add(res, mul(coef, _sum_conj(z, conj, _unpoly({mz: Fraction(1)}))))
    return res


def _sum_conj(z, conj, val):
    for a in sorted(conj, key=lambda a: a.ck):
        if a.op in ('eq', 'eq0'):
            t = solve(z, a)
            if t is not None:
                rest = and_(*[truth_atom(rebuild(b, {z: t})) for b in conj if b is not a])
                return ite3(rest, rebuild(val, {z: t}), ZERO)
    g = and_(*[B(a) for a in conj])
    if val.op == 'sum' and z in val.args[1].syms:
        s = fresh('s', ANY)
        gi, vi = (rebuild(x, {mk('bv', val.args[0]): s}) for x in val.args[1:])
        w = gi
        while w.op == 'ite' and w.args[2] is FALSE:
            t = solve(z, w.args[0]) if w.args[0].op in ('eq', 'eq0') else None
            if t is not None:       # exchange the sums and apply the one-point rule to the outer one
                gi, vi = rebuild(gi, {z: t}), rebuild(vi, {z: t})
                out = []
                for a in conj:
                    b = truth_atom(rebuild(a, {z: t}))
                    if b.op == 'ite' and b.args[0].op == 'exists' and b.args[1] is TRUE and b.args[2] is FALSE:
                        q = rebuild(b.args[0].args[1], {mk('bv', b.args[0].args[0]): s})
                        if and_(gi, q) is gi:
                            continue
                    out.append(b)
                return msum(s, and_(gi, *out), vi)
            w = w.args[1]
    k, (g2, v2) = close(z, g, val)
    if g2.op != 'ite':
        return v2 if g2 is TRUE else ZERO
    if v2.op == 'ite':
        zz = fresh('r', z.ty)
        return msum(zz, rebuild(g2, {mk('bv', k): zz}), rebuild(v2, {mk('bv', k): zz}))
    return mk('sum', k, g2, v2, ty=NUM)


def mprod(z, guard, val):
    a = indep_atom(z, guard, val)
    if a is not None:
        return ite3(B(a), mprod(z, cofactor(guard, a, True), cofactor(val, a, True)),
                    mprod(z, cofactor(guard, a, False), cofactor(val, a, False)))
    if guard is FALSE:
        return ONE
    k, (g, v) = close(z, guard, val)
    return mk('prod', k, g, v, ty=NUM)


def card(s):
    def f(s):
        if s.op in ('list', 'tuple'):
            return const(len(s.args))
        if s.op == 'bag':
            z, (g, e) = open_(s)
            return msum(z, g, ONE)
        if s.op == 'bagflat':
            z, (g, e) = open_(s)
            return msum(z, g, card(e))
        if s.op == 'cat':
            r = ZERO
            for x in s.args:
                r = add(r, card(x))
            return r
        if s.op == 'app':
            return add(card(s.args[0]), ONE)
        if s.op == 'listof':
            return card(s.args[0])
        if s.op == 'keys' and s.args[0].op == 'dict':
            s = s.args[0]
        if is_setty(s) or s.op == 'dict' or s.ty[0] == 'dict':
            z = fresh('c', elem_ty(s.ty))
            r = msum(z, member(z, s), ONE)
            if r.op != 'const' and r.op != 'ite':
                CARD_OF[r] = s
            return r
        if s.ty[0] == 'list':
            z = fresh('c', NUM)
            return msum(z, B(mk('in', z, mk('dom', s), ty=BOOL)), ONE)
        return mk('len', s, ty=NUM)
    return lift(f, s)


# ------------------------------------------------------------------------------------------
# re-normalising constructors used by rebuild

def _r_eq(t, a, b):
    return eq(a, b)


def text(*xs):
    """concatenation of the texts of its parts"""
    def f(*xs):
        out = []
        for x in xs:
            for y in (x.args if x.op == 'fmt' else (x,)):
                if y.op == 'const' and y.args[0] == 'str':
                    if not y.args[1]:
                        continue
                    if out and out[-1].op == 'const' and out[-1].args[0] == 'str':
                        out[-1] = const(out[-1].args[1] + y.args[1])
                        continue
                out.append(y)
        if not out:
            return const('')
        if len(out) == 1 and out[0].ty == STR:
            return out[0]
        return mk('fmt', *out, ty=STR)
    return lift(f, *xs)


def joined(sep, l):
    def f(sep, l):
        if l.op in ('list', 'tuple') and all(x.ty == STR for x in l.args):
            out = []
            for x in l.args:
                out += [sep, x]
            return text(*out[1:])
        return mk('strm', 'join', sep, l, ty=STR)
    return lift(f, sep, l)


REMAKE = {
    'fmt': lambda t, *xs: text(*xs),
    'eq': lambda t, a, b: eq(a, b),
    'is': lambda t, a, b: ident(a, b),
    'abs': lambda t, a: absolute(a),
    'binop': lambda t, n, x, y: arith(n, x, y),
    'isnone': lambda t, a: isnone(a),
    'isinst': lambda t, a, c: isinst(a, c),
    'truthy': lambda t, a: truthy(a),
    'in': lambda t, x, s: member(x, s),
    'keys': lambda t, d: keys(d),
    'sel': lambda t, d, x: sel(d, x),
    'tuple': lambda t, *xs: tup(*xs),
    'proj': lambda t, x, i: proj(x, i),
    'at': lambda t, l, i: at(l, i),
    'anyelem': lambda t, s: anyelem(s),
    'listof': lambda t, s: listof(s),
    'poly': remake_poly,
    'eq0': lambda t, p: eq0(p),
    'gt0': lambda t, p: gt0(p),
    'len': lambda t, s: card(s),
    'tupd': lambda t, b, i, v: tupd(b, i, v, t.ty),
    'upd': lambda t, b, ns, vs: upd(b, ns, vs, t.ty),
    'app': lambda t, l, x: append(l, x),
    'cat': lambda t, *xs: _fold_cat(xs),
    'lstore': lambda t, b, i, v: lift(lstore, b, i, v),
    'ucall': lambda t, q, *xs: lift(lambda *ys: mk('ucall', q, *ys, ty=t.ty), *xs),
    'new': lambda t, cls, names, vals: new(cls, dict(zip(names, vals))),
}

FIELD_HOOK = [None]


def _r_field(t, o, f):
    return FIELD_HOOK[0](o, f) if FIELD_HOOK[0] else lift(lambda x: mk('field', x, f, ty=t.ty), o)


REMAKE['field'] = _r_field


# ------------------------------------------------------------------------------------------
# printing

def pp(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(pp(x) for x in t) + ')'
        return repr(t)
    o, a = t.op, t.args
    if o == 'sym':
        return a[0]
    if o == 'bv':
        return f'%{a[0]}'
    if o == 'const':
        return str(a[1]) if a[0] == 'num' else repr(a[1])
    if o == 'undef':
        return '⊥'
    if o == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return pp(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return f'¬{pp(a[0])}'
        return f'if[{pp(a[0])} ? {pp(a[1])} : {pp(a[2])}]'
    if o == 'in':
        return f'{pp(a[0])}∈{pp(a[1])}'
    if o == 'eq':
        return f'({pp(a[0])}={pp(a[1])})'
    if o == 'is':
        return f'({pp(a[0])} is {pp(a[1])})'
    if o == 'exists':
        return f'∃%{a[0]}.({pp(a[1])})'
    if o == 'set':
        return '{}' if a[1] is FALSE else f'{{%{a[0]} | {pp(a[1])}}}'
    if o == 'dict':
        return '{:}' if a[1] is FALSE else f'[%{a[0]} | {pp(a[1])} ↦ {pp(a[2])}]'
    if o == 'sum':
        return f'Σ%{a[0]}[{pp(a[1])}]({pp(a[2])})'
    if o in ('first', 'last', 'bag', 'bagflat', 'prod'):
        return f'{o}%{a[0]}[{pp(a[1])}]({pp(a[2])})'
    if o == 'field':
        return f'{pp(a[0])}.{a[1]}'
    if o == 'proj':
        return f'{pp(a[0])}.{a[1]}'
    if o == 'sel':
        return f'{pp(a[0])}[{pp(a[1])}]'
    if o == 'tuple':
        return '(' + ', '.join(pp(x) for x in a) + ')'
    if o == 'poly':
        out = []
        for m, c in a[0]:
            s = '·'.join(pp(f) + (f'^{e}' if e != 1 else '') for f, e in m)
            out.append((f'{c}·' if c != 1 else '') + s if s else str(c))
        return '(' + ' + '.join(out) + ')'
    if o == 'new':
        return f'{a[0]}(' + ', '.join(f'{n}={pp(v)}' for n, v in zip(a[1], a[2])) + ')'
    return f'{o}(' + ', '.join(pp(x) for x in a) + ')'
