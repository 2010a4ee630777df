"""Meaning of the builtin functions and container methods the analysed code uses."""
import ast
from . import terms as tm
from .terms import (T, ANY, BOOL, NUM, STR, mk, fresh, const, B, ite3, and_, or_, not_, eq, member, exists, mkset,
                    sel, keys, lift, opaque, tup, proj, add, mul, msum, card, listof, concat, append, ddel, dmerge,
                    dstore, union, inter, diff, symdiff, subset, disjoint, setlit, empty_set, empty_dict, anyelem, at,
                    elem_ty, val_ty, is_setty, mkdict, sel_raw)


def call(L, f, args, kwargs, st):
    name = f.name.split('.')[-1]
    if f.recv is not None:
        if f.name.startswith('provider.'):
            return provider(L, name, f.recv, args, kwargs, st)
        return method(L, name, f.recv, args, kwargs, st)
    if '.' in f.name:
        if f.name == 'chain.from_iterable':
            return chain_from(L, args[0], st)
        head = f.name.split('.')[0]
        if head in ('frozenset', 'set', 'dict', 'list', 'str'):
            if head == 'dict' and name == 'fromkeys':
                return fromkeys(L, args, st)
            return method(L, name, args[0], args[1:], kwargs, st)
        if head == 'object':
            return tm.NONE
    fn = FUNCS.get(name)
    if fn is not None:
        return fn(L, args, kwargs, st)
    from .lower import IGNORED_CALLS
    if name in IGNORED_CALLS or f.name.split('.')[0] in IGNORED_CALLS:
        return tm.NONE
    for a in args:
        havoc(L, a, st)
    return lift(lambda *xs: opaque('call:' + f.name, *xs), *[L.snap(a, st) for a in args])


def havoc(L, a, st):
    from .lower import Ref
    if isinstance(a, Ref):
        cur = L.deref(a, st)
        L.write(a, opaque('havoc', cur, ty=cur.ty), st)


def provider(L, name, recv, args, kwargs, st):
    m = L.prog.find_method('SampleGraphComponentsProvider', name)
    names = [p.arg for p in m.node.args.args[1:]] if m else []
    vals = list(args) + [kwargs[n] for n in names[len(args):] if n in kwargs]
    ts = [L.snap(a, st) for a in vals]
    rty = L.prog.ty(m.node.returns) if m else ANY
    if name == 'get_edge':
        ts[0] = L.as_set(ts[0], st)
    return lift(lambda r, *xs: mk('pcall', name, r, tuple(xs), ty=rty), recv, *ts)


# ------------------------------------------------------------------------------------------

def f_len(L, a, k, st):
    from .lower import GenV, Ref, Obj, Closure
    v = a[0]
    if isinstance(v, GenV):
        return L.gen_sum(v, lambda e: tm.ONE, st)
    if isinstance(v, Ref):
        r = L.root(v, st)
        cur = st.cells.get(('h', r.loc), L.init_cells.get(('h', r.loc)))
        if isinstance(cur, Obj) and not r.path:
            m = L.prog.find_method(cur.cls, '__len__')
            if m:
                return L.call_closure(Closure(m.node, (), m.module, m, v), [], {}, st)
    t = L.snap(v, st)
    if t.ty[0] == 'cls':
        m = L.prog.find_method(t.ty[1], '__len__')
        if m:
            return L.call_closure(Closure(m.node, (), m.module, m, t), [], {}, st)
    return card(t)


def f_set(L, a, k, st):
    if not a:
        return empty_set()
    return L.as_set(a[0], st)


def f_list(L, a, k, st):
    if not a:
        return mk('list', ty=('list', ANY))
    t = L.to_list(a[0], st)
    return lift(lambda t: listed(t, 4), t) if L.cut and L.unroll_depth else t


def listed(t, most):
    """a list over elements named one by one, written out (in one of the orders it can have)"""
    from .lower import elements
    if t.op == 'listof' and t.args[0].op == 'set' or t.op == 'bag':
        z, parts = tm.open_(t.args[0] if t.op == 'listof' else t)
        gd, el = (parts[0], z) if t.op == 'listof' else parts
        xs = elements(z, gd)
        if xs is not None and len(xs) <= most:
            r = mk('list', ty=('list', ANY))
            for x, c in xs:
                r = ite3(c, append(r, tm.rebuild(el, {z: x})), r)
            return r
    return t


def f_tuple(L, a, k, st):
    if not a:
        return tup()
    from .lower import PyTup
    if isinstance(a[0], PyTup):
        return a[0]
    t = L.as_coll(a[0], st)

    def f(t):
        if t.op == 'tuple' or t.ty[0] == 'tuple':
            return t
        if t.op == 'list':
            return tup(*t.args)
        return listof(t)
    return lift(f, t)


def f_dict(L, a, k, st):
    from .lower import GenV
    d = empty_dict()
    if a:
        v = a[0]
        if isinstance(v, GenV):
            d = L.gen_dict(v, st)
        else:
            t = L.snap(v, st)
            if t.ty[0] == 'dict' or t.op == 'dict' or any(l.op == 'dict' or l.ty[0] == 'dict'
                                                          for l in tm.leaves_of(t)):
                d = t
            else:
                dom = L.domain(t, st)
                if isinstance(dom, GenV):
                    d = L.gen_dict(dom, st)
                elif isinstance(dom, list):
                    for x in dom:
                        x = L.snap(x, st)
                        d = dstore(d, proj(x, 0), proj(x, 1))
                else:
                    return opaque('dict', t)
    for n, v in k.items():
        d = dstore(d, const(n), L.snap(v, st))
    return d


def fromkeys(L, a, st):
    s = L.as_set(a[0], st)
    v = L.snap(a[1], st) if len(a) > 1 else tm.NONE
    z = fresh('w', elem_ty(s.ty))
    return mkdict(z, member(z, s), v)


def f_sum(L, a, k, st):
    from .lower import GenV
    start = L.snap(a[1], st) if len(a) > 1 else (L.snap(k['start'], st) if 'start' in k else tm.ZERO)
    v = a[0]
    dom = L.domain(v, st)
    if isinstance(dom, list):
        r = start
        for x in dom:
            r = add(r, L.snap(x, st))
        return r
    if dom is None:
        t = L.as_coll(v, st)

        def total(x):
            if x.op == 'bag':
                z, (g, e) = tm.open_(x)
                return tm.msum(z, g, e)
            if x.op in ('list', 'tuple'):
                r = tm.ZERO
                for y in x.args:
                    r = add(r, y)
                return r
            return opaque('sum', x, ty=NUM)
        return lift(lambda x: add(start, total(x)), t)
    return add(start, L.gen_sum(dom, lambda e: e, st))


def _prod(x):
    if x.op not in ('list', 'tuple'):
        return opaque('prod', x, ty=NUM)
    r = tm.ONE
    for y in x.args:
        r = mul(r, y)
    return r


def f_prod(L, a, k, st):
    from .lower import GenV
    dom = L.domain(a[0], st)
    if isinstance(dom, list):
        r = tm.ONE
        for x in dom:
            r = mul(r, L.snap(x, st))
        return r
    if dom is None:
        return lift(_prod, L.as_coll(a[0], st))
    v = L.snap(dom.elem, st)
    for z, gd in reversed(dom.gens):
        v = tm.mprod(z, gd, v)
    return v


def f_any(L, a, k, st):
    dom = L.domain(a[0], st)
    if isinstance(dom, list):
        return or_(*[L.truth(x, st) for x in dom])
    if dom is None:
        raise_unsupported('any')
    return L.gen_exists(dom, lambda e: L.truth(e, st), st)


def f_all(L, a, k, st):
    dom = L.domain(a[0], st)
    if isinstance(dom, list):
        return and_(*[L.truth(x, st) for x in dom])
    if dom is None:
        raise_unsupported('all')
    return not_(L.gen_exists(dom, lambda e: not_(L.truth(e, st)), st))


def raise_unsupported(x):
    from .lower import Unsupported
    raise Unsupported(x)


def _plain_value(t):
    """the Python value of a number or a tuple of numbers"""
    if t.op == 'const' and t.args[0] in ('num', 'bool'):
        return t.args[1]
    if t is tm.TRUE or t is tm.FALSE:
        return t is tm.TRUE
    if t.op == 'tuple':
        return tuple(_plain_value(x) for x in t.args)
    raise ValueError


def _arranged(x, ks, k=None):
    back = False
    if ks == ('reverse',) and k and k['reverse'] in (tm.TRUE, tm.FALSE):
        back = k['reverse'] is tm.TRUE
        ks = ('reverse',) if back else ()
    if x.op == 'list' and (not ks or back or len(x.args) <= 1):
        try:
            vs = [_plain_value(e) for e in x.args]
            return mk('list', *[x.args[i] for i in sorted(range(len(vs)), key=lambda i: vs[i], reverse=back)], ty=x.ty)
        except (ValueError, TypeError):
            if len(x.args) <= 1:
                return x
    return mk('sorted', x, ks, ty=x.ty)


def f_sorted(L, a, k, st):
    t = L.to_list(a[0], st)
    ks = tuple(sorted(k))
    def f(x):
        if x.op == 'list' and len(x.args) == 2:
            u = tm.pair_listing(x)
            if u is not None:
                return mk('sorted', u, ks, ty=x.ty)
        return _arranged(x, ks, k)
    return lift(f, t)


def f_minmax(nm):
    def f(L, a, k, st):
        if len(a) > 1:
            ts = [L.snap(x, st) for x in a]
            if all(tm._is_num(l) for t in ts for l in tm.leaves_of(t)):
                r = ts[0]
                for t in ts[1:]:
                    r = tm.extreme(nm, r, t)
                return r
            ts.sort(key=lambda t: t.ck)
            return lift(lambda *xs: mk(nm, *xs, ty=NUM), *ts)
        if set(k) - {'default'}:
            raise_unsupported(nm + ' by key')
        t = L.as_coll(a[0], st)
        r = lift(lambda x: mk(nm, x, ty=elem_ty(x.ty)), t)
        if 'default' in k:
            return ite3(L.truth(t, st), r, L.snap(k['default'], st))
        if L.crashes:
            L.crash(not_(L.truth(t, st)), st)
        return r
    return f


def f_str(nm):
    def f(L, a, k, st):
        if not a:
            return const('')
        t = L.snap(a[0], st)
        if nm == 'repr':
            return lift(lambda x: tm.text(x) if x.ty[0] == 'cls' else mk('format', x, 'repr', ty=STR), t)
        return tm.text(t)
    return f


def f_bool(L, a, k, st):
    if not a:
        return tm.FALSE
    return L.truth(a[0], st)


def f_id(L, a, k, st):
    return lift(lambda x: mk('id', x, ty=NUM), L.snap(a[0], st))


def f_hash(L, a, k, st):
    from .lower import Closure
    t = L.snap(a[0], st)
    return lift(lambda x: mk('hash', x, ty=NUM), t)


def f_isinstance(L, a, k, st):
    from .lower import ClassV, PyTup
    t = L.snap(a[0], st)
    c = a[1]
    if isinstance(c, ClassV):
        def f(x):
            if x.op == 'new':
                return const(L.prog.subclass_of(x.args[0], c.name))
            if x.op == 'sym' and x in tm.NONNULL:      # an input of the claim is what it is declared to be
                if x.ty[0] == 'cls':
                    if L.prog.subclass_of(x.ty[1], c.name):
                        return tm.TRUE
                    if not L.prog.subclass_of(c.name, x.ty[1]):
                        return tm.FALSE
                elif x.ty in (STR, NUM, BOOL) or x.ty[0] in ('tuple', 'set', 'dict', 'list'):
                    return tm.FALSE
            return tm.isinst(x, c.name)
        return lift(f, t)
    return lift(lambda x, y: B(mk('isinst2', x, y, ty=BOOL)), t, L.snap(c, st))


def first_of(L, s):
    if L.cut and L.unroll_depth and (s.op == 'set' or s.op == 'list' and s.args):
        t = listed(listof(s), 6)
        if all(x.op == 'list' and x.args for x in tm.leaves_of(t)):
            return lift(lambda x: x.args[0], t)
    return anyelem(s)


def f_choice(L, a, k, st):
    t = L.as_coll(a[0], st)
    if L.crashes:
        L.crash(not_(L.truth(t, st)), st)
    return lift(anyelem, t)


def f_next(L, a, k, st):
    from .lower import GenV
    v = a[0]
    dflt = L.snap(a[1], st) if len(a) > 1 else None
    if isinstance(v, GenV):
        val = L.snap(v.elem, st)
        ex = tm.TRUE
        for z, gd in reversed(v.gens):
            val = tm.choose('first', z, and_(gd, ex), val)
            ex = exists(z, and_(gd, ex))
        if dflt is None:
            L.crash(not_(ex), st)
        return ite3(ex, val, dflt) if dflt is not None else val
    t = L.as_coll(v, st)
    if t.op == 'iter':
        t = t.args[0]
    r = lift(lambda x: first_of(L, x), t)
    if dflt is not None:
        return ite3(L.truth(t, st), r, dflt)
    if L.crashes:
        L.crash(not_(L.truth(t, st)), st)
    return r


def f_iter(L, a, k, st):
    return a[0]


def f_num(nm):
    def f(L, a, k, st):
        if not a:
            return tm.ZERO
        t = L.snap(a[0], st)
        if nm == 'float':
            return t if t.ty == NUM else lift(lambda x: mk('float', x, ty=NUM), t)
        return lift(lambda x: x if x.op == 'const' and x.args[0] == 'num' and x.args[1].denominator == 1
                    else (const(int(x.args[1])) if x.op == 'const' and (x.args[0] == 'bool' or nm == 'int' and
                                                                       x.args[0] == 'str' and x.args[1].isdecimal()) else
                          mk(nm, x, ty=NUM)), t)
    return f


def f_map(L, a, k, st):
    from .lower import GenV
    dom = L.domain(a[1], st)
    if isinstance(dom, list):
        xs = [L.snap(L.call(a[0], [x], {}, st), st) for x in dom]
        return lift(lambda *ys: mk('list', *ys, ty=('list', ANY)), *xs)
    if dom is None or len(a) != 2:
        raise_unsupported('map')
    return gen_map(L, dom, lambda e, s: L.call(a[0], [e], {}, s), st)


def gen_map(L, dom, fn, st, guardfn=None):
    from .lower import GenV
    s = st.copy()
    s.live = tm.TRUE
    L.raise_stack.append([])
    try:
        gens = list(dom.gens)
        if guardfn is not None:
            c = guardfn(dom.elem, s)
            z, gd = gens[-1]
            gens[-1] = (z, and_(gd, c))
        v = L.snap(fn(dom.elem, s), s) if fn is not None else dom.elem
    finally:
        rz = or_(*L.raise_stack.pop())
    if rz is not tm.FALSE:
        L.do_raise(L.q_exists(dom.gens, rz), st)
    return GenV(gens, v)


def f_filter(L, a, k, st):
    dom = L.domain(a[1], st)
    if isinstance(dom, list) or dom is None:
        raise_unsupported('filter')
    return gen_map(L, dom, None, st, guardfn=lambda e, s: L.truth(
        L.call(a[0], [e], {}, s) if not (isinstance(a[0], T) and a[0] is tm.NONE) else e, s))


def f_defaultdict(L, a, k, st):
    from .lower import Builtin, Closure, ClassV
    fac = 'none'
    if a:
        if isinstance(a[0], Builtin):
            fac = a[0].name
        elif isinstance(a[0], Closure):
            import ast
            b = a[0].node.body
            if isinstance(b, ast.Constant) and b.value == 0:
                fac = 'int'
            elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name):
                fac = b.func.id
            elif isinstance(b, ast.Dict):
                fac = 'dict'
            elif isinstance(b, ast.List):
                fac = 'list'
    vt = {'set': ('set', ANY), 'dict': ('dict', ANY, ANY), 'list': ('list', ANY), 'int': NUM, 'float': NUM}.get(fac,
                                                                                                               ANY)
    if fac not in ('set', 'dict', 'list', 'int', 'float'):
        return opaque('defaultdict')
    if len(a) > 1:
        raise_unsupported('defaultdict init')
    return L.mk_dd(fac, vt, st)


def f_counter(L, a, k, st):
    if a:
        dom = L.domain(a[0], st)
        from .lower import GenV
        t = L.snap(a[0], st) if not isinstance(a[0], GenV) else None
        if t is not None and (t.ty[0] == 'dict' or t.op == 'dict'):
            return L.mk_dd('int', NUM, st, t)
        if isinstance(dom, GenV):
            w = fresh('w', L.snap(dom.elem, st).ty)
            mem = L.gen_exists(dom, lambda e: eq(w, e), st)
            val = L.gen_sum(dom, lambda e: ite3(eq(w, e), tm.ONE, tm.ZERO), st)
            return L.mk_dd('int', NUM, st, mkdict(w, mem, val))
        raise_unsupported('Counter')
    return L.mk_dd('int', NUM, st)


def f_reduce(L, a, k, st):
    raise_unsupported('reduce')


def chain_from(L, v, st):
    from .lower import GenV
    dom = L.domain(v, st)
    if isinstance(dom, GenV):
        inner = L.domain(dom.elem, st)
        if isinstance(inner, GenV):
            return GenV(dom.gens + inner.gens, inner.elem)
    raise_unsupported('chain')


def f_chain(L, a, k, st):
    r = None
    for x in a:
        l = L.to_list(x, st)
        r = l if r is None else concat(r, l)
    return r if r is not None else mk('list', ty=('list', ANY))


def f_isclose(L, a, k, st):
    x, y = L.snap(a[0], st), L.snap(a[1], st)
    rest = tuple(L.snap(v, st) for n, v in sorted(k.items()))

    def f(x, y, *r):
        if x is y:
            return tm.TRUE
        return B(mk('isclose', *sorted((x, y), key=lambda t: t.ck), tuple(r), ty=BOOL))
    return lift(f, x, y, *rest)


def f_enumerate(L, a, k, st):
    from .lower import GenV, PyTup
    dom = L.domain(a[0], st)
    if isinstance(dom, GenV):
        return GenV(dom.gens, PyTup([mk('index', *[z for z, _ in dom.gens], ty=NUM), dom.elem]))
    if isinstance(dom, list):
        return PyTup([PyTup([const(i), x]) for i, x in enumerate(dom)])
    raise_unsupported('enumerate')


def f_range(L, a, k, st):
    ts = [L.snap(x, st) for x in a]
    return lift(_range, *ts)


def _range(*xs):
    if all(x.op == 'const' and x.args[0] == 'num' and x.args[1].denominator == 1 for x in xs) and xs:
        r = range(*[int(x.args[1]) for x in xs])
        if len(r) <= 32:
            return mk('list', *[const(i) for i in r], ty=('list', NUM))
    if len(xs) == 2 and xs[0] is tm.ZERO:
        xs = xs[1:]
    if len(xs) == 1:
        return tm.upto(xs[0])
    return mk('range', *xs, ty=('list', NUM), flags=frozenset(['generic']))


def f_zip(L, a, k, st):
    ts = [L.as_coll(x, st) for x in a]
    return lift(lambda *xs: mk('zip', *xs, ty=('list', ('tuple',) + tuple(elem_ty(x.ty) for x in xs))), *ts)


def f_type(L, a, k, st):
    from .lower import ClassV
    t = L.snap(a[0], st)
    if t.op == 'new':
        return ClassV(t.args[0])
    return lift(lambda x: mk('typeof', const('tuple') if x.op == 'tuple' else x), t)


def f_copy(L, a, k, st):
    from .lower import Ref, Obj, Closure
    v = a[0]
    if isinstance(v, Ref):
        r = L.root(v, st)
        cur = st.cells.get(('h', r.loc), L.init_cells.get(('h', r.loc)))
        if isinstance(cur, Obj) and not r.path:
            m = L.prog.find_method(cur.cls, '__copy__')
            if m:
                return L.call_closure(Closure(m.node, (), m.module, m, v), [], {}, st)
    return L.snap(v, st)


def f_abs(L, a, k, st):
    return tm.absolute(L.snap(a[0], st))


def f_getattr(L, a, k, st):
    n = L.snap(a[1], st)
    if n.op == 'const' and n.args[0] == 'str':
        return L.get_attr(a[0], n.args[1], st)
    raise_unsupported('getattr')


def f_hasattr(L, a, k, st):
    from .lower import Obj, Ref
    n = L.snap(a[1], st)
    if n.op == 'const' and n.args[0] == 'str' and isinstance(a[0], Ref):
        o = L.root(a[0], st)
        cur = st.cells.get(('h', o.loc), L.init_cells.get(('h', o.loc)))
        if isinstance(cur, Obj) and not o.path:
            f = n.args[1]
            if f in cur.fields or L.prog.find_method(cur.cls, f) is not None:
                return tm.TRUE
            init = L.prog.find_method(cur.cls, '__init__')
            for x in ast.walk(init.node) if init is not None else ():
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == f:
                    return tm.TRUE
    raise_unsupported('hasattr')


def _before(x, y):
    """x < y for tuples decided by their leading numbers"""
    if x.op != 'tuple' or y.op != 'tuple':
        raise_unsupported('heap order')
    same, out = tm.TRUE, tm.FALSE
    for u, v in zip(x.args, y.args):
        if u is v:
            continue
        if u.ty != NUM and v.ty != NUM:
            raise_unsupported('heap order')
        out = or_(out, and_(same, tm.gt0(tm.sub(v, u))))
        if u.op == v.op == 'const':
            return out
        same = and_(same, eq(u, v))
    return out


def _heap(items):
    if len(items) == 2:
        c = _before(items[1], items[0])
        return ite3(c, mk('list', items[1], items[0], ty=('list', ANY)), mk('list', *items, ty=('list', ANY)))
    if len(items) > 2:
        raise_unsupported('heap of more than two')
    return mk('list', *items, ty=('list', ANY))


def _plain_list(x):
    if x.op != 'list':
        raise_unsupported('heap')
    return list(x.args)


def f_heappush(L, a, k, st):
    put(L, a[0], lift(lambda h, x: _heap(_plain_list(h) + [x]), L.deref(a[0], st), L.snap(a[1], st)), st, 'heappush')
    return tm.NONE


def f_heapify(L, a, k, st):
    put(L, a[0], lift(lambda h: _heap(_plain_list(h)), L.deref(a[0], st)), st, 'heapify')
    return tm.NONE


def f_heappop(L, a, k, st):
    h = L.deref(a[0], st)
    put(L, a[0], lift(lambda h: _heap(_plain_list(h)[1:]), h), st, 'heappop')
    return lift(lambda h: _plain_list(h)[0] if _plain_list(h) else tm.UNDEF, h)


def f_print(L, a, k, st):
    return tm.NONE


FUNCS = {
    'len': f_len, 'set': f_set, 'frozenset': f_set, 'list': f_list, 'tuple': f_tuple, 'dict': f_dict,
    'choice': f_choice, 'OrderedDict': f_dict, 'sum': f_sum, 'fsum': f_sum, 'prod': f_prod, 'any': f_any, 'all': f_all,
    'sorted': f_sorted, 'min': f_minmax('min'), 'max': f_minmax('max'), 'str': f_str('str'), 'repr': f_str('repr'),
    'format': f_str('format'), 'bool': f_bool, 'id': f_id, 'hash': f_hash, 'isinstance': f_isinstance,
    'next': f_next, 'iter': f_iter, 'int': f_num('int'), 'float': f_num('float'), 'round': f_num('round'),
    'map': f_map, 'filter': f_filter, 'defaultdict': f_defaultdict, 'Counter': f_counter, 'chain': f_chain,
    'isclose': f_isclose, 'enumerate': f_enumerate, 'range': f_range, 'zip': f_zip, 'type': f_type, 'copy': f_copy,
    'abs': f_abs, 'print': f_print, 'heappush': f_heappush, 'heappop': f_heappop, 'heapify': f_heapify, 'getattr': f_getattr, 'hasattr': f_hasattr, 'reversed': f_list, 'reduce': f_reduce,
    'deepcopy': f_copy,
}


# ------------------------------------------------------------------------------------------
# methods of builtin values

def method(L, name, recv, args, kwargs, st):
    from .lower import Ref, GenV, PyTup, Unsupported, Obj
    ref = recv if isinstance(recv, Ref) else None
    if isinstance(recv, GenV):
        t = L.gen_list(recv, st)
    elif isinstance(recv, PyTup):
        t = L.snap(recv, st)
    else:
        t = L.snap(recv, st)
    lv = [l for l in tm.leaves_of(t) if l is not tm.UNDEF]
    isset = any(is_setty(l) for l in lv)
    isdict = any(l.op == 'dict' or l.ty[0] == 'dict' for l in lv)
    islist = any(l.ty[0] == 'list' or l.op in ('list', 'bag', 'app', 'cat', 'listof') for l in lv)
    if not (isset or isdict or islist):
        if name in ('isdisjoint', 'issubset', 'union', 'intersection', 'difference', 'symmetric_difference',
                    'issuperset', 'add', 'discard'):
            isset = True
        elif name in ('items', 'keys', 'values', 'get', 'setdefault'):
            isdict = True
        elif name in ('append', 'extend'):
            islist = True
    if name == '__contains__':
        return L.contains(args[0], recv, st)
    if name == '__len__':
        return f_len(L, [recv], {}, st)
    if name == '__hash__':
        return f_hash(L, [recv], {}, st)
    if name == '__eq__':
        return L.equals(t, L.snap(args[0], st), st)
    if name == '__getitem__' and isdict:
        return sel(t, L.snap(args[0], st))
    if isdict:
        r = dict_method(L, name, t, ref, args, kwargs, st)
        if r is not NotImplemented:
            return r
    if isset:
        r = set_method(L, name, t, ref, args, kwargs, st)
        if r is not NotImplemented:
            return r
    if islist:
        r = list_method(L, name, t, ref, args, kwargs, st)
        if r is not NotImplemented:
            return r
    if t.ty == STR or t.op in ('fmt', 'const', 'erased'):
        ts = [L.as_coll(a, st) for a in args]
        rty = BOOL if name.startswith('is') or name in ('startswith', 'endswith') else STR
        if name == 'join' and len(ts) == 1:
            return tm.joined(t, ts[0])
        r = lift(lambda *xs: mk('strm', name, *xs, ty=rty), t, *ts)
        return lift(lambda x: B(x) if rty == BOOL else x, r)
    if name == 'from_iterable':
        return chain_from(L, args[0], st)
    ts = [L.as_coll(a, st) for a in args]
    if ref is not None:
        havoc(L, ref, st)
    return lift(lambda *xs: opaque('method:' + name, *xs), t, *ts)


def put(L, ref, t, st, what):
    from .lower import Unsupported
    if ref is None:
        raise Unsupported(f'{what} on a value')
    L.mutate(ref, t, st)


def set_method(L, name, t, ref, args, kwargs, st):
    if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
        f = {'union': union, 'intersection': inter, 'difference': diff, 'symmetric_difference': symdiff}[name]
        r = t
        for a in args:
            r = f(r, L.as_set(a, st))
        return r
    if name == 'issubset':
        return subset(t, L.as_set(args[0], st))
    if name == 'issuperset':
        return subset(L.as_set(args[0], st), t)
    if name == 'isdisjoint':
        return disjoint(t, L.as_set(args[0], st))
    if name == 'copy':
        return t
    if name == 'add':
        put(L, ref, union(t, setlit([L.snap(args[0], st)])), st, name)
        return tm.NONE
    if name in ('update', 'intersection_update', 'difference_update', 'symmetric_difference_update'):
        f = {'update': union, 'intersection_update': inter, 'difference_update': diff,
             'symmetric_difference_update': symdiff}[name]
        r = t
        for a in args:
            r = f(r, L.as_set(a, st))
        put(L, ref, r, st, name)
        return tm.NONE
    if name in ('remove', 'discard'):
        if name == 'remove' and L.crashes:
            L.crash(not_(member(L.snap(args[0], st), t)), st)
        put(L, ref, diff(t, setlit([L.snap(args[0], st)])), st, name)
        return tm.NONE
    if name == 'clear':
        put(L, ref, empty_set(t.ty), st, name)
        return tm.NONE
    if name == 'pop':
        e = lift(lambda x: first_of(L, x), t)
        if L.crashes:
            L.crash(not_(L.truth(t, st)), st)
        put(L, ref, diff(t, setlit([e])), st, name)
        return e
    return NotImplemented


def dict_method(L, name, t, ref, args, kwargs, st):
    from .lower import GenV, PyTup, Ref
    if name in ('items', 'keys', 'values') and t in L.literal_keys:
        ks = L.literal_keys[t]
        if name == 'items':
            return PyTup([PyTup([k, sel(t, k)]) for k in ks])
        return PyTup([k if name == 'keys' else sel(t, k) for k in ks])
    if name == 'keys':
        return keys(t)
    if name in ('items', 'values'):
        ets = {elem_ty(l.ty) for l in tm.leaves_of(t) if l is not tm.UNDEF and not (l.op == 'dict' and l.args[1] is tm.FALSE)}
        ets = {e for e in ets if e != tm.ANY} or ets or {elem_ty(t.ty)}
        z = fresh('z', ets.pop() if len(ets) == 1 else tm.MIX)
        v = sel(t, z)
        if ref is not None and (L.is_container(v) or any(L.is_container(l) for l in tm.leaves_of(v)) or
                                v.ty[0] == 'tuple' or (v.ty[0] == 'cls' and L.is_mutable(v.ty[1]))):
            vv = Ref(ref.loc, ref.path + (('k', z),))
            return GenV([(z, member(z, t))], PyTup([z, vv]) if name == 'items' else vv, unique=True)
        return GenV([(z, member(z, t))], tup(z, v) if name == 'items' else v, unique=True)
    if name == 'get':
        k = L.snap(args[0], st)
        d = L.snap(args[1], st) if len(args) > 1 else tm.NONE
        return tm.dget(t, k, d)
    if name == 'copy':
        return t
    if name == 'setdefault':
        k = L.snap(args[0], st)
        d = L.snap(args[1], st) if len(args) > 1 else tm.NONE
        nd = ite3(member(k, t), t, dstore(t, k, d))
        put(L, ref, nd, st, name)
        if ref is not None and (L.is_container(d) or (d.ty[0] == 'cls' and L.is_mutable(d.ty[1]))):
            return Ref(ref.loc, ref.path + (('k', k),))
        return sel(nd, k)
    if name == 'pop':
        k = L.snap(args[0], st)
        if len(args) > 1:
            v = tm.dget(t, k, L.snap(args[1], st))
        else:
            L.crash(not_(member(k, t)), st)
            v = sel(t, k)
        put(L, ref, ddel(t, k), st, name)
        return v
    if name == 'update':
        if args:
            v = args[0]
            if isinstance(v, GenV):
                d = L.gen_dict(v, st)
            else:
                d = f_dict(L, [v], {}, st)
            if getattr(L, 'is_counter', None) and L.is_counter(ref, st):
                raise_unsupported('Counter.update')
            put(L, ref, dmerge(t, d), st, name)
        return tm.NONE
    if name == 'clear':
        put(L, ref, empty_dict(t.ty), st, name)
        return tm.NONE
    return NotImplemented


def list_method(L, name, t, ref, args, kwargs, st):
    if name == 'append':
        put(L, ref, append(t, L.snap(args[0], st)), st, name)
        return tm.NONE
    if name == 'extend':
        put(L, ref, concat(t, L.to_list(args[0], st)), st, name)
        return tm.NONE
    if name == 'copy':
        return t
    if name == 'clear':
        put(L, ref, mk('list', ty=t.ty), st, name)
        return tm.NONE
    if name == 'sort':
        put(L, ref, lift(lambda x: _arranged(x, tuple(sorted(kwargs)), kwargs), t), st, name)
        return tm.NONE
    if name == 'count':
        return lift(lambda x, y: mk('lcount', x, y, ty=NUM), t, L.snap(args[0], st))
    if name == 'pop':
        if ref is None:
            raise_unsupported('pop')
        i = L.snap(args[0], st) if args else const(-1)
        v = at(t, i)

        def drop(x, j):
            if x.op == 'list' and j.op == 'const' and -len(x.args) <= j.args[1] < len(x.args):
                n = int(j.args[1]) % len(x.args)
                return mk('list', *(x.args[:n] + x.args[n + 1:]), ty=x.ty)
            if x.op == 'app' and j.op == 'const' and j.args[1] == -1:
                return x.args[0]
            return mk('lpop', x, j, ty=x.ty)
        put(L, ref, lift(drop, t, i), st, name)
        return v
    if name == 'insert' and len(args) == 2:
        def ins(x, j, v):
            if x.op == 'list' and j.op == 'const':
                n = int(j.args[1])
                xs = list(x.args)
                xs.insert(n, v)
                return mk('list', *xs, ty=('list', v.ty))
            if j is tm.ZERO:
                return concat(mk('list', v, ty=x.ty), x)
            return mk('linsert', x, j, v, ty=x.ty)
        put(L, ref, lift(ins, t, L.snap(args[0], st), L.snap(args[1], st)), st, name)
        return tm.NONE
    if name == 'remove' and len(args) == 1:
        def rem(x, v):
            if x.op == 'list' and all(y.op == 'const' for y in x.args) and v.op == 'const':
                ys = list(x.args)
                if v not in ys:
                    return tm.UNDEF
                ys.remove(v)
                return mk('list', *ys, ty=x.ty)
            return tm.lremove(x, v)
        put(L, ref, lift(rem, t, L.snap(args[0], st)), st, name)
        return tm.NONE
    return NotImplemented
