"""Ownership analysis: abstract interpretation of the source over access paths.

A value is a set of locations:
  ('p', i)            what parameter i of the analysed entry refers to (0 = self)
  ('f', L, name)      what field `name` of L refers to when the entry is called
  ('e', L)            a member of container L (for a dict: a value)
  ('k', L)            a key of dict L
  ('a', n)            an object allocated during the call (kind and contents in the heap)
  ('fn', n)           a function value
Values without identity that matters (numbers, strings, booleans) have no location.
Callees are analysed in place with the caller's locations (context sensitive, recursion cut to bottom and
iterated).  Events are collected: mutations of containers, attribute stores, constructions, returns, refusals.
"""
import ast
import copy as copying
import itertools

from .model import AnalysisBroken

GROW = {'add', 'append', 'update', 'extend', 'insert', 'setdefault', 'appendleft', 'push', '__setitem__'}
SHRINK = {'pop', 'remove', 'discard', 'clear', 'popitem', 'difference_update', 'intersection_update',
          'symmetric_difference_update', '__delitem__', 'popleft'}
MUTATORS = GROW | SHRINK | {'sort', 'reverse'}
COPIES = {'copy', 'union', 'intersection', 'difference', 'symmetric_difference'}
VIEWS = {'items', 'keys', 'values'}
CTORS = {'set': 'set', 'frozenset': 'fset', 'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'sorted': 'list',
         'defaultdict': 'dict', 'Counter': 'dict', 'OrderedDict': 'dict', 'deque': 'list', 'reversed': 'tuple',
         'enumerate': 'tuple', 'zip': 'tuple', 'map': 'tuple', 'filter': 'tuple', 'iter': 'tuple', 'chain': 'tuple'}
MUTABLE = {'set', 'dict', 'list'}
SCALAR = {'num', 'str', 'bool', 'none'}


# ---- annotation shapes: ('set',e) ('fset',e) ('dict',k,v) ('list',e) ('tuple',..) ('cls',n) ('any',) ('num',) .. ----
def shape(prog, a):
    if a is None:
        return ('any',)
    if isinstance(a, ast.Constant):
        if isinstance(a.value, str):
            try:
                return shape(prog, ast.parse(a.value, mode='eval').body)
            except SyntaxError:
                return ('any',)
        return ('none',) if a.value is None else ('any',)
    if isinstance(a, ast.Attribute):
        return shape(prog, ast.Name(id=a.attr))
    if isinstance(a, ast.Tuple):
        return ('tuple',) + tuple(shape(prog, e) for e in a.elts)
    base, elts = None, []
    if isinstance(a, ast.Name):
        base = a.id
    elif isinstance(a, ast.Subscript):
        base = a.value.id if isinstance(a.value, ast.Name) else getattr(a.value, 'attr', '')
        elts = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
    elif isinstance(a, ast.BinOp):
        xs = [x for x in (shape(prog, a.left), shape(prog, a.right)) if x != ('none',)]
        return xs[0] if len(xs) == 1 else ('any',)
    if base is None:
        return ('any',)
    b = base.lower()
    sub = [shape(prog, e) for e in elts]
    if b in ('int', 'float'):
        return ('num',)
    if b in ('bool', 'str'):
        return (b,)
    if base == 'Optional' and sub:
        return sub[0]
    if base == 'Union':
        xs = [s for s in sub if s != ('none',)]
        return xs[0] if len(xs) == 1 else ('any',)
    if b in ('frozenset', 'abstractset'):
        return ('fset', sub[0] if len(sub) == 1 else (('tuple',) + tuple(sub) if sub else ('any',)))
    if b in ('set', 'mutableset'):
        return ('set', sub[0] if sub else ('any',))
    if b in ('dict', 'defaultdict', 'counter', 'mutablemapping', 'ordereddict'):
        return ('dict',) + (tuple(sub) if len(sub) == 2 else (('any',), ('any',)))
    if b in ('list', 'mutablesequence', 'deque'):
        return ('list', sub[0] if sub else ('any',))
    if b == 'tuple':
        return ('tuple',) + tuple(sub)
    if base in prog.classes:
        return ('cls', base)
    return ('any',)


def elem_shape(s):
    if s[0] in ('set', 'fset', 'list'):
        return s[1]
    if s[0] == 'dict':
        return s[2]
    if s[0] == 'tuple' and len(s) > 1:
        xs = [x for x in s[1:] if x[0] not in SCALAR]
        if not xs:
            return s[1]
        return xs[0] if all(x == xs[0] for x in xs) else ('any',)
    return ('any',)


def key_shape(s):
    return s[1] if s[0] == 'dict' else ('any',)


class Event:
    def __init__(self, kind, loc, op, node, func, stack, state, extra=None):
        self.kind, self.loc, self.op, self.node, self.func = kind, loc, op, node, func
        self.stack = list(stack)
        self.extra = extra
        self.dirty = frozenset(state.dirty)
        self.guards = tuple(state.guards)

    @property
    def where(self):
        import os
        from .model import REPO
        return f'{os.path.relpath(self.func.module.path, REPO)}:{getattr(self.node, "lineno", 0)}'


class State:
    """flow-sensitive part: variables of every live frame, heap contents, what the entry already changed"""

    def __init__(self):
        self.env = {}        # (frame id, name) -> frozenset of locs
        self.heap = {}       # (loc, key) -> frozenset of locs
        self.dirty = set()   # (loc, op) mutations of caller-visible state so far
        self.guards = []
        self.dead = False

    def copy(self):
        s = State()
        s.env, s.heap, s.dirty, s.guards, s.dead = dict(self.env), dict(self.heap), set(self.dirty), \
            list(self.guards), self.dead
        return s

    def assign(self, o):
        self.env, self.heap, self.dirty, self.guards, self.dead = o.env, o.heap, o.dirty, o.guards, o.dead


def _default(l, key):
    if l[0] == 'a':
        return EMPTY
    if key == '*':
        return frozenset([('e', l)])
    if key == '#k':
        return frozenset([('k', l)])
    if isinstance(key, int):
        return frozenset([('e', l)])
    return frozenset([('f', l, key)])


def join(a, b):
    if a.dead:
        return b.copy()
    if b.dead:
        return a.copy()
    s = a.copy()
    for k in set(a.env) | set(b.env):
        s.env[k] = a.env.get(k, frozenset()) | b.env.get(k, frozenset())
    for k in set(a.heap) | set(b.heap):
        x = a.heap.get(k)
        y = b.heap.get(k)
        if k[0][0] == 'i':
            bk = (k[0][1], k[1])
            dx, dy = a.heap.get(bk, _default(*bk)), b.heap.get(bk, _default(*bk))
        else:
            dx = dy = _default(k[0], k[1])
        s.heap[k] = (x if x is not None else dx) | (y if y is not None else dy)
    s.dirty = a.dirty | b.dirty
    s.guards = a.guards
    return s


def same(a, b):
    return a.env == b.env and a.heap == b.heap and a.dirty == b.dirty and a.dead == b.dead


EMPTY = frozenset()


def depth(loc):
    n = 0
    while loc[0] in ('f', 'e', 'k', 'i'):
        loc = loc[1]
        n += 1
    return n


def root(loc):
    while loc[0] in ('f', 'e', 'k', 'i'):
        loc = loc[1]
    return loc


def path_str(loc, names=('self',)):
    if loc[0] == 'p':
        return names[loc[1]] if loc[1] < len(names) else f'arg{loc[1]}'
    if loc[0] == 'f':
        return path_str(loc[1], names) + '.' + loc[2]
    if loc[0] == 'e':
        return path_str(loc[1], names) + '[*]'
    if loc[0] == 'k':
        return path_str(loc[1], names) + '.key'
    if loc[0] == 'i':
        return path_str(loc[1], names)
    return '<new>'


class Frame:
    def __init__(self, func, parent=None):
        self.func, self.parent = func, parent
        self.ret = EMPTY
        self.exits = []
        self.id = None


class OutOfBudget(Exception):
    pass


class Own:
    LEVELS = ((7, 2), (7, 1), (5, 1), (3, 1))     # (call depth, re-entries), relaxed when the budget runs out
    BUDGET = 700

    def __init__(self, prog, hints=None, params=None):
        self.prog = prog
        self.fields = self._field_shapes()
        self.hints = hints or {}          # (class, field) -> shape, where the source has no annotation
        self.param_hints = params or {}
        self.reads = self._field_reads()

    # ---- class tables ----------------------------------------------------------------
    def _field_shapes(self):
        out = {}
        for c in self.prog.classes.values():
            for m in c.methods.values():
                ann = {p.arg: p.annotation for p in m.node.args.posonlyargs + m.node.args.args + m.node.args.kwonlyargs}
                for n in ast.walk(m.node):
                    if isinstance(n, ast.AnnAssign):
                        t, v, an = n.target, n.value, n.annotation
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                        t, v, an = n.targets[0], n.value, None
                    else:
                        continue
                    if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'):
                        continue
                    s = shape(self.prog, an) if an is not None else ('any',)
                    if s == ('any',) and isinstance(v, ast.Name) and v.id in ann:
                        s = shape(self.prog, ann[v.id])
                    if s == ('any',) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                        if v.func.id in self.prog.classes:
                            s = ('cls', v.func.id)
                        elif v.func.id in ('set', 'dict', 'list', 'frozenset', 'defaultdict', 'Counter'):
                            s = {'frozenset': ('fset', ('any',)), 'set': ('set', ('any',)),
                                 'list': ('list', ('any',))}.get(v.func.id, ('dict', ('any',), ('any',)))
                    if s == ('any',) and isinstance(v, (ast.List, ast.ListComp)):
                        s = ('list', ('any',))
                    if s == ('any',) and isinstance(v, (ast.Dict, ast.DictComp)):
                        s = ('dict', ('any',), ('any',))
                    if s == ('any',) and isinstance(v, (ast.Set, ast.SetComp)):
                        s = ('set', ('any',))
                    if out.get((c.name, t.attr), ('any',)) == ('any',):
                        out[(c.name, t.attr)] = s
        return out

    def _field_reads(self):
        out = {}
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    out[n.attr] = out.get(n.attr, 0) + 1
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'vars'):
                    out['*'] = out.get('*', 0) + 1
        return out

    def field_shape(self, cls, f):
        for c in self.prog.mro(cls):
            s = self.fields.get((c.name, f))
            h = self.hints.get((c.name, f))
            if h is not None:
                return h
            if s and s != ('any',):
                return s
        return ('any',)

    def subclasses(self, name):
        return [c for c in self.prog.classes if self.prog.subclass_of(c, name)]

    # ---- entry ------------------------------------------------------------------------
    def run(self, func, cls=None, construct=False):
        for self.maxdepth, self.recur in self.LEVELS:
            self.calls = 0
            try:
                return self._run(func, cls, construct)
            except OutOfBudget:
                self.cur, self.frames = None, ()
        self.calls = -10 ** 9
        return self._run(func, cls, construct)

    def cases(self, func, cls=None, construct=False):
        """one run per combination of the constants its arguments are compared with (at most three)"""
        self.assume = {}
        self.run(func, cls, construct)
        keys = sorted(self.splits)[:3]
        if not keys:
            yield {}
            return
        for vals in itertools.product((True, False), repeat=len(keys)):
            a = dict(zip(keys, vals))
            eq = [k[0] for k, v in a.items() if v]
            if len(eq) != len(set(eq)):
                continue                    # one argument equal to two constants
            self.assume = a
            self.run(func, cls, construct)
            yield a
        self.assume = {}

    assume = {}

    def _run(self, func, cls=None, construct=False):
        """analyse one entry point; returns the events and the final state"""
        self.ev = []
        self.kinds = {}
        self.shapes = {}
        self.nalloc = 0
        self.allocs = {}
        self.fns = {}
        self.stack = []
        self.splits = set()
        self.has_self = bool(func.cls) and not func.static
        self.self_loc = None
        self.returns = EMPTY
        self.depth_cut = 0
        self.memo = {}
        st = State()
        args = func.node.args
        params = args.posonlyargs + args.args
        self.names = [p.arg for p in params]
        locs = []
        for i, p in enumerate(params):
            if i == 0 and func.cls and not func.static:
                s = ('cls', cls or func.cls.name)
            else:
                s = shape(self.prog, p.annotation)
                if s == ('any',):
                    s = self.param_hints.get(p.arg, s)
            if construct and i == 0:
                a = self.alloc(func.node, 'obj', ('cls', cls), ())
                self.self_loc = a
                locs.append(frozenset([a]))
                continue
            self.shapes[('p', i)] = s
            locs.append(EMPTY if s[0] in SCALAR else frozenset([('p', i)]))
            if i == 0:
                self.self_loc = ('p', 0)
        env = {}
        for p, l in zip(params, locs):
            env[p.arg] = l
        k = len(params)
        for p in args.kwonlyargs:
            self.shapes[('p', k)] = shape(self.prog, p.annotation)
            env[p.arg] = frozenset([('p', k)])
            self.names.append(p.arg)
            k += 1
        if args.vararg:
            env[args.vararg.arg] = EMPTY
        if args.kwarg:
            env[args.kwarg.arg] = EMPTY
        r, end = self.body(func, env, st, None)
        self.returns = r
        self.final = end
        return self

    # ---- locations ---------------------------------------------------------------------
    def alloc(self, node, kind, shp, ctx=None):
        key = (id(node), kind, tuple(self.ctx()))
        if key not in self.allocs:
            self.nalloc += 1
            a = ('a', self.nalloc)
            self.allocs[key] = a
            self.kinds[a] = kind
            self.shapes[a] = shp
        return self.allocs[key]

    def ctx(self):
        return self.stack[-2:]

    def shp(self, loc):
        s = self.shapes.get(loc)
        if s is not None:
            return s
        if loc[0] == 'f':
            b = self.shp(loc[1])
            s = self.field_shape(b[1], loc[2]) if b[0] == 'cls' else ('any',)
        elif loc[0] == 'e':
            s = elem_shape(self.shp(loc[1]))
        elif loc[0] == 'k':
            s = key_shape(self.shp(loc[1]))
        elif loc[0] == 'i':
            s = self.shp(loc[1])
        else:
            s = ('any',)
        self.shapes[loc] = s
        return s

    def is_mutable(self, loc):
        while loc[0] == 'i':
            loc = loc[1]
        if loc[0] == 'a':
            return self.kinds.get(loc) in MUTABLE
        return self.shp(loc)[0] in MUTABLE

    def getf(self, st, loc, f):
        if (loc, f) in st.heap:
            return st.heap[(loc, f)]
        if loc[0] == 'i':
            return self.getf(st, loc[1], f)
        if loc[0] in ('a', 'fn'):
            return EMPTY
        if depth(loc) > 5:
            return EMPTY
        l = ('f', loc, f)
        if self.shp(l)[0] in SCALAR:
            return EMPTY
        return frozenset([l])

    def kind(self, l):
        while l[0] == 'i':
            l = l[1]
        return self.kinds.get(l) if l[0] == 'a' else self.shp(l)[0]

    def _sub(self, st, l, key):
        if (l, key) in st.heap:
            return st.heap[(l, key)]
        if l[0] == 'i':
            return self._sub(st, l[1], key)
        if l[0] in ('a', 'fn') or depth(l) > 5:
            return EMPTY
        s = key_shape(self.shp(l)) if key == '#k' else elem_shape(self.shp(l))
        return EMPTY if s[0] in SCALAR else frozenset([('k' if key == '#k' else 'e', l)])

    def elems(self, st, locs):
        """what iteration yields"""
        out = set()
        for l in locs:
            out |= self._sub(st, l, '#k' if self.kind(l) == 'dict' else '*')
        return frozenset(out)

    def items(self, st, locs):
        """what subscription yields"""
        out = set()
        for l in locs:
            out |= self._sub(st, l, '*')
        if self.hints:
            insts = {k[0] for k in st.heap if k[0][0] == 'i'}
            out |= {i for i in insts if i[1] in out}
        return frozenset(out)

    def nth(self, st, l, i):
        """the element of a list of objects at one fixed position, told apart from the others"""
        if not self.hints or self.kind(l) != 'list':
            return None
        out = set()
        for x in self._sub(st, l, '*'):
            if x[0] == 'i' or self.shp(x)[0] != 'cls':
                return None
            out.add(('i', x, i))
        return frozenset(out)

    def fill(self, st, dst, src):
        """dst gets what src contains (copying dicts keeps keys and values apart)"""
        for l in src:
            if self.kind(l) == 'dict' and all(self.kind(d) == 'dict' for d in dst):
                self.put(st, dst, '#k', self._sub(st, l, '#k'))
                self.put(st, dst, '*', self._sub(st, l, '*'))
            elif all(self.kind(d) == 'dict' for d in dst) and dst:
                for t in self._sub(st, l, '*'):          # an iterable of pairs
                    self.put(st, dst, '#k', self.at(st, t, 0))
                    self.put(st, dst, '*', self.at(st, t, 1))
            else:
                self.put(st, dst, '*', self.elems(st, [l]))

    def at(self, st, l, i):
        if (l, i) in st.heap:
            return st.heap[(l, i)]
        s = self.shp(l)
        if l[0] != 'a' and s[0] == 'tuple' and len(s) > i + 1:
            if s[i + 1][0] in SCALAR:
                return EMPTY
            x = ('f', l, str(i))
            self.shapes[x] = s[i + 1]
            return frozenset([x])
        return self._sub(st, l, '*')

    def put(self, st, locs, key, val, strong=False):
        for l in locs:
            if l[0] == 'fn':
                continue
            if strong and len(locs) == 1:
                st.heap[(l, key)] = frozenset(val)
            else:
                old = st.heap.get((l, key))
                if old is None:
                    old = _default(l, key) if l[0] != 'i' else self.getf(st, l, key)
                st.heap[(l, key)] = old | val
            if self.hints:
                for k in [k for k in st.heap if k[1] == key and k[0][0] == 'i' and k[0][1] == l]:
                    st.heap[k] = st.heap[k] | frozenset(val)

    def event(self, kind, loc, op, node, st, extra=None):
        self.ev.append(Event(kind, loc, op, node, self.cur.func, self.stack_funcs(), st, extra))

    def stack_funcs(self):
        out = []
        f = self.cur
        for fr in self.frames:
            out.append(fr.func)
        return out

    def mutate(self, st, locs, op, node):
        for l in locs:
            if l[0] == 'fn':
                continue
            self.event('mutate', l, op, node, st)
            if l[0] != 'a':
                st.dirty.add((l, op))

    # ---- functions ---------------------------------------------------------------------
    frames = ()
    cur = None

    def body(self, func, env, st, parent, node=None):
        node = node or func.node
        fr = Frame(func, parent)
        self._fid = getattr(self, '_fid', 0) + 1
        fr.id = self._fid
        old, self.cur = self.cur, fr
        oldf, self.frames = self.frames, tuple(self.frames) + (fr,)
        for k, v in env.items():
            st.env[(fr.id, k)] = v
        if isinstance(node, ast.Lambda):
            fr.ret = self.expr(node.body, st)
            end = st
        else:
            self.block(node.body, st)
            end = st
            for r, s in fr.exits:
                fr.ret |= r
            states = [s for _, s in fr.exits] + ([st.copy()] if not st.dead else [])
            if states:
                j = states[0]
                for s in states[1:]:
                    j = join(j, s)
                st.assign(j)
                st.dead = False
            # all paths raise: st stays dead
            if self._is_gen(node):
                a = self.alloc(node, 'tuple', ('tuple',))
                self.put(st, [a], '*', fr.ret)
                fr.ret = frozenset([a])
        for k in [k for k in st.env if k[0] == fr.id]:
            if not self.closed_over(fr):
                del st.env[k]
        self.cur, self.frames = old, oldf
        return fr.ret, end

    def closed_over(self, fr):
        return getattr(fr, 'captured', False)

    @staticmethod
    def _is_gen(node):
        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def call_func(self, func, args, kw, st, node, self_locs=None, closure=None, cls=None):
        """args: list of loc sets; returns locs"""
        key = (func.module.name, func.qual, id(func.node))
        active = [k for k in self.stack if k[:3] == key]
        self.calls += 1
        if self.calls > self.BUDGET:
            raise OutOfBudget
        if len(self.stack) >= self.maxdepth or len(active) >= self.recur:
            self.depth_cut += 1
            return EMPTY
        a = func.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        vals = list(args)
        if self_locs is not None and func.cls is not None and not func.static:
            vals = [self_locs] + vals
        defaults = a.defaults
        dstart = len(params) - len(defaults)
        for i, p in enumerate(params):
            if i < len(vals):
                env[p] = vals[i]
            elif p in kw:
                env[p] = kw[p]
            else:
                env[p] = EMPTY
        for p in a.kwonlyargs:
            env[p.arg] = kw.get(p.arg, EMPTY)
        if a.vararg:
            t = self.alloc(node, 'tuple', ('tuple',))
            self.put(st, [t], '*', frozenset().union(*vals[len(params):]) if len(vals) > len(params) else EMPTY)
            env[a.vararg.arg] = frozenset([t])
        if a.kwarg:
            t = self.alloc(node, 'dict', ('dict', ('any',), ('any',)))
            self.put(st, [t], '*', frozenset().union(*[v for k, v in kw.items() if k not in params]))
            env[a.kwarg.arg] = frozenset([t])
        self.stack.append(key + (id(node),))
        try:
            r, _ = self.body(func, env, st, closure)
        finally:
            self.stack.pop()
        return r

    # ---- statements --------------------------------------------------------------------
    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return
            self.stmt(s, st)

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            m(s, st)

    def s_Expr(self, s, st):
        self.expr(s.value, st)

    def s_Return(self, s, st):
        r = self.expr(s.value, st) if s.value else EMPTY
        self.cur.exits.append((r, st.copy()))
        st.dead = True

    def s_Assign(self, s, st):
        v = self.expr(s.value, st)
        for t in s.targets:
            self.store(t, v, st, s.value)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.expr(s.value, st)
            if len(v) == 1:
                l = next(iter(v))
                if l[0] == 'a' and self.shapes.get(l, ('any',))[1:] in ((('any',),), (('any',), ('any',)), ()):
                    sh = shape(self.prog, s.annotation)
                    if sh[0] == self.kinds[l]:
                        self.shapes[l] = sh
            self.store(s.target, v, st, s.value)

    def s_AugAssign(self, s, st):
        v = self.expr(s.value, st)
        t = s.target
        cur = self.expr(self._load(t), st)
        conts = frozenset(l for l in cur if self.is_mutable(l))
        if conts:      # in-place operator on a mutable container
            self.mutate(st, conts, {'BitOr': 'update', 'Add': 'extend', 'Sub': 'difference_update',
                                    'BitAnd': 'intersection_update'}.get(type(s.op).__name__, 'update'), s)
            self.fill(st, conts, v)
            self.store(t, cur, st, None, aug=True)
        else:
            self.store(t, cur if isinstance(t, ast.Name) and cur else EMPTY, st, None)

    @staticmethod
    def _load(t):
        import copy as _c
        n = _c.copy(t)
        n.ctx = ast.Load()
        return n

    def store(self, t, v, st, value, aug=False):
        if isinstance(t, ast.Name):
            fr = self.frame_of(t.id, store=True)
            st.env[(fr.id, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for a, b in zip(t.elts, [self.expr(x, st) for x in value.elts]):
                    self.store(a, b, st, None)
            else:
                star = any(isinstance(a, ast.Starred) for a in t.elts)
                for i, a in enumerate(t.elts):
                    e = self.elems(st, v) if star else frozenset().union(
                        *[self.at(st, l, i) if self.kind(l) not in ('dict', 'set', 'fset') else self.elems(st, [l])
                          for l in v])
                    self.store(a, e, st, None)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, st, None)
        elif isinstance(t, ast.Attribute):
            base = self.expr(t.value, st)
            for l in base:
                self.event('store', l, t.attr, t, st, v)
                if root(l)[0] != 'a':
                    st.dirty.add((('f', l, t.attr), 'store'))
            if not aug:
                self.put(st, base, t.attr, v, strong=True)
        elif isinstance(t, ast.Subscript):
            base = self.expr(t.value, st)
            k = self.expr(t.slice, st)
            for l in list(base):
                m = self.prog.find_method(self.shp(l)[1], '__setitem__') if self.shp(l)[0] == 'cls' else None
                if m is not None:
                    self.call_func(m, [k, v], {}, st, t, self_locs=frozenset([l]))
                    base = base - {l}
            self.mutate(st, base, '__setitem__', t)
            self.put(st, base, '*', v)
            self.put(st, base, '#k', k)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.mutate(st, self.expr(t.value, st), '__delitem__', t)
            elif isinstance(t, ast.Attribute):
                for l in self.expr(t.value, st):
                    self.event('store', l, t.attr, t, st, EMPTY)

    def cond(self, test, st):
        self.expr(test, st)

    def s_If(self, s, st):
        self.cond(s.test, st)
        a, b = st.copy(), st.copy()
        a.guards = st.guards + [(s.test, True, self.cur.id)]
        b.guards = st.guards + [(s.test, False, self.cur.id)]
        self.narrow(s.test, True, a)
        self.narrow(s.test, False, b)
        known = self.decide(s.test, st)
        if known is not None:
            (b if known else a).dead = True
        self.block(s.body, a)
        self.block(s.orelse, b)
        g = st.guards
        j = join(a, b)
        if a.dead and b.dead:
            j.dead = True
        # keep knowledge of an early exit
        if a.dead and not b.dead:
            g = g + [(s.test, False, self.cur.id)]
        elif b.dead and not a.dead:
            g = g + [(s.test, True, self.cur.id)]
        j.guards = g
        st.assign(j)

    def decide(self, test, st, depth=0):
        """the outcome of a test that the receiver being an object, or the assumed arguments, settle"""
        if not self.hints:
            return None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            v = self.decide(test.operand, st, depth)
            return None if v is None else not v
        if isinstance(test, ast.BoolOp):
            vs = [self.decide(v, st, depth) for v in test.values]
            stop = isinstance(test.op, ast.Or)
            if stop in vs:
                return stop
            return None if None in vs else not stop
        if isinstance(test, ast.Call) and depth < 4:
            t = self.inline_test(test)
            return None if t is None else self.decide(t, st, depth + 1)
        if isinstance(test, ast.Name):
            fr = self.frame_of(test.id)
            locs = st.env.get((fr.id, test.id), EMPTY) if fr else EMPTY
            if not locs and fr is not None and depth < 4:       # a flag computed once from a comparison
                defs = [n for n in ast.walk(fr.func.node) if isinstance(n, (ast.Assign, ast.AugAssign, ast.For))
                        and any(isinstance(x, ast.Name) and x.id == test.id and isinstance(x.ctx, ast.Store)
                                for x in ast.walk(n))]
                if len(defs) == 1 and isinstance(defs[0], ast.Assign) and isinstance(defs[0].targets[0], ast.Name) \
                        and isinstance(defs[0].value, (ast.Compare, ast.UnaryOp, ast.BoolOp, ast.Call)):
                    return self.decide(defs[0].value, st, depth + 1)
                return None
            return self._known(locs, '0', False)
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
            return None
        l, op, r = test.left, test.ops[0], test.comparators[0]
        if isinstance(l, ast.Constant):
            l, r = r, l
            op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()
        if not isinstance(r, ast.Constant) or not isinstance(l, ast.Name):
            return None
        fr = self.frame_of(l.id)
        locs = st.env.get((fr.id, l.id), EMPTY) if fr else EMPTY
        pos = isinstance(op, (ast.Eq, ast.Is))
        if r.value is None:
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and locs and \
                    all(x[0] == 'a' or x == self.self_loc and self.has_self for x in locs):
                return not pos
            return None
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            return self._known(locs, repr(r.value), pos)
        if r.value == 0 and isinstance(op, (ast.Gt, ast.LtE)):        # positions in a list: never negative
            return self._known(locs, '0', isinstance(op, ast.LtE))
        if r.value == 1 and isinstance(op, (ast.GtE, ast.Lt)):
            return self._known(locs, '0', isinstance(op, ast.Lt))
        return None

    def _known(self, locs, const, pos):
        if len(locs) == 1:
            key = (next(iter(locs)), const)
            if key[0][0] == 'p' and self.shp(key[0])[0] in ('any', 'num'):
                self.splits.add(key)
                if key in self.assume:
                    return self.assume[key] == pos
        return None

    def inline_test(self, call):
        """a call to a function that only returns a test, as that test"""
        f, args = call.func, list(call.args)
        if call.keywords:
            return None
        tgt = None
        if isinstance(f, ast.Name):
            tgt = self.cur.func.module.funcs.get(f.id)
        elif isinstance(f, ast.Attribute):
            ms = [c.methods[f.attr] for c in self.prog.classes.values() if f.attr in c.methods]
            if len(ms) == 1:
                tgt = ms[0]
                if tgt.cls is not None and not tgt.static:
                    args = [f.value] + args
        if tgt is None:
            return None
        body = [s for s in tgt.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        params = [a.arg for a in tgt.node.args.args]
        if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None or len(params) != len(args) \
                or not all(isinstance(a, (ast.Name, ast.Constant)) for a in args):
            return None
        m = dict(zip(params, args))

        class Sub(ast.NodeTransformer):
            def visit_Name(self, n):
                return m.get(n.id, n)
        return Sub().visit(copying.deepcopy(body[0].value))

    def narrow(self, test, val, st):
        """x is None / not x: the name holds no object on that branch"""
        name = None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, not val, st)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None and isinstance(test.left, ast.Name):
            if isinstance(test.ops[0], (ast.Is, ast.Eq)):
                name, none = test.left.id, val
            else:
                name, none = test.left.id, not val
            if none:
                fr = self.frame_of(name)
                if fr:
                    st.env[(fr.id, name)] = EMPTY

    def loop(self, st, once):
        exits = []
        cur = st.copy()
        for _ in range(6):
            before = cur.copy()
            it = cur.copy()
            self.loops.append(exits_i := [])
            once(it)
            self.loops.pop()
            for kind, s in exits_i:
                if kind == 'break':
                    exits.append(s)
                else:
                    it = join(it, s)
            g = before.guards
            if it.dead:
                cur = before
            else:
                cur = join(before, it)
            cur.guards = g
            if same(cur, before):
                break
        for s in exits:
            g = cur.guards
            cur = join(cur, s)
            cur.guards = g
        st.assign(cur)

    loops = []

    def s_For(self, s, st):
        it = self.expr(s.iter, st)

        def once(x):
            self.bind_iter(s.target, s.iter, it, x)
            self.block(s.body, x)
        self.loop(st, once)
        self.block(s.orelse, st)

    def bind_iter(self, target, it_node, it, st):
        self.store(target, self.elems(st, it), st, None)

    def s_While(self, s, st):
        def once(x):
            self.cond(s.test, x)
            self.block(s.body, x)
        self.cond(s.test, st)
        self.loop(st, once)
        self.block(s.orelse, st)

    def s_Break(self, s, st):
        if self.loops:
            self.loops[-1].append(('break', st.copy()))
        st.dead = True

    def s_Continue(self, s, st):
        if self.loops:
            self.loops[-1].append(('continue', st.copy()))
        st.dead = True

    def s_Assert(self, s, st):
        self.cond(s.test, st)
        self.refuse(s, s.test, st)
        st.guards = st.guards + [(s.test, True, self.cur.id)]

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.expr(s.exc, st)
        self.refuse(s, None, st)
        st.dead = True

    def refuse(self, node, test, st):
        conts = frozenset()
        if test is not None and isinstance(test, (ast.Name, ast.Attribute)):
            n = len(self.ev)
            conts = self.expr(test, st)
        self.event('refuse', None, 'assert' if test is not None else 'raise', node, st, conts)

    def s_Try(self, s, st):
        start = st.copy()
        self.block(s.body, st)
        mid = join(start, st) if not st.dead else start
        outs = [st.copy()] if not st.dead else []
        for h in s.handlers:
            x = mid.copy()
            x.dead = False
            self.block(h.body, x)
            if not x.dead:
                outs.append(x)
        if s.orelse and not st.dead:
            self.block(s.orelse, outs[0])
        if outs:
            j = outs[0]
            for o in outs[1:]:
                j = join(j, o)
            st.assign(j)
        else:
            st.dead = True
        dead = st.dead
        if dead:
            st.dead = False
        self.block(s.finalbody, st)
        st.dead = st.dead or dead

    def s_With(self, s, st):
        for i in s.items:
            v = self.expr(i.context_expr, st)
            if i.optional_vars is not None:
                self.store(i.optional_vars, v, st, None)
        self.block(s.body, st)

    def s_FunctionDef(self, s, st):
        from .model import Func
        self.nalloc += 1
        l = ('fn', id(s), self.cur.id)
        fn = Func(s, self.cur.func.module, None)
        fn.outer = self.cur.func
        self.fns[l] = (fn, self.cur)
        f = self.cur
        while f is not None:
            f.captured = True
            f = f.parent
        st.env[(self.cur.id, s.name)] = frozenset([l])

    # ---- expressions ---------------------------------------------------------------------
    def frame_of(self, name, store=False):
        if store:
            return self.cur       # (nonlocal rebinding is rare; treated as local)
        f = self.cur
        st = self._st
        while f is not None:
            if (f.id, name) in st.env:
                return f
            f = f.parent
        return None

    def expr(self, e, st):
        self._st = st
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            return m(e, st)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, st)
        return EMPTY

    def e_Name(self, e, st):
        f = self.frame_of(e.id)
        if f is not None:
            return st.env[(f.id, e.id)]
        return EMPTY

    def e_Constant(self, e, st):
        return EMPTY

    def e_JoinedStr(self, e, st):
        return EMPTY

    def e_NamedExpr(self, e, st):
        v = self.expr(e.value, st)
        self.store(e.target, v, st, None)
        return v

    def e_Attribute(self, e, st):
        base = self.expr(e.value, st)
        out = set()
        for l in base:
            s = self.shp(l)
            if s[0] == 'cls':
                m = self.prog.find_method(s[1], e.attr)
                if m is not None and m.prop:
                    out |= self.call_func(m, [], {}, st, e, self_locs=frozenset([l]))
                    continue
                if m is not None and (l, e.attr) not in st.heap:
                    b = ('fn', 'bound', l, e.attr)
                    self.fns[b] = ('bound', l, e.attr)
                    out.add(b)
                    continue
            out |= self.getf(st, l, e.attr)
        return frozenset(out)

    def e_Subscript(self, e, st):
        base = self.expr(e.value, st)
        ix = self.expr(e.slice, st)
        own = [l for l in base if self.shp(l)[0] == 'cls' and self.prog.find_method(self.shp(l)[1], '__getitem__')]
        if own:
            out = set()
            for l in own:
                m = self.prog.find_method(self.shp(l)[1], '__getitem__')
                out |= self.call_func(m, [ix], {}, st, e, self_locs=frozenset([l]))
            base = base - set(own)
            if not base:
                return frozenset(out)
            return frozenset(out) | self.items(st, base)
        if isinstance(e.slice, ast.Slice):
            a = self.alloc(e, 'list', ('list', ('any',)))
            self.put(st, [a], '*', self.elems(st, base))
            return frozenset([a])
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
            out = set()
            for l in base:
                n = self.nth(st, l, e.slice.value)
                if n is not None:
                    out |= n
                    continue
                out |= self.at(st, l, e.slice.value) if self.kind(l) == 'tuple' else self.items(st, [l])
            return frozenset(out)
        return self.items(st, base)

    def e_Slice(self, e, st):
        for c in (e.lower, e.upper, e.step):
            if c is not None:
                self.expr(c, st)
        return EMPTY

    def _lit(self, e, kind, parts, st, shp=None):
        a = self.alloc(e, kind, shp or {'set': ('set', ('any',)), 'list': ('list', ('any',)),
                                        'dict': ('dict', ('any',), ('any',)), 'tuple': ('tuple',),
                                        'fset': ('fset', ('any',))}[kind])
        self.put(st, [a], '*', frozenset().union(*parts) if parts else EMPTY)
        return a

    def e_Tuple(self, e, st):
        vs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                vs.append(self.elems(st, self.expr(x.value, st)))
            else:
                vs.append(self.expr(x, st))
        a = self._lit(e, 'tuple', vs, st)
        for i, v in enumerate(vs):
            st.heap[(a, i)] = v
        return frozenset([a])

    def e_List(self, e, st):
        vs = [self.elems(st, self.expr(x.value, st)) if isinstance(x, ast.Starred) else self.expr(x, st)
              for x in e.elts]
        return frozenset([self._lit(e, 'list', vs, st)])

    def e_Set(self, e, st):
        vs = [self.elems(st, self.expr(x.value, st)) if isinstance(x, ast.Starred) else self.expr(x, st)
              for x in e.elts]
        return frozenset([self._lit(e, 'set', vs, st)])

    def e_Dict(self, e, st):
        ks, vs, ups = [], [], []
        for k, v in zip(e.keys, e.values):
            if k is None:
                ups.append(self.expr(v, st))
            else:
                ks.append(self.expr(k, st))
                vs.append(self.expr(v, st))
        a = self._lit(e, 'dict', vs, st)
        self.put(st, [a], '#k', frozenset().union(*ks))
        for u in ups:
            self.fill(st, [a], u)
        return frozenset([a])

    def comp(self, e, kind, elts, st):
        x = st.copy()
        fr = Frame(self.cur.func, self.cur)
        self._fid += 1
        fr.id = self._fid
        old, self.cur = self.cur, fr
        for g in e.generators:
            it = self.expr(g.iter, x)
            self.store(g.target, self.elems(x, it), x, None)
            for i in g.ifs:
                self.expr(i, x)
        vs = [self.expr(k, x) for k in elts]
        # once more, in case a called function changed something read by another element
        vs = [v | self.expr(k, x) for k, v in zip(elts, vs)]
        self.cur = old
        for k in [k for k in x.env if k[0] == fr.id]:
            if not getattr(fr, 'captured', False):
                del x.env[k]
        j = join(st, x)
        j.guards = st.guards
        st.assign(j)
        if kind == 'dict':
            a = self._lit(e, kind, vs[1:], st)
            self.put(st, [a], '#k', vs[0])
            return frozenset([a])
        return frozenset([self._lit(e, kind, vs, st)])

    def e_ListComp(self, e, st):
        return self.comp(e, 'list', [e.elt], st)

    def e_SetComp(self, e, st):
        return self.comp(e, 'set', [e.elt], st)

    def e_GeneratorExp(self, e, st):
        return self.comp(e, 'tuple', [e.elt], st)

    def e_DictComp(self, e, st):
        return self.comp(e, 'dict', [e.key, e.value], st)

    def e_IfExp(self, e, st):
        self.cond(e.test, st)
        a, b = st.copy(), st.copy()
        self.narrow(e.test, True, a)
        self.narrow(e.test, False, b)
        known = self.decide(e.test, st)
        if known is not None:
            v = self.expr(e.body if known else e.orelse, st)
            return v
        x = self.expr(e.body, a)
        y = self.expr(e.orelse, b)
        g = st.guards
        j = join(a, b)
        j.guards = g
        st.assign(j)
        return x | y

    def e_BoolOp(self, e, st):
        out = set()
        for v in e.values:
            out |= self.expr(v, st)
        return frozenset(out)

    def e_Compare(self, e, st):
        self.expr(e.left, st)
        for c in e.comparators:
            self.expr(c, st)
        return EMPTY

    def e_UnaryOp(self, e, st):
        self.expr(e.operand, st)
        return EMPTY

    def e_BinOp(self, e, st):
        a, b = self.expr(e.left, st), self.expr(e.right, st)
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor, ast.Add)) and (a or b):
            kinds = {self.kinds.get(l) if l[0] == 'a' else self.shp(l)[0] for l in a | b}
            kind = 'dict' if 'dict' in kinds else 'list' if 'list' in kinds else 'tuple' if 'tuple' in kinds \
                else 'set' if 'set' in kinds else 'fset'
            r = self.alloc(e, kind, (kind, ('any',), ('any',)) if kind == 'dict' else (kind, ('any',)))
            self.fill(st, [r], a)
            if not isinstance(e.op, ast.Sub):
                self.fill(st, [r], b)
            return frozenset([r])
        return EMPTY

    def e_Lambda(self, e, st):
        from .model import Func
        fn = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno)],
                             decorator_list=[], lineno=e.lineno)
        l = ('fn', id(e), self.cur.id)
        if l not in self.fns:
            f = Func(fn, self.cur.func.module, None)
            self.fns[l] = (f, self.cur)
            self._keep = getattr(self, '_keep', []) + [fn]
        f = self.cur
        while f is not None:
            f.captured = True
            f = f.parent
        return frozenset([l])

    def e_Starred(self, e, st):
        return self.elems(st, self.expr(e.value, st))

    def e_Yield(self, e, st):
        if e.value is not None:
            self.cur.exits.append((self.expr(e.value, st), st.copy()))
        return EMPTY

    def e_YieldFrom(self, e, st):
        self.cur.exits.append((self.elems(st, self.expr(e.value, st)), st.copy()))
        return EMPTY

    # ---- calls -----------------------------------------------------------------------------
    def e_Call(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(self.elems(st, self.expr(a.value, st)))
            else:
                args.append(self.expr(a, st))
        kw = {k.arg: self.expr(k.value, st) for k in e.keywords}
        f = e.func
        if isinstance(f, ast.Name):
            return self.call_name(e, f.id, args, kw, st)
        if isinstance(f, ast.Attribute):
            return self.call_attr(e, f, args, kw, st)
        fv = self.expr(f, st)
        return self.call_values(fv, args, kw, st, e)

    def call_values(self, fv, args, kw, st, e):
        out = set()
        for l in fv:
            t = self.fns.get(l)
            if t is None:
                continue
            if t[0] == 'bound':
                out |= self.call_method(frozenset([t[1]]), t[2], args, kw, st, e)
            else:
                out |= self.call_func(t[0], args, kw, st, e, closure=t[1])
        return frozenset(out)

    def construct(self, cls, args, kw, st, e):
        a = self.alloc(e, 'obj', ('cls', cls))
        init = self.prog.find_method(cls, '__init__')
        if init is not None:
            self.call_func(init, args, kw, st, e, self_locs=frozenset([a]))
        self.event('construct', a, cls, e, st, {k[1]: v for k, v in st.heap.items() if k[0] == a})
        return frozenset([a])

    def call_name(self, e, name, args, kw, st):
        fr = self.frame_of(name)
        if fr is not None:
            return self.call_values(st.env[(fr.id, name)], args, kw, st, e)
        mod = self.cur.func.module
        tgt = self.resolve(mod, name)
        if tgt is not None:
            if isinstance(tgt, str):
                return self.construct(tgt, args, kw, st, e)
            return self.call_func(tgt, args, kw, st, e)
        if name in ('deepcopy',):
            return frozenset([self.alloc(e, 'obj', ('any',))])
        if name == 'copy':
            return self.copy_of(args[0] if args else EMPTY, st, e)
        if name in CTORS:
            el = self.elems(st, args[0]) if args else EMPTY
            if name in ('zip', 'chain', 'map', 'filter', 'enumerate'):
                el = frozenset().union(*[self.elems(st, a) for a in args]) if args else EMPTY
                if name in ('map', 'filter') and args:
                    el = self.elems(st, args[-1])
                    r = self.call_values(args[0], [el], {}, st, e)
                    if name == 'map':
                        el = r
                if name in ('zip', 'enumerate'):
                    t = self.alloc(e, 'tuple', ('tuple',), )
                    self.put(st, [t], '*', el)
                    inner = ('a', ('i', t[1]))
                    self.kinds[inner], self.shapes[inner] = 'tuple', ('tuple',)
                    self.put(st, [inner], '*', el)
                    st.heap[(t, '*')] = frozenset([inner])
                    return frozenset([t])
            if name == 'sorted' and 'key' in kw:
                self.call_values(kw['key'], [el], {}, st, e)
            k = CTORS[name]
            src = args[0] if args else EMPTY
            es = [elem_shape(self.shp(l)) for l in src]
            es = es[0] if es and all(x == es[0] for x in es) else ('any',)
            a = self.alloc(e, k, (k, ('any',), es) if k == 'dict' else (k, es))
            if k == 'dict':
                if name not in ('defaultdict',):
                    self.fill(st, [a], src)
                self.put(st, [a], '*', frozenset().union(*kw.values()))
            else:
                self.put(st, [a], '*', el)
            return frozenset([a])
        if name == 'next' and args:
            return self.elems(st, args[0]) | (args[1] if len(args) > 1 else EMPTY)
        if name in ('min', 'max', 'sum') and args:
            return self.elems(st, args[0]) if name != 'sum' else EMPTY
        if name == 'setattr' and len(e.args) == 3 and isinstance(e.args[1], ast.Constant):
            for l in args[0]:
                self.event('store', l, e.args[1].value, e, st, args[2])
                if l[0] != 'a':
                    st.dirty.add((('f', l, e.args[1].value), 'store'))
            self.put(st, args[0], e.args[1].value, args[2], strong=True)
            return EMPTY
        if name == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            out = set()
            for l in args[0]:
                out |= self.getf(st, l, e.args[1].value)
            return frozenset(out) | (args[2] if len(args) > 2 else EMPTY)
        if name == 'super':
            return frozenset([('fn', 'super')])
        if name in ('any', 'all', 'len', 'isinstance', 'print', 'str', 'repr', 'hash', 'id', 'int', 'float', 'bool',
                    'range', 'abs', 'round', 'isclose', 'prod', 'type', 'open', 'ord', 'chr', 'input', 'vars'):
            return EMPTY
        return EMPTY

    def resolve(self, mod, name):
        """class name or Func visible under `name` in the module"""
        if name in mod.classes:
            return name
        if name in mod.funcs:
            return mod.funcs[name]
        imp = mod.imports.get(name)
        if imp is not None and imp[1] is not None:
            m = self.prog.modules.get(imp[0].split('.')[-1])
            if m is not None:
                if imp[1] in m.classes:
                    return imp[1]
                if imp[1] in m.funcs:
                    return m.funcs[imp[1]]
            if imp[1] in self.prog.classes and (m is None):
                return imp[1] if imp[1][:1].isupper() else None
        if imp is None:
            # star imports and function-level imports
            if name in self.prog.classes and any(
                    isinstance(s, ast.ImportFrom) and any(a.name in ('*', name) for a in s.names)
                    for s in ast.walk(mod.tree)):
                return name
            for s in mod.tree.body:
                if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names):
                    m = self.prog.modules.get((s.module or '').split('.')[-1])
                    if m is not None and name in m.funcs:
                        return m.funcs[name]
        return None

    def copy_of(self, src, st, e):
        out = set()
        for l in src:
            kind = self.kinds.get(l) if l[0] == 'a' else self.shp(l)[0]
            s = self.shp(l)
            if kind == 'cls' or kind == 'obj':
                m = self.prog.find_method(s[1], '__copy__') if s[0] == 'cls' else None
                if m is not None:
                    out |= self.call_func(m, [], {}, st, e, self_locs=frozenset([l]))
                continue
            k = kind if kind in ('set', 'dict', 'list', 'fset', 'tuple') else 'list'
            a = self.alloc(e, k, s if s[0] == k else ((k, ('any',), ('any',)) if k == 'dict' else (k, ('any',))))
            self.fill(st, [a], [l])
            out.add(a)
        return frozenset(out)

    def call_attr(self, e, f, args, kw, st):
        name = f.attr
        # module.function / Class.static / super().m
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            return self.call_super(e, name, args, kw, st)
        if isinstance(f.value, ast.Name) and self.frame_of(f.value.id) is None:
            base = f.value.id
            mod = self.cur.func.module
            tgt = self.resolve(mod, base)
            if isinstance(tgt, str):
                m = self.prog.find_method(tgt, name)
                if m is not None:
                    if m.static:
                        return self.call_func(m, args, kw, st, e)
                    if m.classm:
                        return self.call_func(m, args, kw, st, e, self_locs=EMPTY)
                    return self.call_func(m, args[1:], kw, st, e, self_locs=args[0] if args else EMPTY)
                return EMPTY
            imp = mod.imports.get(base)
            if imp is not None:
                m = self.prog.modules.get(imp[0].split('.')[-1])
                if m is not None and imp[1] is None:
                    if name in m.classes:
                        return self.construct(name, args, kw, st, e)
                    if name in m.funcs:
                        return self.call_func(m.funcs[name], args, kw, st, e)
                if base == 'copy' and name == 'deepcopy':
                    return frozenset([self.alloc(e, 'obj', ('any',))])
                if base == 'copy' and name == 'copy':
                    return self.copy_of(args[0] if args else EMPTY, st, e)
                return EMPTY
            if base in ('set', 'frozenset', 'dict', 'list', 'str', 'tuple'):
                if name in MUTATORS and args:
                    self.mutate(st, args[0], name, e)
                    return EMPTY
                el = frozenset().union(*[self.elems(st, a) for a in args]) if args else EMPTY
                k = 'fset' if base == 'frozenset' else base if base in MUTABLE else 'tuple'
                a = self.alloc(e, k, (k, ('any',), ('any',)) if k == 'dict' else (k, ('any',)))
                self.put(st, [a], '*', el)
                return frozenset([a])
        base = self.expr(f.value, st)
        return self.call_method(base, name, args, kw, st, e)

    def call_super(self, e, name, args, kw, st):
        fn = self.cur.func
        fr = self.cur
        while fn.cls is None and fr.parent is not None:
            fr = fr.parent
            fn = fr.func
        if fn.cls is None:
            return EMPTY
        selfname = fn.node.args.args[0].arg if fn.node.args.args else 'self'
        locs = st.env.get((fr.id, selfname), EMPTY)
        out = set()
        for l in locs:
            s = self.shp(l)
            cls = s[1] if s[0] == 'cls' else fn.cls.name
            m = self.prog.find_super(cls, fn.cls.name, name) or self.prog.find_super(fn.cls.name, fn.cls.name, name)
            if m is not None:
                out |= self.call_func(m, args, kw, st, e, self_locs=frozenset([l]))
        return frozenset(out)

    def call_method(self, base, name, args, kw, st, e):
        out = set()
        for l in base:
            if l[0] == 'fn':
                continue
            s = self.shp(l)
            if (l, name) in st.heap:       # a function stored in a field
                out |= self.call_values(st.heap[(l, name)], args, kw, st, e)
                continue
            if s[0] == 'cls':
                ms = []
                m = self.prog.find_method(s[1], name)
                if m is not None:
                    ms.append(m)
                if l[0] != 'a' and l != ('p', 0):
                    for c in self.subclasses(s[1]):
                        m2 = self.prog.classes[c].methods.get(name)
                        if m2 is not None and m2 not in ms:
                            ms.append(m2)
                ms = [m for m in ms if not m.abstract]
                if ms:
                    outs, states = set(), []
                    for m in ms:
                        x = st.copy()
                        outs |= self.call_func(m, args, kw, x, e, self_locs=frozenset([l]))
                        states.append(x)
                    j = states[0]
                    for x in states[1:]:
                        j = join(j, x)
                    if all(x.dead for x in states):
                        j.dead = True
                    j.guards = st.guards
                    st.assign(j)
                    out |= outs
                    continue
                if name not in MUTATORS | COPIES | VIEWS | {'get'}:
                    continue
            elif s[0] == 'any' and l[0] != 'a' or self.kinds.get(l) == 'obj' and s[0] == 'any':
                ms = [c.methods[name] for c in self.prog.classes.values() if name in c.methods] \
                    if self.by_name(name) else []
                if ms and len(ms) <= 4 and name not in MUTATORS | COPIES | VIEWS | {'get'}:
                    states = []
                    for m in ms:
                        x = st.copy()
                        out |= self.call_func(m, args, kw, x, e, self_locs=frozenset([l]))
                        states.append(x)
                    j = states[0]
                    for x in states[1:]:
                        j = join(j, x)
                    j.guards = st.guards
                    st.assign(j)
                    continue
            out |= self.builtin_method(l, name, args, kw, st, e)
        return frozenset(out)

    def by_name(self, name):
        return not name.startswith('__')

    def builtin_method(self, l, name, args, kw, st, e):
        one = frozenset([l])
        if name in MUTATORS:
            kind = self.kinds.get(l) if l[0] == 'a' else self.shp(l)[0]
            if kind in ('fset', 'tuple') or kind in SCALAR:
                return EMPTY
            self.mutate(st, one, name, e)
            if name in ('add', 'append', 'appendleft', 'push'):
                self.put(st, one, '*', frozenset().union(*args) if args else EMPTY)
            elif name in ('update', 'extend'):
                for a in args:
                    self.fill(st, one, a)
            elif name in ('setdefault', 'insert', '__setitem__'):
                self.put(st, one, '*', frozenset().union(*args[1:]))
                if name != 'insert' and args:
                    self.put(st, one, '#k', args[0])
            if name in ('pop', 'popitem', 'setdefault', 'popleft'):
                return self.items(st, one) | (args[1] if len(args) > 1 else EMPTY)
            return EMPTY
        if name in COPIES:
            r = self.copy_of(one, st, e)
            for a in args:
                if name in ('union', 'symmetric_difference'):
                    self.fill(st, r, a)
            return r
        if name in VIEWS:
            k = self.alloc(e, 'view', ('any',))
            a = ('a', ('v', k[1], l))
            self.kinds[a], self.shapes[a] = 'view', ('tuple',)
            dictish = self.kind(l) == 'dict' or self.kind(l) in (None, 'any', 'obj')
            el = self.items(st, one) if name != 'keys' else self._sub(st, l, '#k')
            if name == 'items' and dictish:
                t = ('a', ('t', k[1], l))
                self.kinds[t], self.shapes[t] = 'tuple', ('tuple',)
                st.heap[(t, 0)], st.heap[(t, 1)] = self._sub(st, l, '#k'), self._sub(st, l, '*')
                st.heap[(t, '*')] = st.heap[(t, 0)] | st.heap[(t, 1)]
                el = frozenset([t])
            st.heap[(a, '*')] = el
            return frozenset([a])
        if name == 'get':
            return self.items(st, one) | (args[1] if len(args) > 1 else EMPTY)
        return EMPTY
