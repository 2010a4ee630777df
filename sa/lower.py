"""Syntax-directed lowering of Python functions to the value graph of terms.py.

Statements are lowered in gated-SSA style: both arms of a conditional are lowered once and their
states are merged under the branch condition; loops are closed into quantifiers, sums, products,
first/last choices or pointwise container updates (classify), or kept as an uninterpreted `loop`
term when the loop-carried dependence has no closed form.  No path is enumerated, nothing is run.
"""
import ast
import os

from . import terms as tm
from .terms import (T, ANY, BOOL, NUM, STR, NONE_T, mk, sym, fresh, const, B, ite3, and_, or_, not_, eq, member,
                    exists, mkset, mkdict, sel, keys, lift, rebuild, opaque, tup, proj, add, mul, sub, neg, div, msum,
                    card, truthy, choose, mkbag, listof, concat, append, collapse, cofactor, open_, dstore, ddel,
                    dmerge, union, inter, diff, symdiff, subset, disjoint, setlit, empty_set, empty_dict, isnone,
                    ident, isinst, anyelem, at, elem_ty, val_ty, is_setty, new, newfield, gt0, ge0, sel_raw)

DEBUG = False
ERASED_FIELDS = {'name', '_name', 'string_id'}
PROVIDER = 'SampleGraphComponentsProvider'
IGNORED_CALLS = {'print', 'logging', 'logger', 'log', 'warnings'}


# the demo carries no annotations: the types of the fields its rules work on
DEMO_FIELDS = {
    ('GameState', 'data'): 'GameStateData', ('GameStateData', 'food'): 'Grid',
    ('GameStateData', 'capsules'): 'List[Tuple[int, int]]', ('GameStateData', 'agentStates'): 'List[AgentState]',
    ('GameStateData', 'layout'): 'Layout', ('GameStateData', '_eaten'): 'List[bool]',
    ('GameStateData', 'score'): 'int', ('GameStateData', 'scoreChange'): 'int', ('GameStateData', '_win'): 'bool',
    ('GameStateData', '_lose'): 'bool',
    ('AgentState', 'configuration'): 'Configuration', ('AgentState', 'start'): 'Configuration',
    ('AgentState', 'scaredTimer'): 'int', ('AgentState', 'isPacman'): 'bool', ('AgentState', 'numCarrying'): 'int',
    ('AgentState', 'numReturned'): 'int', ('Configuration', 'pos'): 'Tuple[float, float]',
    ('Configuration', 'direction'): 'str',
    ('Grid', 'width'): 'int', ('Grid', 'height'): 'int', ('Grid', 'data'): 'List[List[bool]]',
    ('Layout', 'width'): 'int', ('Layout', 'height'): 'int', ('Layout', 'walls'): 'Grid', ('Layout', 'food'): 'Grid',
    ('Layout', 'capsules'): 'List[Tuple[int, int]]', ('Layout', 'numGhosts'): 'int',
    ('Layout', 'agentPositions'): 'List[Tuple[int, Tuple[int, int]]]', ('Layout', 'layoutText'): 'List[str]',
    ('Game', 'gameOver'): 'bool',
}


class Ref:
    __slots__ = ('loc', 'path')

    def __init__(self, loc, path=()):
        self.loc = loc
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc and o.path == self.path

    def __hash__(self):
        return hash((self.loc, self.path))

    def __repr__(self):
        return f'&{self.loc}{self.path}'


class Obj:
    __slots__ = ('cls', 'base', 'fields')

    def __init__(self, cls, base, fields):
        self.cls = cls
        self.base = base
        self.fields = fields

    def same(self, o):
        return isinstance(o, Obj) and o.cls == self.cls and o.base is self.base and o.fields == self.fields

    def __repr__(self):
        return f'Obj({self.cls},{self.base},{self.fields})'


class Closure:
    def __init__(self, node, fids, module, func=None, selfv=None, name=None):
        self.node, self.fids, self.module, self.func, self.selfv = node, fids, module, func, selfv
        self.name = name or getattr(node, 'name', '<lambda>')


class ClassV:
    def __init__(self, name):
        self.name = name


class SuperV:
    def __init__(self, selfv, cls, after):
        self.selfv, self.cls, self.after = selfv, cls, after


class Builtin:
    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv


class ModV:
    def __init__(self, name):
        self.name = name


class PyTup:
    def __init__(self, items):
        self.items = tuple(items)


class GenV:
    """sequence: gens = list of (bound symbol, guard); elem = value for each"""

    def __init__(self, gens, elem, unique=False, extra=None):
        self.gens, self.elem, self.unique = gens, elem, unique


class State:
    __slots__ = ('cells', 'live')

    def __init__(self, cells, live):
        self.cells, self.live = cells, live

    def copy(self):
        return State(dict(self.cells), self.live)


class FnCtx:
    def __init__(self, closure=None):
        self.rets = []
        self.closure = closure
        self.yields = None


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.conts = []


class NoFlat(Exception):
    pass


class Unsupported(Exception):
    pass


class Summary:
    """what a function does"""

    def __init__(self):
        self.ret = None          # value diagram (under the condition that it returns)
        self.raises = None       # condition under which it rejects
        self.effects = {}        # canonical cell name -> final content (diagram)
        self.notes = []


class ClassInfo:
    def __init__(self):
        self.fields = {}      # attr -> T over param syms (only with pure init)
        self.params = []      # list of (name, sym)
        self.role = {}        # attr -> canonical name
        self.unrole = {}
        self.rn = {}          # constructor parameter -> canonical name
        self.tys = {}


FRESH = ('set', 'dict', 'list', 'copy', 'union', 'difference', 'intersection')


def borrowed(t):
    """the term is (or may be) an object some container or field still holds"""
    if t.op == 'ite':
        return any(borrowed(x) for x in tm.leaves_of(t))
    if t.op == 'sym':
        return t in tm.PARTS or not t.args[0].startswith('p:')
    return t.op in ('at', 'sel', 'anyelem', 'proj', 'choose', 'bv')


def listcases(t):
    lv = tm.leaves_of(t) if t.op == 'ite' else ()
    return bool(lv) and len(lv) <= 9 and all(l.op in ('list', 'tuple') or l is tm.UNDEF for l in lv)


def _tuples(z, gd):
    zs = [fresh('c', t) for t in z.ty[1:]]
    xs = [()]
    whole = rebuild(gd, {z: tup(*zs)})
    for i, c in enumerate(zs):
        ys = []
        for a in tm.atoms_of(whole):
            if c in a.syms:
                y = tm.solve(c, a)
                if y is None or any(o in y.syms for o in zs):
                    return None
                ys.append(y)
        xs = [x + (y,) for x in xs for y in ys]
        if len(xs) > 64:
            return None
    for c in zs:       # nothing beyond the listed values
        none = whole
        for a in tm.atoms_of(whole):
            if c in a.syms:
                none = cofactor(none, a, False)
        if none is not tm.FALSE:
            return None
    ts = sorted({tup(*x) for x in xs}, key=lambda t: t.ck)
    out = []
    for t in ts:
        c = rebuild(gd, {z: t})
        if c is not tm.FALSE:
            out.append((t, and_(c, *[not_(eq(t, y)) for y, _ in out])))
    return out or None


def elements(z, gd):
    """the candidates a guard of z lists one by one, each with its condition; None if it is no such guard"""
    if z.ty[0] == 'tuple' and 2 <= len(z.ty) <= 4:
        return _tuples(z, gd)
    xs, rest = [], gd
    for a in tm.atoms_of(gd):
        if z not in a.syms:
            continue
        if a.op == 'eq0':
            x = tm.solve(z, a)
        elif a.op == 'eq' and z in a.args:
            x = a.args[1] if a.args[0] is z else a.args[0]
        else:
            return None
        if x is None or z in x.syms:
            return None
        xs.append(x)
        rest = cofactor(rest, a, False)
    if not xs or rest is not tm.FALSE:
        return None
    xs.sort(key=lambda x: x.ck)
    return [(x, and_(rebuild(gd, {z: x}), *[not_(eq(x, y)) for y in xs[:i]])) for i, x in enumerate(xs)]


class Lower:
    MAX_DEPTH = 40

    def __init__(self, prog):
        self.prog = prog
        self.info = {}
        self.info_busy = set()
        self.next_loc = 0
        self.next_fid = 0
        self.raise_stack = [[]]
        self.fn_stack = []
        self.loop_stack = []
        self.active = []        # closures being inlined
        self.recs = {}          # id(node) -> recursion context
        self.rec_known = {}
        self.init_cells = {}
        self.notes = []
        self.depth = 0
        self.keyerr = None
        self.crashes = False
        self.dd = {}
        self.loc_ty = {}
        self.cell_tys = {}
        self.mut_log = None
        self.inlined = set()
        self.sites = 0
        self.guard_log = None
        self.cur_where = None
        self.abstracted = {}
        self.once = ()               # functions looked into once; their calls of themselves are uninterpreted
        self.once_in = set()
        self.unroll_depth = 0              # how deep a function that calls itself is looked into
        self.unrolled = {}
        self.cut = False
        self.trust_asserts = False   # assertion statements are taken to hold
        self.longest = 12            # elements of the longest literal loop written out
        self.plain = ()              # fields of given objects read as they are, not through their definition
        self.erased = ERASED_FIELDS
        self.borrowed = set()
        self.stand_ins = {}
        self.literal_keys = {}
        self.effects_of = {}
        self.abstract_used = set()
        tm.FIELD_HOOK[0] = self.field_of
        tm.CLASS_DISJOINT[0] = self.disjoint_classes

    def disjoint_classes(self, a, b):
        if a == b or a not in self.prog.classes or b not in self.prog.classes:
            return False
        return not self.prog.subclass_of(a, b) and not self.prog.subclass_of(b, a)

    # ---------------------------------------------------------------------------------
    # classes
    def is_mutable(self, cls):
        if cls is None:
            return False
        if 'Builder' in cls or self.is_open(cls):
            return True
        return self.prog.subclass_of(cls, PROVIDER) and cls != PROVIDER

    def is_open(self, cls):
        """objects of the demo are written field by field from anywhere: nothing follows from how they were made"""
        c = self.prog.classes.get(cls)
        return c is not None and 'demo' in c.module.path.split(os.sep)

    def class_info(self, cls):
        ci = self.info.get(cls)
        if ci is not None:
            return ci
        ci = ClassInfo()
        if self.is_open(cls):
            for c in self.prog.mro(cls):
                for (k, f), a in DEMO_FIELDS.items():
                    if k == c.name:
                        ci.tys[f] = self.prog.ty(a)
            self.info[cls] = ci
            return ci
        if cls in self.info_busy:
            return ci
        self.info_busy.add(cls)
        init = self.prog.find_method(cls, '__init__')
        # declared field types
        for c in reversed(self.prog.mro(cls)):
            for m in c.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and \
                            isinstance(n.target.value, ast.Name) and n.target.value.id == 'self':
                        ci.tys[n.target.attr] = self.prog.ty(n.annotation)
        if init is not None:
            saved = (self.raise_stack, self.fn_stack, self.loop_stack, self.mut_log, self.guard_log, self.active)
            self.raise_stack, self.fn_stack, self.loop_stack, self.active = [[]], [], [], []
            self.mut_log = self.guard_log = None
            try:
                a = init.node.args
                params = a.args[1:]
                syms = {}
                for p in params:
                    s = sym(f'{cls}.{p.arg}', self.prog.ty(p.annotation))
                    syms[p.arg] = s
                    ci.params.append((p.arg, s))
                st = State({}, tm.TRUE)
                loc = self.new_loc()
                st.cells[('h', loc)] = Obj(cls, None, {})
                clo = Closure(init.node, (), init.module, init, Ref(loc))
                self.call_closure(clo, [syms[p.arg] for p in params], {}, st)
                o = st.cells[('h', loc)]
                for f, v in o.fields.items():
                    try:
                        t = self.snap(v, st)
                    except Unsupported:
                        t = opaque('field')
                    ci.fields[f] = t
                    if f not in ci.tys and t.ty != ANY:
                        ci.tys[f] = t.ty
                for pname, s in ci.params:
                    cands = [f for f, t in ci.fields.items() if t is s]
                    cands.sort(key=lambda f: (f.lstrip('_') != pname, f.startswith('_'), f))
                    rn = pname if pname not in ci.fields or pname in cands else pname + '°'
                    if cands:
                        ci.rn[pname] = rn
                    for f in cands:
                        ci.role[f] = rn
                        if rn not in ci.unrole:
                            ci.unrole[rn] = f
            except (Unsupported, tm.Budget, RecursionError):
                pass
            finally:
                (self.raise_stack, self.fn_stack, self.loop_stack, self.mut_log, self.guard_log,
                 self.active) = saved
        self.info[cls] = ci
        self.info_busy.discard(cls)
        return ci

    def canon_field(self, cls, f):
        ci = self.class_info(cls)
        return ci.role.get(f, f)

    def field_ty(self, cls, f):
        ci = self.class_info(cls)
        a = ci.unrole.get(f, f)
        if a in ci.tys:
            return ci.tys[a]
        for p, s in ci.params:
            if ci.rn.get(p, p) == f:
                return s.ty
        return ANY

    def field_of(self, o, f):
        """read attribute f of (immutable / symbolic) object term o"""
        def one(o):
            if f in self.erased:
                return mk('erased', ty=STR)
            if o is tm.UNDEF:
                return o
            if o.op == 'pcall' and o.args[0] == 'get_node' and f in ('variable', 'value'):
                return o.args[2][0 if f == 'variable' else 1]
            if o.op == 'pcall' and o.args[0] == 'get_edge' and f in ('endpoints', 'relation'):
                return o.args[2][0 if f == 'endpoints' else 1]
            if o.op == 'upd':
                cf = self.canon_field(o.ty[1], f) if o.ty[0] == 'cls' else f
                if cf in o.args[1]:
                    return o.args[2][o.args[1].index(cf)]
                return self.field_of(o.args[0], f)
            if o.op == 'new':
                cls = o.args[0]
                cf = self.canon_field(cls, f)
                v = newfield(o, cf)
                if v is not None:
                    return v
                ci = self.class_info(cls)
                if f in ci.fields:
                    d = ci.fields[f]
                    m = {}
                    for p, s in ci.params:
                        if s in d.syms:
                            pv = newfield(o, ci.rn.get(p, p))
                            if pv is None:
                                return mk('field', o, cf, ty=self.field_ty(cls, f))
                            m[s] = pv
                    return rebuild(d, m)
                return mk('field', o, cf, ty=self.field_ty(cls, f))
            if o.ty[0] == 'cls':
                cls = o.ty[1]
                cf = self.canon_field(cls, f)
                ci = self.class_info(cls)
                if f not in ci.role and f in ci.fields and not self.is_mutable(cls) and f not in self.plain:
                    d = ci.fields[f]
                    if 'opaque' not in d.flags:
                        m = {}
                        ok = True
                        for p, s in ci.params:
                            if s in d.syms:
                                if p in ci.rn:
                                    m[s] = mk('field', o, ci.rn[p], ty=self.field_ty(cls, ci.rn[p]))
                                else:
                                    ok = False
                        if ok:
                            return rebuild(d, m)
                r = mk('field', o, cf, ty=self.field_ty(cls, cf))
                if r.ty[0] == 'cls' and self.is_open(cls):
                    tm.NONNULL.add(r)
                return r
            return mk('field', o, f)
        return lift(one, o)

    # ---------------------------------------------------------------------------------
    # heap helpers
    def new_loc(self):
        self.next_loc += 1
        return self.next_loc

    def alloc(self, t, st):
        loc = self.new_loc()
        st.cells[('h', loc)] = t
        return Ref(loc)

    @staticmethod
    def is_container(t):
        return isinstance(t, T) and (t.ty[0] in ('set', 'dict', 'list') or
                                     t.op in ('set', 'dict', 'list', 'bag', 'app', 'cat', 'listof', 'bagflat', 'keys'))

    def bind(self, v, st):
        """value as stored in a variable: containers get a location so that aliases share it"""
        if isinstance(v, GenV):
            return v
        if isinstance(v, T) and (self.is_container(v) or
                                 v.op == 'ite' and any(self.is_container(x) for x in tm.leaves_of(v))):
            r = self.alloc(v, st)
            if borrowed(v):
                self.borrowed.add(r.loc)
            return r
        if isinstance(v, T) and v.ty[0] == 'cls' and self.is_mutable(v.ty[1]):
            return self.obj_ref(v, st)
        return v

    def obj_ref(self, t, st):
        loc = self.new_loc()
        if t.op == 'new':
            ci = self.class_info(t.args[0])
            fields = {}
            for n, v in zip(t.args[1], t.args[2]):
                fields[ci.unrole.get(n, n)] = v
            o = Obj(t.args[0], None, {})
            st.cells[('h', loc)] = o
            for n, v in fields.items():
                o.fields[n] = self.bind(v, st)
        else:
            st.cells[('h', loc)] = Obj(t.ty[1], t, {})
            if borrowed(t):
                self.borrowed.add(loc)
        return Ref(loc)

    def snap(self, v, st):
        """term for the current value"""
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            return self.deref(v, st)
        if isinstance(v, Obj):
            ci = self.class_info(v.cls)
            if v.base is not None:
                ups = {}
                for f, x in sorted(v.fields.items()):
                    if f in self.erased:
                        continue
                    t = self.snap(x, st)
                    cf = ci.role.get(f, f)
                    if t is not mk('field', v.base, cf):
                        ups[cf] = t
                if not ups:
                    return v.base
                ns = tuple(sorted(ups))
                return tm.upd(v.base, ns, tuple(ups[n] for n in ns), ('cls', v.cls))
            d = {}
            for f, x in v.fields.items():
                if f in self.erased:
                    continue
                d[ci.role.get(f, f)] = self.snap(x, st)
            return new(v.cls, d)
        if isinstance(v, PyTup):
            return tup(*[self.snap(x, st) for x in v.items])
        if isinstance(v, GenV):
            return self.gen_list(v, st)
        if isinstance(v, Closure):
            return mk('closure', v.name, ast.dump(v.node) if isinstance(v.node, ast.Lambda) else v.name, ty=('fn', ANY))
        if isinstance(v, ClassV):
            return mk('class', v.name)
        if isinstance(v, Builtin):
            return mk('builtin', v.name, *([self.snap(v.recv, st)] if v.recv is not None else []))
        if isinstance(v, ModV):
            return mk('module', v.name)
        if v is None:
            return tm.NONE
        raise Unsupported(f'snapshot of {type(v).__name__}')

    def deref(self, r, st):
        v = st.cells.get(('h', r.loc))
        if v is None:
            v = self.init_cells[('h', r.loc)]
            st.cells[('h', r.loc)] = v
        if isinstance(v, Ref):       # redirected
            return self.deref(Ref(v.loc, v.path + r.path), st)
        t = self.snap(v, st) if not isinstance(v, T) else v
        for kind, x in r.path:
            if kind == 'k':
                t = sel(t, x)
            elif kind == 'i':
                t = proj(t, x)
            elif kind == 'a':
                t = at(t, x)
            else:
                t = self.field_of(t, x)
        return t

    def root(self, r, st):
        """follow redirects"""
        seen = 0
        while True:
            v = st.cells.get(('h', r.loc), self.init_cells.get(('h', r.loc)))
            if isinstance(v, Ref) and seen < 50:
                r = Ref(v.loc, v.path + r.path)
                seen += 1
            else:
                return r

    def write(self, r, t, st):
        """overwrite the content at r"""
        r = self.root(r, st)
        if r.loc in self.borrowed:
            raise Unsupported('content of an element changed')
        cur = st.cells.get(('h', r.loc), self.init_cells.get(('h', r.loc)))
        if not r.path:
            st.cells[('h', r.loc)] = t
            return
        if isinstance(cur, Obj):
            kind, x = r.path[0]
            if kind == 'f':
                fv = cur.fields.get(x)
                if isinstance(fv, Ref):
                    return self.write(Ref(fv.loc, fv.path + r.path[1:]), t, st)
        base = self.snap(cur, st)
        st.cells[('h', r.loc)] = self.upd_at(base, r.path, t)

    def upd_at(self, base, path, t):
        if not path:
            return t
        kind, x = path[0]
        if kind == 'k':
            inner = self.upd_at(sel(base, x), path[1:], t)
            return dstore(base, x, inner)
        if kind == 'i':
            def f(b):
                if b.op in ('tuple', 'list'):
                    items = list(b.args)
                    items[x] = self.upd_at(items[x], path[1:], t)
                    if b.op == 'tuple':
                        return tup(*items)
                    return lift(lambda *xs: mk('list', *xs, ty=b.ty), *items)
                return tm.tupd(b, x, self.upd_at(proj(b, x), path[1:], t), b.ty)
            return lift(f, base)
        if kind == 'f':
            def f(b):
                if b.op == 'new':
                    d = dict(zip(b.args[1], b.args[2]))
                    cf = self.canon_field(b.args[0], x)
                    d[cf] = self.upd_at(self.field_of(b, x), path[1:], t)
                    return new(b.args[0], d)
                cf = self.canon_field(b.ty[1], x) if b.ty[0] == 'cls' else x
                inner = self.upd_at(self.field_of(b, x), path[1:], t)
                return tm.upd(b, (cf,), (inner,), b.ty)
            return lift(f, base)
        if kind == 'a':
            return lift(tm.lstore, base, x, self.upd_at(at(base, x), path[1:], t))
        raise Unsupported('path')

    # ---------------------------------------------------------------------------------
    # state merging
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ref):
            return a == b
        if isinstance(a, Obj):
            return a.same(b)
        if isinstance(a, PyTup):
            return isinstance(b, PyTup) and len(a.items) == len(b.items) and \
                all(self.same(x, y) for x, y in zip(a.items, b.items))
        return False

    def merge_into(self, st, c, s1, s2):
        """st := if c then s1 else s2"""
        if s1.live is tm.FALSE and s2.live is tm.FALSE:
            st.cells, st.live = dict(s2.cells), tm.FALSE
            return
        if s1.live is tm.FALSE:
            st.cells, st.live = dict(s2.cells), s2.live
            return
        if s2.live is tm.FALSE:
            st.cells, st.live = dict(s1.cells), s1.live
            return
        out = {}
        ks = list(s1.cells)
        ks += [k for k in s2.cells if k not in s1.cells]
        work = []
        for k in ks:
            a, b = s1.cells.get(k), s2.cells.get(k)
            if a is None and k in self.init_cells:
                a = self.init_cells[k]
            if b is None and k in self.init_cells:
                b = self.init_cells[k]
            if a is None or b is None:
                out[k] = a if b is None else b
            elif self.same(a, b):
                out[k] = a
            else:
                work.append((k, a, b))
        for k, a, b in work:
            out[k] = self.merge_val(c, a, b, s1, s2, out)
        live = or_(s1.live, s2.live)
        st.cells, st.live = out, live

    def merge_val(self, c, a, b, s1, s2, out):
        if isinstance(a, T) and isinstance(b, T):
            return ite3(c, a, b)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and a.base is b.base:
            f = {}
            for n in list(a.fields) + [x for x in b.fields if x not in a.fields]:
                x, y = a.fields.get(n), b.fields.get(n)
                if x is None:
                    x = mk('field', a.base, self.canon_field(a.cls, n)) if a.base is not None else y
                if y is None:
                    y = mk('field', a.base, self.canon_field(a.cls, n)) if a.base is not None else x
                if self.same(x, y):
                    f[n] = x
                else:
                    f[n] = self.merge_val(c, x, y, s1, s2, out)
            return Obj(a.cls, a.base, f)
        if isinstance(a, GenV) or isinstance(b, GenV) or isinstance(a, (Closure, ClassV)) or \
                isinstance(b, (Closure, ClassV)):
            if type(a) is type(b) and isinstance(a, Closure) and a.node is b.node:
                return a
        if isinstance(a, PyTup) and isinstance(b, PyTup) and len(a.items) == len(b.items):
            return PyTup([x if self.same(x, y) else self.merge_val(c, x, y, s1, s2, out)
                          for x, y in zip(a.items, b.items)])
        x, y = self.snap(a, s1), self.snap(b, s2)
        t = ite3(c, x, y)
        if isinstance(a, Ref) or isinstance(b, Ref):
            loc = self.new_loc()
            if isinstance(a, Ref) and isinstance(b, Ref) and not a.path and not b.path:
                oa, ob = s1.cells.get(('h', a.loc)), s2.cells.get(('h', b.loc))
                if isinstance(oa, Obj) and isinstance(ob, Obj) and oa.cls == ob.cls and oa.base is None and \
                        ob.base is None:
                    out[('h', loc)] = self.merge_val(c, oa, ob, s1, s2, out)
                    return Ref(loc)
            out[('h', loc)] = t
            return Ref(loc)
        return t

    # ---------------------------------------------------------------------------------
    # entry
    def summarize(self, func, selfv=None, args=None, selfname='self'):
        """lower a function with symbolic parameters"""
        self.raise_stack, self.fn_stack, self.loop_stack, self.active = [[]], [], [], []
        self.notes = []
        st = State({}, tm.TRUE)
        node = func.node
        a = node.args
        ps = a.posonlyargs + a.args
        vals = []
        roots = {}
        start = 0
        selfv_in = None
        if func.cls is not None and not func.static:
            start = 1
            if func.classm:
                selfv_in = ClassV(func.cls.name)
            else:
                cls = selfv or func.cls.name
                s = sym('self', ('cls', cls))
                if self.is_mutable(cls):
                    selfv_in = self.obj_ref(s, st)
                    self.init_cells[('h', selfv_in.loc)] = st.cells[('h', selfv_in.loc)]
                    roots['self'] = selfv_in
                else:
                    selfv_in = s
        for i, p in enumerate(ps[start:]):
            ty = self.prog.ty(p.annotation)
            pname = p.arg
            if args and i < len(args):
                pname = args[i][0]
                ty = args[i][1] or ty
            s = sym('p:' + (pname if args else str(i)), ty)
            v = self.bind(s, st)
            if isinstance(v, Ref):
                self.init_cells[('h', v.loc)] = st.cells[('h', v.loc)]
                roots['p:' + (pname if args else str(i))] = v
            vals.append(v)
        if node.args.vararg is not None:
            raise Unsupported('varargs')
        kw = {}
        for p in node.args.kwonlyargs:
            kw[p.arg] = sym('p:' + p.arg, self.prog.ty(p.annotation))
        clo = Closure(node, (), func.module, func, selfv_in)
        ret = self.call_closure(clo, vals, kw, st, toplevel=True)
        s = Summary()
        s.ret = self.snap(ret, st) if ret is not None else tm.NONE
        # returning self / the parameter object
        s.raises = or_(*self.raise_stack[0])
        for name, r in roots.items():
            self.collect_effects(name, r, st, s)
        s.live = st.live
        s.notes = list(self.notes)
        s.state = st
        s.roots = roots
        return s

    def collect_effects(self, name, r, st, s):
        cur = st.cells.get(('h', r.loc))
        ini = self.init_cells.get(('h', r.loc))
        if isinstance(cur, Ref):
            return
        if isinstance(cur, Obj):
            for f, v in cur.fields.items():
                if f in self.erased:
                    continue
                cf = self.canon_field(cur.cls, f)
                if cur.base is not None:
                    base = mk('field', cur.base, cf)
                    if isinstance(v, Ref) and not v.path:
                        o = st.cells.get(('h', v.loc))
                        if isinstance(o, Obj):
                            self.collect_effects(f'{name}.{cf}', v, st, s)
                            continue
                    t = self.snap(v, st)
                    if t is not base:
                        s.effects[f'{name}.{cf}'] = t
                else:
                    s.effects[f'{name}.{cf}'] = self.snap(v, st)
        elif isinstance(cur, T) and isinstance(ini, T) and cur is not ini:
            s.effects[name] = cur

    # ---------------------------------------------------------------------------------
    # calls
    def new_fid(self):
        self.next_fid += 1
        return self.next_fid

    def call_closure(self, clo, args, kwargs, st, toplevel=False):
        node = clo.node
        if clo.func is not None and clo.func.qual in self.once and clo.func.qual not in self.once_in and not toplevel:
            self.once_in.add(clo.func.qual)
            try:
                return self.inline(clo, args, kwargs, st)
            finally:
                self.once_in.discard(clo.func.qual)
        if clo.func is not None and clo.func.qual in self.abstracted and not toplevel:
            return self.abstract_call(clo, args, kwargs, st)
        if not toplevel and isinstance(node, (ast.FunctionDef,)) and self.is_recursive(clo):
            n = self.unrolled.get(id(node), 0)
            if n < self.unroll_depth:
                self.unrolled[id(node)] = n + 1
                try:
                    return self.inline(clo, args, kwargs, st)
                finally:
                    self.unrolled[id(node)] = n
            if self.cut and n:           # deeper calls are outside the claim
                self.do_raise(tm.TRUE, st)
                return tm.UNDEF
            return self.call_recursive(clo, args, kwargs, st)
        return self.inline(clo, args, kwargs, st)

    def abstract_call(self, clo, args, kwargs, st):
        """a function with a claim of its own: an uninterpreted function of its arguments here"""
        fid = self.new_fid()
        tmp = st.copy()
        self.bind_params(clo, args, kwargs, tmp, fid)
        a = clo.node.args
        vals = [self.snap(tmp.cells[('v', fid, p.arg)], tmp) for p in a.posonlyargs + a.args]
        self.abstract_used.add(clo.func.qual)
        if self.abstracted[clo.func.qual].startswith('='):          # the claim is about inputs it answers this for
            return self.bind(self.eval(ast.parse(self.abstracted[clo.func.qual][1:], mode='eval').body, tmp), st)
        ty = self.prog.ty(self.abstracted[clo.func.qual])
        for i, pos in enumerate(self.effects_of.get(clo.func.qual, ())):      # what it does to an argument
            v = tmp.cells[('v', fid, (a.posonlyargs + a.args)[pos].arg)]
            if not isinstance(v, Ref):
                raise Unsupported('effect on a value')
            q = f'{clo.func.qual}!{i}'
            t = lift(lambda *xs: mk('ucall', q, *xs, ty=vals[pos].ty), *vals)
            r = self.root(v, st)
            cur = st.cells.get(('h', r.loc), self.init_cells.get(('h', r.loc)))
            if isinstance(cur, Obj) and not r.path and t.op != 'ite':
                st.cells[('h', r.loc)] = Obj(cur.cls, t, {})
            else:
                self.write(r, t, st)
        r = lift(lambda *xs: mk('ucall', clo.func.qual, *xs, ty=ty), *vals)
        return B(r) if ty == BOOL and r.op != 'ite' else r

    def bind_params(self, clo, args, kwargs, st, fid):
        a = clo.node.args
        ps = list(a.posonlyargs + a.args)
        vals = list(args)
        if clo.selfv is not None:
            vals = [clo.selfv] + vals
        ndef = len(a.defaults)
        for i, p in enumerate(ps):
            if i < len(vals):
                v = vals[i]
            elif p.arg in kwargs:
                v = kwargs[p.arg]
            else:
                j = i - (len(ps) - ndef)
                if j < 0:
                    raise Unsupported(f'missing argument {p.arg} of {clo.name}')
                v = self.eval(a.defaults[j], st)
            v = self.bind(v, st)
            if isinstance(v, T) and v.ty == ANY and p.annotation is not None and v.op in ('sym',):
                pass
            st.cells[('v', fid, p.arg)] = v
        extra = vals[len(ps):]
        if a.vararg is not None:
            st.cells[('v', fid, a.vararg.arg)] = self.bind(
                lift(lambda *xs: mk('list', *xs, ty=('list', xs[0].ty if xs else ANY)),
                     *[self.snap(x, st) for x in extra]), st)
        elif extra:
            raise Unsupported(f'too many arguments for {clo.name}')
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            v = kwargs.get(p.arg)
            if v is None:
                v = self.eval(d, st) if d is not None else tm.NONE
            st.cells[('v', fid, p.arg)] = self.bind(v, st)

    def inline(self, clo, args, kwargs, st):
        node = clo.node
        if self.depth > self.MAX_DEPTH:
            raise Unsupported('inlining depth')
        self.depth += 1
        if clo.func is not None:
            self.inlined.add(clo.func)
        fid = self.new_fid()
        env = clo.fids + (fid,)
        ctx = FnCtx(clo)
        ctx.env = env
        ctx.module = clo.module
        ctx.cls = clo.func.cls if clo.func is not None else (getattr(clo, 'cls', None))
        saved_loops = self.loop_stack
        self.loop_stack = []
        # evaluate defaults in defining scope (constants): push ctx first for name lookup
        self.fn_stack.append(ctx)
        self.active.append(node)
        try:
            if isinstance(node, ast.Lambda):
                self.bind_params(clo, args, kwargs, st, fid)
                ctx.locals = {p.arg for p in node.args.args}
                return self.eval(node.body, st)
            ctx.locals = assigned_names(node)
            self.bind_params(clo, args, kwargs, st, fid)
            if is_generator(node):
                ctx.yields = self.alloc(mk('list', ty=('list', ANY)), st)
            self.exec_block(node.body, st)
            if st.live is not tm.FALSE:
                ctx.rets.append((st.live, tm.NONE, st.copy()))
            if ctx.yields is not None:
                # result is the list of yields
                return ctx.yields
            return self.join_returns(ctx, st)
        finally:
            self.active.pop()
            self.fn_stack.pop()
            self.loop_stack = saved_loops
            self.depth -= 1

    def join_returns(self, ctx, st):
        if not ctx.rets:
            st.live = tm.FALSE
            return tm.UNDEF
        cond, val, cells = ctx.rets[-1]
        acc = State(dict(cells.cells), cond)
        accv = val
        for cond, v, s in reversed(ctx.rets[:-1]):
            s1 = State(dict(s.cells), cond)
            s1.cells[('v', -1, 'ret')] = v
            acc.cells[('v', -1, 'ret')] = accv
            m = State({}, tm.FALSE)
            self.merge_into(m, cond, s1, acc)
            accv = m.cells.pop(('v', -1, 'ret'))
            acc = m
        st.cells, st.live = acc.cells, acc.live
        return accv

    # ---- recursion ---------------------------------------------------------------------
    def is_recursive(self, clo):
        k = id(clo.node)
        if k in self.recs:
            return True
        if k in self.rec_known:
            return self.rec_known[k]
        r = False
        name = clo.node.name
        for n in ast.walk(clo.node):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id == name and clo.func is None:
                    r = True
                elif isinstance(f, ast.Name) and f.id == name and clo.func is not None and clo.func.cls is None:
                    r = True
                elif isinstance(f, ast.Attribute) and f.attr == name and clo.func is not None and \
                        clo.func.cls is not None:
                    if isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls', clo.func.cls.name):
                        r = True
        if clo.node in self.active:
            r = True
        self.rec_known[k] = r
        return r

    def call_recursive(self, clo, args, kwargs, st):
        k = id(clo.node)
        ret_ty = self.prog.ty(clo.node.returns)
        a = clo.node.args
        allargs = ([clo.selfv] if clo.selfv is not None else []) + list(args)
        names = [p.arg for p in a.posonlyargs + a.args]
        full = {}
        for n, v in zip(names, allargs):
            full[n] = v
        for n, v in kwargs.items():
            full[n] = v
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in full:
                j = i - (len(names) - nd)
                if j < 0:
                    raise Unsupported('missing argument in recursive call')
                full[n] = self.eval(a.defaults[j], st)
        argts = [self.snap(full[n], st) for n in names]
        if k in self.recs:
            rc = self.recs[k]
            states = []
            for cell in rc['cells']:
                states.append(self.snap(self.cell_val(cell, st), st))
            call = lift(lambda *xs: mk('rec', rc['level'], tuple(xs)), *(argts + states))
            for i, cell in enumerate(rc['cells']):
                self.set_cell(cell, lift(lambda c: mk('out', i, c, ty=states[i].ty), call), st)
            rc['called'] = True
            return self.bind(lift(lambda c: mk('out', 'ret', c, ty=ret_ty), call), st)
        # outermost call: lower the body once, closed over its parameters and the outer state it updates
        cells = []
        for _ in range(6):
            psyms = [fresh('a', t.ty) for t in argts]
            ssyms = [fresh('st', self.snap(self.cell_val(c, st), st).ty) for c in cells]
            s2 = st.copy()
            s2.live = tm.TRUE
            for c, s in zip(cells, ssyms):
                self.set_cell(c, s, s2)
            before = dict(s2.cells)
            self.recs[k] = {'cells': cells, 'level': len(self.recs), 'called': False}
            self.raise_stack.append([])
            mlog, self.mut_log = self.mut_log, None
            try:
                c2 = Closure(clo.node, clo.fids, clo.module, clo.func, None, clo.name)
                rv = self.inline(c2, list(psyms), {}, s2)
                rvt = self.snap(rv, s2) if s2.live is not tm.FALSE else tm.UNDEF
                raises = or_(*self.raise_stack[-1])
            finally:
                self.raise_stack.pop()
                self.mut_log = mlog
                lvl = self.recs[k]['level']
                del self.recs[k]
            changed = self.changed_cells(before, s2, st)
            newc = [c for c in changed if c not in cells]
            if not newc:
                break
            cells = cells + newc
        else:
            raise Unsupported('recursive state')
        ups = [self.snap(self.cell_val(c, s2), s2) for c in cells]
        zs = psyms + ssyms
        fx = tm.generic_binder('fix', zs, (tuple(z.ty for z in zs), rvt, tuple(ups), raises, s2.live))
        inits = [self.snap(self.cell_val(c, st), st) for c in cells]
        call = lift(lambda *xs: mk('fixcall', fx, tuple(xs), flags=frozenset(['generic'])), *(argts + inits))
        if raises is not tm.FALSE:
            rz = lift(lambda c: B(mk('out', 'raise', c, ty=BOOL)), call)
            self.do_raise(rz, st)
        for i, c in enumerate(cells):
            self.set_cell(c, lift(lambda x: mk('out', i, x, ty=inits[i].ty), call), st)
        rty = ret_ty if ret_ty != ANY else rvt.ty
        return self.bind(lift(lambda c: mk('out', 'ret', c, ty=rty), call), st)

    def crash(self, cond, st):
        """an operation of the language that fails under cond (followed only when a claim asks for it)"""
        if self.crashes and cond is not tm.FALSE:
            self.do_raise(cond, st)

    def do_raise(self, cond, st):
        c = and_(st.live, cond)
        self.raise_stack[-1].append(c)
        st.live = and_(st.live, not_(cond))

    # cell = ('v',..)/('h',..) optionally with field: (cell, field)
    def cell_val(self, cell, st):
        if cell[0] == 'F':
            o = st.cells.get(cell[1], self.init_cells.get(cell[1]))
            v = o.fields.get(cell[2])
            if v is None:
                v = mk('field', o.base, self.canon_field(o.cls, cell[2]))
            return v
        v = st.cells.get(cell)
        if v is None:
            v = self.init_cells.get(cell)
        return v

    def set_cell(self, cell, t, st):
        if cell[0] == 'F':
            o = st.cells.get(cell[1], self.init_cells.get(cell[1]))
            f = dict(o.fields)
            old = f.get(cell[2])
            if isinstance(old, Ref) or isinstance(t, T) and any(self.is_container(l) for l in tm.leaves_of(t)):
                loc = self.new_loc()
                st.cells[('h', loc)] = t
                f[cell[2]] = Ref(loc)
            else:
                f[cell[2]] = t
            st.cells[cell[1]] = Obj(o.cls, o.base, f)
            return
        old = st.cells.get(cell, self.init_cells.get(cell))
        if isinstance(old, Ref) and isinstance(t, T):
            loc = self.new_loc()
            st.cells[('h', loc)] = t
            st.cells[cell] = Ref(loc)
            return
        st.cells[cell] = t

    def changed_cells(self, before, s2, st):
        """pre-existing cells (in st) whose value differs between before and s2"""
        out = []
        for k, v in s2.cells.items():
            if k not in st.cells and k not in self.init_cells:
                continue
            b = before.get(k)
            if b is None:
                b = self.init_cells.get(k)
            if b is None or self.same(b, v):
                continue
            if isinstance(v, Obj) and isinstance(b, Obj) and v.cls == b.cls and v.base is b.base:
                for f in v.fields:
                    x, y = v.fields.get(f), b.fields.get(f)
                    if y is None:
                        if isinstance(x, Ref) and x.loc in self.lazy_locs(k, f):
                            continue
                        if v.base is not None:
                            y = mk('field', v.base, self.canon_field(v.cls, f))
                    if y is None or not self.same(x, y):
                        out.append(('F', k, f))
                continue
            out.append(k)
        return out

    def lazy_locs(self, k, f):
        return {('lz', k, f)}

    # ---------------------------------------------------------------------------------
    # statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st.live is tm.FALSE:
                return
            self.exec(s, st)

    def exec(self, s, st):
        self.sites += 1
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        m(s, st)

    def x_Expr(self, s, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call):
            n = dotted(v.func)
            if n and n.split('.')[0] in IGNORED_CALLS:
                return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            ctx = self.fn_stack[-1]
            if isinstance(v, ast.Yield):
                e = self.snap(self.eval(v.value, st), st) if v.value else tm.NONE
                self.mutate(ctx.yields, append(self.deref(ctx.yields, st), e), st)
            else:
                e = self.to_list(self.eval(v.value, st), st)
                self.mutate(ctx.yields, concat(self.deref(ctx.yields, st), e), st)
            return
        self.eval(v, st)

    def x_Pass(self, s, st):
        pass

    x_Global = x_Pass
    x_Nonlocal = x_Pass

    def x_Import(self, s, st):
        pass

    def x_ImportFrom(self, s, st):
        tab = {}
        self.fn_stack[-1].module.add_import(s, tab)
        fid = self.fn_stack[-1].env[-1]
        for n, (m, o) in tab.items():
            v = self.resolve_import(m, o)
            st.cells[('v', fid, n)] = v

    def x_FunctionDef(self, s, st):
        ctx = self.fn_stack[-1]
        c = Closure(s, ctx.env, ctx.module)
        c.cls = ctx.cls
        st.cells[('v', ctx.env[-1], s.name)] = c

    def x_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else tm.NONE
        if st.live is tm.FALSE:
            return
        if isinstance(v, GenV):
            v = self.bind(self.gen_list(v, st), st)
        self.fn_stack[-1].rets.append((st.live, v, st.copy()))
        st.live = tm.FALSE

    def x_Assert(self, s, st):
        if self.trust_asserts:
            return
        c = self.truth(self.eval(s.test, st), st)
        self.do_raise(not_(c), st)

    def x_Raise(self, s, st):
        self.do_raise(tm.TRUE, st)

    def x_If(self, s, st):
        c = self.truth(self.eval(s.test, st), st)
        if st.live is tm.FALSE:
            return
        if c is tm.TRUE:
            return self.exec_block(s.body, st)
        if c is tm.FALSE:
            return self.exec_block(s.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.live = and_(st.live, c)
        s2.live = and_(st.live, not_(c))
        if s1.live is not tm.FALSE:
            self.exec_block(s.body, s1)
        if s2.live is not tm.FALSE:
            self.exec_block(s.orelse, s2)
        self.merge_into(st, c, s1, s2)

    def x_AnnAssign(self, s, st):
        if s.value is None:
            return
        v = self.eval(s.value, st)
        ty = self.prog.ty(s.annotation)
        if isinstance(v, T) and ty != ANY and v.op in ('set', 'dict', 'list') and not has_info(v.ty):
            v = retype(v, ty)
        self.assign(s.target, v, st, ty)
        if ty[0] in ('set', 'dict', 'list') and has_info(ty):
            r = None
            if isinstance(s.target, ast.Name):
                r = self.lookup(s.target.id, st)
            elif isinstance(s.target, ast.Attribute):
                r = self.get_attr(self.eval(s.target.value, st), s.target.attr, st)
            if isinstance(r, Ref) and not r.path:
                self.loc_ty[r.loc] = ty

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def x_AugAssign(self, s, st):
        t = s.target
        cur = self.eval(as_load(t), st)
        rhs = self.eval(s.value, st)
        opn = type(s.op).__name__
        if isinstance(cur, Ref):
            cv = self.deref(cur, st)
            rv = self.as_coll(rhs, st)
            if cv.ty[0] == 'list' or cv.op in ('list', 'bag', 'app', 'cat', 'listof'):
                if opn == 'Add':
                    self.mutate(cur, concat(cv, self.to_list(rhs, st)), st)
                    return
            r = self.binop(opn, cv, rv, st)
            self.mutate(cur, r, st)
            return
        r = self.binop(opn, cur, rhs, st)
        self.assign(t, r, st)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                r = self.eval(t.value, st)
                k = self.snap(self.eval(t.slice, st), st)
                if isinstance(r, Ref):
                    d = self.deref(r, st)
                    if d.ty[0] == 'dict' or d.op == 'dict':
                        self.mutate(r, ddel(d, k), st)
                        continue
                    if k.op == 'const' and k.args[0] == 'num' and all(
                            l.op == 'list' and -len(l.args) <= k.args[1] < len(l.args) for l in tm.leaves_of(d)):
                        def drop(l, n=int(k.args[1])):
                            xs = list(l.args)
                            del xs[n]
                            return mk('list', *xs, ty=l.ty)
                        self.mutate(r, lift(drop, d), st)
                        continue
                raise Unsupported('del')
            elif isinstance(t, ast.Name):
                continue
            else:
                raise Unsupported('del')

    def x_With(self, s, st):
        raise Unsupported('with')

    def x_Try(self, s, st):
        # try: <simple statements> except KeyError: <alternative>
        if not s.finalbody and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and \
                all(self.only_reports(x) for h in s.handlers for x in h.body):
            self.raise_stack.append([])       # a failure is reported and forgotten
            try:
                self.exec_block(s.body, st)
            finally:
                self.raise_stack.pop()
            return
        if s.finalbody or s.orelse or len(s.handlers) != 1:
            raise Unsupported('try')
        h = s.handlers[0]
        tn = dotted(h.type) if h.type is not None else None
        if tn == 'AssertionError':
            s1 = st.copy()
            s1.live = tm.TRUE
            self.raise_stack.append([])
            try:
                self.exec_block(s.body, s1)
            finally:
                rz = or_(*self.raise_stack.pop())
            s2 = st.copy()
            s2.live = and_(st.live, rz)
            self.exec_block(h.body, s2)
            s1.live = and_(st.live, s1.live)
            self.merge_into(st, rz, s2, s1)
            return
        if tn not in ('KeyError', 'LookupError', None, 'Exception'):
            raise Unsupported('try')
        if len(s.body) != 1:
            raise Unsupported('try')
        saved = self.keyerr
        self.keyerr = []
        s1 = st.copy()
        try:
            self.exec_block(s.body, s1)
            miss = or_(*self.keyerr)
        finally:
            self.keyerr = saved
        s2 = st.copy()
        s2.live = and_(st.live, miss)
        self.exec_block(h.body, s2)
        s1.live = and_(s1.live, not_(miss))
        for i, (c, v, ss) in enumerate(self.fn_stack[-1].rets):
            pass
        self.merge_into(st, miss, s2, s1)

    @staticmethod
    def only_reports(x):
        if isinstance(x, ast.Pass):
            return True
        return isinstance(x, ast.Expr) and (
            isinstance(x.value, ast.Constant) or isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and
            x.value.func.id == 'print' and all(isinstance(a, (ast.Name, ast.Constant)) for a in x.value.args))

    def x_Break(self, s, st):
        if not self.loop_stack:
            raise Unsupported('break')
        self.loop_stack[-1].breaks.append((st.live, st.copy()))
        st.live = tm.FALSE

    def x_Continue(self, s, st):
        if not self.loop_stack:
            raise Unsupported('continue')
        self.loop_stack[-1].conts.append((st.live, st.copy()))
        st.live = tm.FALSE

    # ---- assignment --------------------------------------------------------------------
    def eval_lv(self, e, st):
        """value of an expression that is about to be updated in place: a slot of a container stays a reference"""
        v = self.eval(e, st)
        if isinstance(v, T) and isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            o = self.eval_lv(e.value, st)
            if isinstance(o, Ref):
                k = self.ev(e.slice, st)
                t = self.deref(o, st)
                if t.ty[0] == 'dict' or t.op == 'dict' or any(l.op == 'dict' or l.ty[0] == 'dict'
                                                              for l in tm.leaves_of(t)):
                    return Ref(o.loc, o.path + (('k', k),))
                if k.op == 'const' and k.args[0] == 'num' and (t.ty[0] == 'tuple' or t.op == 'tuple'):
                    return Ref(o.loc, o.path + (('i', int(k.args[1])),))
                if t.ty == ANY:
                    return Ref(o.loc, o.path + (('k', k),))
        return v

    def detach(self, o, k, st):
        """the slot k of o is rebound: variables that hold its old content keep it"""
        pre = o.path + (('k', k),)
        n = len(pre)
        for c, v in list(st.cells.items()):
            if isinstance(v, Ref) and v.loc == o.loc and v.path[:n] == pre and c[0] == 'v':
                st.cells[c] = self.alloc(self.deref(v, st), st)

    def assign(self, t, v, st, ty=None):
        if isinstance(t, ast.Name):
            fid = self.scope_of(t.id, st)
            if isinstance(v, GenV):
                st.cells[('v', fid, t.id)] = v
                return
            v = self.bind(v, st)
            st.cells[('v', fid, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment')
            if isinstance(v, PyTup):
                items = v.items
                if len(items) != n:
                    raise Unsupported('unpack')
                for e, x in zip(t.elts, items):
                    self.assign(e, x, st)
                return
            tv = self.snap(v, st)
            if n == 1 and (is_setty(tv) or tv.ty[0] == 'list'):
                self.assign(t.elts[0], anyelem(tv), st)
                return
            isseq = tv.ty[0] == 'list' or tv.op in ('listof', 'bag') or is_setty(tv)
            for i, e in enumerate(t.elts):
                if isinstance(v, Ref):
                    x = proj(tv, i)
                    if self.is_container(x):
                        x = Ref(v.loc, v.path + (('i', i),))
                elif isseq and tv.op not in ('tuple', 'list'):
                    x = at(listof(tv), const(i))
                else:
                    x = proj(tv, i)
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.set_attr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval_lv(t.value, st)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice store')
            k = self.snap(self.eval(t.slice, st), st)
            m = self.special(o, '__setitem__', st)
            if m is not None:
                self.call_closure(m, [k, v], {}, st)
                return
            if not isinstance(o, Ref):
                raise Unsupported('store into value')
            cur = self.deref(o, st)
            if cur.ty[0] == 'list' or cur.op in ('list', 'bag', 'app'):
                self.write(Ref(o.loc, o.path + (('a', k),)), self.snap(v, st), st)
                return
            nv = self.snap(v, st)
            r = self.root(o, st)
            self.detach(r, k, st)
            self.mutate(o, dstore(cur, k, nv), st)
            if isinstance(v, Ref) and not v.path and v.loc != o.loc:
                # the stored container is now reachable through the dictionary: later writes go there
                vv = st.cells.get(('h', v.loc))
                if isinstance(vv, T) or isinstance(vv, Obj):
                    st.cells[('h', v.loc)] = Ref(r.loc, r.path + (('k', k),))
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred')
        else:
            raise Unsupported('assignment target')

    def set_attr(self, o, f, v, st):
        if isinstance(o, Ref):
            o = self.root(o, st)
            cur = st.cells.get(('h', o.loc), self.init_cells.get(('h', o.loc)))
            if isinstance(cur, Obj) and not o.path:
                if o.loc in self.borrowed:
                    raise Unsupported(f'attribute {f} of an element assigned')
                nf = dict(cur.fields)
                nf[f] = self.bind(v, st) if not isinstance(v, GenV) else self.bind(self.gen_list(v, st), st)
                st.cells[('h', o.loc)] = Obj(cur.cls, cur.base, nf)
                return
            self.write(Ref(o.loc, o.path + (('f', f),)), self.snap(v, st), st)
            return
        if isinstance(o, T):
            self.notes.append(f'attribute {f} of an immutable object assigned')
            return
        raise Unsupported('attribute store')

    def mutate(self, r, t, st):
        self.write(r, t, st)

    # ---- names ---------------------------------------------------------------------------
    def scope_of(self, name, st):
        """frame a store to `name` goes to"""
        ctx = self.fn_stack[-1]
        if name in ctx.locals:
            return ctx.env[-1]
        for fid in reversed(ctx.env[:-1]):
            if ('v', fid, name) in st.cells:
                return fid
        return ctx.env[-1]

    def lookup(self, name, st):
        ctx = self.fn_stack[-1]
        for fid in reversed(ctx.env):
            v = st.cells.get(('v', fid, name))
            if v is not None:
                return v
        if self.crashes and name in ctx.locals:
            self.crash(tm.TRUE, st)
            return tm.UNDEF
        body = getattr(ctx, 'body_of', None)
        if body is not None and name in body.consts:
            return self.eval_const(body.consts[name], body.module, body)
        if name in self.stand_ins and not ctx.module.name.startswith('spec_'):
            # an outside class is represented by a recording object of the claim
            lam = ast.parse(f'lambda *a, **k: {self.stand_ins[name]}', mode='eval').body
            return Closure(lam, self.fn_stack[0].env, ctx.module)
        return self.global_name(name, ctx.module)

    def global_name(self, name, module):
        if name in module.funcs:
            f = module.funcs[name]
            return Closure(f.node, (), module, f)
        if name in module.classes:
            return ClassV(name)
        if name in module.imports:
            m, o = module.imports[name]
            return self.resolve_import(m, o)
        if name in module.consts:
            n = module.consts[name]
            try:
                return const(ast.literal_eval(n)) if isinstance(n, ast.Constant) else self.eval_const(n, module)
            except Exception:
                return mk('global', module.name, name)
        if name in self.prog.classes:
            return ClassV(name)
        if module.name.startswith('spec_'):
            fs = [(m, m.funcs[name]) for m in self.prog.modules.values()
                  if name in m.funcs and not m.name.startswith('spec_')]
            if len(fs) == 1:
                return Closure(fs[0][1].node, (), fs[0][0], fs[0][1])
        return Builtin(name)

    def eval_const(self, n, module, cls=None):
        ctx = FnCtx()
        ctx.body_of = cls
        ctx.env = (self.new_fid(),)
        ctx.module = module
        ctx.cls = None
        ctx.locals = set()
        self.fn_stack.append(ctx)
        try:
            return self.eval(n, State({}, tm.TRUE))
        finally:
            self.fn_stack.pop()

    def resolve_import(self, m, o):
        if o is None:
            return ModV(m)
        mod = self.prog.modules.get(m)
        if mod is not None:
            if o in mod.classes:
                return ClassV(o)
            if o in mod.funcs:
                return Closure(mod.funcs[o].node, (), mod, mod.funcs[o])
            if o in mod.consts:
                return self.global_name(o, mod)
        if o in self.prog.classes:
            return ClassV(o)
        return Builtin(o)

    # ---------------------------------------------------------------------------------
    # expressions
    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, st)

    def ev(self, e, st):
        return self.snap(self.eval(e, st), st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        v = self.lookup(e.id, st)
        if self.crashes and isinstance(v, T):
            self.crash(lift(lambda l: tm.TRUE if l is tm.UNDEF else tm.FALSE, v), st)
        return v

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return self.lookup(e.target.id, st)

    def e_Tuple(self, e, st):
        vs = [self.eval(x, st) for x in e.elts]
        return PyTup(vs) if any(isinstance(v, Ref) for v in vs) else tup(*[self.snap(v, st) for v in vs])

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = mk('list', ty=('list', ANY))
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    r = concat(r, self.to_list(self.eval(x.value, st), st))
                else:
                    r = append(r, self.ev(x, st))
            return r
        xs = [self.ev(x, st) for x in e.elts]
        return lift(lambda *ys: mk('list', *ys, ty=('list', ys[0].ty if ys else ANY)), *xs)

    def e_Set(self, e, st):
        r = None
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.as_set(self.eval(x.value, st), st)
                r = s if r is None else union(r, s)
            else:
                items.append(self.ev(x, st))
        if items:
            s = setlit(items)
            r = s if r is None else union(r, s)
        return r if r is not None else empty_set()

    def e_Dict(self, e, st):
        d = empty_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, st)
                d = x if tm.is_empty(d) else dmerge(d, x)
            else:
                d = dstore(d, self.ev(k, st), self.ev(v, st))
        ks = [self.ev(k, st) if k is not None else None for k in e.keys]
        if ks and len(ks) <= 8 and all(k is not None and k.op == 'const' for k in ks) and len(set(ks)) == len(ks):
            self.literal_keys.setdefault(d, ks)
        return d

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                try:
                    x = self.ev(v.value, st)
                    if v.format_spec is not None or v.conversion not in (-1, 115):
                        how = ast.unparse(v.format_spec) if v.format_spec is not None else str(v.conversion)
                        x = lift(lambda x: mk('format', x, how, ty=STR), x)
                    parts.append(x)
                except Unsupported:
                    parts.append(opaque('fstring'))
            else:
                parts.append(const(v.value))
        return tm.text(*parts)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return not_(self.truth(self.eval(e.operand, st), st))
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk('inv', v)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st)
        for i, x in enumerate(e.values[1:]):
            c = self.truth(v, st)
            w = self.eval_under(c if isand else not_(c), x, st)
            vt = self.snap(v, st)
            wt = self.snap(w, st)
            if boolish(vt) and boolish(wt):
                v = and_(vt, wt) if isand else or_(vt, wt)
            elif isand:
                v = ite3(c, wt, vt if not boolish(vt) else tm.FALSE)
            else:
                v = ite3(c, vt, wt)
        return v

    def eval_under(self, c, x, st):
        if c is tm.TRUE:
            return self.eval(x, st)
        s1 = st.copy()
        s1.live = and_(st.live, c)
        v = self.eval(x, s1)
        if isinstance(v, Ref):
            v = self.deref(v, s1)
        s2 = st.copy()
        s2.live = and_(st.live, not_(c))
        self.merge_into(st, c, s1, s2)
        return v

    def e_IfExp(self, e, st):
        c = self.truth(self.eval(e.test, st), st)
        if c is tm.TRUE:
            return self.eval(e.body, st)
        if c is tm.FALSE:
            return self.eval(e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.live = and_(st.live, c)
        s2.live = and_(st.live, not_(c))
        a = self.eval(e.body, s1)
        b = self.eval(e.orelse, s2)
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            self.merge_into(st, c, s1, s2)
            return a
        s1.cells[('v', -2, 'x')] = a if not isinstance(a, GenV) else self.gen_list(a, s1)
        s2.cells[('v', -2, 'x')] = b if not isinstance(b, GenV) else self.gen_list(b, s2)
        if isinstance(s1.cells[('v', -2, 'x')], T) and isinstance(s2.cells[('v', -2, 'x')], T):
            v = ite3(c, a, b) if isinstance(a, T) and isinstance(b, T) else None
            if v is not None:
                del s1.cells[('v', -2, 'x')]
                del s2.cells[('v', -2, 'x')]
                self.merge_into(st, c, s1, s2)
                return v
        self.merge_into(st, c, s1, s2)
        return st.cells.pop(('v', -2, 'x'))

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = tm.TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            res = and_(res, self.compare(op, left, right, st))
            left = right
        return res

    def compare(self, op, a, b, st):
        n = type(op).__name__
        if n in ('In', 'NotIn'):
            c = self.contains(a, b, st)
            return c if n == 'In' else not_(c)
        if n in ('Is', 'IsNot'):
            c = ident(self.snap(a, st), self.snap(b, st))
            return c if n == 'Is' else not_(c)
        x, y = self.snap(a, st), self.snap(b, st)
        if n in ('Eq', 'NotEq'):
            c = self.equals(x, y, st)
            return c if n == 'Eq' else not_(c)
        if is_setty(x) and is_setty(y) or (x.op == 'set' or y.op == 'set'):
            if n == 'LtE':
                return subset(x, y)
            if n == 'GtE':
                return subset(y, x)
            if n == 'Lt':
                return and_(subset(x, y), not_(subset(y, x)))
            if n == 'Gt':
                return and_(subset(y, x), not_(subset(x, y)))
        if n == 'Gt':
            return gt0(sub(x, y))
        if n == 'Lt':
            return gt0(sub(y, x))
        if n == 'GtE':
            return ge0(sub(x, y))
        return ge0(sub(y, x))

    def equals(self, x, y, st):
        # id(a) == id(b) is object identity
        def f(x, y):
            if x.op == 'id' and y.op == 'id':
                return ident(x.args[0], y.args[0])
            return eq(x, y)
        return lift(f, x, y)

    def contains(self, a, b, st):
        x = self.snap(a, st)
        if isinstance(b, GenV):
            return self.gen_exists(b, lambda e: eq(self.snap(e, st), x), st)
        y = self.snap(b, st)
        if y.op == 'const' and y.ty == STR and x.op == 'at' and x.args[0].ty == STR:
            return or_(*[eq(x, const(c)) for c in sorted(set(y.args[1]))])     # one character of a text
        return member(x, y)

    def truth(self, v, st):
        if isinstance(v, Ref):
            t = self.root(v, st)
            cur = st.cells.get(('h', t.loc), self.init_cells.get(('h', t.loc)))
            if isinstance(cur, Obj) and not t.path:
                return self.obj_truth(cur.cls, v, st)
            v = self.deref(v, st)
        if isinstance(v, GenV):
            return tm.TRUE
        if isinstance(v, (Closure, ClassV, Builtin, ModV)):
            return tm.TRUE
        if isinstance(v, PyTup):
            return const(bool(v.items))
        v = self.snap(v, st)

        def f(t):
            if t.ty[0] == 'cls' and t.op not in ('const',):
                return self.obj_truth(t.ty[1], t, st)
            return truthy(t)
        return lift(f, v)

    def obj_truth(self, cls, v, st):
        m = self.prog.find_method(cls, '__bool__')
        if m is not None:
            r = self.call_closure(Closure(m.node, (), m.module, m, v), [], {}, st)
            return self.truth(r, st)
        m = self.prog.find_method(cls, '__len__')
        if m is not None:
            r = self.call_closure(Closure(m.node, (), m.module, m, v), [], {}, st)
            return self.truth(r, st)
        t = self.snap(v, st)
        return not_(isnone(t))

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st)

    def as_coll(self, v, st):
        if isinstance(v, GenV):
            return self.gen_list(v, st)
        return self.snap(v, st)

    def binop(self, n, a, b, st):
        x, y = self.as_coll(a, st), self.as_coll(b, st)
        sx = any(is_setty(l) for l in tm.leaves_of(x))
        sy = any(is_setty(l) for l in tm.leaves_of(y))
        if sx or sy:
            f = {'BitOr': union, 'BitAnd': inter, 'Sub': diff, 'BitXor': symdiff}.get(n)
            if f:
                return f(x, y)
        dx = x.ty[0] == 'dict' or x.op == 'dict'
        if dx and n == 'BitOr':
            return dmerge(x, y)
        if n == 'Add':
            if x.ty[0] == 'list' or y.ty[0] == 'list' or x.op in ('list', 'bag'):
                return concat(x, y)
            if x.ty == STR or y.ty == STR:
                return tm.text(x, y)
            if x.ty[0] == 'tuple' and y.ty[0] == 'tuple':
                return lift(lambda p, q: tup(*(p.args + q.args)) if p.op == q.op == 'tuple' else mk('tcat', p, q),
                            x, y)
            return add(x, y)
        if n == 'Sub':
            return sub(x, y)
        if n == 'Mult':
            if y.op == 'list' and x.op != 'list':
                x, y = y, x
            if x.op == 'list' and len(x.args) == 1:
                def rep(n):
                    z, (g, _) = tm.open_(tm.upto(n))
                    return tm.mkbag(z, g, x.args[0])
                return lift(rep, y)
            return mul(x, y)
        if n == 'Div':
            self.crash(tm.eq(y, const(0)), st)
            return div(x, y)
        return tm.arith(n, x, y)

    # ---- attribute access -----------------------------------------------------------------
    def e_Attribute(self, e, st):
        o = self.eval(e.value, st)
        return self.get_attr(o, e.attr, st)

    def get_attr(self, o, f, st):
        if isinstance(o, ModV):
            return const('\n') if f == 'linesep' else Builtin(f)
        if isinstance(o, SuperV):
            m = self.prog.find_super(o.cls, o.after, f)
            if m is None:
                return Builtin('object.' + f)
            return Closure(m.node, (), m.module, m, o.selfv)
        if isinstance(o, ClassV):
            m = self.prog.find_method(o.name, f)
            if m is not None:
                if m.static:
                    return Closure(m.node, (), m.module, m)
                if m.classm:
                    return Closure(m.node, (), m.module, m, o)
                return Closure(m.node, (), m.module, m)
            for c in self.prog.mro(o.name):
                if f in c.consts:
                    v = self.eval_const(c.consts[f], c.module, c)
                    if isinstance(v, T) and self.is_container(v) and self.is_open(c.name):
                        return self.alloc(v, st)      # class-level bookkeeping of the demo is not part of any claim
                    return v
            return mk('clsattr', o.name, f)
        if isinstance(o, Builtin):
            return Builtin(o.name + '.' + f)
        if isinstance(o, (GenV, PyTup)):
            return Builtin(f, o)
        if isinstance(o, Closure):
            raise Unsupported('attribute of function')
        if isinstance(o, Ref):
            o = self.root(o, st)
            cur = st.cells.get(('h', o.loc), self.init_cells.get(('h', o.loc)))
            if isinstance(cur, Obj) and not o.path:
                if f in cur.fields:
                    return cur.fields[f]
                m = self.prog.find_method(cur.cls, f)
                if m is not None:
                    return self.method(m, o, cur.cls, st)
                if f == '__class__':
                    return ClassV(cur.cls)
                for c in self.prog.mro(cur.cls):
                    if f in c.consts:
                        return self.eval_const(c.consts[f], c.module, c)
                if cur.base is None:
                    if f in self.erased:
                        return mk('erased', ty=STR)
                    if self.crashes:
                        self.crash(tm.TRUE, st)
                        return tm.UNDEF
                    raise Unsupported(f'unknown attribute {cur.cls}.{f}')
                return self.materialise(o, cur, f, st)
            t = self.deref(o, st)
            return self.t_attr(t, f, st, o)
        t = self.snap(o, st)
        return self.t_attr(t, f, st, None)

    def materialise(self, r, cur, f, st):
        cf = self.canon_field(cur.cls, f)
        t = mk('field', cur.base, cf, ty=self.field_ty(cur.cls, f))
        if f in self.erased:
            return mk('erased', ty=STR)
        v = t
        loc = ('lz', ('h', r.loc), f)
        if self.is_container(t):
            self.init_cells[('h', loc)] = t
            st.cells.setdefault(('h', loc), t)
            v = Ref(loc)
        elif t.ty[0] == 'cls' and self.is_mutable(t.ty[1]):
            if self.is_open(t.ty[1]):
                tm.NONNULL.add(t)
            o = Obj(t.ty[1], t, {})
            self.init_cells[('h', loc)] = o
            st.cells.setdefault(('h', loc), o)
            v = Ref(loc)
        nf = dict(cur.fields)
        nf[f] = v
        st.cells[('h', r.loc)] = Obj(cur.cls, cur.base, nf)
        return v

    def method(self, m, recv, cls, st):
        if m.static:
            return Closure(m.node, (), m.module, m)
        if m.classm:
            return Closure(m.node, (), m.module, m, ClassV(cls))
        c = Closure(m.node, (), m.module, m, recv)
        if m.prop:
            return self.call_closure(c, [], {}, st)
        return c

    def t_attr(self, t, f, st, ref):
        if self.crashes:
            self.crash(lift(lambda l: tm.TRUE if l is tm.NONE or l is tm.UNDEF else tm.FALSE, t), st)
        tys = {l.ty for l in tm.leaves_of(t) if l is not tm.UNDEF and l is not tm.NONE}
        cls = None
        if tys and all(x[0] == 'cls' for x in tys):
            cls = sorted(tys)[0][1]
            if len(tys) > 1:
                common = [c.name for c in self.prog.mro(cls) if all(self.prog.subclass_of(x[1], c.name) for x in tys)]
                cls = common[0] if common else cls
        if cls is not None:
            m = self.prog.find_method(cls, f)
            if cls == PROVIDER or (m is not None and m.cls.name == PROVIDER):
                if m is not None:
                    return Builtin('provider.' + f, t)
            if m is not None and self.prog.subclass_of(cls, PROVIDER) and t.op in ('sym', 'field'):
                return Builtin('provider.' + f, t)
            if m is not None:
                recv = ref if ref is not None else t
                if ref is None and self.is_mutable(cls):
                    recv = self.obj_ref(t, st) if t.op != 'ite' else t
                return self.method(m, recv, cls, st)
            for c in self.prog.mro(cls):
                if f in c.consts:
                    return self.eval_const(c.consts[f], c.module, c)
            v = self.field_of(t, f)
            if ref is not None and (self.is_container(v) or (v.ty[0] == 'cls' and self.is_mutable(v.ty[1]))):
                return Ref(ref.loc, ref.path + (('f', f),))
            return v
        if self.is_container(t) or any(self.is_container(l) for l in tm.leaves_of(t)):
            return Builtin(f, ref if ref is not None else t)
        if t.ty == STR or t.ty == NUM or t.ty == BOOL or t.ty[0] == 'tuple' or t.op == 'fmt':
            return Builtin(f, t)
        # unknown type
        if f in SETM or f in DICTM or f in LISTM or f in STRM or f.startswith('__'):
            return Builtin(f, ref if ref is not None else t)
        owners = [c for c in self.prog.classes.values() if f in c.methods]
        if owners:
            return Builtin(f, t)
        return self.field_of(t, f)

    # ---- subscripts -------------------------------------------------------------------------
    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        if isinstance(o, (ClassV, Builtin)):
            return o
        if isinstance(e.slice, ast.Slice):
            t = self.as_coll(o, st)
            lo = self.ev(e.slice.lower, st) if e.slice.lower is not None else tm.NONE
            hi = self.ev(e.slice.upper, st) if e.slice.upper is not None else tm.NONE
            if e.slice.step is not None:
                raise Unsupported('slice step')

            def f(t, lo, hi):
                if t.op in ('list', 'tuple') and lo.op == 'const' and hi.op == 'const':
                    xs = t.args[slice(None if lo is tm.NONE else int(lo.args[1]),
                                      None if hi is tm.NONE else int(hi.args[1]))]
                    return mk(t.op, *xs, ty=t.ty)
                if lo is tm.NONE and hi is tm.NONE:
                    return t
                return mk('slice', t, lo, hi, ty=t.ty)
            return lift(f, listof(t) if is_setty(t) else t, lo, hi)
        if isinstance(o, PyTup):
            k = self.ev(e.slice, st)
            if k.op == 'const':
                return o.items[int(k.args[1])]
        m = self.special(o, '__getitem__', st)
        if m is not None:
            return self.call_closure(m, [self.eval(e.slice, st)], {}, st)
        t = self.as_coll(o, st)
        k = self.ev(e.slice, st)
        if t.ty[0] == 'dict' or t.op == 'dict' or any(l.op == 'dict' or l.ty[0] == 'dict' for l in tm.leaves_of(t)):
            fac = self.factory(o, st)
            if fac is not None:      # default dict
                dflt = self.default_of(fac)
                v = tm.dget(t, k, dflt)
                if isinstance(o, Ref):
                    if self.is_container(dflt):
                        nd = ite3(member(k, t), t, dstore(t, k, dflt))
                        self.write(o, nd, st)
                        return Ref(o.loc, o.path + (('k', k),))
                return v
            if self.keyerr is not None:
                self.keyerr.append(and_(st.live, not_(member(k, t))))
            else:
                self.crash(not_(member(k, t)), st)
            v = sel(t, k)
            if isinstance(o, Ref) and (self.is_container(v) or v.op == 'ite' and
                                       any(self.is_container(l) for l in tm.leaves_of(v)) or
                                       v.ty[0] in ('tuple',) and v.op != 'tuple' or
                                       v.ty[0] == 'cls' and self.is_mutable(v.ty[1]) or
                                       any(l.op == 'tuple' and any(self.is_container(x) for x in l.args)
                                           for l in tm.leaves_of(v))):
                return Ref(o.loc, o.path + (('k', k),))
            return v
        if k.op == 'const' and k.args[0] == 'num':
            i = int(k.args[1])
            lv = [l for l in tm.leaves_of(t)]
            if all(l.op in ('tuple',) or l.ty[0] == 'tuple' for l in lv):
                v = proj(t, i)
                if isinstance(o, Ref) and self.is_container(v):
                    return Ref(o.loc, o.path + (('i', i),))
                return v
            if t.ty == ANY and t.op not in ('list', 'bag', 'listof'):
                return proj(t, i)
        v = at(t, k)
        if isinstance(o, Ref) and (v.ty[0] == 'cls' and self.is_open(v.ty[1]) or
                                   v.ty[0] == 'list' and t.ty[0] == 'list'):
            return Ref(o.loc, o.path + (('a', k),))
        return v

    def special(self, o, name, st):
        """the method behind an operator on an object of the demo"""
        if not isinstance(o, (Ref, T)):
            return None
        if isinstance(o, Ref):
            r = self.root(o, st)
            cur = st.cells.get(('h', r.loc), self.init_cells.get(('h', r.loc)))
            if isinstance(cur, Obj) and not r.path:
                cls = cur.cls
            else:
                ty = self.deref(o, st).ty
                cls = ty[1] if ty[0] == 'cls' else None
        else:
            cls = o.ty[1] if o.ty[0] == 'cls' else None
        if cls is None or not self.is_open(cls):
            return None
        m = self.prog.find_method(cls, name)
        if m is None:
            return None
        if isinstance(o, T):
            o = self.obj_ref(o, st) if o.op != 'ite' else o
        return Closure(m.node, (), m.module, m, o)

    def mk_dd(self, fac, vt, st, t=None):
        r = self.alloc(t if t is not None else empty_dict(('dict', ANY, vt)), st)
        self.dd[r.loc] = fac
        return r

    def factory(self, o, st):
        if isinstance(o, Ref):
            seen = 0
            while True:
                if not o.path and o.loc in self.dd:
                    return self.dd[o.loc]
                v = st.cells.get(('h', o.loc))
                if isinstance(v, Ref) and seen < 20:
                    o = Ref(v.loc, v.path + o.path)
                    seen += 1
                else:
                    return None
        return None

    def default_of(self, fac):
        return {'set': empty_set(), 'dict': empty_dict(), 'list': mk('list', ty=('list', ANY)), 'int': tm.ZERO,
                'float': tm.ZERO}.get(fac, opaque('default'))

    def e_Starred(self, e, st):
        raise Unsupported('starred')

    def e_Lambda(self, e, st):
        ctx = self.fn_stack[-1]
        c = Closure(e, ctx.env, ctx.module)
        c.cls = ctx.cls
        return c

    # ---- comprehensions ------------------------------------------------------------------
    def comp(self, generators, st, leaf):
        """lower nested generators; calls leaf(state) for the innermost value; returns GenV"""
        fid = self.fn_stack[-1].env[-1]
        names = set()
        for g in generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved = {n: st.cells.get(('v', fid, n)) for n in names}
        gens = []
        s = st.copy()
        s.live = tm.TRUE
        self.raise_stack.append([])
        before = None
        try:
            guards = []
            for g in generators:
                it = self.domain(self.eval(g.iter, s), s)
                if it is None:
                    raise Unsupported('iteration domain')
                if isinstance(it, list):
                    if len(it) == 1:
                        self.assign(g.target, it[0], s)
                        gens.append([None, tm.TRUE])
                    elif it:
                        z = fresh('i', NUM)
                        xs = [self.snap(x, s) for x in it]
                        gens.append([z, or_(*[eq(z, const(i)) for i in range(len(xs))])])
                        r = xs[-1]
                        for i in range(len(xs) - 2, -1, -1):
                            r = ite3(eq(z, const(i)), xs[i], r)
                        self.assign(g.target, self.bind(r, s), s)
                    else:
                        gens.append([None, tm.FALSE])
                        self.assign(g.target, tm.UNDEF, s)
                else:
                    for z, gd in it.gens:
                        gens.append([z, gd])
                    self.assign(g.target, it.elem, s)
                for c in g.ifs:
                    cv = self.truth(self.eval(c, s), s)
                    gens[-1][1] = and_(gens[-1][1], cv)
            before = dict(s.cells)
            v = leaf(s)
            for k, x in s.cells.items():
                if k in st.cells and k[0] == 'h' and not self.same(x, st.cells[k]):
                    if isinstance(x, Obj) and isinstance(st.cells[k], Obj) and x.base is st.cells[k].base:
                        # field level change
                        o = st.cells[k]
                        nf = dict(o.fields)
                        for f, fv in x.fields.items():
                            if f not in o.fields or not self.same(fv, o.fields[f]):
                                if isinstance(fv, Ref):
                                    nf[f] = fv
                                    if ('h', fv.loc) not in st.cells:
                                        st.cells[('h', fv.loc)] = self.init_cells.get(('h', fv.loc),
                                                                                     s.cells.get(('h', fv.loc)))
                                elif isinstance(fv, T) and o.base is not None and \
                                        fv is mk('field', o.base, self.canon_field(o.cls, f)):
                                    nf[f] = fv
                                else:
                                    nf[f] = opaque('comp-effect')
                        st.cells[k] = Obj(o.cls, o.base, nf)
                    else:
                        st.cells[k] = opaque('comp-effect')
        finally:
            rz = or_(*self.raise_stack.pop())
        # raising inside a comprehension
        if rz is not tm.FALSE:
            q = rz
            for z, gd in reversed(gens):
                q = exists(z, and_(gd, q)) if z is not None else and_(gd, q)
            self.do_raise(q, st)
        out = []
        pend = tm.TRUE
        for z, gd in gens:
            if z is None:
                pend = and_(pend, gd)
            else:
                out.append((z, and_(pend, gd)))
                pend = tm.TRUE
        if not out:
            # single concrete element
            z = fresh('u', NUM)
            out = [(z, and_(pend, eq(z, tm.ZERO)))]
        elif pend is not tm.TRUE:
            z, gd = out[-1]
            out[-1] = (z, and_(gd, pend))
        # locations created inside the generator body are private to it; values are snapshots
        return GenV(out, v)

    def e_SetComp(self, e, st):
        g = self.comp(e.generators, st, lambda s: self.snap(self.eval(e.elt, s), s))
        return self.gen_set(g, st)

    def e_ListComp(self, e, st):
        if len(e.generators) == 1:
            # concrete list
            it0 = self.eval(e.generators[0].iter, st.copy())
            it = self.domain(it0, st)
            if self.cut and self.unroll_depth and not isinstance(it, list) and not isinstance(it0, tuple):
                t = self.written(it0, it, st)
                if t is not None:
                    self.eval(e.generators[0].iter, st)
                    return self.cases_of(e, t, st)

            def listed(it, st):
                r = mk('list', ty=('list', ANY))
                for x in it:
                    self.assign(e.generators[0].target, x, st)
                    c = tm.TRUE
                    for i in e.generators[0].ifs:
                        c = and_(c, self.truth(self.eval(i, st), st))
                    v = self.ev(e.elt, st)
                    r = ite3(c, append(r, v), r)
                return r

            def cases(t, st):
                if t.op == 'ite':
                    a, s1, s2 = t.args[0], st.copy(), st.copy()
                    s1.live, s2.live = and_(st.live, B(a)), and_(st.live, not_(B(a)))
                    return ite3(B(a), cases(t.args[1], s1), cases(t.args[2], s2))
                return t if t is tm.UNDEF else listed(list(t.args), st)
            if isinstance(it, list):
                return listed(self.domain(self.eval(e.generators[0].iter, st), st), st)
            if it is None and listcases(self.snap(it0, st)):
                return cases(self.snap(self.eval(e.generators[0].iter, st), st), st)
        g = self.comp(e.generators, st, lambda s: self.snap(self.eval(e.elt, s), s))
        return self.gen_list(g, st)

    def written(self, v, it, st):
        """what is iterated over, as lists written out, if it can be"""
        from .builtins_model import listed
        if isinstance(v, GenV):
            if len(v.gens) != 1:
                return None
            xs = elements(*v.gens[0])
            if xs is None or len(xs) > 4:
                return None
            el, r = self.snap(v.elem, st), mk('list', ty=('list', ANY))
            for x, c in xs:
                r = ite3(c, append(r, rebuild(el, {v.gens[0][0]: x})), r)
            return r
        t = self.snap(v, st)
        if any(l is not tm.UNDEF and not (is_setty(l) or l.ty[0] in ('list', 'dict')) for l in tm.leaves_of(t)):
            return None
        t = lift(lambda x: listed(listof(x), 4), t)
        ls = tm.leaves_of(t)
        return t if len(ls) <= 9 and all(l.op == 'list' or l is tm.UNDEF for l in ls) else None

    def cases_of(self, e, t, st):
        if t.op == 'ite':
            a, s1, s2 = B(t.args[0]), st.copy(), st.copy()
            s1.live, s2.live = and_(st.live, a), and_(st.live, not_(a))
            return ite3(a, self.cases_of(e, t.args[1], s1), self.cases_of(e, t.args[2], s2))
        if t is tm.UNDEF:
            return t
        r = mk('list', ty=('list', ANY))
        for x in t.args:
            sx = st.copy()
            self.assign(e.generators[0].target, x, sx)
            c = tm.TRUE
            for i in e.generators[0].ifs:
                c = and_(c, self.truth(self.eval(i, sx), sx))
                sx.live = and_(sx.live, c)
            if c is not tm.FALSE:
                r = ite3(c, append(r, self.ev(e.elt, sx)), r)
            if any(k[0] == 'h' and k in st.cells and not self.same(v, st.cells[k]) for k, v in sx.cells.items()):
                raise Unsupported('effect in a comprehension')
        return r

    def e_GeneratorExp(self, e, st):
        return self.comp(e.generators, st, lambda s: self.snap(self.eval(e.elt, s), s))

    def e_DictComp(self, e, st):
        g = self.comp(e.generators, st, lambda s: tup(self.snap(self.eval(e.key, s), s),
                                                      self.snap(self.eval(e.value, s), s)))
        return self.gen_dict(g, st)

    # ---- sequences -------------------------------------------------------------------------
    def gen_set(self, g, st):
        e = self.snap(g.elem, st)
        w = fresh('w', e.ty)
        return mkset(w, self.gen_exists(g, lambda x: eq(w, x), st), ('set', e.ty))

    def gen_exists(self, g, pred, st):
        b = pred(self.snap(g.elem, st))
        for z, gd in reversed(g.gens):
            b = exists(z, and_(gd, b))
        return b

    def gen_sum(self, g, f, st):
        v = f(self.snap(g.elem, st))
        for z, gd in reversed(g.gens):
            v = msum(z, gd, v)
        return v

    def gen_list(self, g, st):
        v = self.snap(g.elem, st)
        flat = False
        for z, gd in reversed(g.gens):
            v = mkbag(z, gd, v, flat=flat)
            flat = True
        return v

    def gen_dict(self, g, st):
        e = self.snap(g.elem, st)
        k, v = proj(e, 0), proj(e, 1)
        w = fresh('w', k.ty)
        mem = eq(w, k)
        val = v
        for z, gd in reversed(g.gens):
            c = and_(gd, mem)
            val = choose('last', z, c, val)
            mem = exists(z, c)
        return mkdict(w, mem, val, ('dict', k.ty, v.ty))

    def domain(self, v, st):
        """iteration over a value: list of concrete elements, or GenV"""
        if isinstance(v, GenV):
            return v
        if isinstance(v, PyTup):
            return list(v.items)
        if isinstance(v, Ref):
            t = self.root(v, st)
            cur = st.cells.get(('h', t.loc), self.init_cells.get(('h', t.loc)))
            if isinstance(cur, Obj) and not t.path:
                m = self.prog.find_method(cur.cls, '__iter__')
                if m is not None:
                    return self.domain(self.call_closure(Closure(m.node, (), m.module, m, v), [], {}, st), st)
                return None
            t = self.deref(v, st)
            if t.op in ('list', 'tuple') and any(self.shared(x) for x in t.args):
                r = self.root(v, st)
                return [Ref(r.loc, r.path + (('i', i),)) if self.shared(x) else x for i, x in enumerate(t.args)]
            return self.t_domain(t)
        t = self.snap(v, st)
        if t.ty[0] == 'cls':
            m = self.prog.find_method(t.ty[1], '__iter__')
            if m is not None:
                return self.domain(self.call_closure(Closure(m.node, (), m.module, m, t), [], {}, st), st)
        return self.t_domain(t)

    def shared(self, t):
        """a value whose owner sees changes made to it"""
        return self.is_container(t) or t.ty[0] == 'cls' and self.is_mutable(t.ty[1])

    def t_domain(self, t):
        if t.op in ('tuple', 'list'):
            return list(t.args)
        if t.op == 'ite':
            lv = [l for l in tm.leaves_of(t) if l is not tm.UNDEF]
            if all(is_setty(l) or l.op in ('set', 'keys') for l in lv):
                ets = {elem_ty(l.ty) for l in lv if not (l.op == 'set' and l.args[1] is tm.FALSE)}
                ets = {e for e in ets if has_info(e)} or ets or {ANY}
                z = fresh('z', ets.pop() if len(ets) == 1 else tm.MIX)
                return self.dom_of(z, member(z, t))
            if all(l.ty[0] == 'dict' or l.op == 'dict' for l in lv):
                ets = {elem_ty(l.ty) for l in lv if not (l.op == 'dict' and l.args[1] is tm.FALSE)}
                ets = {e for e in ets if has_info(e)} or ets or {ANY}
                z = fresh('z', ets.pop() if len(ets) == 1 else tm.MIX)
                return GenV([(z, member(z, t))], z)
            if lv and all(l.op in ('list', 'tuple') and len(l.args) == len(lv[0].args) for l in lv):
                return [lift(lambda l, i=i: l if l is tm.UNDEF else l.args[i], t) for i in range(len(lv[0].args))]
            if all(l.ty == STR for l in lv):
                z = fresh('z', NUM)
                return GenV([(z, lift(lambda l: B(mk('in', z, mk('dom', l), ty=BOOL)), t))],
                            lift(lambda l: mk('at', l, z, ty=STR), t))
            return None
        if t.ty == STR:
            z = fresh('z', NUM)
            return GenV([(z, B(mk('in', z, mk('dom', t), ty=BOOL)))], mk('at', t, z, ty=STR))
        if t.op == 'listof':
            return self.t_domain(t.args[0])
        if t.op == 'slice' and t.args[0].op == 'listof' and t.args[1] is tm.ONE and t.args[2] is tm.NONE:
            u = t.args[0].args[0]
            z = fresh('z', elem_ty(u.ty))
            return GenV([(z, and_(member(z, u), not_(eq(z, tm.anyelem(u)))))], z)
        if t.op == 'bag':
            z, (g, e) = open_(t)
            return GenV([(z, g)], e)
        if t.op == 'bagflat':
            z, (g, e) = open_(t)
            inner = self.t_domain(e)
            if isinstance(inner, GenV):
                return GenV([(z, g)] + inner.gens, inner.elem)
            return None
        if is_setty(t):
            z = fresh('z', elem_ty(t.ty))
            return self.dom_of(z, member(z, t), unique=True)
        if t.ty[0] == 'dict' or t.op == 'dict':
            z = fresh('z', elem_ty(t.ty))
            return GenV([(z, member(z, t))], z, unique=True)
        if t.ty[0] == 'list':
            z = fresh('z', NUM)
            d = t
            while d.op == 'lstore':
                d = d.args[0]
            return GenV([(z, B(mk('in', z, mk('dom', d), ty=BOOL)))], at(t, z))
        if t.ty == ANY or t.op == 'opaque':
            z = fresh('z', ANY)
            return GenV([(z, B(mk('in', z, t, ty=BOOL)))], z)
        return None

    def dom_of(self, z, body, unique=False):
        """iteration over { z | body }: components of a tuple fixed by the others are computed, not iterated"""
        e = tm.untuple(z, body)
        if e is not None:
            x, g, el = e
            if x is None:
                x = fresh('u', NUM)
                g = and_(g, eq(x, tm.ZERO))
            return GenV([(x, g)], el, unique=unique)
        return GenV([(z, body)], z, unique=unique)

    def as_set(self, v, st):
        if isinstance(v, GenV):
            return self.gen_set(v, st)
        if isinstance(v, PyTup):
            return setlit([self.snap(x, st) for x in v.items])
        t = self.snap(v, st)

        def f(t):
            if is_setty(t):
                return t
            if t.ty[0] == 'dict' or t.op == 'dict':
                return keys(t)
            if t.op in ('list', 'tuple'):
                return setlit(list(t.args)) if t.args else empty_set()
            if t.op == 'listof':
                return t.args[0]
            if t.op in ('bag', 'bagflat', 'cat', 'app') or t.ty[0] == 'list':
                w = fresh('w', elem_ty(t.ty))
                return mkset(w, member(w, t), ('set', elem_ty(t.ty)))
            if t.ty[0] == 'tuple':
                return setlit([proj(t, i) for i in range(len(t.ty) - 1)])
            if t.ty == ANY:
                return mk('toset', t, ty=('set', ANY)) if t.op != 'opaque' else opaque('set', t)
            return opaque('set', t, ty=('set', ANY))
        return lift(f, t)

    def to_list(self, v, st):
        if isinstance(v, GenV):
            return self.gen_list(v, st)
        if isinstance(v, PyTup):
            return listof(self.snap(v, st))
        return listof(self.snap(v, st))

    # ---- calls --------------------------------------------------------------------------------
    def e_Call(self, e, st):
        self.sites += 1
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == 'super':
            v = self.lookup('super', st)
            if isinstance(v, Builtin):
                return self.make_super(e, st)
        if isinstance(fn, ast.Attribute) and fn.attr in MUTATORS and isinstance(fn.value, ast.Subscript):
            f = self.get_attr(self.eval_lv(fn.value, st), fn.attr, st)
        else:
            f = self.eval(fn, st)
        args = []
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                star = self.eval(a.value, st)
                if isinstance(star, PyTup):
                    args.extend(star.items)
                    star = None
                else:
                    t = self.as_coll(star, st)
                    if t.op in ('list', 'tuple'):
                        args.extend(t.args)
                        star = None
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('**kwargs')
            kwargs[k.arg] = self.eval(k.value, st)
        if st.live is tm.FALSE:
            return tm.UNDEF
        if star is not None:
            return self.star_call(f, args, star, st)
        r = self.call(f, args, kwargs, st)
        if isinstance(f, Builtin) and isinstance(r, T) and \
                (fn.id if isinstance(fn, ast.Name) else getattr(fn, 'attr', None)) in FRESH and \
                borrowed(r) and self.is_container(r):
            return self.alloc(r, st)         # a copy of what somebody else holds
        return r

    def make_super(self, e, st):
        ctx = None
        for c in reversed(self.fn_stack):
            if c.closure is not None and c.closure.func is not None and c.closure.func.cls is not None:
                ctx = c
                break
        if ctx is None:
            raise Unsupported('super')
        selfv = ctx.closure.selfv
        cls = ctx.closure.func.cls.name
        if isinstance(selfv, Ref):
            cur = st.cells.get(('h', selfv.loc), self.init_cells.get(('h', selfv.loc)))
            rt = cur.cls if isinstance(cur, Obj) else cls
        elif isinstance(selfv, T) and selfv.ty[0] == 'cls':
            rt = selfv.ty[1]
        else:
            rt = cls
        return SuperV(selfv, rt, cls)

    def star_call(self, f, args, star, st):
        if isinstance(f, Builtin) and f.name.split('.')[-1] in ('union', 'intersection') and not args:
            d = self.domain(star, st)
            isu = f.name.endswith('union')
            recv = self.as_set(f.recv, st) if f.recv is not None else None
            if isinstance(d, GenV):
                w = fresh('w')
                e = self.snap(d.elem, st)
                w = fresh('w', elem_ty(e.ty))
                if isu:
                    b = self.gen_exists(d, lambda x: member(w, x), st)
                    if recv is not None:
                        b = or_(b, member(w, recv))
                else:
                    b = not_(self.gen_exists(d, lambda x: not_(member(w, x)), st))
                    if recv is not None:
                        b = and_(b, member(w, recv))
                return mkset(w, b, ('set', elem_ty(e.ty)))
        if isinstance(f, Builtin) and f.name.endswith('chain') and not args:
            return self.call(Builtin('chain.from_iterable'), [star], {}, st)
        return opaque('starcall', self.snap(f, st), self.as_coll(star, st))

    def call(self, f, args, kwargs, st):
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs, st)
        if isinstance(f, ClassV):
            return self.construct(f.name, args, kwargs, st)
        if isinstance(f, Builtin):
            from . import builtins_model as bm
            return bm.call(self, f, args, kwargs, st)
        if isinstance(f, T):
            ts = [self.snap(a, st) for a in args]
            rty = f.ty[1] if f.ty[0] == 'fn' and len(f.ty) > 1 else ANY
            if f.op == 'closure':
                return opaque('closure-call', *ts)
            r = lift(lambda *xs: mk('call', f, tuple(xs), ty=rty), *ts)
            for a in args:
                if isinstance(a, Ref):
                    o = st.cells.get(('h', a.loc))
                    if isinstance(o, Obj):
                        pass
            return B(r) if rty == BOOL and r.op != 'ite' else r
        raise Unsupported(f'call of {type(f).__name__}')

    def construct(self, cls, args, kwargs, st):
        init = self.prog.find_method(cls, '__init__')
        loc = self.new_loc()
        st.cells[('h', loc)] = Obj(cls, None, {})
        if init is not None:
            self.call_closure(Closure(init.node, (), init.module, init, Ref(loc)), args, kwargs, st)
        if st.live is tm.FALSE:
            return tm.UNDEF
        if self.is_mutable(cls):
            return Ref(loc)
        o = st.cells[('h', loc)]
        ci = self.class_info(cls)
        d = {}
        for p, s in ci.params:
            if p in self.erased:
                continue
            f = ci.unrole.get(ci.rn.get(p))
            if f is not None and f in o.fields:
                d[ci.rn[p]] = self.snap(o.fields[f], st)
        for f, v in o.fields.items():
            if f in self.erased or f in ci.role:
                continue
            df = ci.fields.get(f)
            if df is not None and 'opaque' not in df.flags and \
                    all(p in ci.rn for p, s in ci.params if s in df.syms):
                continue       # derived: recomputed on demand from the constructor parameters
            try:
                d[f] = self.snap(v, st)
            except Unsupported:
                d[f] = opaque('field')
        return new(cls, d)

    # ---------------------------------------------------------------------------------
    # loops
    def x_For(self, s, st):
        itv = self.eval(s.iter, st)
        ref_items = None
        if isinstance(itv, tuple) and itv and itv[0] == 'items_ref':
            ref_items = itv
        self.for_over(s, itv, ref_items, st)

    def for_over(self, s, itv, ref_items, st):
        dom = self.domain_items(itv, st)
        if dom is None and not isinstance(itv, tuple):
            t = self.snap(itv, st)
            if listcases(t) or self.unroll_depth and t.op == 'ite' and len(tm.leaves_of(t)) <= 9 and all(
                    l.op in ('list', 'tuple', 'bag', 'listof', 'cat') or l is tm.UNDEF for l in tm.leaves_of(t)):
                c = B(t.args[0])
                s1, s2 = st.copy(), st.copy()
                s1.live, s2.live = and_(st.live, c), and_(st.live, not_(c))
                for x, sx in ((t.args[1], s1), (t.args[2], s2)):
                    if sx.live is not tm.FALSE and x is not tm.UNDEF:
                        self.for_over(s, x, None, sx)
                return self.merge_into(st, c, s1, s2)
        if dom is None:
            raise Unsupported('iteration domain')
        if isinstance(dom, list):
            if len(dom) > self.longest:
                raise Unsupported('long literal loop')
            return self.unroll(s, dom, st)
        if ref_items is None and len(dom.gens) == 1:
            z, gd = dom.gens[0]
            xs = elements(z, gd)
            if xs is not None and (len(xs) == 1 or len(xs) <= self.unroll_depth):
                el = self.snap(dom.elem, st)
                return self.unroll(s, [rebuild(el, {z: x}) for x, _ in xs], st, [c for _, c in xs])
        inner = [x for x in s.body if not (isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and
                                           isinstance(x.value, ast.Constant))]
        if len(inner) == 1 and isinstance(inner[0], ast.For) and not s.orelse and not inner[0].orelse and \
                not has_break(inner[0].body):
            try:
                return self.run_loop(s, dom, st, inner[0])
            except NoFlat:
                pass
        self.run_loop(s, dom, st)

    def domain_items(self, v, st):
        return self.domain(v, st)

    def unroll(self, s, items, st, conds=None):
        broke = []
        for i, x in enumerate(items):
            if st.live is tm.FALSE:
                break
            skip = None
            if conds is not None and conds[i] is not tm.TRUE:
                skip = st.copy()
                skip.live = and_(st.live, not_(conds[i]))
                st.live = and_(st.live, conds[i])
            lc = LoopCtx()
            self.loop_stack.append(lc)
            self.assign(s.target, x, st)
            self.exec_block(s.body, st)
            self.loop_stack.pop()
            for c, cs in lc.conts:
                cs2 = State(dict(cs.cells), c)
                m = State({}, tm.FALSE)
                self.merge_into(m, c, cs2, st)
                st.cells, st.live = m.cells, m.live
            broke.extend(lc.breaks)
            if skip is not None:
                m = State({}, tm.FALSE)
                self.merge_into(m, skip.live, skip, st)
                st.cells, st.live = m.cells, m.live
        if s.orelse and st.live is not tm.FALSE:
            self.exec_block(s.orelse, st)
        for c, cs in broke:
            m = State({}, tm.FALSE)
            self.merge_into(m, c, State(dict(cs.cells), c), st)
            st.cells, st.live = m.cells, m.live

    def body_pass(self, s, st, cells, bindfn, body=None):
        """lower the loop body once with fresh symbols for the loop-carried cells"""
        s0 = st.copy()
        s0.live = tm.TRUE
        mus = []
        for c in cells:
            cv = self.snap(self.cell_val(c, st), st)
            m = fresh('mu', better_ty(self.cell_tys.get(c), better_ty(self.declared_ty(c, st), cv.ty)))
            mus.append(m)
            self.set_cell(c, m, s0)
        before = dict(s0.cells)
        lc = LoopCtx()
        ctx = self.fn_stack[-1]
        nret = len(ctx.rets)
        self.loop_stack.append(lc)
        self.raise_stack.append([])
        try:
            cond = bindfn(s0)
            self.exec_block(body or s.body, s0)
        finally:
            self.loop_stack.pop()
            raises = or_(*self.raise_stack.pop())
        rets = ctx.rets[nret:]
        del ctx.rets[nret:]
        end = s0
        for c, cs in lc.conts:
            m = State({}, tm.FALSE)
            self.merge_into(m, c, State(dict(cs.cells), c), end)
            end = m
        changed = []
        for ss in [end] + [x for _, x in lc.breaks] + [x for _, _, x in rets]:
            if ss.live is tm.FALSE and ss is end:
                # dead end: still record what the exits changed
                pass
            for k in self.changed_cells(before, ss, st):
                if k not in changed:
                    changed.append(k)
        return mus, end, lc.breaks, rets, raises, changed, cond

    def declared_ty(self, c, st):
        if c[0] == 'h':
            return self.loc_ty.get(c[1])
        v = self.cell_val(c, st)
        if isinstance(v, Ref) and not v.path:
            return self.loc_ty.get(v.loc)
        return None

    def refine_tys(self, cells, mus, end):
        """types of loop-carried containers learned from one pass; True if something new was learned"""
        new_ = False
        if end.live is tm.FALSE:
            return False
        for c, m in zip(cells, mus):
            t = self.snap(self.cell_val(c, end), end)
            for l in tm.leaves_of(t):
                b = better_ty(m.ty, l.ty)
                if b != m.ty and l is not tm.UNDEF and l is not tm.NONE:
                    if self.cell_tys.get(c) != b:
                        self.cell_tys[c] = b
                        new_ = True
        return new_

    def run_loop(self, s, dom, st, chain=None):
        base_live = st.live
        cells = []
        dom0 = dom
        for _ in range(8):
            def bindfn(s0):
                self.assign(s.target, dom0.elem, s0)
                if chain is not None:
                    d2 = self.domain(self.eval(chain.iter, s0), s0)
                    if not isinstance(d2, GenV):
                        raise NoFlat()
                    self.assign(chain.target, d2.elem, s0)
                    return GenV(dom0.gens + d2.gens, d2.elem)
                return dom0
            mus, end, breaks, rets, raises, changed, dom = self.body_pass(s, st, cells, bindfn,
                                                                          chain.body if chain is not None else None)
            newc = [c for c in changed if c not in cells]
            if not newc and not self.refine_tys(cells, mus, end):
                break
            cells = cells + newc
        else:
            raise Unsupported('loop state')
        muset = set(mus)
        if chain is not None and any(g.syms & muset for _, g in dom.gens):
            raise NoFlat()
        ups = []
        for c, m in zip(cells, mus):
            if end.live is tm.FALSE:
                ups.append(m)
            else:
                ups.append(self.snap(self.cell_val(c, end), end))
        inits = [self.snap(self.cell_val(c, st), st) for c in cells]
        # exits
        rcond = or_(*[c for c, _, _ in rets])
        bcond = or_(*[c for c, _ in breaks])
        rval = tm.UNDEF
        for c, v, ss in reversed(rets):
            rval = ite3(c, self.snap(v, ss), rval)
        def own(t):
            js = [j for j in range(len(mus)) if mus[j] in t.syms]
            return self.own_key_reads(t, js, mus, ups, inits, dom.gens) if js else t
        if end.live is not tm.FALSE:
            rcond, bcond, raises, rval = own(rcond), own(bcond), own(raises), own(collapse(rval))
        dep = any(t.syms & muset for t in (rcond, bcond, collapse(rval)))
        rdep = bool(raises.syms & muset)
        if rdep and not breaks and rcond is tm.FALSE:
            for i, m in enumerate(mus):
                if raises.syms & muset == {m} and end.live is not tm.FALSE:
                    r = self.repeated_key(raises, ups[i], m, dom.gens, inits[i])
                    if r is None:
                        r = self.conflict_exit(raises, ups[i], end.live, m, dom.gens, inits[i], False)
                    if r is not None:
                        raises, rdep = r, False
                        break
        conflict = None
        if dep and not breaks and not rdep and len(mus) == 1 and not (collapse(rval).syms & muset):
            conflict = self.conflict_exit(rcond, ups[0] if end.live is not tm.FALSE else None, end.live, mus[0],
                                          dom.gens, inits[0])
            if conflict is not None:
                dep = False
        simple = not dep
        if breaks:
            for i, (c, m) in enumerate(zip(cells, mus)):
                if ite3(bcond, m, ups[i]) is not m:
                    simple = False
        finals = None
        if simple:
            finals = []
            for i, m in enumerate(mus):
                others = muset - {m}
                u = ups[i]
                f = None
                if end.live is not tm.FALSE:
                    # the final state only matters when no iteration rejects
                    u2 = ite3(end.live, u, m)
                    if not (u2.syms & others) or u.syms & others:
                        u = u2
                if u.syms & others:
                    u = self.own_key_reads(u, [j for j in range(len(mus)) if mus[j] in u.syms and j != i], mus, ups,
                                           inits, dom.gens)
                if u is m:
                    f = m
                elif not (u.syms & others):
                    f = self.close_gens(u, m, dom.gens)
                finals.append(f)
        if simple and all(f is not None for f in finals):
            sub_ = dict(zip(mus, inits))
            if rdep:
                rz = self.invariant_reads(raises, mus, finals)
                if rz is not None:
                    raises, rdep = rebuild(rz, sub_), False
            finals = [rebuild(f, sub_) for f in finals]
            if rdep:
                gl, order = self.generic_loop(dom.gens, mus, inits, ups, rcond, rval, bcond, breaks, raises, cells, st)
        else:
            loop = None
            if DEBUG:
                print('GENERIC', s.lineno, 'simple', simple, [(str(c)[-40:], f is not None) for c, f in
                                                             zip(cells, finals or [None] * len(cells))])
                for i, u in enumerate(ups):
                    if not finals or finals[i] is None:
                        print('    ', mus[i], mus[i].ty, ':=', str(u)[:900])
            gl, order = self.generic_loop(dom.gens, mus, inits, ups, rcond, rval, bcond, breaks, raises, cells, st)
            res = []
            for i, m in enumerate(mus):
                if simple and finals[i] is not None and not (finals[i].syms & muset - {m}):
                    res.append(rebuild(finals[i], dict(zip(mus, inits))))
                else:
                    j = order.index(i)
                    res.append(lift(lambda l: mk('out', j, l, ty=inits[i].ty), gl))
            finals = res
        # exceptional exits
        if simple:
            if rdep:
                q = lift(lambda l: B(mk('out', 'raise', l, ty=BOOL)), gl)
            else:
                q = self.q_exists(dom.gens, raises)
            ec = self.q_exists(dom.gens, rcond) if conflict is None else conflict
            ev_ = collapse(rval)
            for z, gd in reversed(dom.gens):
                ev_ = choose('first', z, and_(gd, rcond) if z is dom.gens[-1][0] else
                             and_(gd, self.q_exists(dom.gens[dom.gens.index((z, gd)) + 1:], rcond)), ev_)
            bc = self.q_exists(dom.gens, bcond)
        else:
            q = lift(lambda l: B(mk('out', 'raise', l, ty=BOOL)), gl) if raises is not tm.FALSE else tm.FALSE
            ec = lift(lambda l: B(mk('out', 'retc', l, ty=BOOL)), gl) if rcond is not tm.FALSE else tm.FALSE
            ev_ = collapse(rval)
            if ev_.op != 'const':
                ev_ = lift(lambda l: mk('out', 'retv', l, ty=rval.ty), gl)
            bc = tm.FALSE
        self.do_raise(q, st)
        pre = st.copy()
        # state after running all iterations
        for c, f in zip(cells, finals):
            self.set_final(c, f, st)
        if ec is not tm.FALSE:
            rs = pre.copy() if not any(c[0] != 'v' for c in cells) else st.copy()
            rlive = and_(st.live, ec)
            self.fn_stack[-1].rets.append((rlive, self.bind(ev_, rs), State(rs.cells, rlive)))
            st.live = and_(st.live, not_(ec))
        if breaks and simple:
            # cells written only on the way out
            bst = pre.copy()
            bst.live = and_(st.live, bc)
            for i, (c, m) in enumerate(zip(cells, mus)):
                v = tm.UNDEF
                for cc, ss in reversed(breaks):
                    v = ite3(cc, self.snap(self.cell_val(c, ss), ss), v)
                v = collapse(v)
                for z, gd in reversed(dom.gens):
                    v = choose('first', z, and_(gd, bcond), v)
                v = rebuild(v, dict(zip(mus, inits)))
                self.set_final(c, v, bst)
            if s.orelse:
                s2 = st.copy()
                s2.live = and_(st.live, not_(bc))
                self.exec_block(s.orelse, s2)
            else:
                s2 = st.copy()
                s2.live = and_(st.live, not_(bc))
            self.merge_into(st, bc, bst, s2)
        elif s.orelse:
            if breaks:
                raise Unsupported('for-else')
            self.exec_block(s.orelse, st)

    def own_key_reads(self, u, js, mus, ups, inits, gens):
        """iteration z touches only entry z of another dictionary and u reads only that entry: it reads the
        initial content"""
        if len(gens) != 1:
            return u
        z = gens[0][0]
        for j in js:
            o = mus[j]
            if o.ty[0] == 'set':
                w = fresh('w', elem_ty(o.ty))
                e = eq(w, z)
                if e.op == 'ite' and o not in rebuild(u, {mk('in', z, o): B(sym('@own', BOOL))}).syms and \
                        cofactor(ite3(e, tm.FALSE, member(w, ups[j])), e.args[0], False) is member(w, o):
                    u = rebuild(u, {o: inits[j]})
                continue
            if o.ty[0] != 'dict':
                continue
            hid = {mk('sel', o, z): fresh('h', val_ty(o.ty)), mk('in', z, mk('keys', o)): B(sym('@own', BOOL))}
            if o in rebuild(u, hid).syms:
                continue
            w = fresh('w', elem_ty(o.ty))
            e = eq(w, z)
            if e.op != 'ite':
                continue
            uo = ups[j]
            if cofactor(member(w, uo), e.args[0], False) is not member(w, o) and \
                    cofactor(ite3(e, tm.FALSE, member(w, uo)), e.args[0], False) is not member(w, o):
                continue
            if collapse(ite3(e, tm.UNDEF, sel_raw(uo, w))) is not collapse(ite3(e, tm.UNDEF, sel_raw(o, w))):
                continue
            u = rebuild(u, {o: inits[j]})
        return u

    def repeated_key(self, cond, u, m, gens, init):
        """every iteration adds its own key to m and cond fails on a key that is there already: cond holds in some
        iteration iff a key is there initially or two iterations have the same one; the rewritten cond"""
        if len(gens) != 1 or m.ty[0] not in ('dict', 'set'):
            return None
        z, g = gens[0]
        store = mk('keys', m) if m.ty[0] == 'dict' else m
        ats = [a for a in tm.atoms_of(cond) if m in a.syms]
        if len(ats) != 1 or ats[0].op != 'in' or ats[0].args[1] is not store or m in ats[0].args[0].syms:
            return None
        a, k = ats[0], ats[0].args[0]
        if cofactor(cond, a, True) is not tm.TRUE or z not in k.syms:
            return None
        w = fresh('w', elem_ty(m.ty))
        after = collapse(ite3(cond, tm.UNDEF, member(w, u)))
        if after is not collapse(ite3(cond, tm.UNDEF, or_(member(w, m), eq(w, k)))):
            return None
        y = fresh('y', z.ty)
        twice = exists(y, and_(rebuild(g, {z: y}), eq(k, rebuild(k, {z: y})), not_(eq(y, z))))
        return or_(cofactor(cond, a, False), rebuild(member(k, m), {m: init}), twice)

    def conflict_exit(self, rcond, u, live, m, gens, init, closed=True):
        """remember v(z) under k(z), leave the loop at the first z whose v differs from the remembered one:
        the loop is left iff two iterations agree on k and differ on v"""
        if u is None or m.ty[0] != 'dict':
            return None
        ks = [a.args[0] for a in tm.atoms_of(rcond) if a.op == 'in' and a.args[1].op == 'keys' and
              a.args[1].args[0] is m]
        if len(ks) != 1:
            return None
        k = ks[0]
        s = mk('sel', m, k)
        vs = [a.args[1] if a.args[0] is s else a.args[0] for a in tm.atoms_of(rcond) if a.op == 'eq' and s in a.args]
        if len(vs) != 1:
            return None
        v = vs[0]
        if rcond is not and_(member(k, m), not_(eq(v, s))) or m in v.syms or m in k.syms:
            return None
        u = collapse(ite3(rcond, tm.UNDEF, u))
        st1 = dstore(m, k, v)
        ok = [ite3(member(k, m), m, st1), st1]
        if not any(u is collapse(ite3(rcond, tm.UNDEF, o)) for o in ok):
            return None
        ren = {z: fresh('y', z.ty) for z, _ in gens}
        k2, v2 = rebuild(k, ren), rebuild(v, ren)
        c = and_(eq(k, k2), not_(eq(v, v2)))
        for z, g in reversed(gens):
            c = exists(ren[z], and_(rebuild(g, ren), c))
        c = or_(c, rebuild(rcond, {m: init}))
        return self.q_exists(gens, c) if closed else c

    def invariant_reads(self, cond, mus, finals):
        """cond when everything it reads of the loop-carried cells is the same in every iteration; else None"""
        for m, f in zip(mus, finals):
            if m not in cond.syms or f is m:
                continue
            w = fresh('w', elem_ty(m.ty))
            if m.ty[0] not in ('dict', 'set'):
                return None
            if member(w, f) is not member(w, m):
                return None
            # only the membership of m is read
            if m.ty[0] == 'dict':
                k = mk('keys', m)
                hid = sym('@keys', ('set', elem_ty(m.ty)))
                if m in rebuild(cond, {k: hid}).syms:
                    return None
        return cond

    def set_final(self, c, f, st):
        self.set_cell_through(c, f, st)

    def set_cell_through(self, cell, t, st):
        if cell[0] == 'h' and isinstance(st.cells.get(cell), T):
            st.cells[cell] = t
            return
        self.set_cell(cell, t, st)

    def q_exists(self, gens, c):
        for z, gd in reversed(gens):
            c = exists(z, and_(gd, c))
        return c

    def close_gens(self, u, m, gens):
        for z, gd in reversed(gens):
            u = self.classify(ite3(gd, u, m), m, z)
            if u is None:
                return None
        return u

    def classify(self, u, m, z):
        """closed form (as a function of m) of iterating m := u(m, z) over all z; None if there is none"""
        if u is m:
            return m
        if u.op == 'opaque':
            return None
        ty = m.ty
        lv = [l for l in tm.leaves_of(u)]
        if ty == ANY or ty == NONE_T:
            for l in lv:
                if l.ty != ANY and l.ty != NONE_T and l is not m:
                    ty = l.ty
                    break
        z_in_other = False
        try:
            if ty == BOOL:
                r = self.cl_bool(u, m, z)
            elif ty[0] == 'set' or any(l.op == 'set' for l in lv):
                r = self.cl_set(u, m, z)
            elif ty[0] == 'dict' or any(l.op == 'dict' for l in lv):
                r = self.cl_dict(u, m, z)
            elif ty[0] == 'list':
                r = self.cl_list(u, m, z)
            elif ty == NUM:
                r = self.cl_num(u, m, z)
            elif ty[0] == 'tuple' or any(l.op == 'new' for l in lv):
                r = self.cl_rec(u, m, z)
            else:
                r = None
            if r is None:
                r = self.cl_last(u, m, z)
            return r
        except tm.Budget:
            return None

    def cl_bool(self, u, m, z):
        a = m
        u1, u0 = cofactor(u, a, True), cofactor(u, a, False)
        if m in u1.syms or m in u0.syms:
            return None
        if u1 is tm.TRUE:
            return or_(B(m), exists(z, u0))
        if u0 is tm.FALSE:
            return and_(B(m), not_(exists(z, not_(u1))))
        return None

    def bool_state(self, u, atom, z):
        """u boolean in terms of atom; closed form with the atom left free"""
        u1, u0 = cofactor(u, atom, True), cofactor(u, atom, False)
        if u1 is tm.TRUE:
            r = exists(z, u0)
            return or_(B(atom), r)
        if u0 is tm.FALSE:
            return and_(B(atom), not_(exists(z, not_(u1))))
        return None

    def cl_set(self, u, m, z):
        w = fresh('w', elem_ty(m.ty) if m.ty != ANY else elem_ty(u.ty))
        atom = mk('in', w, m, ty=BOOL)
        b = member(w, u)
        b = eqprop(b, w)
        for a in tm.atoms_of(b):
            if a is not atom and m in a.syms:
                return None
        r = self.bool_state(b, atom, z)
        if r is None:
            return None
        return mkset(w, r, m.ty if m.ty[0] == 'set' else ('set', w.ty))

    def cl_num(self, u, m, z):
        d = sub(u, m)
        if m not in d.syms:
            return add(m, msum(z, tm.TRUE, d)) if d.op == 'ite' or True else None
        # product
        ok = True
        facs = []

        def fac(l):
            if l is m:
                return tm.ONE
            q = mul(l, tm.inv(m))
            if m in q.syms:
                return None
            return q
        out = []
        for l in tm.leaves_of(u):
            if fac(l) is None:
                return None
        f = lift(lambda l: fac(l), u)
        if m in f.syms:
            return None
        gd, val = tm.TRUE, f
        # guard: factor differs from one
        parts = [(c, l) for c, l in tm.paths(f) if l is not tm.ONE]
        g = or_(*[tm.cube_bdd(c) for c, l in parts])
        val = collapse(ite3(g, f, tm.UNDEF))
        return mul(m, tm.mprod(z, g, val))

    def cl_list(self, u, m, z):
        def parts(l):
            """(guard diag) list of appended things"""
            if l is m:
                return []
            if l.op == 'app':
                p = parts(l.args[0])
                return None if p is None else p + [('e', l.args[1])]
            if l.op == 'cat':
                p = parts(l.args[0])
                if p is None:
                    return None
                return p + [('l', x) for x in l.args[1:]]
            return None
        got = None
        cond = tm.FALSE
        val = tm.UNDEF
        kind = None
        for cube, l in tm.paths(u):
            p = parts(l)
            if p is None or len(p) > 1:
                return None
            if not p:
                continue
            if m in p[0][1].syms:
                return None
            if kind not in (None, p[0][0]):
                return None
            kind = p[0][0]
            c = tm.cube_bdd(cube)
            if m in c.syms:
                return None
            cond = or_(cond, c)
            val = ite3(c, p[0][1], val)
        if kind is None:
            return m
        return concat(m, mkbag(z, cond, collapse(val), flat=(kind == 'l')))

    def cl_rec(self, u, m, z):
        ex = self.explode(u, tm.UNDEF, m)
        if ex is None:
            return None
        cs, whole, get, put = ex
        w1 = rebuild(u, {m: whole})
        out = []
        for i, c in enumerate(cs):
            a = get(w1, i)
            if a.syms & (set(cs) - {c}):
                return None
            f = self.classify(a, c, z)
            if f is None:
                return None
            out.append(f)
        return rebuild(put(out), {c: get(m, i) for i, c in enumerate(cs)})

    def cl_last(self, u, m, z):
        """plain overwrite under a condition"""
        cond, val = tm.FALSE, tm.UNDEF
        # where u is not m
        cond = lift(lambda l: tm.FALSE if l is m else tm.TRUE, u)
        val = lift(lambda l: tm.UNDEF if l is m else l, u)
        val = collapse(val)
        if m in cond.syms or m in val.syms:
            return None
        e = exists(z, cond)
        if val is tm.UNDEF:
            return m
        return ite3(e, choose('last', z, cond, val), m)

    def unit(self, ty, like):
        if ty == NUM or tm._is_num(like):
            return tm.ZERO
        if ty[0] == 'set' or is_setty(like):
            return empty_set(ty if ty[0] == 'set' else ('set', ANY))
        if ty[0] == 'dict' or like.op == 'dict':
            return empty_dict(ty if ty[0] == 'dict' else ('dict', ANY, ANY))
        if ty[0] == 'list':
            return mk('list', ty=ty)
        return None

    def cl_dict(self, u, m, z):
        kty = elem_ty(m.ty)
        if kty == ANY:
            for l in tm.leaves_of(u):
                if l.ty[0] == 'dict' and l.ty[1] != ANY:
                    kty = l.ty[1]
        w = fresh('w', kty)
        mk_keys = mk('keys', m, ty=('set', elem_ty(m.ty)))
        atom = mk('in', w, mk_keys, ty=BOOL)
        s = mk('sel', m, w, ty=val_ty(m.ty))
        mem = eqprop(member(w, u), w)
        val = eqprop(sel_raw(u, w), w)
        mem = drop_impossible(mem)
        # nothing else of m may be read
        sv = fresh('sv', s.ty)
        av = sym('@member', BOOL)

        def hide(t):
            t2 = rebuild(t, {s: sv, atom: B(av)})
            return t2
        memh, valh = hide(mem), hide(val)
        if m in memh.syms or m in valh.syms:
            return None
        fm = self.bool_state(memh, av, z)
        if fm is None:
            return None
        H = cofactor(memh, av, False)                 # this iteration touches a missing key
        v1, v0 = collapse(cofactor(valh, av, True)), cofactor(valh, av, False)
        if av in v1.syms or av in v0.syms:
            return None
        dty = m.ty
        if val_ty(dty) == ANY:
            dty = ('dict', kty, leafty(val))

        def done(value):
            vv = rebuild(value, {sv: s, av: B(atom)})
            mm = rebuild(fm, {av: B(atom)})
            return mkdict(w, mm, vv, dty)
        if H is not tm.FALSE and v0 is not tm.UNDEF and sv in v0.syms:
            own = collapse(ite3(H, lift(lambda l: tm.UNDEF if sv in l.syms else l, v0), tm.UNDEF))
            if own is tm.UNDEF:        # an entry is only ever updated from its own content: it has to be there
                r = self.close_val(v1, tm.UNDEF, tm.FALSE, sv, z, w)
                if r is not None:
                    fm = B(av)
                    return done(ite3(B(av), r[0], tm.UNDEF))
        r = self.close_val(v1, v0, H, sv, z, w)
        if r is None:
            return None
        return done(ite3(B(av), r[0], r[1]))

    def explode(self, v1, v0, sv):
        """record valued entries: one symbol per component; None if not a record"""
        lv = [l for l in tm.leaves_of(v1) + tm.leaves_of(v0) if l is not sv and l is not tm.UNDEF]
        tup_n = None
        cls = None
        for l in lv:
            if l.op == 'tuple':
                tup_n = [x.ty for x in l.args]
            elif l.op == 'new' and self.is_mutable(l.args[0]):
                cls = l.args[0]
        if tup_n is None and sv.ty[0] == 'tuple':
            tup_n = list(sv.ty[1:])
        if cls is None and sv.ty[0] == 'cls' and self.is_mutable(sv.ty[1]):
            cls = sv.ty[1]
        if tup_n:
            if sv.ty[0] == 'tuple' and len(sv.ty) == len(tup_n) + 1:
                tup_n = [better_ty(x, y) for x, y in zip(sv.ty[1:], tup_n)]
            cs = [fresh('sv', t) for t in tup_n]
            return cs, tup(*cs), (lambda t, i: proj(t, i)), (lambda xs: tup(*xs))
        if cls is not None:
            ci = self.class_info(cls)
            names = sorted({ci.role.get(f, f) for f in ci.fields if f not in self.erased})
            cs = [fresh('sv', self.field_ty(cls, n)) for n in names]
            whole = new(cls, dict(zip(names, cs)))
            return cs, whole, (lambda t, i: lift(lambda x: newfield(x, names[i]) if x.op == 'new' else
                                                 (x if x is tm.UNDEF else mk('field', x, names[i])), t)), \
                (lambda xs: new(cls, dict(zip(names, xs))))
        return None

    def close_val(self, v1, v0, H, sv, z, w):
        """closed forms of a dictionary entry (previously present, previously absent) after all iterations"""
        # (1) the key identifies the iteration: at most one iteration touches it
        uq = self.unique_touch(v1, v0, H, sv, z, w)
        if uq is not None:
            return uq
        ex = self.explode(v1, v0, sv)
        if ex is not None:
            cs, whole, get, put = ex
            w1, w0 = rebuild(v1, {sv: whole}), rebuild(v0, {sv: whole})
            o1, o0 = [], []
            for i, c in enumerate(cs):
                a1, a0 = get(w1, i), get(w0, i)
                if (a1.syms | a0.syms) & (set(cs) - {c}):
                    return None
                r = self.close_val(a1, a0, H, c, z, w) if a1 is not c or a0 is not tm.UNDEF else (c, tm.UNDEF)
                if r is None:
                    return None
                o1.append(r[0])
                o0.append(r[1])
            back = {c: get(sv, i) for i, c in enumerate(cs)}
            return rebuild(put(o1), back), put(o0)
        # (2) accumulation with a unit
        un = None
        for l in tm.leaves_of(v1) + tm.leaves_of(v0):
            if l is not sv and l is not tm.UNDEF:
                un = self.unit(sv.ty if sv.ty != ANY else l.ty, l)
                if un is not None:
                    lty = l.ty
                    break
        if un is not None:
            sv_ = sv
            if sv.ty == ANY:
                sv_ = fresh('sv', lty)
                v1 = rebuild(v1, {sv: sv_})
                v0 = rebuild(v0, {sv: sv_})
            g0 = rebuild(v1, {sv_: un})
            if ite3(H, g0, tm.UNDEF) is ite3(H, v0, tm.UNDEF):
                F = self.classify(v1, sv_, z)
                if F is not None:
                    return rebuild(F, {sv_: sv}), rebuild(F, {sv_: un})
            if sv_ not in v0.syms and not (H.syms & {sv_}):
                # the first iteration that touches the entry stores something else than an update of the unit
                z0 = fresh('z', z.ty)
                d = eq(z, z0)
                F = self.classify(ite3(d, sv_, v1), sv_, z) if d.op == 'ite' else None
                G = self.classify(v1, sv_, z)
                if F is not None and G is not None:
                    start = collapse(rebuild(v0, {z: z0}))
                    return rebuild(G, {sv_: sv}), choose('first', z0, rebuild(H, {z: z0}),
                                                         collapse(rebuild(F, {sv_: start})))
            v1 = rebuild(v1, {sv_: sv})
            v0 = rebuild(v0, {sv_: sv})
        # (3) overwrite
        if sv not in v0.syms:
            c1 = lift(lambda l: tm.FALSE if l is sv else tm.TRUE, v1)
            val1 = collapse(lift(lambda l: tm.UNDEF if l is sv else l, v1))
            if sv not in c1.syms and sv not in val1.syms:
                if val1 is tm.UNDEF:
                    # first store wins
                    return sv, choose('first', z, H, collapse(v0))
                if ite3(H, collapse(v0), tm.UNDEF) is ite3(H, val1, tm.UNDEF) or collapse(v0) is val1:
                    e = exists(z, c1)
                    ch = choose('last', z, c1, val1)
                    return ite3(e, ch, sv), ch
        return None

    def unique_touch(self, v1, v0, H, sv, z, w):
        """touching requires w == z: substitute"""
        e = eq(w, z)
        if e.op != 'ite':
            return None
        a = e.args[0]
        # conditions under which the iteration leaves key w alone when w != z
        if cofactor(H, a, False) is not tm.FALSE:
            return None
        if collapse(cofactor(v1, a, False)) is not sv:
            return None
        f1 = rebuild(cofactor(v1, a, True), {z: w})
        f0 = rebuild(cofactor(v0, a, True), {z: w})
        return collapse(f1), f0

    # ---- generic (uninterpreted) loops -------------------------------------------------------
    def generic_loop(self, gens, mus, inits, ups, rcond, rval, bcond, breaks, raises, cells, st):
        order = sorted(range(len(mus)), key=lambda i: (inits[i].ck, cell_sort(cells[i])))
        zs = [z for z, _ in gens] + [mus[i] for i in order]
        bvals = []
        for i in order:
            v = tm.UNDEF
            for c, ss in reversed(breaks):
                v = ite3(c, self.snap(self.cell_val(cells[i], ss), ss), v)
            bvals.append(v)
        guard = and_(*[g for _, g in gens])
        lp = tm.generic_binder('loop', zs, (tuple(z.ty for z in zs), guard, tuple(ups[i] for i in order), rcond,
                                            rval, bcond, tuple(bvals), raises))
        r = lift(lambda *xs: mk('loopcall', lp, tuple(xs), flags=frozenset(['generic'])), *[inits[i] for i in order])
        return r, order

    def x_While(self, s, st):
        cells = []
        for _ in range(8):
            def bindfn(s0):
                c = self.truth(self.eval(s.test, s0), s0)
                s0.live = and_(s0.live, c)
                return c
            mus, end, breaks, rets, raises, changed, cond = self.body_pass(s, st, cells, bindfn)
            newc = [c for c in changed if c not in cells]
            if not newc and not self.refine_tys(cells, mus, end):
                break
            cells = cells + newc
        else:
            raise Unsupported('while state')
        ups = []
        for c, m in zip(cells, mus):
            ups.append(m if end.live is tm.FALSE else self.snap(self.cell_val(c, end), end))
        inits = [self.snap(self.cell_val(c, st), st) for c in cells]
        rcond = or_(*[c for c, _, _ in rets])
        bcond = or_(*[c for c, _ in breaks])
        rval = tm.UNDEF
        for c, v, ss in reversed(rets):
            rval = ite3(c, self.snap(v, ss), rval)
        order = sorted(range(len(mus)), key=lambda i: (inits[i].ck, cell_sort(cells[i])))
        zs = [mus[i] for i in order]
        wl = tm.generic_binder('while', zs, (tuple(z.ty for z in zs), cond, tuple(ups[i] for i in order), rcond, rval,
                                             bcond, raises))
        r = lift(lambda *xs: mk('loopcall', wl, tuple(xs), flags=frozenset(['generic'])), *[inits[i] for i in order])
        if raises is not tm.FALSE:
            self.do_raise(lift(lambda l: B(mk('out', 'raise', l, ty=BOOL)), r), st)
        for j, i in enumerate(order):
            self.set_final(cells[i], lift(lambda l: mk('out', j, l, ty=inits[i].ty), r), st)
        if rcond is not tm.FALSE:
            ec = lift(lambda l: B(mk('out', 'retc', l, ty=BOOL)), r)
            ev_ = collapse(rval)
            if ev_.op != 'const':
                ev_ = lift(lambda l: mk('out', 'retv', l, ty=rval.ty), r)
            rl = and_(st.live, ec)
            self.fn_stack[-1].rets.append((rl, self.bind(ev_, st), State(dict(st.cells), rl)))
            st.live = and_(st.live, not_(ec))


def has_break(body):
    for x in body:
        if isinstance(x, ast.Break):
            return True
        if isinstance(x, (ast.For, ast.While)):
            if has_break(x.orelse):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if has_break(getattr(x, f, [])):
                return True
        for h in getattr(x, 'handlers', []):
            if has_break(h.body):
                return True
    return False


def cell_sort(c):
    return str(c[-1])


def leafty(t):
    for l in tm.leaves_of(t):
        if l is not tm.UNDEF and l.ty != ANY:
            return l.ty
    return ANY


def eqprop(t, w):
    """under an atom w == x, use w for x"""
    for _ in range(6):
        done = True
        for a in tm.atoms_of(t):
            if a.op == 'eq' and w in a.args:
                x = a.args[1] if a.args[0] is w else a.args[0]
                if w in x.syms or x.op == 'const':
                    continue
                h = cofactor(t, a, True)
                h2 = tm.rebuild(h, {x: w}) if x.syms else h
                h2 = cofactor(h2, a, True)
                if h2 is not h:
                    t = ite3(B(a), h2, cofactor(t, a, False))
                    done = False
                    break
        if done:
            break
    return t


def drop_impossible(t):
    return t


def better_ty(a, b):
    """the more informative of two types of the same value"""
    if a is None or a == ANY or a == NONE_T:
        return b
    if b is None or b == ANY or b == NONE_T or a[0] != b[0] or len(a) != len(b):
        return a
    if a[0] in ('set', 'list', 'dict', 'tuple'):
        return (a[0],) + tuple(better_ty(x, y) for x, y in zip(a[1:], b[1:]))
    return a


def has_info(ty):
    if ty[0] in ('set', 'list'):
        return ty[1] != ANY
    if ty[0] == 'dict':
        return ty[1] != ANY or ty[2] != ANY
    return ty != ANY


def retype(t, ty):
    """an (empty) literal with an annotation: keep the declared type (fresh identity is not needed)"""
    if tm.is_empty(t) or (t.op == 'list' and not t.args):
        return mk(t.op, *t.args, ty=ty)
    return t


def boolish(t):
    return t.ty == BOOL or t is tm.TRUE or t is tm.FALSE or \
        (t.op == 'ite' and all(l is tm.TRUE or l is tm.FALSE for l in tm.leaves_of(t)))


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return f'{b}.{n.attr}' if b else None
    return None


def as_load(t):
    import copy
    n = copy.deepcopy(t)
    for x in ast.walk(n):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return n


_an_cache = {}


def assigned_names(node):
    r = _an_cache.get(id(node))
    if r is not None:
        return r[1]
    out = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
    nonl = set()

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.Nonlocal, ast.Global)):
                nonl.update(c.names)
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            go(c)
    go(node)
    out -= nonl
    _an_cache[id(node)] = (node, out)
    return out


def is_generator(node):
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(c, (ast.Yield, ast.YieldFrom)) or is_generator(c):
            return True
    return False


MUTATORS = {'add', 'remove', 'discard', 'update', 'pop', 'clear', 'intersection_update', 'difference_update',
            'symmetric_difference_update', 'setdefault', 'append', 'extend', 'insert', 'sort', 'popitem'}
SETM = {'add', 'remove', 'discard', 'update', 'union', 'intersection', 'difference', 'symmetric_difference', 'issubset',
        'issuperset', 'isdisjoint', 'copy', 'pop', 'clear', 'intersection_update', 'difference_update',
        'symmetric_difference_update'}
DICTM = {'items', 'keys', 'values', 'get', 'setdefault', 'pop', 'popitem', 'update', 'copy', 'clear'}
LISTM = {'append', 'extend', 'insert', 'sort', 'reverse', 'index', 'count', 'pop', 'remove', 'copy', 'clear'}
STRM = {'join', 'format', 'isalnum', 'split', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'replace'}
