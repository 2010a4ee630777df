"""Path-sensitive typestate interpreter.

Executes a function over abstract states (finite maps from cells to symbolic values) along every path, including the
exceptional ones, until nothing new appears. Nothing of the analysed program is run. Loops are closed by widening
changed compound values to phi symbols; finite tags (streams, handlers, flags, open/closed, ...) stay disjunctive.
A client supplies the meaning of the calls it is interested in and inspects the states at its events and exits."""
import ast
import time
import builtins

MAX_STATES = 6000
PURE = {'len', 'int', 'str', 'float', 'abs', 'min', 'max', 'isinstance', 'hasattr', 'dir', 'callable', 'range',
        'round', 'sum', 'sorted', 'repr', 'type', 'id', 'ord', 'chr', 'any', 'all', 'vars', 'format'}


class Undecided(Exception):
    pass


class St:
    __slots__ = ('c', 'f', '_k')

    def __init__(self, c=None, f=None):
        self.c = c or {}
        self.f = f or {}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.c.items()), frozenset(self.f.items()))
        return self._k

    def set(self, k, v):
        if self.c.get(k) == v:
            return self
        c = dict(self.c)
        c[k] = v
        return St(c, self.f)

    def drop(self, pred):
        if not any(pred(k) for k in self.c):
            return self
        return St({k: v for k, v in self.c.items() if not pred(k)}, self.f)

    def fact(self, t, b):
        f = dict(self.f)
        f[t] = b
        return St(self.c, f)


def mentions(v, t):
    if v == t:
        return True
    if isinstance(v, tuple):
        return (not v or v[0] != 'old') and any(mentions(x, t) for x in v)
    if isinstance(v, frozenset):
        return any(mentions(x, t) for x in v)
    return False


def replace(v, t, by):
    if v == t:
        return by
    if isinstance(v, tuple):
        if v and v[0] == 'old':
            return v
        n = tuple(replace(x, t, by) for x in v)
        return n if n != v else v
    if isinstance(v, frozenset):
        n = frozenset(replace(x, t, by) for x in v)
        return n if n != v else v
    return v


def age(st, t):
    """the symbol t is about to stand for something new: what it stood for so far becomes 'old'"""
    f = {k: b for k, b in st.f.items() if not mentions(k, t)}
    if len(f) == len(st.f) and not any(mentions(v, t) for v in st.c.values()):
        return st
    return St({k: replace(v, t, ('old', t)) for k, v in st.c.items()}, f)


def dedupe(states):
    seen, out = set(), []
    for s in states:
        if s.key() not in seen:
            seen.add(s.key())
            out.append(s)
    if len(out) > MAX_STATES:
        raise Undecided('too many abstract states')
    return out


# ---- which locals still matter -------------------------------------------------------------------
def reads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))}


def liveness(fn):
    """id(statement) -> names that may be read after it"""
    after = {}
    always = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
            always |= reads(n)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            always |= set(n.names)

    def stores(n):
        out = set()
        for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.For)) else []):
            for x in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, (ast.Tuple, ast.List)) else []):
                if isinstance(x, ast.Name):
                    out.add(x.id)
        return out

    def block(body, out, brk, cont, exc):
        for n in reversed(body):
            after[id(n)] = after.get(id(n), frozenset()) | frozenset(out | exc)
            out = stmt(n, out, brk, cont, exc)
        return out

    def stmt(n, out, brk, cont, exc):
        if isinstance(n, ast.If):
            return reads(n.test) | block(n.body, out, brk, cont, exc) | block(n.orelse, out, brk, cont, exc)
        if isinstance(n, (ast.While, ast.For)):
            test = reads(n.test if isinstance(n, ast.While) else n.iter)
            leave = block(n.orelse, out, brk, cont, exc) | out
            head = set(leave) | test
            for _ in range(6):
                b = block(n.body, head, out, head, exc)
                if isinstance(n, ast.For):
                    b = b - stores(n) | reads(n.target)
                if b <= head:
                    break
                head = head | b
            return head
        if isinstance(n, ast.Try):
            fin = block(n.finalbody, out, brk, cont, exc) if n.finalbody else set()
            # everything that can follow an abrupt end of the body goes through the final block
            o = fin if n.finalbody else out
            o = o | (out if n.finalbody else set())
            b2 = brk | fin
            c2 = cont | fin
            e2 = exc | fin
            hs = set()
            for h in n.handlers:
                hs |= block(h.body, o, b2, c2, e2)
            els = block(n.orelse, o, b2, c2, e2)
            return block(n.body, els, b2 | hs, c2 | hs, e2 | hs) | hs | fin
        if isinstance(n, ast.With):
            r = set()
            for i in n.items:
                r |= reads(i.context_expr)
            return r | block(n.body, out, brk, cont, exc)
        if isinstance(n, ast.Return):
            return reads(n) | exc
        if isinstance(n, ast.Raise):
            return reads(n) | exc
        if isinstance(n, ast.Break):
            return set(brk)
        if isinstance(n, ast.Continue):
            return set(cont)
        if isinstance(n, ast.AugAssign):
            return out | reads(n) | {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        return (out - stores(n)) | reads(n)

    block(fn.body, set(), set(), set(), set())
    return after, always


class Out:
    def __init__(self, normal=()):
        self.normal = list(normal)
        self.brk, self.cont, self.ret = [], [], []


class Frame:
    def __init__(self, func, module, depth, parent=None, cls=None):
        self.func, self.module, self.depth, self.parent, self.cls = func, module, depth, parent, cls
        self.globals, self.nonlocals = set(), set()
        self.yield_body = None
        self.is_gen = False


NONE, TRUE, FALSE = ('c', None), ('c', True), ('c', False)


class Flow:
    def __init__(self, prog, client):
        self.prog, self.client = prog, client
        self.sinks = [[]]
        self.frames = []
        self.stack = []
        self.nodes = {}            # nested functions / lambdas by id
        self.written = self._written()
        self.functions = set()
        self.steps = 0
        self.deadline = time.monotonic() + 60
        self.live = {}
        self.repeated = {}

    # fields that anything but a constructor assigns
    def _written(self):
        out = set()
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef) and n.name != '__init__':
                    for x in ast.walk(n):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            out.add(x.attr)
        return out

    # ---- entry ---------------------------------------------------------------------------------
    def run(self, func, st, self_val=None, args=(), kwargs=None):
        """-> (returns [(state, value)], raises [(state, tag)])"""
        self.sinks.append([])
        rets = self.inline(func, st, ([self_val] if self_val is not None else []) + list(args), kwargs or {}, None)
        return rets, self._dd(self.sinks.pop())

    @staticmethod
    def _dd(pairs):
        seen, out = set(), []
        for s, v in pairs:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        return out

    def raise_(self, st, tag):
        self.sinks[-1].append((st, tag))

    # ---- calls ---------------------------------------------------------------------------------
    def inline(self, func, st, args, kwargs, node, parent=None, yield_body=None, lam=None, cls=None):
        key = lam if lam is not None else func.node
        if key in self.stack or len(self.stack) > 25:
            r = self.client.recursive(self, st, func, args, kwargs, node)
            return r
        module = func.module if func is not None else parent.module
        if func is not None:
            self.functions.add(func.qual)
        depth = len(self.frames)
        fr = Frame(func, module, depth, parent, cls or (func.cls if func else None))
        fr.yield_body = yield_body
        a = key.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        for p in params:
            if args:
                if isinstance(args[0], tuple) and args[0] and args[0][0] == 'star':
                    vals[p] = ('item', args[0][1], ('c', len(vals)))
                    continue
                vals[p] = args.pop(0)
        if a.vararg:
            vals[a.vararg.arg] = ('tuple',) + tuple(args)
        kw = dict(kwargs)
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p in kw:
                vals[p] = kw.pop(p)
        if a.kwarg:
            vals[a.kwarg.arg] = ('kw',) + tuple(sorted(kw.items()))
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.frames.append(fr)
        self.stack.append(key)
        forget, self.forget = self.forget, False
        try:
            for p in params + [p.arg for p in a.kwonlyargs]:
                if p not in vals:
                    vals[p] = self.const_of(defaults[p]) if p in defaults else ('sym', p)
            for k, v in vals.items():
                st = st.set(('l', depth, k), v)
            if isinstance(key, ast.Lambda):
                outs = self.ev(key.body, st)
            else:
                o = self.block(key.body, [st])
                outs = o.ret + [(s, NONE) for s in o.normal]
        finally:
            self.frames.pop()
            self.stack.pop()
            self.forget = forget
        gone = lambda k: k[0] == 'l' and k[1] >= depth
        return self._dd([(s.drop(gone), v) for s, v in outs])

    def const_of(self, node):
        if isinstance(node, ast.Constant):
            return ('c', node.value)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
            return ('c', -node.operand.value)
        return ('sym', ast.unparse(node))

    def site(self, node):
        fr = self.frames[-1] if self.frames else None
        return f'{fr.module.name if fr else ""}:{node.lineno}:{node.col_offset}'

    def call_value(self, st, fn, args, kwargs, node):
        """-> [(state, value)]"""
        r = self.client.call(self, st, node, fn, args, kwargs)
        if r is not None:
            return r
        h = fn[0]
        if h == 'fn':
            f = self.lookup_fn(fn)
            return self.inline(f, st, args, kwargs, node)
        if h == 'def':
            _, i, depth = fn
            d = self.nodes[i]
            parent = self.frames[depth] if depth < len(self.frames) else self.frames[-1]
            if isinstance(d, ast.Lambda):
                return self.inline(None, st, args, kwargs, node, parent=parent, lam=d)
            return self.inline(None, st, args, kwargs, node, parent=parent, lam=d)
        if h == 'partial':
            return self.call_value(st, fn[1], list(fn[2]) + list(args), {**dict(fn[3]), **kwargs}, node)
        if h == 'cls':
            return self.construct(st, fn[1], args, kwargs, node)
        if h == 'obj':
            m = self.prog.find_method(fn[1], '__call__')
            if m:
                return self.inline(m, st, [fn] + list(args), kwargs, node)
        if h == 'attr' and fn[1][0] == 'obj':
            m = self.prog.find_method(fn[1][1], fn[2])
            if m:
                pre = [] if m.static else [fn[1]]
                return self.inline(m, st, pre + list(args), kwargs, node)
        if h == 'attr' and fn[1][0] == 'cls':
            m = self.prog.find_method(fn[1][1], fn[2])
            if m:
                return self.inline(m, st, ([fn[1]] if m.classm else []) + list(args), kwargs, node)
        if h == 'attr' and fn[1][0] == 'm' and fn[1][1] in self.prog.modules:
            mod = self.prog.modules[fn[1][1]]
            if fn[2] in mod.funcs:
                return self.inline(mod.funcs[fn[2]], st, args, kwargs, node)
            if fn[2] in mod.classes:
                return self.construct(st, fn[2], args, kwargs, node)
        if h == 'b':
            return self.builtin(st, fn[1], args, kwargs, node)
        return self.unknown(st, fn, args, kwargs, node)

    def unknown(self, st, fn, args, kwargs, node):
        for v in list(args) + list(kwargs.values()) + ([fn[1]] if fn[0] == 'attr' else []):
            for o in self.objects(v):
                st = self.havoc(st, o, node)
        for t in self.client.unknown_raises(self, st, fn, args, node):
            self.raise_(st, t)
        v = ('call', self.site(node), fn) + tuple(args)
        if self.deep(v) > 12:
            v = ('call', self.site(node), ('sym', '...'))
        return [(age(st, v), v)]

    def objects(self, v):
        if isinstance(v, tuple):
            if v and v[0] == 'obj':
                yield v
            elif v and v[0] in ('tuple', 'star', 'partial', 'kw', 'list'):
                for x in v[1:]:
                    yield from self.objects(x)

    def havoc(self, st, o, node):
        g = ('gen', self.site(node))
        st = age(st, g)
        c = {k: v for k, v in st.c.items()
             if not (k[0] == 'h' and k[1] == o and k[2] in self.written and k[2] not in self.client.stable)}
        c[('gen', o)] = g
        return St(c, st.f)

    def deep(self, v):
        return 1 + max((self.deep(x) for x in v if isinstance(x, tuple)), default=0) if isinstance(v, tuple) else 0

    def lookup_fn(self, fn):
        m = self.prog.modules[fn[1]]
        if '.' in fn[2]:
            c, f = fn[2].split('.')
            return m.classes[c].methods[f]
        return m.funcs[fn[2]]

    def construct(self, st, cname, args, kwargs, node):
        o = ('obj', cname, self.site(node))
        st = st.drop(lambda k: k[0] in ('h', 'gen') and k[1] == o)
        m = self.prog.find_method(cname, '__init__')
        if m is None:
            return [(st, o)]
        return [(s, o) for s, _ in self.inline(m, st, [o] + list(args), kwargs, node)]

    def builtin(self, st, name, args, kwargs, node):
        if name in ('getattr',) and len(args) >= 2 and args[1][0] == 'c':
            return self.attr(st, args[0], args[1][1], node)
        if name == 'setattr' and len(args) == 3 and args[1][0] == 'c':
            return [(s, NONE) for s in self.set_attr(st, args[0], args[1][1], args[2], node)]
        if name == 'bool' and len(args) == 1:
            return [(s, ('c', b)) for s, b in self.truth(st, args[0])]
        if name in ('tuple', 'list') and len(args) == 1 and args[0][0] in ('tuple', 'list'):
            return [(st, (name,) + args[0][1:])]
        if name in ('list', 'tuple', 'iter') and len(args) == 1:
            return [(st, args[0])]
        if name == 'enumerate' and len(args) == 1 and not kwargs:
            return [(st, ('enum', args[0]))]
        if name == 'zip':
            return [(st, ('zip',) + tuple(args))]
        if name == 'reversed' and len(args) == 1:
            return [(st, ('rev', args[0]))]
        if name in PURE:
            if name == 'len' and args and args[0][0] in ('tuple', 'list'):
                return [(st, ('c', len(args[0]) - 1))]
            if name in ('int', 'float') and args and args[0][0] == 'c' and isinstance(args[0][1], (int, float)):
                return [(st, ('c', int(args[0][1]) if name == 'int' else float(args[0][1])))]
            return [(st, ('pure', name) + tuple(args) + tuple(sorted(kwargs.items())))]
        return self.unknown(st, ('b', name), args, kwargs, node)

    # ---- expressions ---------------------------------------------------------------------------
    def evs(self, nodes, st):
        """evaluate in order -> [(state, [values])]"""
        outs = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def name_cell(self, name):
        fr = self.frames[-1]
        if name in fr.globals:
            return ('g', fr.module.name, name)
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
        return ('l', f.depth, name)

    def read_name(self, st, name):
        fr = self.frames[-1]
        if name not in fr.globals:
            f = fr
            while f is not None:
                if ('l', f.depth, name) in st.c:
                    return st.c[('l', f.depth, name)]
                f = f.parent
        mod = fr.module
        if ('g', mod.name, name) in st.c:
            return st.c[('g', mod.name, name)]
        return self.global_value(mod, name, st)

    def global_value(self, mod, name, st=None, depth=0):
        if name in mod.funcs:
            return ('fn', mod.name, name)
        if name in mod.classes:
            return ('cls', name)
        if name in mod.consts:
            n = mod.consts[name]
            if isinstance(n, ast.Constant):
                return ('g', mod.name, name) if self.reassigned(mod, name) else ('c', n.value)
            if isinstance(n, ast.Name) and n.id != name and depth < 4:
                return self.global_value(mod, n.id, st, depth + 1)
            return ('g', mod.name, name)
        if name in mod.imports:
            m, orig = mod.imports[name]
            if orig is None:
                return ('m', m)
            if m in self.prog.modules and depth < 4:
                return self.global_value(self.prog.modules[m], orig, st, depth + 1)
            return ('attr', ('m', m), orig)
        for m, orig in mod.imports.values():
            if orig == '*' and m in self.prog.modules and depth < 4:
                v = self.global_value(self.prog.modules[m], name, st, depth + 1)
                if v[0] != 'b' and v != ('sym', name):
                    return v
        if hasattr(builtins, name):
            return ('b', name)
        return ('sym', name)

    def reassigned(self, mod, name):
        return any(isinstance(n, ast.Global) and name in n.names for n in ast.walk(mod.tree))

    def attr(self, st, v, name, node):
        r = self.client.getattr(self, st, v, name, node)
        if r is not None:
            return r
        if v[0] == 'obj':
            if ('h', v, name) in st.c:
                return [(st, st.c[('h', v, name)])]
            m = self.prog.find_method(v[1], name)
            if m is not None:
                if m.prop:
                    return self.inline(m, st, [v], {}, node)
                return [(st, ('attr', v, name))]
            if name in self.written and name not in self.client.stable:
                g = st.c.get(('gen', v))
                if g:
                    return [(st, ('attr', v, name, g))]
            return [(st, ('attr', v, name))]
        if v[0] == 'm':
            if ('m', v[1], name) in st.c:
                return [(st, st.c[('m', v[1], name)])]
            if v[1] in self.prog.modules:
                mod = self.prog.modules[v[1]]
                if ('g', mod.name, name) in st.c:
                    return [(st, st.c[('g', mod.name, name)])]
                return [(st, self.global_value(mod, name, st))]
            return [(st, ('attr', v, name))]
        if v[0] == 'cls':
            for c in self.prog.mro(v[1]):
                if name in c.methods:
                    break
                if ('h', v, name) in st.c:
                    return [(st, st.c[('h', v, name)])]
                if name in c.consts:
                    n = c.consts[name]
                    return [(st, self.const_of(n) if isinstance(n, ast.Constant) else ('attr', v, name))]
            return [(st, ('attr', v, name))]
        if ('h', v, name) in st.c:
            return [(st, st.c[('h', v, name)])]
        return [(st, ('attr', v, name))]

    def set_attr(self, st, v, name, val, node):
        r = self.client.setattr(self, st, v, name, val, node)
        if r is not None:
            return r
        if v[0] == 'm':
            if v[1] in self.prog.modules:
                return [st.set(('g', v[1], name), val)]
            return [st.set(('m', v[1], name), val)]
        return [st.set(('h', v, name), val)]

    def ev(self, n, st):
        self.steps += 1
        if self.steps > 400000 or self.steps % 256 == 0 and time.monotonic() > self.deadline:
            raise Undecided('step budget')
        if n is None:
            return [(st, NONE)]
        if isinstance(n, ast.Constant):
            return [(st, ('c', n.value))]
        if isinstance(n, ast.Name):
            return [(st, self.read_name(st, n.id))]
        if isinstance(n, ast.Attribute):
            return [x for s, v in self.ev(n.value, st) for x in self.attr(s, v, n.attr, n)]
        if isinstance(n, ast.Call):
            return self.ev_call(n, st)
        if isinstance(n, (ast.Tuple, ast.List)):
            tag = 'tuple' if isinstance(n, ast.Tuple) else 'list'
            out = []
            for s, vs in self.evs([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st):
                flat = []
                for e, v in zip(n.elts, vs):
                    if isinstance(e, ast.Starred):
                        flat += list(v[1:]) if v[0] in ('tuple', 'list') else [('star', v)]
                    else:
                        flat.append(v)
                out.append((s, (tag,) + tuple(flat)))
            return out
        if isinstance(n, ast.BinOp):
            return [(s, self.binop(type(n.op).__name__, a, b)) for s, (a, b) in self.evs([n.left, n.right], st)]
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                return [(s2, ('c', not b)) for s, v in self.ev(n.operand, st) for s2, b in self.truth(s, v)]
            return [(s, ('c', -v[1]) if isinstance(n.op, ast.USub) and v[0] == 'c' and isinstance(v[1], (int, float))
                     else ('un', type(n.op).__name__, v)) for s, v in self.ev(n.operand, st)]
        if isinstance(n, ast.BoolOp):
            outs, live = [], [(st, None)]
            for i, e in enumerate(n.values):
                nxt = []
                for s, _ in live:
                    for s1, v in self.ev(e, s):
                        if i == len(n.values) - 1:
                            outs.append((s1, v))
                            continue
                        for s2, b in self.truth(s1, v):
                            if b == isinstance(n.op, ast.Or):
                                outs.append((s2, v if v[0] != 'cmp' else ('c', b)))
                            else:
                                nxt.append((s2, None))
                live = nxt
            return self._dd(outs)
        if isinstance(n, ast.Compare):
            out = []
            for s, vs in self.evs([n.left] + n.comparators, st):
                t = [self.cmp(type(o).__name__, a, b) for o, a, b in zip(n.ops, vs, vs[1:])]
                if len(t) == 1:
                    out.append((s, t[0]))
                else:
                    out.append((s, ('and',) + tuple(t)))
            return out
        if isinstance(n, ast.IfExp):
            out = []
            for s, v in self.ev(n.test, st):
                for s2, b in self.truth(s, v):
                    out += self.ev(n.body if b else n.orelse, s2)
            return self._dd(out)
        if isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Slice):
                return [(s, ('slice', v, ast.unparse(n.slice))) for s, v in self.ev(n.value, st)]
            out = []
            for s, (v, i) in self.evs([n.value, n.slice], st):
                if v[0] in ('tuple', 'list') and i[0] == 'c' and isinstance(i[1], int) and -len(v) < i[1] < len(v) - 1:
                    out.append((s, v[1:][i[1]]))
                elif ('i', v, i) in s.c:
                    out.append((s, s.c[('i', v, i)]))
                else:
                    out.append((s, ('item', v, i)))
            return out
        if isinstance(n, ast.Lambda):
            self.nodes[id(n)] = n
            return [(st, ('def', id(n), self.frames[-1].depth))]
        if isinstance(n, ast.JoinedStr):
            outs = self.evs([v.value for v in n.values if isinstance(v, ast.FormattedValue)], st)
            return [(s, ('str', self.site(n)) + tuple(vs)) for s, vs in outs]
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(n, st)
        if isinstance(n, ast.Dict):
            outs = self.evs([x for x in n.keys if x is not None] + n.values, st)
            return [(s, ('dict', self.site(n)) + tuple(vs)) for s, vs in outs]
        if isinstance(n, ast.Set):
            return [(s, ('set',) + tuple(vs)) for s, vs in self.evs(n.elts, st)]
        if isinstance(n, ast.NamedExpr):
            return [(s.set(self.name_cell(n.target.id), v), v) for s, v in self.ev(n.value, st)]
        if isinstance(n, ast.Starred):
            return [(s, ('star', v)) for s, v in self.ev(n.value, st)]
        if isinstance(n, ast.Yield):
            return self.ev_yield(n, st)
        if isinstance(n, ast.Await):
            raise Undecided('await')
        raise Undecided(f'expression {type(n).__name__}')

    def ev_yield(self, n, st):
        fr = self.frames[-1]
        if fr.yield_body is None:
            raise Undecided('generator')
        outs = []
        for s, v in self.ev(n.value, st):
            outs += fr.yield_body(s, v)
        return [(s, NONE) for s in outs]

    def comp(self, n, st):
        # the body runs zero or more times; only its effects matter here
        before = st
        for g in n.generators:
            r = self.ev(g.iter, st)
            st = r[0][0]
            if len(r) > 1:
                raise Undecided('comprehension over a forking iterable')
            it = r[0][1]
            self.client.iterate(self, st, it, n)
            e = self.elem(it, self.site(n))
            for s in self.assign(g.target, e, st):
                st = s
        elts = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
        vals = []
        outs = []
        for s, vs in self.evs(elts, st):
            outs.append(s)
            vals.append(tuple(vs))
        v = ('comp', self.site(n)) + tuple(vals[:1])
        return [(s, v) for s in dedupe(outs + [before])]

    def binop(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            try:
                x, y = a[1], b[1]
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Mod': lambda: x % y}[op]()
                if len(repr(r)) < 60:
                    return ('c', r)
            except Exception:
                pass
        return ('op', op, a, b)

    NONNULL = ('obj', 'tuple', 'list', 'copy', 'fn', 'cls', 'm', 'def', 'file', 'orig', 'op', 'str', 'pure', 'comp',
               'dict', 'set', 'partial')

    def cmp(self, op, a, b):
        if op in ('Eq', 'Is', 'NotEq', 'IsNot'):
            neg = op in ('NotEq', 'IsNot')
            if a[0] == 'c' and b[0] == 'c':
                return ('c', (a[1] == b[1]) != neg)
            if a == b and a[0] in ('obj', 'm', 'orig', 'cls', 'fn', 'phi', 'attr', 'sym'):
                return ('c', not neg)
            for x, y in ((a, b), (b, a)):
                if x == NONE and y[0] in self.NONNULL:
                    return ('c', neg)
            a, b = sorted((a, b), key=repr)
            t = ('cmp', 'Eq', a, b)
            return ('not', t) if neg else t
        if a[0] == 'c' and b[0] == 'c':
            try:
                x, y = a[1], b[1]
                return ('c', {'Lt': lambda: x < y, 'Gt': lambda: x > y, 'LtE': lambda: x <= y, 'GtE': lambda: x >= y,
                              'In': lambda: x in y, 'NotIn': lambda: x not in y}[op]())
            except Exception:
                pass
        if op == 'NotIn':
            return ('not', ('cmp', 'In', a, b))
        if op == 'Gt':
            return ('cmp', 'Lt', b, a)
        if op == 'GtE':
            return ('not', ('cmp', 'Lt', a, b))
        if op == 'LtE':
            return ('not', ('cmp', 'Lt', b, a))
        return ('cmp', op, a, b)

    def truth(self, st, v):
        """-> [(state, bool)]"""
        r = self.client.truth(self, st, v)
        if r is not None:
            return [(st, r)]
        if v[0] == 'c':
            return [(st, bool(v[1]))]
        if v[0] == 'not':
            return [(s, not b) for s, b in self.truth(st, v[1])]
        if v[0] == 'and':
            outs, live = [], [st]
            for t in v[1:]:
                nxt = []
                for s in live:
                    for s2, b in self.truth(s, t):
                        if b:
                            nxt.append(s2)
                        else:
                            outs.append((s2, False))
                live = nxt
            return outs + [(s, True) for s in live]
        if v[0] in ('obj', 'm', 'fn', 'cls', 'copy', 'def', 'file', 'orig'):
            return [(st, True)]
        if v[0] in ('tuple', 'list'):
            return [(st, len(v) > 1)]
        if v in st.f:
            return [(st, st.f[v])]
        if self.forget and not self.client.keeps(v):
            return [(st, True), (st, False)]
        return [(st.fact(v, True), True), (st.fact(v, False), False)]

    def test(self, st, n):
        """evaluate a condition; what was assumed is remembered only when the same test can come again"""
        if n is None:
            return [(st, True)]
        names = self.recurring()
        old = self.forget
        atoms = list(self.atoms(n))
        self.forget = not any(names.get(ast.dump(x), 0) > 1 for x in atoms)
        try:
            return [(s2, b) for s, v in self.ev(n, st) for s2, b in self.truth(s, v)]
        finally:
            self.forget = old

    forget = False

    def recurring(self):
        fn = self.stack[-1]
        if fn not in self.repeated:
            c = {}
            tests = []
            for n in ast.walk(fn):
                if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                    tests.append(n.test)
                elif isinstance(n, ast.Assign):
                    tests.append(n.value)
            for t in tests:
                for x in {ast.dump(y) for y in self.atoms(t)}:
                    c[x] = c.get(x, 0) + 1
            self.repeated[fn] = c
        return self.repeated[fn]

    def atoms(self, t):
        """the elementary conditions of a test"""
        if isinstance(t, ast.BoolOp):
            for v in t.values:
                yield from self.atoms(v)
        elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            yield from self.atoms(t.operand)
        else:
            yield t

    def ev_call(self, n, st):
        # super()
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) \
                and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
            fr = self.frames[-1]
            me = st.c.get(('l', fr.depth, 'self'))
            m = self.prog.find_super(me[1], fr.cls.name, n.func.attr) if me and me[0] == 'obj' and fr.cls else None
            out = []
            for s, vs in self.evs(n.args, st):
                if m:
                    out += self.inline(m, s, [me] + vs, {}, n)
                else:
                    out.append((s, NONE))
            return out
        out = []
        for s, f in self.ev(n.func, st):
            for s2, vs in self.evs([a.value if isinstance(a, ast.Starred) else a for a in n.args], s):
                args = []
                for a, v in zip(n.args, vs):
                    if isinstance(a, ast.Starred):
                        args += list(v[1:]) if v[0] in ('tuple', 'list') else [('star', v)]
                    else:
                        args.append(v)
                for s3, kvs in self.evs([k.value for k in n.keywords], s2):
                    kw = {}
                    for k, v in zip(n.keywords, kvs):
                        if k.arg is None:
                            if v[0] == 'kw':
                                kw.update(dict(v[1:]))
                            else:
                                kw['**'] = v
                        else:
                            kw[k.arg] = v
                    if f == ('attr', ('m', 'functools'), 'partial') and args:
                        out.append((s3, ('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))))
                        continue
                    out += self.call_value(s3, f, args, kw, n)
        return self._dd(out)

    # ---- statements ----------------------------------------------------------------------------
    def block(self, stmts, states):
        o = Out(states)
        for s in stmts:
            cur = dedupe(o.normal)
            if not cur:
                break
            o.normal = []
            for st in cur:
                r = self.stmt(s, st)
                o.normal += [self.prune(s, x) for x in r.normal]
                o.brk += r.brk
                o.cont += r.cont
                o.ret += r.ret
        o.normal = dedupe(o.normal)
        o.brk, o.cont = dedupe(o.brk), dedupe(o.cont)
        o.ret = self._dd(o.ret)
        return o

    def prune(self, n, st):
        """forget locals nothing reads any more, and unreachable objects"""
        fn = self.stack[-1]
        if isinstance(fn, ast.Lambda):
            return st
        if fn not in self.live:
            self.live[fn] = liveness(fn)
        after, always = self.live[fn]
        alive = after.get(id(n))
        if alive is None:
            return st
        d = self.frames[-1].depth
        dead = [k for k in st.c if k[0] == 'l' and k[1] == d and k[2] not in alive and k[2] not in always
                and k[2] not in ('@exc', 'self')]
        if not dead:
            return st
        c = {k: v for k, v in st.c.items() if k not in dead}
        objs = {k[1] for k in c if k[0] in ('h', 'gen') and k[1][0] == 'obj' and ':' in str(k[1][2])}
        for o in objs:
            if not any(mentions(v, o) for k, v in c.items()):
                c = {k: v for k, v in c.items() if not (k[0] in ('h', 'gen') and k[1] == o)}
        return St(c, st.f)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            return [st.set(self.name_cell(t.id), v)]
        if isinstance(t, ast.Attribute):
            return [s2 for s, b in self.ev(t.value, st) for s2 in self.set_attr(s, b, t.attr, v, t)]
        if isinstance(t, (ast.Tuple, ast.List)):
            states = [st]
            for i, e in enumerate(t.elts):
                x = v[1:][i] if v[0] in ('tuple', 'list') and len(v) - 1 == len(t.elts) else ('item', v, ('c', i))
                if isinstance(e, ast.Starred):
                    e, x = e.value, ('rest', v, ('c', i))
                states = [s2 for s in states for s2 in self.assign(e, x, s)]
            return states
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                return [s for s, _ in self.ev(t.value, st)]
            for s, (b, i) in self.evs([t.value, t.slice], st):
                r = self.client.setitem(self, s, b, i, v, t)
                if r is not None:
                    out += r
                    continue
                s = s.drop(lambda k: k[0] == 'i' and k[1] == b)
                out.append(s.set(('i', b, i), v) if self.atomic(v) else s)
            return out
        raise Undecided(f'assignment to {type(t).__name__}')

    def stmt(self, n, st):
        if isinstance(n, ast.Expr):
            return Out([s for s, _ in self.ev(n.value, st)])
        if isinstance(n, ast.Assign):
            states = []
            for s, v in self.ev(n.value, st):
                cur = [s]
                for t in n.targets:
                    cur = [s3 for s2 in cur for s3 in self.assign(t, v, s2)]
                states += cur
            return Out(states)
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return Out([st])
            return Out([s2 for s, v in self.ev(n.value, st) for s2 in self.assign(n.target, v, s)])
        if isinstance(n, ast.AugAssign):
            load = ast.copy_location(type(n.target)(**{**{f: getattr(n.target, f) for f in n.target._fields},
                                                       'ctx': ast.Load()}), n.target)
            return Out([s2 for s, (a, b) in self.evs([load, n.value], st)
                        for s2 in self.assign(n.target, self.binop(type(n.op).__name__, a, b), s)])
        if isinstance(n, ast.If):
            o = Out()
            for s2, b in self.test(st, n.test):
                r = self.block(n.body if b else n.orelse, [s2])
                o.normal += r.normal
                o.brk += r.brk
                o.cont += r.cont
                o.ret += r.ret
            return o
        if isinstance(n, ast.Return):
            o = Out()
            o.ret = self.ev(n.value, st)
            return o
        if isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom)):
            if not isinstance(n, ast.Pass):
                st = self.local_import(n, st)
            return Out([st])
        if isinstance(n, ast.Global):
            self.frames[-1].globals.update(n.names)
            return Out([st])
        if isinstance(n, ast.Nonlocal):
            self.frames[-1].nonlocals.update(n.names)
            return Out([st])
        if isinstance(n, ast.FunctionDef):
            self.nodes[id(n)] = n
            return Out([st.set(self.name_cell(n.name), ('def', id(n), self.frames[-1].depth))])
        if isinstance(n, ast.Break):
            o = Out()
            o.brk = [st]
            return o
        if isinstance(n, ast.Continue):
            o = Out()
            o.cont = [st]
            return o
        if isinstance(n, ast.Raise):
            return self.st_raise(n, st)
        if isinstance(n, ast.Try):
            return self.st_try(n, st)
        if isinstance(n, ast.While):
            return self.st_while(n, st)
        if isinstance(n, ast.For):
            return self.st_for(n, st)
        if isinstance(n, ast.With):
            return self.st_with(n.items, n.body, st, n)
        if isinstance(n, ast.Assert):
            o = Out()
            for s, v in self.ev(n.test, st):
                for s2, b in self.truth(s, v):
                    if b:
                        o.normal.append(s2)
                    else:
                        self.raise_(s2, 'AssertionError')
            return o
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    k = self.name_cell(t.id)
                    st = st.drop(lambda x: x == k)
            return Out([st])
        raise Undecided(f'statement {type(n).__name__}')

    def local_import(self, n, st):
        table = {}
        from .model import Module
        Module.add_import(n, table)
        for name, (m, orig) in table.items():
            if orig is None:
                v = ('m', m)
            elif m in self.prog.modules:
                v = self.global_value(self.prog.modules[m], orig, st)
            else:
                v = ('attr', ('m', m), orig)
            st = st.set(self.name_cell(name), v)
        return st

    def exc_tag(self, v):
        if v[0] == 'obj' or v[0] == 'cls':
            return v[1]
        if v[0] == 'exc':
            return v[1]
        if v[0] == 'b':
            return v[1]
        if v[0] == 'call' and v[2][0] == 'b':
            return v[2][1]
        return 'Exception'

    def st_raise(self, n, st):
        if n.exc is None:
            self.raise_(st, st.c.get(('l', self.frames[-1].depth, '@exc'), ('exc', 'Exception'))[1])
            return Out()
        if isinstance(n.exc, ast.Call) and isinstance(n.exc.func, ast.Name) \
                and self.read_name(st, n.exc.func.id)[0] == 'b':
            for s, _ in self.evs(n.exc.args, st):
                self.raise_(s, n.exc.func.id)
            return Out()
        for s, v in self.ev(n.exc, st):
            self.raise_(s, self.exc_tag(v))
        return Out()

    def is_sub(self, tag, base):
        """True / False / None (maybe)"""
        if base in ('BaseException',):
            return True
        if tag == base:
            return True
        if tag in self.prog.classes:
            names = [c.name for c in self.prog.mro(tag)] + [b for c in self.prog.mro(tag) for b in c.bases]
            if base in names:
                return True
            return any(hasattr(builtins, x) and isinstance(getattr(builtins, base, None), type)
                       and issubclass(getattr(builtins, x), getattr(builtins, base)) for x in names
                       if isinstance(getattr(builtins, x, None), type)) if hasattr(builtins, base) else False
        a, b = getattr(builtins, tag, None), getattr(builtins, base, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        return False

    def matches(self, h, tag, st):
        if h.type is None:
            return True
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for e in elts:
            v = self.ev(e, st)[0][1]
            name = v[1] if v[0] in ('cls', 'b') else (v[2] if v[0] == 'attr' else None)
            if name and self.is_sub(tag, name):
                return True
        return False

    def st_try(self, n, st):
        self.sinks.append([])
        o = self.block(n.body, [st])
        raised = self._dd(self.sinks.pop())
        out = Out()
        pend = []
        self.sinks.append([])
        if n.orelse and o.normal:
            r = self.block(n.orelse, o.normal)
            o.normal = r.normal
            o.brk += r.brk
            o.cont += r.cont
            o.ret += r.ret
        for s, tag in raised:
            for h in n.handlers:
                if self.matches(h, tag, s):
                    d = self.frames[-1].depth
                    s2 = s.set(('l', d, '@exc'), ('exc', tag))
                    if h.name:
                        s2 = s2.set(('l', d, h.name), ('exc', tag))
                    r = self.block(h.body, [s2])
                    o.normal += r.normal
                    o.brk += r.brk
                    o.cont += r.cont
                    o.ret += r.ret
                    break
            else:
                pend.append((s, tag))
        pend += self.sinks.pop()
        if not n.finalbody:
            self.sinks[-1].extend(self._dd(pend))
            out.normal, out.brk, out.cont, out.ret = o.normal, o.brk, o.cont, o.ret
            return out
        for kind in ('normal', 'brk', 'cont'):
            for s in dedupe(getattr(o, kind)):
                r = self.block(n.finalbody, [s])
                getattr(out, kind).extend(r.normal)
                out.brk += r.brk
                out.cont += r.cont
                out.ret += r.ret
        for s, v in self._dd(o.ret):
            r = self.block(n.finalbody, [s])
            out.ret += [(x, v) for x in r.normal] + r.ret
            out.brk += r.brk
            out.cont += r.cont
        for s, tag in self._dd(pend):
            r = self.block(n.finalbody, [s])
            self.sinks[-1].extend((x, tag) for x in r.normal)
            out.ret += r.ret
            out.brk += r.brk
            out.cont += r.cont
        return out

    # ---- loops ---------------------------------------------------------------------------------
    def atomic(self, v):
        if v is None:
            return True
        if v[0] == 'c':
            return isinstance(v[1], (bool, str, type(None)))
        return v[0] in ('orig', 'm', 'fn', 'cls', 'obj', 'file', 'tag') or v[0] in self.client.atomic \
            or self.client.is_atomic(v)

    def loop(self, n, entry, once, site):
        """once(states) -> (back-edge states, Out leaving the loop); -> Out"""
        widened = set()
        self.client.loop_entry(self, site, entry)
        for _ in range(60):
            out = Out()
            seen = {}
            phi = lambda k: ('phi', site, k)

            def head(s):
                c = {k: (phi(k) if k in widened and k in s.c else v) for k, v in s.c.items()}
                f = {t: b for t, b in s.f.items() if not mentions(t, site) and not any(
                    mentions(t, phi(k)) for k in widened)}
                return St(c, f)
            work = dedupe([head(s) for s in entry])
            grew = False
            mark = [len(x) for x in self.sinks]
            evmark = self.client.mark()
            while work and not grew:
                s = work.pop()
                if s.key() in seen:
                    continue
                seen[s.key()] = s
                if len(seen) > MAX_STATES:
                    raise Undecided('loop does not close')
                back, leave = once(s)
                out.normal += leave.normal
                out.ret += leave.ret
                for b in back:
                    for k, v in b.c.items():
                        if k in widened or k not in s.c or s.c[k] == v:
                            continue
                        if not (self.atomic(s.c[k]) and self.atomic(v)):
                            widened.add(k)
                            grew = True
                    self.client.backedge(self, site, s, b)
                    work.append(head(b))
            if not grew:
                out.normal = dedupe(out.normal)
                out.ret = self._dd(out.ret)
                return out
            # what was seen with the narrower state is discarded
            for x, m in zip(self.sinks, mark):
                del x[m:]
            self.client.reset(evmark)
        raise Undecided('loop does not close')

    def st_while(self, n, st):
        site = self.site(n)

        def once(s0):
            back, leave = [], Out()
            for s2, b in self.test(s0, n.test):
                if not b:
                    r = self.block(n.orelse, [s2]) if n.orelse else Out([s2])
                    leave.normal += r.normal
                    leave.ret += r.ret
                    continue
                r = self.block(n.body, [s2])
                back += r.normal + r.cont
                leave.normal += r.brk
                leave.ret += r.ret
            return dedupe(back), leave
        return self.loop(n, [st], once, site)

    def elem(self, it, site):
        i = ('idx', site)
        if it[0] == 'enum':
            return ('tuple', i, self.elem(it[1], site))
        if it[0] == 'zip':
            return ('tuple',) + tuple(self.elem(x, site) for x in it[1:])
        if it[0] == 'pure' and it[1] == 'range' and len(it) == 3:
            return i
        if it[0] == 'rev':
            return self.elem(it[1], ('rev', site))
        return ('item', it, i)

    def st_for(self, n, st):
        site = self.site(n)
        res = Out()
        for s0, it in self.ev(n.iter, st):
            if it[0] in ('tuple', 'list') and len(it) <= 9:
                cur, leave = [s0], Out()
                for e in it[1:]:
                    nxt = []
                    for s in cur:
                        for s2 in self.assign(n.target, e, s):
                            r = self.block(n.body, [s2])
                            nxt += r.normal + r.cont
                            leave.normal += r.brk
                            leave.ret += r.ret
                    cur = dedupe(nxt)
                r = self.block(n.orelse, cur) if n.orelse else Out(cur)
                res.normal += r.normal + leave.normal
                res.ret += r.ret + leave.ret
                continue

            def once(s):
                back, leave = [], Out()
                r = self.block(n.orelse, [s]) if n.orelse else Out([s])
                leave.normal += r.normal
                leave.ret += r.ret
                s = age(s, ('idx', site))
                for s2 in self.assign(n.target, self.elem(it, site), s):
                    r = self.block(n.body, [s2])
                    back += r.normal + r.cont
                    leave.normal += r.brk
                    leave.ret += r.ret
                return dedupe(back), leave
            r = self.loop(n, [s0], once, site)
            res.normal += r.normal
            res.ret += r.ret
        return res

    # ---- with ----------------------------------------------------------------------------------
    def st_with(self, items, body, st, node):
        if not items:
            return self.block(body, [st])
        it, rest = items[0], items[1:]
        fr = self.frames[-1]
        ce = it.context_expr
        # generator based context managers of the program: the body runs at the yield
        if isinstance(ce, ast.Call):
            for s, f in self.ev(ce.func, st):
                func = None
                pre = []
                if f[0] == 'fn':
                    func = self.lookup_fn(f)
                elif f[0] == 'attr' and f[1][0] == 'obj':
                    func = self.prog.find_method(f[1][1], f[2])
                    pre = [] if func is None or func.static else [f[1]]
                if func is not None and any(d.split('.')[-1] == 'contextmanager' for d in func.decs):
                    out = Out()
                    for s2, vs in self.evs(ce.args, s):
                        leave = Out()

                        def run_body(s3, v, leave=leave):
                            saved = self.frames
                            self.frames = self.frames[:fr.depth + 1]
                            try:
                                # cells of the manager's frame must survive the body
                                d = len(saved)
                                self.frames = saved[:fr.depth + 1] + []
                                keep = saved
                                hidden = {k: x for k, x in s3.c.items() if k[0] == 'l' and k[1] > fr.depth}
                                s4 = s3.drop(lambda k: k in hidden)
                                ss = self.assign(it.optional_vars, v, s4) if it.optional_vars else [s4]
                                self.sinks.append([])
                                r = Out()
                                for x in ss:
                                    q = self.st_with(rest, body, x, node)
                                    r.normal += q.normal
                                    r.brk += q.brk
                                    r.cont += q.cont
                                    r.ret += q.ret
                                back = lambda x: St({**x.c, **hidden}, x.f)
                                for x, tag in self.sinks.pop():
                                    self.sinks[-1].append((back(x), tag))
                                # jumps out of the body: the manager sees a normal end
                                for x in r.brk:
                                    leave.brk.append(x)
                                for x in r.cont:
                                    leave.cont.append(x)
                                res = [back(x) for x in r.normal]
                                for x, v2 in r.ret:
                                    y = back(x).set(('w', '@ret'), ('tag', v2))
                                    res.append(y)
                                if r.brk or r.cont:
                                    raise Undecided('jump out of a with body')
                                return res
                            finally:
                                self.frames = saved
                        for s5, _ in self.inline(func, s2, pre + vs, {}, ce, yield_body=run_body):
                            if ('w', '@ret') in s5.c:
                                v2 = s5.c[('w', '@ret')][1]
                                out.ret.append((s5.drop(lambda k: k == ('w', '@ret')), v2))
                            else:
                                out.normal.append(s5)
                    return out
        out = Out()
        for s, v in self.ev(ce, st):
            r = self.client.enter(self, s, v, node)
            exit_m = None
            if r is None and v[0] == 'obj':
                m = self.prog.find_method(v[1], '__enter__')
                exit_m = self.prog.find_method(v[1], '__exit__')
                r = self.inline(m, s, [v], {}, ce) if m else [(s, v)]
            elif r is None:
                r = [(s, ('call', 'enter', v))]
            for s2, val in r:
                ss = self.assign(it.optional_vars, val, s2) if it.optional_vars else [s2]
                for s3 in ss:
                    self.sinks.append([])
                    q = self.st_with(rest, body, s3, node)
                    raised = self._dd(self.sinks.pop())

                    def leave(x, exc):
                        z = self.client.exit(self, x, v, node)
                        if z is not None:
                            return [(y, False) for y in z]
                        if exit_m:
                            a = [('exc', exc)] * 3 if exc else [NONE] * 3
                            res = []
                            for y, rv in self.inline(exit_m, x, [v] + a, {}, ce):
                                res += self.truth(y, rv) if exc else [(y, False)]
                            return res
                        return [(x, False)]
                    for kind in ('normal', 'brk', 'cont'):
                        for x in getattr(q, kind):
                            getattr(out, kind).extend(y for y, _ in leave(x, None))
                    for x, rv in q.ret:
                        out.ret += [(y, rv) for y, _ in leave(x, None)]
                    for x, tag in raised:
                        for y, swallowed in leave(x, tag):
                            if swallowed:
                                out.normal.append(y)
                            else:
                                self.sinks[-1].append((y, tag))
        return out


class Client:
    """default meaning of everything"""
    stable = frozenset()
    atomic = frozenset()

    def __init__(self):
        self.events = []

    def is_atomic(self, v):
        return False

    def mark(self):
        return len(self.events)

    def reset(self, m):
        del self.events[m:]

    def call(self, fl, st, node, fn, args, kwargs):
        return None

    def unknown_raises(self, fl, st, fn, args, node):
        return ()

    def recursive(self, fl, st, func, args, kwargs, node):
        raise Undecided(f'recursion through {func.qual if func else "a local function"}')

    def getattr(self, fl, st, v, name, node):
        return None

    def setattr(self, fl, st, v, name, val, node):
        return None

    def setitem(self, fl, st, b, i, v, node):
        return None

    def truth(self, fl, st, v):
        return None

    def keeps(self, v):
        return False

    def backedge(self, fl, site, s, b):
        pass

    def loop_entry(self, fl, site, states):
        pass

    def iterate(self, fl, st, v, node):
        pass

    def enter(self, fl, st, v, node):
        return None

    def exit(self, fl, st, v, node):
        return None
